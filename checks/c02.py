from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C02'


@st.composite
def questions(draw):
    s = draw(gen.moving_state())
    dice = ref.dice_of(s['rolled'])
    # any sub-pool of the roll may be what is left
    mask = draw(st.lists(st.booleans(), min_size=len(dice), max_size=len(dice)))
    left = [d for d, m in zip(dice, mask) if m] if draw(st.booleans()) else list(dice)
    return (s, sorted(left), draw(st.booleans()))


def suggest(ctx, case):
    state, left, explicit = case
    me, opp = ref.sides(state['position'], state['on_action'])
    by = {d: ref.steps(me, opp, d) for d in set(left)}
    if not any(by.values()):
        ctx.trivial()
    res = ctx.ok('ops_model', 'suggest_all', state, left, explicit)
    for kind, a, (tag, val), pool_ok, mine_ok, board_ok, n in res:
        where = 'step %s %d with dice %r' % ('from' if kind == 'src' else 'into', a, left)
        want = None
        for d in sorted(by, reverse=True):
            c = [x for x in by[d] if x[1 if kind == 'src' else 2] == a]
            if c:
                want = c
                break
        ctx.check(tag in ('no', 'pm'), '%s: %s %r' % (where, tag, val))
        if want is None:
            ctx.check(tag == 'no', '%s: suggested %r, but the rules allow none' % (where, val))
        else:
            ctx.check(tag == 'pm', '%s: refused (%r), but %r is legal' % (where, val, want))
            if tag == 'pm':
                ctx.check(tuple(val) in want, '%s: suggested %r, expected %s' % (where, val, want))
                ctx.label(kind, *(['off'] if val[2] < 0 else []) + (['hit'] if val[3] else []) +
                          (['bar'] if val[1] == 24 else []) +
                          (['overshoot'] if val[2] < 0 and val[0] > val[1] + 1 else []))
        ctx.check(board_ok, '%s: the board changed' % where)
        ctx.check(pool_ok and mine_ok, '%s: the dice changed' % where)
        ctx.check(n == 0, '%s: a step was recorded' % where)


PARTS = [Part('suggest', questions(), suggest, 1600, 12000, rule='some die of the pool has a legal step')]
