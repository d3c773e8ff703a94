from hypothesis import strategies as st
from vf import Part
import ref, gen, hist

PROPERTY = 'C04'


@st.composite
def turns(draw):
    # mostly few chequers and blocked positions: that is where not every die can be played
    prof = draw(st.sampled_from((None, ['few', 'blocked'], ['few'], ['blocked', 'bar'], ['bearoff', 'nearoff'], ['straggler'])))
    return (draw(gen.moving_state(prof)), draw(st.lists(st.integers(0, 60), max_size=4)))


def end(ctx, case):
    state, picks = case
    m = hist.Model(state)
    me, opp = m.sides()
    for p in picks:
        o = m.options()
        if o:
            m.do(o[p % len(o)])
    best = ref.max_dice(me, opp, ref.dice_of(state['rolled']))
    want = []
    for i in range(len(m.played) + 1):
        pl = m.played[:i]
        ok = len(pl) == best
        if ok and best == 1 and len(ref.dice_of(state['rolled'])) == 2:
            big = max(state['rolled'])
            if ref.steps(me, opp, big) and pl[0][0] != big:
                ok = False
                ctx.label('larger die rule')
        want.append(ok)
    left = len(ref.dice_of(state['rolled'])) - best
    ctx.label('all dice' if not left else 'dance' if best == 0 else 'partly')
    if not left and not m.played:
        ctx.trivial()
    got, ended = ctx.ok('ops_model', 'pickup', state, m.played, want[-1])
    for i, ((r, same), w) in enumerate(zip(got, want)):
        where = 'roll %r, after %r' % (state['rolled'], m.played[:i])
        if w is False and i == len(m.played) and len(m.played) == i and not isinstance(r, list):
            pass
        ctx.check(not isinstance(r, list), '%s: asking whether the turn may end raised %r' % (where, r))
        ctx.check(r == w, '%s: turn may %sbe ended according to the library' % (where, '' if r else 'not '))
        ctx.check(same, '%s: asking whether the turn may end changed the board, the steps or the dice' % where)
    if want[-1]:
        err, b = ended
        ctx.check(err is None, 'ending the turn raised %r' % (err,))
        s = dict(m.s)
        s.update(on_action=1 - s['on_action'], on_inner_action=1 - s['on_inner_action'], rolled=(0, 0))
        for k in ref.FIELDS:
            ctx.eq(b[k], s[k], 'after ending the turn, %s' % k)


PARTS = [Part('end', turns(), end, 1500, 12000, rule='not every die is playable, or a step has been played')]
