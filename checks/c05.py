from hypothesis import strategies as st
from vf import Part, Violation
import ref, hist, gen

PROPERTY = 'C05'


def account(ctx, case):
    state, mode, tokens = case
    case = (state, 'factory', tokens)
    cmds, want = hist.concretise(case)
    if not any(c[0] in ('append', 'add') for c in cmds):
        ctx.trivial()
        return
    got = ctx.ok('ops_model', 'play_history', state, cmds)
    for i, ((err, b, played, pool), (s, wp, wpool)) in enumerate(zip(got, want)):
        where = 'after command %d %r' % (i, cmds[i])
        ctx.check(err is None, '%s: %s' % (where, err))
        if wp is None:
            continue
        ctx.label(cmds[i][0])
        dice = sorted(ref.dice_of(s['rolled']))
        ctx.check(sorted([p[0] for p in played] + pool) == dice,
                  '%s: steps %r and dice left %r do not account for the roll %r' % (where, played, pool, s['rolled']))
        ctx.check([tuple(p) for p in played] == wp, '%s: steps recorded %r, expected %r' % (where, played, wp))
        ctx.check(sorted(pool) == wpool, '%s: dice left %r, expected %r' % (where, pool, wpool))


@st.composite
def values(draw):
    rolled = draw(gen.dice)
    steps = draw(st.lists(st.tuples(st.integers(1, 6), st.integers(0, 24), st.booleans(), st.booleans()), max_size=8))
    ops = draw(st.lists(st.tuples(st.sampled_from(('consume', 'add', 'copy', 'switch')), st.integers(1, 6)), max_size=12))
    return (rolled, steps, ops)


def independent(ctx, case):
    """Dice pools and moves as values: a pair of copies, each edited on its own, against plain multisets and lists."""
    rolled, steps, ops = case
    if not ops and not steps:
        ctx.trivial()
    r = ctx.ok('ops_model', 'pool_ops', rolled, ops)
    pools = [sorted(ref.dice_of(rolled))] * 2
    cur = 0
    for (op, d), (err, a, b, facts) in zip(ops, r):
        if op == 'consume':
            if d in pools[cur]:
                pools[cur] = sorted(ref.remove(pools[cur], d))
                ctx.check(err is None, 'consuming an available %d raised %s' % (d, err))
            else:
                ctx.label('unavailable')
                ctx.check(err is not None, 'a die %d that is not available was played: %r' % (d, pools[cur]))
        elif op == 'add':
            pools[cur] = sorted(list(pools[cur]) + [d])
            ctx.check(err is None, err)
        elif op == 'copy':
            pools[1 - cur] = pools[cur]
        else:
            cur = 1 - cur
        ctx.check([a, b] == [list(p) for p in pools], 'after %s %d: pools %r, expected %r' % (op, d, [a, b], pools))
        for p, f in zip(pools, facts):
            n, mx, dbl, has, items = f
            ctx.eq(n, len(p), 'number of dice of %r' % (p,))
            ctx.eq(mx, max(p) if p else None, 'largest die of %r' % (p,))
            ctx.eq(dbl, any(p.count(x) > 1 for x in p), 'doubles? %r' % (p,))
            ctx.eq(has, [x in p for x in range(1, 7)], 'contains %r' % (p,))
            ctx.eq(sorted(tuple(x) for x in items), [(x, p.count(x)) for x in range(1, 7)], 'items of %r' % (p,))
    # a list of steps: recording a step and its inverse cancels
    st_ = [(d, s, max(-1, s - d), h, u) for d, s, h, u in steps]
    r = ctx.ok('ops_model', 'move_ops', [(d, s, t, h) for d, s, t, h, u in st_], [u for d, s, t, h, u in st_])
    model = []
    for (d, s, t, h, u), got in zip(st_, r):
        x, y = (d, s, t, h), (d, t, s, h)
        if u:
            x, y = y, x
        if y in model:
            i = len(model) - 1 - model[::-1].index(y)
            del model[i]
            ctx.label('cancel')
        else:
            model.append(x)
        now, ln, frozen, txt = got
        ctx.eq([tuple(z) for z in now], model, 'steps after recording %r' % (x,))
        ctx.eq(ln, len(model), 'length')
        ctx.check(frozen, 'a copy made earlier changed')


@st.composite
def foreign(draw):
    """A step with a die that may not be available, on a factory in the middle of a turn."""
    return (draw(gen.moving_state()), draw(st.lists(st.integers(0, 60), max_size=4)), draw(st.integers(1, 6)),
            draw(st.integers(0, 40)), draw(st.booleans()))


def unavailable(ctx, case):
    state, picks, d, k, again = case
    m = hist.Model(state)
    for p in picks:
        o = m.options()
        if o:
            m.do(o[p % len(o)])
    me, opp = m.sides()
    o = ref.steps(me, opp, d)
    if not o:
        ctx.trivial()
        return
    x = o[k % len(o)]
    before, after, err, other = ctx.ok('ops_model', 'play_unavailable', state, m.played, x)
    if d in m.pool:
        ctx.label('available')
        ctx.check(err is None, 'playing %r raised %s' % (x, err))
        m.do(x)
    else:
        ctx.label('unavailable')
        ctx.check(err is not None, 'a step with the unavailable die %d was played: %r left' % (d, m.pool))
    s, played, pool = after
    dice = sorted(ref.dice_of(state['rolled']))
    ctx.eq([tuple(p) for p in played], m.played, 'steps recorded after an attempt to play %r' % (x,))
    ctx.eq(sorted(pool), sorted(m.pool), 'dice left after an attempt to play %r' % (x,))
    ctx.eq(s['position'], m.s['position'], 'position after an attempt to play %r' % (x,))
    # a factory made from the board, the steps and the dice of another is an independent equal one
    ctx.eq([[tuple(p) for p in other[0]], sorted(other[1])], [m.played, sorted(m.pool)], 'factory copied from a factory')


PARTS = [Part('account', hist.histories(), account, 1600, 10000, rule='the history plays at least one step'),
         Part('values', values(), independent, 1500, 8000, rule='at least one pool operation or recorded step'),
         Part('unavailable', foreign(), unavailable, 1200, 8000, rule='the attempted step is otherwise legal')]
