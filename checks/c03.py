from hypothesis import strategies as st
from vf import Part
import ref, gen, hist

PROPERTY = 'C03'


@st.composite
def questions(draw):
    return (draw(gen.moving_state()), draw(st.lists(st.integers(0, 60), max_size=3)))


def chain_exists(me, opp, src, dest, pool):
    """All chains of one chequer from src to dest, as lists of steps."""
    out = []
    for d in set(pool):
        s = ref.step_for(me, opp, src, d)
        if not s:
            continue
        if s[2] == dest:
            out.append([s])
        elif s[2] > dest:
            m, o = ref.play(me, opp, s)
            out += [[s] + c for c in chain_exists(m, o, s[2], dest, ref.remove(pool, d))]
    return out


def reach(me, opp, played):
    m = me, opp
    for s in played:
        m = ref.play(m[0], m[1], s)
    return m


def setup(case):
    state, picks = case
    m = hist.Model(state)
    for p in picks:
        o = m.options()
        if o:
            m.do(o[p % len(o)])
    return m


def chains(ctx, case):
    state, picks = case
    m = setup(case)
    me, opp = m.sides()
    srcs = [i for i in range(25) if me[i]] + [i for i in range(25) if not me[i]][:2]
    pairs = [(s, d) for s in srcs for d in range(-1, s)]
    exist = {p: chain_exists(me, opp, p[0], p[1], m.pool) for p in pairs}
    if not any(exist.values()):
        ctx.trivial()
    undo = []
    for a in range(-1, 24):
        for b in range(a + 1, 25):
            if any(s[2] == a for s in m.played) or (a + b) % 17 == 0:
                undo.append((a, b))
    res = ctx.ok('ops_model', 'chains', state, m.played, pairs + undo)
    for src, dest, (tag, val), unchanged, given in res:
        where = 'after %r, %d to %d with %r left' % (m.played, src, dest, m.pool)
        ctx.check(tag in ('no', 'mv'), '%s: %s %r' % (where, tag, val))
        ctx.check(unchanged, '%s: asking changed the board, the steps or the dice' % where)
        ctx.check(given, '%s: the answer is another one when board and dice are given with the question, or what was given changed' % where)
        if tag == 'mv':
            val = [tuple(v) for v in val]
        if src > dest:
            c = exist[src, dest]
            if c:
                ctx.check(tag == 'mv', '%s: refused (%r), but %r is legal' % (where, val, c[0]))
                ctx.check(val in c, '%s: %r is not one of the legal chains %r' % (where, val, c))
                ctx.label('chain%d' % len(val))
            else:
                ctx.check(tag == 'no', '%s: suggested %r, but no chain is legal' % (where, val))
        elif tag == 'mv':
            ctx.label('undo%d' % len(val))
            at = src
            left = list(m.played)
            for d, a, b, h in val:
                ctx.check(a == at, '%s: %r does not join up' % (where, val))
                at = b
                ctx.check((d, b, a, h) in left, '%s: %r is not the inverse of steps played' % (where, val))
                left.remove((d, b, a, h))
            ctx.check(at == dest, '%s: %r does not reach the point' % (where, val))
            back = hist.Model(m.s)
            back.played = list(m.played)
            for d, a, b, h in val:
                ctx.check(back.can_undo((d, b, a, h)), '%s: %r cannot be taken back: no chequer is there, or not alone where one was hit' % (where, val))
                back.undo((d, b, a, h))
        else:
            l = m.played[-1] if m.played else None
            ctx.check(not l or (src, dest) != (l[2], l[1]), '%s: the last step was not found' % where)


def point(ctx, case):
    state, picks = case
    m = setup(case)
    me, opp = m.sides()
    want = {}
    for dest in range(24):
        l = []
        for d in set(m.pool):
            for s in ref.steps(me, opp, d):
                if s[2] == dest:
                    m2, o2 = ref.play(me, opp, s)
                    for d2 in set(ref.remove(m.pool, d)):
                        l += [[s, t] for t in ref.steps(m2, o2, d2) if t[2] == dest]
        want[dest] = l
    if not any(want.values()):
        ctx.trivial()
    for dest, (tag, val), unchanged, given in ctx.ok('ops_model', 'points', state, m.played):
        where = 'after %r, making point %d with %r left' % (m.played, dest, m.pool)
        ctx.check(tag in ('no', 'mv'), '%s: %s %r' % (where, tag, val))
        ctx.check(unchanged, '%s: asking changed the board, the steps or the dice' % where)
        ctx.check(given, '%s: the answer is another one when board and dice are given with the question, or what was given changed' % where)
        if want[dest]:
            ctx.check(tag == 'mv' and [tuple(v) for v in val] in want[dest],
                      '%s: %s %r, legal: %r' % (where, tag, val, want[dest]))
            ctx.label('made')
        else:
            ctx.check(tag == 'no', '%s: suggested %r, but it is not legal' % (where, val))


def back(ctx, case):
    state, picks, k = case
    m = setup((state, picks))
    me, opp = m.sides()
    all_ = []
    for s in range(25):
        if me[s]:
            for d in range(-1, s):
                c = chain_exists(me, opp, s, d, m.pool)
                if c:
                    all_.append((s, d, c))
    all_ = [x for x in all_ if len(x[2][0]) > 1] * 2 + all_
    if not all_:
        ctx.trivial()
        return
    s, d, c = all_[k % len(all_)]
    r = ctx.ok('ops_model', 'there_and_back', state, m.played, s, d)
    where = 'after %r, from %d to %d and back' % (m.played, s, d)
    ctx.check(len(r) == 5, '%s: %r' % (where, r))
    there = [tuple(x) for x in r[0][1]]
    ctx.check(there in c, '%s: %r is not a legal chain' % (where, there))
    want = [(x[0], x[2], x[1], x[3]) for x in reversed(there)]
    got = [tuple(x) for x in r[2][1]]
    ctx.check(got == want, '%s: took back %r, expected %r' % (where, got, want))
    ctx.check(r[3], '%s: asking to take back changed the board' % where)
    ctx.check(r[4], '%s: the position, steps or dice before are not restored' % where)
    ctx.label('back%d' % len(there))


PARTS = [Part('chains', questions(), chains, 600, 6000, rule='some chain is legal'),
         Part('point', questions(), point, 600, 5000, rule='some point can be made by two steps'),
         Part('back', st.tuples(gen.moving_state(), st.lists(st.integers(0, 60), max_size=3), st.integers(0, 400)),
              back, 1000, 8000, rule='some chain is legal')]
