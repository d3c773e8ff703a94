from hypothesis import strategies as st
from vf import Part
import fibsgen as F

PROPERTY = 'C29'
ASSUMPTIONS = ['the phase is told from the kind given to the line "hello there", which fits no message of any phase']

PROBE = 'hello there'
SEEN = {'FIBS_PreLogin': 'LOGIN', 'FIBS_MOTD': 'MOTD', 'FIBS_Unknown': 'RUN'}


def walk(ctx, lines):
    """asks for the phase after every line"""
    h = [PROBE]
    for l in lines:
        h += [l, PROBE]
    r = ctx.ok('ops_proto', 'kinds', [h])[0]
    ctx.eq(r[0], 'FIBS_PreLogin', 'kind of %r at the start' % PROBE)
    ph = 'LOGIN'
    for i, l in enumerate(lines):
        ctx.check(r[2 * i + 1] in F.kinds(ph, l), lambda: '%r in phase %s is a %s, not one of %s' % (l, ph, r[2 * i + 1], sorted(F.kinds(ph, l))))
        was, ph = ph, F.after(ph, l)
        got = SEEN.get(r[2 * i + 2])
        ctx.check(got == ph, lambda: 'after %r in phase %s (lines %r) the phase is %s, not %s' % (l, was, lines[:i], got or r[2 * i + 2], ph))
    return r


def phases(lines):
    return list(F.phases(lines))


def history(ctx, lines):
    walk(ctx, lines)
    p = phases(lines)
    for x in set(p):
        ctx.label(x)
    if sum(1 for a, b in zip(p, p[1:]) if a != b) < 2:
        ctx.trivial()


def quiet(ctx, lines):
    """without asking: kinds alone tell"""
    r = ctx.ok('ops_proto', 'kinds', [lines])[0]
    for l, p, k in zip(lines, F.phases(lines), r):
        ctx.check(k in F.kinds(p, l), lambda: '%r in phase %s is a %s, not one of %s' % (l, p, k, sorted(F.kinds(p, l))))
    p = phases(lines)
    if len(set(p)) < 3:
        ctx.trivial()


def sessions(ctx, case):
    n = max(i for i, l in case) + 1
    r = ctx.ok('ops_proto', 'interleaved', [list(c) for c in case])
    alone = ctx.ok('ops_proto', 'kinds', [[l for i, l in case if i == j] for j in range(n)])
    its = [iter(a) for a in alone]
    for (i, l), k in zip(case, r):
        a = next(its[i])
        ctx.check(k == a, lambda: 'session %d: %r is a %s among other sessions, a %s alone' % (i, l, k, a))
    for j in range(n):
        ls = [l for i, l in case if i == j]
        for l, p, k in zip(ls, F.phases(ls), alone[j]):
            ctx.check(k in F.kinds(p, l), lambda: '%r in phase %s is a %s, not one of %s' % (l, p, k, sorted(F.kinds(p, l))))
    ps = [phases([l for i, l in case if i == j]) for j in range(n)]
    if len([p for p in ps if len(set(p)) > 1]) < 2:
        ctx.trivial()


def line(marks=4):
    return st.one_of(*([st.sampled_from(F.MARKS[:3])] * marks + [st.sampled_from(F.MARKS), F.lines()]))


@st.composite
def course(draw):
    """sessions that go round their phases, with other lines between"""
    out = []
    other = st.lists(st.one_of(st.sampled_from(F.MARKS), F.lines()), max_size=4)
    for _ in range(draw(st.integers(1, 4))):
        for m in ('3', '4', '           Goodbye.'):
            out += draw(other)
            out.append(m)
    return out + draw(other)


@st.composite
def crowded(draw):
    """one line many times over between the others"""
    out = draw(course())[:30]
    i = draw(st.integers(0, len(out) - 1))
    more = draw(st.lists(st.one_of(st.sampled_from(F.MARKS[3:]), F.lines()), min_size=1, max_size=3))
    return out[:i] + more * draw(st.integers(10, 140)) + out[i:]


def histories():
    return st.one_of(*[course()] * 8, *[st.lists(line(), min_size=1, max_size=25)] * 8, crowded())


@st.composite
def schedules(draw):
    n = draw(st.integers(2, 4))
    left = [draw(histories())[:14] for _ in range(n)]
    out = []
    while any(left):
        i = draw(st.sampled_from([j for j in range(n) if left[j]]))
        k = draw(st.integers(1, 4))
        out += [(i, l) for l in left[i][:k]]
        left[i] = left[i][k:]
    return out


PARTS = [
    Part('history', histories(), history, 700, 20000, rule='two phase changes or more'),
    Part('quiet', histories(), quiet, 500, 10000, rule='all three phases visited'),
    Part('sessions', schedules(), sessions, 350, 8000, rule='two sessions or more change phase'),
    Part('marks', st.lists(st.one_of(st.sampled_from(F.MARKS[:3]), st.sampled_from(F.MARKS)), min_size=1, max_size=60), history, 300, 10000, rule='two phase changes or more'),
]
