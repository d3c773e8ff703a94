from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C09'


def schr(n):
    return chr(n % 256)


def sord(c):
    return (ord(c) + 128) % 256 - 128


def encode(me, opp):
    a, b = (0,) + me, (0,) + opp
    return ''.join(schr(a[i] - b[25 - i]) for i in range(26))


def position(ctx, case):
    me, opp = case
    s, back = ctx.ok('ops_enc', 'db_position', (me, opp))
    ctx.eq(len(s), 26, 'length')
    ctx.eq(s, encode(me, opp), 'encoding')
    ctx.eq(back, (me, opp), 'decoded')
    if not any(me) and not any(opp):
        ctx.trivial()
    if me[24] or opp[24]:
        ctx.label('bar')


def text(ctx, case):
    """The other way round: bytes that encode a position."""
    s = ''.join(schr(n) for n in case)
    p, back = ctx.ok('ops_enc', 'db_decode', s)
    me = tuple(max(0, sord(c)) for c in s)[1:]
    opp = tuple(max(0, -sord(c)) for c in reversed(s))[1:]
    ctx.eq(p, (me, opp), 'decoded')
    ctx.eq(back, s, 'encoded again')


@st.composite
def cells(draw):
    v = [draw(st.sampled_from((0, 0, 0, 1, -1, 2, -2, 5, 15, -15, 127, -128))) for _ in range(26)]
    v[0] = min(v[0], 0)
    v[25] = max(v[25], 0)
    return v


def board(ctx, case):
    raw, back, same, errs, frozen = ctx.ok('ops_enc', 'db_board', case)
    me, opp = ref.sides(case['position'], case['on_action'])
    want = dict(case)
    want['position'] = encode(me, opp)
    for k in ref.FIELDS:
        ctx.check(raw[k] == want[k], 'stored %s: %r, expected %r' % (k, raw[k], want[k]))
        ctx.check(back[k] == case[k], 'restored %s: %r, expected %r' % (k, back[k], case[k]))
    ctx.check(same and frozen, 'the restored board does not equal the stored one')
    ctx.eq(errs, [], 'fields of the stored form that could be assigned')
    ctx.label('on action %d' % case['on_action'])


@st.composite
def near(draw):
    """A position and a neighbour of it: one chequer moved, added, removed or given to the other side."""
    me, opp = draw(gen.duel())
    m2, o2 = list(me), list(opp)
    for _ in range(draw(st.integers(1, 3))):
        side = draw(st.sampled_from((m2, o2)))
        i, j = draw(st.integers(0, 24)), draw(st.integers(0, 24))
        how = draw(st.integers(0, 3))
        if how == 0:
            side[i], side[j] = side[j], side[i]
        elif how == 1:
            side[i] += 1
        elif side[i]:
            side[i] -= 1
            if how == 2:
                side[j] += 1
            elif i < 24:
                (o2 if side is m2 else m2)[23 - i] += 1
    return ((me, opp), gen.resolve(tuple(m2), tuple(o2)))


def unique(ctx, case):
    a, b = case
    if a == b:
        ctx.trivial()
    sa, ba = ctx.ok('ops_enc', 'db_position', a)
    sb, bb = ctx.ok('ops_enc', 'db_position', b)
    ctx.check((sa == sb) == (a == b), 'equal encodings %r for different positions' % sa)
    want = sum((sord(x) - sord(y)) ** 2 for x, y in zip(sa, sb))
    d = ctx.ok('ops_enc', 'db_distance', sa, sb)
    ctx.eq(d, [want, want, 0], 'distance, the other way and to itself')
    ctx.check((d[0] == 0) == (a == b), 'distance %r' % d[0])


@st.composite
def opposed(draw):
    """Two positions with stacks of different players, or of different heights, on the same few points."""
    def one():
        a, b, left = [0] * 25, [0] * 25, [15, 15]
        for p in pts:
            w = draw(st.integers(0, 1))
            n = min(left[w], draw(st.one_of(st.integers(0, 15), st.sampled_from((15, 14, 8, 7)))))
            left[w] -= n
            if w == 0:
                a[p] += n
            elif p < 24:
                b[23 - p] += n
        return tuple(a), tuple(b)
    pts = sorted(draw(st.sets(st.integers(0, 24), min_size=1, max_size=3)))
    return one(), one()


PARTS = [Part('position', gen.duel(), position, 1200, 10000, rule='any chequer'),
         Part('text', cells(), text, 600, 5000, rule='all'),
         Part('board', gen.any_state(True), board, 1000, 8000, rule='all'),
         Part('pairs', st.one_of(near(), near(), opposed(), st.tuples(gen.duel(), gen.duel())), unique, 1000, 8000,
              rule='the two positions differ')]
