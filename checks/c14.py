import math
from hypothesis import strategies as st
from vf import Part

PROPERTY = 'C14'
TOL = 1e-9
rating = st.one_of(st.integers(0, 4000), st.integers(0, 4000), st.floats(0, 4000), st.sampled_from((0, 1000, 1500, 1500.0, 1499.5)))
length = st.one_of(st.integers(1, 25), st.integers(1, 101), st.sampled_from((1, 1, 2, 64)))


def upset(d, n):
    return 1.0 / (10.0 ** (d * math.sqrt(n) / 2000.0) + 1)


def close(a, b):
    return abs(a - b) <= TOL * max(abs(a), abs(b), 1e-3)


def relerr(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def chances(ctx, case):
    a, b, n = case
    hi, lo = max(a, b), min(a, b)
    u, w = ctx.ok('ops_stat', 'chances', hi, lo, n)
    ctx.check(0 < u <= 0.5, 'chance of the underdog %r' % u)
    ctx.check(0.5 <= w <= 1 and (w < 1 or u < 1e-15), 'chance of the favourite %r' % w)
    ctx.check(close(u + w, 1.0), '%r + %r is not one' % (u, w))
    ctx.check(relerr(u, upset(hi - lo, n)), 'chance of the underdog %r, the rating formula gives %r' % (u, upset(hi - lo, n)))
    if hi == lo:
        ctx.eq((u, w), (0.5, 0.5), 'chances of equals')
        ctx.label('equals')


def monotone(ctx, case):
    base, d1, d2, n1, n2 = case
    if d1 == d2 and n1 == n2:
        ctx.trivial()
    d1, d2 = sorted((d1, d2))
    n1, n2 = sorted((n1, n2))
    r = ctx.ok('ops_stat', 'many', [(base + d1, base, n1), (base + d2, base, n1), (base + d1, base, n2), (base + d2, base, n2)])
    (u11, w11), (u21, w21), (u12, w12), (u22, w22) = r
    for what, lo, hi, strict in (('rating difference', u11, u21, d2 - d1 > 1), ('rating difference', u12, u22, d2 - d1 > 1),
                                 ('match length', u11, u12, d1 > 1 and n2 > n1), ('match length', u21, u22, d2 > 1 and n2 > n1)):
        ctx.check(hi <= lo * (1 + 1e-12) and (not strict or hi < lo), 'the underdog\'s chance goes from %r to %r with the %s' % (lo, hi, what))
    for lo, hi in ((w11, w21), (w12, w22), (w11, w12), (w21, w22)):
        ctx.check(hi >= lo - 1e-12, 'the favourite\'s chance goes from %r to %r' % (lo, hi))


def fair(ctx, case):
    a, b, n = case
    g = ctx.ok('ops_stat', 'gains', a, b, n)
    u, w = ctx.ok('ops_stat', 'chances', max(a, b), min(a, b), n)
    pa, pb = (w, u) if a >= b else (u, w)
    ctx.check(g[0] > 0 or pb < 1e-15, 'gain %r' % g[0])
    ctx.check(close(g[0], n * pb) and close(g[1], n * pa), 'gains %r, expected %r times the other side\'s chance %r' % (g, n, (pb, pa)))
    # what a expects to win and to lose
    ctx.check(close(pa * g[0], pb * g[1]), 'expected change of the first player: %r won, %r lost' % (pa * g[0], pb * g[1]))
    ctx.check(close(g[0] + g[1], n), 'the stakes %r do not add up to %r' % (g, n))
    if a == b:
        ctx.label('equals')


PARTS = [Part('chances', st.one_of(st.tuples(rating, rating, length), rating.flatmap(lambda r: st.tuples(st.just(r), st.just(r), length))),
              chances, 2000, 20000, rule='all'),
         Part('monotone', st.tuples(rating, st.integers(0, 2000), st.integers(0, 2000), length, length), monotone, 1500, 15000,
              rule='the two differences or lengths differ'),
         Part('fair', st.one_of(st.tuples(rating, rating, length), rating.flatmap(lambda r: st.tuples(st.just(r), st.just(r), length))),
              fair, 2000, 20000, rule='all')]
