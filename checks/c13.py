import math, struct
from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C13'
STUBS = True
CALL_TIMEOUT = 120.0
ASSUMPTIONS = ['tonic.combination is not installed here; lib/stubs/tonic stands in for it: C is the binomial coefficient, '
               'C_Hash ranks 0/1 sequences with a given number of ones, C_RHash inverts it']


def C(n, r):
    return math.comb(n, r) if 0 <= r <= n else 0


def nori(ctx, case):
    """Every position of exactly c chequers."""
    n, nums, bad = ctx.ok('ops_enc', 'bo_nori_block', case)
    start = sum(C(5 + i, i) for i in range(case))
    size = C(5 + case, case)
    ctx.eq(n, size, 'positions enumerated')
    ctx.eq(nums, list(range(start, start + size)), 'numbers of the positions of %d chequers' % case)
    ctx.eq(bad, [], 'positions of %d chequers that do not come back from their number' % case)


def pos_index(t, p):
    """gnubg's PositionBearoff: rank, in the combinatorial number system, of the bits that end the points."""
    j = p - 1 + sum(t)
    bits = {j}
    for x in t:
        j -= x + 1
        if j >= 0:
            bits.add(j)
    return sum(C(b, k + 1) for k, b in enumerate(sorted(bits)))


def gnubg(ctx, case):
    p, c = case
    out = ctx.ok('ops_enc', 'bo_gnubg_block', p, c)
    size = C(p + c, p)
    ctx.eq(len(out), size, 'positions enumerated')
    ctx.eq(sorted(k for _, k in out), list(range(size)), 'indices of up to %d chequers on %d points' % (c, p))
    for t, k in out:
        ctx.check(k == pos_index(t, p), 'index of %r: %r, gnubg has %r' % (t, k, pos_index(t, p)))


def totals(ctx, case):
    a, b, wtn = ctx.ok('ops_enc', 'bo_totals')
    ctx.eq(a, b, 'the two formulas')
    ctx.eq(a, [C(24, m) * C(16, 15 - m) * C(40 - m, 15) for m in range(16)], 'positions with m points taken by one side')
    ctx.eq(sum(a), wtn, 'known total')
    ctx.eq(wtn, 18528584051601162496, 'known total')


def trice_d(ctx, case):
    n, m = case
    d = ctx.ok('ops_enc', 'bo_D', n, m)
    ctx.eq(d[0], C(n + m - 1, m), 'D(%d, %d)' % (n, m))
    ctx.eq(d[0], d[1] + d[2], 'D(n, m) and D(n, m-1) + D(n-1, m)')


def params(ctx, case):
    us, them = case
    back, cnt, both = ctx.ok('ops_enc', 'bo_sides', us, them)
    wb = [max([i + 1 for i in range(25) if s[i]] or [0]) for s in case]
    ctx.eq(back, wb, 'rearmost points')
    ctx.eq(cnt, [sum(us), sum(them)], 'chequers')
    ctx.eq(both, [max(wb), max(sum(us), sum(them))], 'bear-off parameters')


@st.composite
def databases(draw):
    kind = draw(st.sampled_from(('gnubgdb', 'nori', 'trice', '1', '5', '32')))
    n = int(kind) if kind.isdigit() else 16
    records = draw(st.integers(0, 12))
    tail = draw(st.sampled_from((0, 0, 1, n - 1)))
    if kind in ('nori', 'trice') and draw(st.booleans()):
        fl = draw(st.lists(st.floats(width=32, allow_nan=False), min_size=4, max_size=4))
        data = b''.join(struct.pack('<4f', *[x if math.isfinite(x) else 0 for x in fl[i % 4:] + fl[:i % 4]]) for i in range(records))
        data += b'\0' * tail
        ops = ('rawread', 'dump', 'human_readable')
    else:
        seed = draw(st.binary(min_size=7, max_size=7))
        data = bytes((seed[i % 7] * (i // 7 + 1) + i * 31) % 256 for i in range(records * n + tail))
        ops = ('rawread',)
    reads = draw(st.lists(st.tuples(st.sampled_from(ops), st.one_of(st.integers(0, records + 1), st.integers(0, 10 ** 6))), min_size=1, max_size=12))
    return kind, data.decode('latin-1'), reads


def reader(ctx, case):
    kind, data, reads = case
    n = int(kind) if kind.isdigit() else 16
    reads = [(op, i + 1 if op == 'human_readable' else i) for op, i in reads]  # these are numbered from one
    out = ctx.ok('ops_enc', 'bo_read', kind, data, reads)
    for (op, i), got in zip(reads, out):
        k = i - (op == 'human_readable')
        rec = data[k * n:(k + 1) * n]
        what = '%s(%d) of %d bytes in records of %d' % (op, i, len(data), n)
        if len(rec) < n:
            ctx.check(got[0] == 'IndexError', '%s: %r, expected an IndexError' % (what, got))
            ctx.label('beyond the end')
            continue
        if op == 'rawread':
            want = [rec]
        else:
            # native byte order: Jython's is big-endian, CPython's here little-endian; either is taken as right
            want = [struct.unpack(o + '4f', rec.encode('latin-1')) for o in '<>']
            if op == 'human_readable':
                want = [(w[0], w[1] * 2, w[2] * 2, w[3]) for w in want]
        ctx.check(got[0] == 'ok' and (got[1] in want or any(repr(got[1]) == repr(w) for w in want)), '%s: %r, expected %r' % (what, got, want))
        ctx.label(op)


@st.composite
def visits(draw):
    """Files with holes in them: the big two-sided databases have 47 gigabytes."""
    kind = draw(st.sampled_from(('gnubgdb', 'nori', 'trice')))
    files = []
    for i in range(draw(st.integers(1, 3))):
        top = draw(st.sampled_from((3, 3, 1000, 1 << 27, 54264 ** 2)))
        at = sorted(set(draw(st.lists(st.integers(0, top), min_size=1, max_size=5))) | ({top} if top > 1000 else set()))
        files.append([(k, draw(st.text('abcdefgh\0\xff', min_size=16, max_size=16))) for k in at])
    vs = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, len(files) - 1))
        ks = [k for k, _ in files[i]]
        vs.append((i, draw(st.lists(st.one_of(st.sampled_from(ks), st.integers(0, ks[-1] + 2)), min_size=1, max_size=5))))
    return kind, files, vs


def reopen(ctx, case):
    kind, files, vs = case
    out = ctx.ok('ops_enc', 'bo_reopen', kind, [[(k * 16, rec) for k, rec in f] for f in files], vs)
    if out is None:
        ctx.trivial()
        return
    it = iter(out)
    for i, ks in vs:
        recs = dict(files[i])
        for k in ks:
            got = next(it)
            want = ['IndexError', None] if k > files[i][-1][0] else ['ok', recs.get(k, '\0' * 16)]
            ctx.check(list(got) == want, 'record %d of file %d: %r, expected %r' % (k, i, got, want))
    if max(f[-1][0] for f in files) >= 1 << 27:
        ctx.label('more than two gigabytes')
    if len(set(i for i, _ in vs)) < 2:
        ctx.trivial()


PARTS = [Part('nori', None, nori, 0, 0, examples=range(16), rule='all positions of 0..15 chequers on six points, exhaustively'),
         Part('gnubg', st.tuples(st.integers(1, 6), st.integers(0, 15)), gnubg, 30, 60, examples=[(6, 15), (6, 0), (1, 15), (5, 15)],
              rule='all positions of up to c chequers on p points, exhaustively for each (p, c)'),
         Part('totals', None, totals, 0, 0, examples=[0], rule='finite'),
         Part('D', st.tuples(st.integers(2, 60), st.integers(1, 60)), trice_d, 150, 1500, rule='all'),
         Part('params', gen.duel(), params, 500, 4000, examples=[((0,) * 25, (0,) * 25)], rule='all'),
         Part('reopen', visits(), reopen, 100, 1000, rule='two files or more are read'),
         Part('reader', databases(), reader, 500, 5000, rule='all')]
