import re
from hypothesis import strategies as st
from vf import Part, Raised
import ref, gen

PROPERTY = 'C08'


def all_points(ctx, case):
    """Exhaustive: every location, for both players (one case)."""
    r = ctx.ok('ops_model', 'notation')
    for who in (0, 1):
        o = ('your', 'his')[who]
        want = {-1: o + ' home', 24: o + ' bar'}
        for n in range(24):
            want[n] = str(n + 1) if who == 0 else str(24 - n)
        for n in range(-1, 25):
            ctx.eq(r['pos'][who][n + 1], want[n], 'board name of %d for %s' % (n, o))
            ctx.eq(r['posback'][who][n + 1], n, 'location named %r for %s' % (want[n], o))
        ctx.check(len(set(r['pos'][who])) == 26, 'names are not unique')
        # home and bar are known by either player's name
    for n in range(-1, 25):
        want = 'off' if n < 0 else 'bar' if n == 24 else str(n + 1)
        ctx.eq(r['move'][n + 1], want, 'move name of %d' % n)
        ctx.eq(r['moveback'][n + 1], n, 'location with move name %r' % want)
    for n in range(24):
        ctx.eq(r['flip'][n], 23 - n, 'flip_point(%d)' % n)
        ctx.eq(int(r['move'][n + 1]) + int(r['move'][r['flip'][n] + 1]), 25, 'names of point %d' % n)
        ctx.eq(r['pos'][0][n + 1], r['pos'][1][r['flip'][n] + 1], 'board names of point %d' % n)
    ctx.eq(r['opp'], [1, 0], 'opponents')


LENIENT = re.compile(r'[\s\x00-\x20\x7f-\xa0]*[+-]?[\s\x00-\x20]*[0-9]+[lL]?[\s\x00-\x20\x7f-\xa0]*\Z')

junk = st.one_of(
    st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255), max_size=12),
    st.sampled_from(('', 'home', 'bar', 'off', 'Bar', 'OFF', 'your', 'his', 'your bar', 'his bar', 'your home', 'his home',
                     'my bar', 'bar ', ' off', 'your  bar', 'None', '1.0', '1e1', '0x5', '-', '+', '5/3', '25', '26', '-1', '0',
                     '100', '8*', '5 3', '1O')),
    st.integers(-1000, 1000).map(str), st.integers(-10 ** 30, 10 ** 30).map(str),
    st.floats().map(repr),
)


def reject(ctx, case):
    text = case
    n = None
    if re.match(r'-?[0-9]+\Z', text, re.A):
        n = int(text)
    elif LENIENT.match(text):
        # a number with blanks, a plus sign and the like: whether that is a name is not specified
        ctx.trivial()
        return
    res = ctx.ok('ops_model', 'from_text', text)
    for who in (0, 1):
        tag, val = res['pos'][who]
        if text in ('your home', 'his home', 'your bar', 'his bar'):
            want = -1 if 'home' in text else 24
        elif n is not None and 1 <= n <= 24:
            want = n - 1 if who == 0 else 24 - n
        else:
            want = None
        judge(ctx, 'board name %r for player %d' % (text, who), tag, val, want)
    tag, val = res['move']
    if text in ('bar', 'off'):
        want = 24 if text == 'bar' else -1
    elif n is not None and 0 <= n <= 25:
        want = n - 1  # 0 and 25 stand for off and the bar
    else:
        want = None
    judge(ctx, 'move name %r' % text, tag, val, want)


def judge(ctx, what, tag, val, want):
    if want is None:
        ctx.check(tag == 'exc' and val == 'ValueError', '%s: %s %r, expected a ValueError' % (what, tag, val))
        ctx.label('rejected')
    else:
        ctx.check((tag, val) == ('ok', want), '%s: %s %r, expected %r' % (what, tag, val, want))
        ctx.label('accepted')


def numbers(ctx, case):
    n, who = case
    if -1 <= n <= 24 and who in (0, 1):
        ctx.trivial()
        return
    a, b, c = ctx.ok('ops_model', 'from_number', n, who)
    if n > 24:
        judge(ctx, 'move name of %d' % n, a[0], a[1], None)
        judge(ctx, 'board name of %d' % n, b[0], b[1], None)
    elif 0 <= n <= 23:
        judge(ctx, 'board name of %d for player %d' % (n, who), b[0], b[1], None)
    if who not in (0, 1):
        judge(ctx, 'opponent of %d' % who, c[0], c[1], None)


def text(ctx, case):
    steps = case
    if not steps:
        ctx.trivial()
    m, each = ctx.ok('ops_model', 'move_text', steps)
    left = []
    for s in steps:
        back = (s[0], s[2], s[1], s[3])
        if back in left:  # taking back a step written before
            left.reverse()
            left.remove(back)
            left.reverse()
        else:
            left.append(s)
    nm = lambda n: 'off' if n < 0 else 'bar' if n == 24 else str(n + 1)
    want = ['%s/%s%s' % (nm(s[1]), nm(s[2]), '*' if s[3] else '') for s in left]
    ctx.eq(each, want, 'steps')
    ctx.eq(m, ', '.join(want) if want else 'o-o', 'move')
    if any(s[2] > s[1] for s in left):
        ctx.label('taking back')


step = st.tuples(gen.die, st.integers(0, 24), st.booleans()).map(lambda t: (t[0], t[1], max(-1, t[1] - t[0]), t[2] and t[1] - t[0] >= 0))
steps = st.lists(st.tuples(step, st.sampled_from((False, False, False, True))).map(
    lambda t: (t[0][0], t[0][2], t[0][1], t[0][3]) if t[1] else t[0]), max_size=5)

PARTS = [Part('all', st.just(0), all_points, 1, 1, rule='the whole finite domain: 26 locations, both players'),
         Part('reject', junk, reject, 1500, 15000, rule='every text but lenient spellings of numbers'),
         Part('numbers', st.tuples(st.integers(-1, 10 ** 6), st.sampled_from((0, 1, 2, 3, -1, 9))), numbers, 200, 2000,
              rule='the number names no location or no player'),
         Part('text', steps, text, 600, 4000, rule='at least one step')]
