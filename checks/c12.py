import re
from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C12'
LOW, UP = '-abcdefghijklmno', '-ABCDEFGHIJKLMNO'
NUM = re.compile(r'-?[0-9]+\Z')
LENIENT = re.compile(r'[\s\x00-\x20\x7f-\xa0]*[+-]?[\s\x00-\x20]*[0-9]+[lL]?[\s\x00-\x20\x7f-\xa0]*\Z')


@st.composite
def states(draw):
    lower, upper = draw(gen.duel())
    ml = draw(st.sampled_from((0, 0, 0, 1, 3, 5, 7, 11, 25, 64, 99, 100, 127, 128, 255, 256, 1001, 32767)))
    points = st.one_of(st.integers(0, 24), st.integers(0, 24), st.integers(0, 300), st.integers(0, max(24, ml)))
    return dict(lower=lower, upper=upper, cube=draw(st.one_of(st.integers(0, 10), st.integers(0, 40))), owner=draw(st.sampled_from((-1, 0, 1))),
                turn=draw(st.sampled_from((-1, 1))), dice=draw(st.one_of(gen.dice, st.just((0, 0)))),
                score=draw(st.tuples(points, points)),
                flag=draw(st.integers(0, 1)) if ml else draw(st.integers(0, 3)), ml=ml,
                cmax=draw(st.one_of(st.integers(0, 12), st.integers(0, 99))))


def render(s):
    p = ['-'] * 26
    for i in range(25):
        if s['upper'][i]:
            p[1 + i] = UP[s['upper'][i]]
        if s['lower'][i]:
            p[24 - i] = LOW[s['lower'][i]]
    return ':'.join([''.join(p), str(s['cube']), str(s['owner']), str(s['turn']), '%d%d' % s['dice'],
                     str(s['score'][0]), str(s['score'][1]), str(s['flag']), str(s['ml']), str(s['cmax'])])


def expected(s):
    who = {1: ref.HIM, -1: ref.YOU, 0: ref.CENTER}
    return dict(position=(s['lower'], s['upper']), cube_in_logarithm=s['cube'], cube_owner=who[s['owner']],
                on_action=who[s['turn']], on_inner_action=who[s['turn']], rolled=s['dice'], score=(s['score'][1], s['score'][0]),
                match_length=s['ml'], crawford=bool(s['flag']) and s['ml'] > 0, game_state=ref.ON_GOING,
                doubled=False, resign_offer=0)


def good(ctx, case):
    t = render(case)
    got = ctx.ok('ops_enc', 'xg_decode', t)
    same(ctx, got, expected(case), t)


def same(ctx, got, w, t):
    ctx.check(got[0] == 'ok', '%r was rejected: %r' % (t, got))
    for k in ref.FIELDS:
        ctx.check(got[1][k] == w[k], '%r: %s is %r, expected %r' % (t, k, got[1][k], w[k]))


def reuse(ctx, case):
    texts = [render(s) for s in case]
    got = ctx.ok('ops_enc', 'xg_reuse', texts)
    for t, s, g in zip(texts, case, got):
        same(ctx, ['ok', g], expected(s), 'the same board, decoding %r, last %r' % (texts, t))


def parse(t):
    """The state a text states, None if it is no XGID, 'open' where that is a matter of taste."""
    f = t.split(':')
    if len(f) != 10 or len(f[0]) != 26:
        return None
    p = f[0]
    open_ = False
    for i, c in enumerate(p):
        if not (c == '-' or (c in LOW and i < 25) or (c in UP and i > 0)):
            return None
    nums = []
    for x in f[1:4] + f[5:]:
        if not LENIENT.match(x):
            return None
        if not NUM.match(x):
            open_ = True
            nums.append(0)
        else:
            nums.append(int(x))
    if not re.match('00\\Z|[1-6][1-6]\\Z', f[4], re.A):
        return None
    if open_:
        return 'open'
    cube, owner, turn, a, b, flag, ml, cmax = nums
    if cube < 0 or owner not in (-1, 0, 1) or turn not in (-1, 1) or a < 0 or b < 0 or ml < 0:
        return None
    if flag not in ((0, 1) if ml else (0, 1, 2, 3)):
        return None
    if cmax < 0:
        return 'open'
    upper = tuple(UP.index(c) if c in UP else 0 for c in p[1:])
    lower = tuple(LOW.index(c) if c in LOW else 0 for c in reversed(p[:25]))
    s = dict(lower=lower, upper=upper, cube=cube, owner=owner, turn=turn, dice=(int(f[4][0]), int(f[4][1])), score=(a, b),
             flag=flag, ml=ml, cmax=cmax)
    if sum(lower) > 15 or sum(upper) > 15 or (ml and max(a, b) >= ml):
        return ('maybe', expected(s))  # impossible in a game: may be decoded or rejected
    return expected(s)


def text(ctx, case):
    t = case
    w = parse(t)
    got = ctx.ok('ops_enc', 'xg_decode', t)
    ctx.check(got[0] != 'exc', '%r: internal error %r' % (t, got))
    if w is None:
        ctx.check(got[0] == 'enc', '%r is no XGID but was decoded: %r' % (t, got))
        ctx.label('rejected', got[1])
    elif w == 'open':
        ctx.trivial()
    elif isinstance(w, tuple):
        if got[0] == 'ok':
            same(ctx, got, w[1], t)
    else:
        same(ctx, got, w, t)
        ctx.label('accepted')


WORDS = ('', '0', '1', '-1', '2', '-2', '3', '4', '00', '01', '10', '66', '67', '70', '99', '11', '6', '111', 'D', 'x', 'a', '-', '--1', '1.5', '1e2', ' ',
         '0x1', '10000000000000000000000', '-0', '%s', '%d', 'None')


@st.composite
def damaged(draw):
    t = render(draw(states()))
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.integers(0, 9))
        f = t.split(':')
        if how == 9:  # other dice
            f[4 if len(f) > 4 else -1] = draw(st.text('0123456', max_size=4))
            t = ':'.join(f)
            continue
        if how <= 3:  # another field
            i = draw(st.integers(0, len(f) - 1))
            f[i] = draw(st.sampled_from(WORDS))
            t = ':'.join(f)
        elif how == 4:
            i = draw(st.integers(0, len(f) - 1))
            del f[i]
            t = ':'.join(f)
        elif how == 5:
            f.insert(draw(st.integers(0, len(f))), draw(st.sampled_from(WORDS)))
            t = ':'.join(f)
        else:  # another character
            i = draw(st.one_of(st.integers(0, max(0, len(t) - 1)), st.integers(0, min(25, max(0, len(t) - 1)))))
            c = draw(st.one_of(st.characters(min_codepoint=0, max_codepoint=255), st.sampled_from('abopABOPzZ09-: 1')))
            t = t[:i] + c + t[i + (how < 8):]
    return t


PARTS = [Part('good', states(), good, 1500, 12000, rule='all'),
         Part('reuse', st.lists(states(), min_size=2, max_size=4), reuse, 400, 4000, rule='all'),
         Part('text', st.one_of(damaged(), damaged(), damaged(), st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=60),
                                st.text('-aA01:', min_size=26, max_size=60)), text, 2500, 25000,
              rule='every text but lenient spellings of numbers (whether blanks, a plus sign or the like are allowed is not stated)')]
