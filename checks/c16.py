import hashlib, re
import random

from hypothesis import strategies as st
from vf import Part
import gen

PROPERTY = 'C16'
STUBS = True
ASSUMPTIONS = ['tonic.lineparser is not installed here; lib/stubs/tonic/lineparser.py stands in for it: a line is matched from its start '
               'against the class\'s patterns and handed to handle_<group>']

# ---- what a line is (by how it starts) and which line may follow which
KINDS = (('empty', re.compile(r'\s*\Z', re.A)), ('length', re.compile(r' \d+ point match', re.A)),
         ('game', re.compile(r' *Game \d+', re.A)),
         ('players', re.compile(r' [^,:]+(,\d+)? : \d+ *[^,:]+(,\d+)? : \d+', re.A)),
         ('move', re.compile(r' *(\d+)\) +', re.A)), ('wins', re.compile(r' *Wins \d+ points?', re.A)))
MAY_FOLLOW = {None: ('length',), 'length': ('game',), 'empty': ('game',), 'game': ('players',), 'players': ('move',),
              'move': ('move', 'game')}


def judge(text):
    """(valid?, games as lists of lines, length line, open question?)"""
    state, n = None, 0
    games, length, open_ = [], '', False
    for l in text.splitlines(True):
        for k, pat in KINDS:
            m = pat.match(l)
            if m:
                break
        else:
            return False, None, None, open_
        if k == 'wins':  # a result line of its own carries no order
            if state != 'move':
                open_ = True
            if games:
                games[-1].append(l)
            continue
        if k == 'empty':
            if state is None:
                open_ = True
            state = k
            continue
        if k not in MAY_FOLLOW[state]:
            return False, None, None, open_
        if k == 'move':
            n = n + 1 if state == 'move' else 1
            if int(m.group(1)) != n:
                return False, None, None, open_
        if k == 'length':
            length = l
        elif k == 'game':
            games.append([l])
        else:
            games[-1].append(l)
        state = k
    return True, games, length, open_


def limit_of(text):
    return len(text)


def verdict(ctx, text, limit):
    good, games, length, open_ = judge(text)
    res = ctx.ok('ops_record', 'validate', text, limit)
    h = hashlib.sha1(text.encode('latin-1')).hexdigest()
    for how, r in zip(('fed line by line', 'read from a file'), res[:2]):
        if good:
            ctx.check(r == ['ok', h], '%s: %r, expected to be accepted with %s\n%s' % (how, r, h, text))
        else:
            ctx.check(r[0] == 'ValueError', '%s: %r, expected a ValueError\n%s' % (how, r, text))
    if good and limit and limit != len(text):
        if limit > len(text):
            ctx.check(res[2] == ['ok', h], 'limit %d for %d bytes: %r' % (limit, len(text), res[2]))
        else:
            ctx.check(res[2][0] == 'ValueError', 'limit %d for %d bytes: %r' % (limit, len(text), res[2]))
            ctx.label('too long')
    ctx.label('valid' if good else 'invalid')
    return good, games, length, open_


def record(ctx, case):
    text, limit = case
    good, games, length, open_ = verdict(ctx, text, limit)
    r, each = ctx.ok('ops_record', 'chop', text)
    if not good:
        ctx.check(r[0] == 'ValueError', 'splitting an invalid record: %r\n%s' % (r, text))
        return
    if not games or open_:
        ctx.trivial()
        return
    ctx.check(r[0] == 'ok', 'splitting a valid record: %r\n%s' % (r, text))
    ctx.eq(len(r[1]), len(games), 'pieces of a record of %d games' % len(games))
    for p, e, g in zip(r[1], each, games):
        lines = p.splitlines(True)
        ctx.check([l for l in lines if l.strip()] == [length] + g, 'piece %r, expected the length line and %r' % (p, g))
        ctx.check(e == ['ok', hashlib.sha1(p.encode('latin-1')).hexdigest()], 'piece is no valid record: %r %r' % (e, p))
    ctx.label('%s games' % (len(games) if len(games) < 4 else 'many'))


def pair(ctx, case):
    """Two validators at work at the same time."""
    out = ctx.ok('ops_record', 'two', *case)
    for t, r in zip(case, out):
        good = judge(t)[0]
        h = hashlib.sha1(t.encode('latin-1')).hexdigest()
        ctx.check(r == ['ok', h] if good else r[0] == 'ValueError', 'of two validators: %r for a record that is %s\n%s' %
                  (r, 'valid' if good else 'invalid', t))


name = st.one_of(st.text('abcXYZ019_-', min_size=1, max_size=8), st.text('abX05 .()\'/*;\xe9\t', min_size=1, max_size=10),
                 st.sampled_from(('Game 1', '1) 31', 'Wins 2 points', '5 point match', ' x', 'x '))).filter(str.strip)


# what a player did: one draw, so that long records are cheap to make
def stepping(n):
    r = random.Random(n)
    out = []
    for _ in range(r.choice((0, 1, 2, 2, 2, 3, 4))):
        out.append('%d/%d%s' % (r.randint(1, 25), r.choice((0, r.randint(1, 25), r.randint(1, 25))), r.choice(('', '', '*'))))
    return '%d%d: %s' % (r.randint(1, 6), r.randint(1, 6), ' '.join(out))


def acting(n):
    r = random.Random(-1 - n)
    return r.choice((stepping(n),) * 3 + (' Takes', ' Doubles => %d' % r.choice((2, 2, 4, 8, 16, 64, 128, 1024)), ' Drops', ''))


SEED = st.integers(0, 10 ** 6)
steps = lambda: SEED.map(stepping)
# figures of one, two and more digits
figure = st.one_of(st.integers(1, 9), st.integers(10, 25), st.sampled_from((10, 19, 32, 64, 99, 100, 384, 1024)))
action = SEED.map(acting)


@st.composite
def games(draw, k):
    rating = draw(st.booleans())
    pl = lambda: draw(name) + (',%d' % draw(st.one_of(st.integers(1000, 2200), figure)) if rating else '') + ' : %d' % draw(st.one_of(st.integers(0, 24), figure))
    out = ['%sGame %d' % (draw(st.sampled_from((' ', ' ', '', '   '))), k), ' ' + pl() + ' ' * draw(st.integers(1, 20)) + pl()]
    n = draw(st.one_of(*[st.integers(0, 4)] * 9, *[st.integers(5, 25)] * 8, st.sampled_from((9, 10, 99, 101))))
    for i in range(1, n + 1):
        a = draw(action)
        out.append(('%3d) ' % i + a.ljust(28) + draw(action)).rstrip() if a else '%3d) ' % i + ' ' * 28 + draw(steps()))
    if n:
        how = draw(st.integers(0, 3))
        if how == 0:
            out[-1] += ' ' * 6 + 'Wins %d points' % draw(figure)
        elif how < 3:
            out.append(' ' * draw(st.sampled_from((6, 34, 0))) + 'Wins %d point' % draw(figure) + draw(st.sampled_from(('', 's'))))
    return out


@st.composite
def records(draw):
    start = draw(st.sampled_from((0, 0, 8, 9, 98)))
    out = [' %d point match' % draw(st.one_of(st.just(0), figure))]
    if draw(st.integers(0, 5)):
        out.append('')
    for k in range(draw(st.one_of(*[st.integers(1, 4)] * 29, st.integers(8, 12)))):
        if k and draw(st.integers(0, 3)):
            out += [''] * draw(st.integers(1, 2))
        out += draw(games(k + 1 + start))
    out += [''] * draw(st.sampled_from((0, 0, 1, 2)))
    eol = draw(st.sampled_from(('\n', '\n', '\r\n')))
    return [l + eol for l in out]


@st.composite
def damaged(draw):
    ls = draw(records())
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(ls) - 1))
        j = draw(st.integers(0, len(ls) - 1))
        how = draw(st.integers(0, 8))
        if how == 0 and len(ls) > 1:
            del ls[i]
        elif how == 1:
            ls.insert(j, ls[i])
        elif how == 2:
            ls[i], ls[j] = ls[j], ls[i]
        elif how in (3, 4):
            ms = [k for k in range(len(ls)) if KINDS[4][1].match(ls[k])]
            if ms:
                k = draw(st.sampled_from(ms))
                m = KINDS[4][1].match(ls[k])
                ls[k] = ' %d' % draw(st.one_of(st.integers(0, 30), st.just(int(m.group(1)) + 1), st.just(10 ** 12),
                                                      st.sampled_from((10, 100, 256, 1000, 2 ** 32)).map(int(m.group(1)).__add__))) + ls[k][m.end(1):]
        elif how == 5:
            ls.insert(j, draw(st.sampled_from(('\n', '   \n', 'bye\n', '# comment\n', ' 5 point match\n', ' Game 3\n', ' A : 0  B : 0\n',
                                              '  1) 31: 8/5 6/5\n', ' Wins 2 points\n', 'Game\n', ' A : 0\n', ') 31:\n', ' 1 31: 8/5\n', '1)\n',
                                              '\t1) 31: 8/5\n', ' Game one\n', ' x point match\n', '5 point match\n', '  5 point match\n'))))
        elif how == 6:
            ls[i] = draw(st.sampled_from('x#:)*?\t')) + ls[i]
        elif how == 7:
            k = draw(st.integers(0, len(ls[i])))
            ls[i] = ls[i][:k] + draw(st.sampled_from(' x1:)G')) + ls[i][k + 1:]
        else:
            k = draw(st.integers(0, 8))
            ls[i] = ls[i][k:]
    return ls


texts = st.one_of(records(), damaged()).map(''.join)


@st.composite
def limited(draw):
    t = draw(texts)
    return t, draw(st.one_of(st.none(), st.integers(1, len(t) + 5), st.just(max(1, len(t) - 1)), st.just(len(t) + 1)))


PARTS = [Part('record', limited(), record, 1500, 15000,
              rule='the record has a game and no result line out of place (such lines carry no order)'),
         Part('pair', st.tuples(texts, texts), pair, 300, 3000, rule='all')]
