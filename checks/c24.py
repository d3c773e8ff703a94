import re
from urllib.parse import parse_qsl
from hypothesis import strategies as st
from vf import Part
import doc
from c23 import INLINE, render

PROPERTY = 'C24'
ASSUMPTIONS = ['macro.setup has been called with a data base; the data base returns rows of the documented form',
               'options of a position come in the order css, format, width, height']

CONTEXTS = [('', ''), ('kk ', ' kz'), ("'''kk ", " kz'''"), ("''kk '''kx ", " ky'''kz''"), (' * kk ', ' kz'), (' * kk\n  1. kx ', ' ky\n * kz'), ('||kk ', ' kz||'),
            ('= kk ', ' kz ='), ('> kk ', ' kz\n> kx'), ('k::\n  kk ', ' kz\n  kx'), ('k ', ' kx::\n  kz'), ('  kk ', ' kz'), ('kk\n\nkx ', ' ky\n\nkz'), ('{{{kk ', ' kx}}} kz'),
            ('&<"kk ', ' kz>&'), ('[wiki:Foo] ', ' http://a.b/?c&d')]


def formatted(ctx, text, db=None):
    html = ctx.ok('ops_doc', 'wiki', text, '/wiki/', db) if db is not None else ctx.ok('ops_doc', 'wiki', text)
    try:
        return doc.parse(html), html
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s):\n%s\n--- from\n%r' % (e, html, text))


def cut(root, wanted):
    """Takes the elements for which wanted holds out of the tree (their surroundings' texts join) and returns them."""
    out = []

    def go(e):
        prev = None
        for k in list(e):
            if wanted(k):
                out.append(k)
                if prev is None:
                    e.text = (e.text or '') + (k.tail or '')
                else:
                    prev.tail = (prev.tail or '') + (k.tail or '')
                k.tail = None
                e.remove(k)
            else:
                go(k)
                prev = k
    go(root)
    return out


def bare(root):
    """The tree without empty paragraphs, which show nothing."""
    t = doc.tree(root)
    return (t[0], t[1], tuple(c for c in t[2] if c != ('div', (), ())))


def rest_same(ctx, root, pre, post, html):
    ref, h = formatted(ctx, pre + post)
    ctx.check(bare(root) == bare(ref), lambda: 'around the macro the page reads\n%swithout it\n%s--- html\n%s' % (
        doc.show(doc.tree(root)), doc.show(doc.tree(ref)), html))


def is_error(e):
    return e.tag == 'span' and e.get('class') == 'error'


def error_note(ctx, root, html, name, args):
    notes = cut(root, is_error)
    ctx.check(len(notes) == 1 and len(notes[0]) == 0, lambda: 'expected one error note:\n%s' % html)
    t = notes[0].text or ''
    ctx.check(name in t and (args or 'None') in t, lambda: 'the note %r does not name %r and %r' % (t, name, args))
    ctx.label('error note')


# ------------------------------------------------------------------ positions
B64 = st.sampled_from('abcxyzABCXYZ0123456789+/')
ID = st.tuples(st.text(B64, min_size=14, max_size=14), st.text(B64, min_size=12, max_size=12)).map(':'.join)
PIXELS = st.one_of(st.integers(0, 4000).map(str), st.integers(0, 4000).map(str), st.integers(0, 10 ** 12).map(str), st.sampled_from(['007', '0400', '00']))
OPTS = (('css', st.text(st.sampled_from('abcZ'), min_size=1, max_size=6)), ('format', st.sampled_from(['png', 'gif', 'svg', 'PNG'])),
        ('width', PIXELS), ('height', PIXELS))
DEFAULTS = dict(css='minimal', format='png', width='400', height='300')
OPT = st.tuples(*[st.one_of(st.none(), st.tuples(s, st.integers(0, 2))) for n, s in OPTS])


def position_args(t):
    gid, opts, tail = t
    return gid + ''.join(',%s%s=%s' % (' ' * v[1], n, v[0]) for (n, s), v in zip(OPTS, opts) if v) + ' ' * tail


GOODARGS = st.tuples(ID, OPT, st.integers(0, 2)).map(position_args)
BADARGS = st.one_of(st.text(st.sampled_from('ab1Z+, .=/#:'), min_size=1, max_size=12),
                    st.tuples(GOODARGS, st.integers(0, 60), st.integers(0, 2), st.sampled_from(['', 'x', ' ', ',', '=', '.', ', x=1', '-'[:0], ', width=3', ', css=a'])).map(
                        lambda t: t[0][:t[1]] + t[3] + t[0][t[1] + t[2]:]).filter(bool))


def read_args(args):
    """The request, or None when the arguments are bad."""
    if not args:
        return None
    parts = args.rstrip(' ').split(',')
    if not re.match(doc.GNUBGID + r'\Z', parts[0], re.A):
        return None
    d = dict(DEFAULTS, gnubgid=parts[0])
    names = [n for n, s in OPTS]
    for p in parts[1:]:
        m = re.match(r' *(css|format|width|height)=(.*)\Z', p)
        if not m or m.group(1) not in names or not re.match(r'[0-9]+\Z' if m.group(1) in ('width', 'height') else r'[a-zA-Z]+\Z', m.group(2)):
            return None
        del names[:names.index(m.group(1)) + 1]
        d[m.group(1)] = m.group(2)
    return d


def position(ctx, case):
    (pre, post), args = case
    call = '[[Position%s]]' % ('(%s)' % args if args else '')
    root, html = formatted(ctx, pre + call + post)
    want = read_args(args)
    if want is None:
        error_note(ctx, root, html, 'Position', args)
    else:
        pos = cut(root, lambda e: e.tag == 'span' and e.get('class') == 'position')
        ctx.check(len(pos) == 1 and [e.tag for e in pos[0]] == ['img'] and not doc.squeeze(''.join(pos[0].itertext())), lambda: 'expected one picture:\n%s' % html)
        src = pos[0][0].get('src', '')
        ctx.check(src.startswith('/image?'), 'picture at %r' % src)
        got = parse_qsl(src[7:], keep_blank_values=True)
        ctx.eq(sorted(got), sorted(want.items()), 'request of %s' % call)
        ctx.label('picture')
    rest_same(ctx, root, pre, post, html)


# ------------------------------------------------------------------ other names
NAMES = st.one_of(st.sampled_from(['Foo', 'br', 'Br', 'position', 'TOC', 'Timestamps', 'a_b', '_', '12', 'None', 'Processor', 'dispatch', 'Positions', 'BRR']),
                  st.text(st.sampled_from('aBR_1'), min_size=1, max_size=6)).filter(lambda n: n not in ('BR',))
ARGS = st.one_of(st.none(), st.text(st.sampled_from('ab1Z+, .=/#:'), min_size=1, max_size=15))


def unknown(ctx, case):
    (pre, post), name, args = case
    call = '[[%s%s]]' % (name, '(%s)' % args if args else '')
    root, html = formatted(ctx, pre + call + post)
    error_note(ctx, root, html, name, args)
    rest_same(ctx, root, pre, post, html)


HOSTILE = st.one_of(st.sampled_from(['<b>', '&', '"', "'", '<', '>', ']]>', '</span>', 'a&lt;b', '<!--', '&amp;', '%s', '$args', '${name}', '\\', 'a<b>c</b>"d"', '&#65;', '&&&', '<' * 20]),
                    st.text(st.sampled_from('ab1 <>&"\'$%\\=,;#'), min_size=1, max_size=12))


def direct(ctx, case):
    """The macros called by a program: names and arguments no page could hold."""
    name, args = case
    html = ctx.ok('ops_doc', 'dispatch', name, args)
    try:
        root = doc.parse(html)
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s): %r' % (e, html))
    if name == 'BR':
        ctx.eq([e.tag for e in root.iter()][1:], ['br'], 'elements of %r' % html)
        return
    if name == 'Timestamp':
        ctx.eq([e.tag for e in root.iter()][1:], ['strong'], 'elements of %r' % html)
        return
    if name in ('Position', 'Analysis') and read_args(args):
        ctx.trivial()
        return
    error_note(ctx, root, html, name, args)
    ctx.eq(doc.squeeze(''.join(root.itertext())), '', 'text besides the note')


def br(ctx, case):
    (pre, post), args, n = case
    call = '[[BR%s]]' % ('(%s)' % args if args else '')
    root, html = formatted(ctx, pre + call * n + post)
    brs = cut(root, lambda e: e.tag == 'br')
    ctx.check(len(brs) == n and not any(b.attrib or b.text or len(b) for b in brs), lambda: '%d line breaks expected:\n%s' % (n, html))
    rest_same(ctx, root, pre, post, html)


def timestamp(ctx, case):
    pre, post = case
    a, html, b = ctx.ok('ops_doc', 'timestamp', pre + '[[Timestamp]]' + post)
    root = doc.parse(html)
    ts = cut(root, lambda e: e.tag == 'strong' and re.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?\Z', (e.text or '').strip()))
    ctx.check(len(ts) == 1 and a[:19] <= ts[0].text.strip()[:19] <= b[:19], lambda: 'no timestamp between %s and %s:\n%s' % (a, b, html))
    rest_same(ctx, root, pre, post, html)


# ------------------------------------------------------------------ analysis
def figure(ctx, text, value, digits, sign, what):
    m = re.match(r'[+-]%s\d+\.\d{%d}\Z' % ('' if sign else '?', digits), text)
    ctx.check(m and abs(float(text) - value) <= 0.5000001 * 10 ** -digits, lambda: '%s is %r, stored %r' % (what, text, value))


def rows_of(table):
    return [(tr.get('class'), [(c.tag, c.get('class'), c.get('rowspan'), c.get('colspan'), doc.squeeze(''.join(c.itertext()))) for c in tr]) for tr in table]


PROBS = ('Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg')
EQ = st.one_of(st.floats(-3, 3).map(lambda f: round(f, 4)), st.sampled_from([0.0, 1.0, -1.0, 0.0005, -0.0004, 12.34567, -100.0]))
PROB = st.one_of(st.floats(0, 1).map(lambda f: round(f, 4)), st.floats(0, 100).map(lambda f: round(f, 3)), st.sampled_from([0.0, 1.0, 100.0, 0.05, 0.25]))
PROBD = st.tuples(*[PROB] * 6).map(lambda t: dict(zip(PROBS, t)))
DIFF = st.one_of(st.none(), st.just(0.0), EQ)
MOVES = st.sampled_from(['13/7 8/7', '21/15(2) 13/7(2)', 'bar/24*/20', '6/off(2)', '8/2*(2)', 'Cannot move', ''])
ACTUAL = st.sampled_from([None, False, True])


def drop_none(d):
    return {k: v for k, v in d.items() if not (k == 'actual' and v is None)}


CUBE = st.tuples(st.tuples(st.integers(0, 4), EQ, EQ, PROBD).map(lambda t: dict(t[3], name='CubelessEquity', ply=t[0], cubeless=t[1], money=t[2])),
                 st.lists(st.tuples(st.integers(0, 3), EQ, DIFF, ACTUAL), max_size=4)).map(
    lambda t: [t[0]] + [drop_none(dict(nth=i + 1, action=r[0], name='x', equity=r[1], diff=r[2], actual=r[3])) for i, r in enumerate(t[1])])
CANDIDATE = st.tuples(MOVES, st.integers(0, 4), EQ, DIFF, ACTUAL, PROBD)
MOVE = st.one_of(*[st.lists(CANDIDATE, min_size=1, max_size=6)] * 7, st.tuples(st.lists(CANDIDATE, min_size=1, max_size=6), st.integers(2, 9)).map(lambda t: t[0] * t[1])).map(
    lambda t: [drop_none(dict(r[5], nth=i + 1, move=r[0], ply=r[1], equity=r[2], diff=r[3], actual=r[4], cubeful=True)) for i, r in enumerate(t)])
CUBEACTIONS = ('No double', 'Double, take', 'Double, pass', 'Too good to double')


def probs(ctx, cells, row, what):
    ctx.eq(len(cells), 6, 'figures of ' + what)
    for (tag, cls, rs, cs, text), k in zip(cells, PROBS):
        figure(ctx, text, row[k], 1, False, '%s of %s' % (k, what))


def row_class(row):
    return 'actualrow' if row.get('actual') else ('evenrow', 'oddrow')[row['nth'] % 2]


def cubeless(ctx, table, row):
    rs = rows_of(table)
    ctx.eq([r[0] for r in rs], ['headerrow', 'headerrow', 'oddrow', 'oddrow'], 'rows of the cubeless table')
    ctx.eq([c[4] for c in rs[0][1]], ['Ply', 'Cubeless Eq.'], 'header')
    ctx.eq([c[4] for c in rs[1][1]], list(PROBS), 'header')
    ctx.eq(rs[2][1][0][4], str(row['ply']), 'ply')
    m = re.match(r'(\S+) \(Money (\S+)\)\Z', rs[2][1][1][4])
    ctx.check(m and len(rs[2][1]) == 2, 'equities %r' % (rs[2],))
    figure(ctx, m.group(1), row['cubeless'], 3, True, 'cubeless equity')
    figure(ctx, m.group(2), row['money'], 3, True, 'money equity')
    probs(ctx, rs[3][1], row, 'the cubeless table')


def cubeaction(ctx, table, rows):
    rs = rows_of(table)
    ctx.eq([r[0] for r in rs], ['headerrow'] + [row_class(r) for r in rows], 'rows of the cube table')
    ctx.eq([c[4] for c in rs[0][1]], ['#', 'action', 'Cubeful Eq.'], 'header')
    for (cls, cells), row in zip(rs[1:], rows):
        ctx.eq([c[0] for c in cells], ['th', 'td', 'td', 'td'], 'cells')
        ctx.eq([c[4] for c in cells][:2], [str(row['nth']), CUBEACTIONS[row['action']]], 'cube action')
        figure(ctx, cells[2][4], row['equity'], 3, True, 'equity')
        if row['diff']:
            figure(ctx, cells[3][4], row['diff'], 3, True, 'difference')
        else:
            ctx.eq(cells[3][4], '', 'difference %r' % row['diff'])


def moves(ctx, table, rows):
    rs = rows_of(table)
    ctx.eq([r[0] for r in rs], ['headerrow'] * 2 + [row_class(r) for r in rows for _ in '12'], 'rows of the move table')
    ctx.eq([c[4] for c in rs[0][1]], ['#', 'move', 'Ply', 'Eq.(diff)'], 'header')
    ctx.eq([c[4] for c in rs[1][1]], list(PROBS), 'header')
    for i, row in enumerate(rows):
        cells = rs[2 + 2 * i][1]
        ctx.eq([c[4] for c in cells][:3], [str(row['nth']), row['move'], str(row['ply'])], 'move')
        m = re.match(r'(\S+)(?: \((\S+)\))?\Z', cells[3][4])
        ctx.check(m and len(cells) == 4, 'equity %r' % (cells,))
        figure(ctx, m.group(1), row['equity'], 3, True, 'equity')
        if row['diff']:
            ctx.check(m.group(2), 'no difference in %r, stored %r' % (cells[3][4], row['diff']))
            figure(ctx, m.group(2), row['diff'], 3, True, 'difference')
        else:
            ctx.eq(m.group(2), None, 'difference %r' % row['diff'])
        probs(ctx, rs[3 + 2 * i][1], row, 'move %d' % (i + 1))


ACONTEXTS = [c for c in CONTEXTS if c[0] in ('', 'kk ', ' * kk ', 'kk\n\nkx ', '&<"kk ')]


def analysis(ctx, case):
    (pre, post), stored, which, opts, bad = case
    db = [[list(k.split(':')), v] for k, v in stored]
    if bad:
        key = bad
    else:
        key = stored[which % len(stored)][0]
    args = position_args((key, opts, 0)) if not bad else bad
    call = '[[Analysis(%s)]]' % args
    root, html = formatted(ctx, pre + call + post, db)
    known = dict(stored)
    req = read_args(args)
    rows = known.get(req['gnubgid']) if req else None
    if rows is None:
        error_note(ctx, root, html, 'Analysis', args)
    else:
        tables = cut(root, lambda e: e.tag == 'table')
        if rows[0].get('name') == 'CubelessEquity':
            ctx.eq([t.get('class') for t in tables], ['cubeless', 'cubeaction'], 'tables')
            cubeless(ctx, tables[0], rows[0])
            cubeaction(ctx, tables[1], rows[1:])
            ctx.label('cube decision')
        else:
            ctx.eq([t.get('class') for t in tables], ['move'], 'tables')
            moves(ctx, tables[0], rows)
            ctx.label('%d moves' % len(rows))
    rest_same(ctx, root, pre, post, html)


# ------------------------------------------------------------------ table of contents
def begun(t):
    """Some headings begin with what is not plain text."""
    level, nodes, gap, cut = t
    return ('h', level, nodes[1:] if cut and len(nodes) > 1 and nodes[1][0] in ('style', 'link', 'br', 'bi') else nodes, gap)


HEAD = st.tuples(st.integers(1, 3), INLINE, st.sampled_from((' ', '', '')), st.booleans()).map(begun)
PARA = INLINE.map(lambda l: ('p', l))
TOC = st.sampled_from(CONTEXTS[:6] + CONTEXTS[8:12]).map(lambda c: ('toc', c))
SEP = st.sampled_from(['\n', '\n\n'])
FEW = st.lists(st.tuples(st.one_of(HEAD, HEAD, PARA), SEP), max_size=6)
MANY = st.tuples(FEW, st.integers(5, 24)).map(lambda t: t[0] * t[1])
TOCDOC = st.tuples(st.one_of(*[FEW] * 11, MANY), TOC, st.one_of(*[st.lists(st.tuples(st.one_of(HEAD, HEAD, PARA, TOC), SEP), max_size=6)] * 11, MANY))


def flat(nodes):
    return ''.join(n if isinstance(n, str) else flat(n[2]) for n in nodes)


def same_text(a, b, brk):
    """The text a reads as b was written: no blank is missing; the writer may add some around what it marks up, and around a line break they may come and go."""
    def gaps(s):
        out, n = set(), 0
        for w in s.split():
            out.add(n)
            n += len(w)
        return out
    return ''.join(a.split()) == ''.join(b.split()) and (brk or gaps(b) <= gaps(a))


def same_entries(a, b, brks):
    return len(a) == len(b) == len(brks) and all(x[0] == y[0] and same_text(x[1], y[1], k) and x[2:] == y[2:] for x, y, k in zip(a, b, brks))


def contents(ctx, case):
    before, toc, after = case
    src, plain, heads, brks, ntoc = '', '', [], [], 0
    for k, sep in before + [(toc, '\n\n')] + after:
        if k[0] == 'h':
            s, c = render(k[2])
            m = '=' * k[1]
            s = t = '%s%s%s %s' % (m, k[3], s, m)
            heads.append((k[1], flat(c)))
            brks.append('[[BR' in s)
        elif k[0] == 'p':
            s = t = render(k[1])[0]
        else:
            ntoc += 1
            s, t = '[[TableOfContent]]'.join(k[1]), ''.join(k[1])
            if 'toc' == k[0] and src and not src.endswith('\n\n'):
                src += '\n'
                plain += '\n'
            sep = '\n\n'
        src += s + sep
        plain += t + sep
    root, html = formatted(ctx, src)
    ols = []
    state = []

    def is_toc(e):
        # the only ordered lists not of the page itself hold nothing but anchors
        return e.tag == 'ol' and all(x.tag in ('ol', 'li', 'a') for x in e.iter()) and not any(
            x.tag == 'li' and [y.tag for y in x] != ['a'] for x in e.iter())
    tocs = cut(root, is_toc)
    hs = [e for e in root.iter() if e.tag in ('h1', 'h2', 'h3')]
    shown = [(int(e.tag[1]), ''.join(e.itertext())) for e in hs]
    ctx.check(same_entries(shown, heads, [True] * len(heads)), lambda: 'headings of the page %r, written %r\n%s\n%s' % (shown, heads, src, html))
    ids = [e.get('id') for e in hs]
    ctx.check(None not in ids and len(set(ids)) == len(ids), lambda: 'identifiers of headings %r in\n%s' % (ids, html))
    ctx.eq(len(tocs), ntoc, 'tables of contents in\n%s' % html)
    want = [(l, t, '#' + i) for (l, t), i in zip(heads, ids)]
    for t in tocs:
        got = []

        def go(e, level):
            for k in e:
                if k.tag == 'ol':
                    go(k, level + 1)
                elif k.tag == 'li':
                    a = k[0]
                    got.append((level, ''.join(k.itertext()), a.get('href')))
        go(t, 1)
        ctx.check(same_entries(got, want, brks), lambda: 'table of contents %r\nheadings %r\n%s' % (got, want, src))
    for e in hs:
        e.attrib.pop('id', None)
    ref, h = formatted(ctx, plain)
    ctx.check(bare(root) == bare(ref), lambda: 'besides the contents\n%swithout\n%s--- source\n%s' % (doc.show(doc.tree(root)), doc.show(doc.tree(ref)), src))
    ctx.label('%d headings' % len(heads), '%d tables' % ntoc)
    if not heads:
        ctx.trivial()


CTX = st.sampled_from(CONTEXTS)
KEYS = st.lists(ID, min_size=1, max_size=3, unique=True)
STORED = KEYS.flatmap(lambda ks: st.tuples(*[st.tuples(st.just(k), st.one_of(CUBE, MOVE)) for k in ks])).map(list)
PARTS = [
    Part('position', st.tuples(CTX, st.one_of(GOODARGS, GOODARGS, BADARGS, st.just(''))), position, 500, 15000, rule='every case'),
    Part('unknown', st.tuples(CTX, NAMES, ARGS), unknown, 500, 8000, rule='every case'),
    Part('direct', st.tuples(st.one_of(st.sampled_from(['Position', 'Analysis', 'BR', 'Timestamp']), NAMES, HOSTILE), st.one_of(st.none(), HOSTILE, HOSTILE, BADARGS)), direct, 250, 6000,
         rule='an error note, a line break or a time'),
    Part('br', st.tuples(CTX, ARGS, st.integers(1, 3)), br, 250, 4000, rule='every case'),
    Part('timestamp', CTX, timestamp, 30, 300, rule='every case'),
    Part('analysis', st.tuples(st.sampled_from(ACONTEXTS), STORED, st.integers(0, 5), OPT, st.one_of(st.just(''), st.just(''), st.just(''), ID, BADARGS)),
         analysis, 400, 12000, rule='every case'),
    Part('contents', TOCDOC, contents, 400, 12000, rule='a heading on the page'),
]
