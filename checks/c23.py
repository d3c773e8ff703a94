import re
from hypothesis import strategies as st
from vf import Part
import doc
from doc import E, joined

PROPERTY = 'C23'
ASSUMPTIONS = ['white space next to element boundaries is presentation and is not compared; an element inside another of the same inline '
               'style, a bold-italic marker when only one of the two is on, and list items of differing kinds in one list have no defined meaning']

# ------------------------------------------------------------------ inline content
STYLES = {'bold': ("'''", "'''", 'strong', None), 'italic': ("''", "''", 'i', None), 'underline': ('__', '__', 'span', 'underline'),
          'strike': ('~~', '~~', 'del', None), 'sub': (',,', ',,', 'sub', None), 'sup': ('^', '^', 'sup', None),
          'mono': ('`', '`', 'span', 'monospace'), 'mono2': ('{{{', '}}}', 'span', 'monospace')}
TEXT = st.lists(st.text(st.sampled_from('klnopqrstuwxyz<>&"\'.,;?'), max_size=5).map(lambda w: 'k' + re.sub("([,'])[,']+", r'\1', w) + 'k'),
                min_size=1, max_size=3).map(' '.join)
NUM = st.one_of(st.integers(0, 99999), st.integers(0, 99999), st.integers(0, 10 ** 18)).map(str)
URL = st.builds(lambda s, p: s + p, st.sampled_from(['http://', 'https://']), st.one_of(*[st.text(st.sampled_from('abzAZ09_~#=?./-&%'), min_size=1, max_size=12)] * 5, st.text(st.sampled_from('abzAZ09_~#=?./-&%'), min_size=40, max_size=160)))
NAME = st.one_of(*[st.text(st.sampled_from('abzABZ'), min_size=1, max_size=8)] * 5, st.text(st.sampled_from('abzABZ'), min_size=20, max_size=80))
CAMEL = st.lists(st.tuples(st.sampled_from('ABZ'), st.text(st.sampled_from('az09'), min_size=1, max_size=4)).map(''.join), min_size=2, max_size=9).map(''.join)
DISP = st.one_of(*[st.text(st.sampled_from('abz ABZ<>&"\'()19=|_^`!#{'), min_size=1, max_size=12)] * 5, st.text(st.sampled_from('abz ABZ<>&"\'()19=|_^`!#{'), min_size=40, max_size=120)).map(lambda s: 'k' + s)


def link(kind, v):
    """(source, element)"""
    if kind == 'entry':
        return '#' + v, E('a', ['#' + v], class_='entry', href='/entry/' + v, title='#' + v)
    if kind == 'entry2':
        return 'entry:' + v, E('a', ['entry:' + v], class_='entry', href='/entry/' + v, title='entry:' + v)
    if kind == 'query':
        return '{%s}' % v, E('a', ['{%s}' % v], class_='query', href='/query/' + v, title='{%s}' % v)
    if kind == 'query2':
        return 'query:' + v, E('a', ['query:' + v], class_='query', href='/query/' + v, title='query:' + v)
    if kind in ('match', 'match2', 'match3'):
        s = {'match': 'm%s', 'match2': '[%s]', 'match3': 'match:%s'}[kind] % v
        return s, E('a', [s], class_='match', href='/match/' + v, title='title')
    if kind == 'url':
        return v, E('a', [E('span', [v], class_='icon')], class_='ext-link', href=v, title='title')
    if kind == 'named':
        return '[%s %s]' % v, E('a', [E('span', [v[1]], class_='icon')], class_='ext-link', href=v[0], title=v[1])
    if kind == 'plain':
        return '[%s]' % v, E('a', [E('span', [v], class_='icon')], class_='ext-link', href=v, title=v)
    if kind == 'wiki':
        return '[wiki:%s]' % v, E('a', [v], class_='wiki-link', href='/wiki/' + v, title=v)
    if kind == 'camel':
        return v, E('a', [v], class_='wiki-link', href='/wiki/' + v, title=v)


LINK = st.one_of([st.tuples(st.just(k), NUM) for k in ('entry', 'entry2', 'query', 'query2', 'match', 'match2', 'match3')] +
                 [st.tuples(st.just('url'), URL), st.tuples(st.just('named'), st.tuples(URL, DISP)), st.tuples(st.just('plain'), URL),
                  st.tuples(st.just('wiki'), NAME), st.tuples(st.just('camel'), CAMEL)]).map(lambda t: ('link', t))
LEAF = st.one_of(LINK, LINK, st.just(('br',)), st.sampled_from(["'''", '__', '==', '||', '#12', 'CamelWord', '[5]', '`', '^']).map(lambda t: ('esc', t)))


def seq_of(node):
    """text (node text)*: markers never touch each other."""
    return st.tuples(TEXT, st.lists(st.tuples(node, TEXT), max_size=3)).map(lambda t: [('text', t[0])] + [x for n, x in t[1] for x in (n, ('text', x))])


def bared(t):
    """Some content begins or ends with what is not plain text."""
    nodes, first, last = t
    if first and len(nodes) > 1 and nodes[1][0] != 'esc':
        nodes = nodes[1:]
    if last and len(nodes) > 1:
        nodes = nodes[:-1]
    return nodes


def bare_of(s):
    return st.tuples(s, st.sampled_from((False, False, True)), st.sampled_from((False, False, True))).map(bared)


APART = ['underline', 'strike', 'sub', 'sup', 'mono']  # whose marks join with no other mark
INLINE = bare_of(st.recursive(seq_of(LEAF), lambda c: seq_of(st.one_of(LEAF, st.tuples(st.just('style'), st.sampled_from(sorted(STYLES)), c),
                                                                             st.tuples(st.just('style'), st.sampled_from(APART), bare_of(c)),
                                                                             st.tuples(st.just('bi'), c))), max_leaves=8))


def render(nodes, on=(), sep=' '):
    """(source, expected children); a style that is already on is not opened again but its content stands for it."""
    src, out = [], []
    for i, n in enumerate(nodes):
        if n[0] == 'text':
            t = n[1]
            if src and src[-1] is SPACE:
                t = ' ' + t
            if i + 1 < len(nodes) and nodes[i + 1][0] in ('link', 'esc'):
                t += ' '
            if src and src[-1] is SPACE:
                src.pop()
            src.append(t)
            out.append(t)
        elif n[0] == 'link':
            s, e = link(*n[1])
            src += [s, SPACE]
            out.append(e)
        elif n[0] == 'br':
            src.append('[[BR]]')
            out.append(E('br'))
        elif n[0] == 'esc':
            src += ['!' + n[1], SPACE]
            out.append(n[1])
        elif n[0] == 'style':
            a, z, tag, cls = STYLES[n[1]]
            kind = 'mono' if n[1] == 'mono2' else n[1]
            if kind in on:
                s, c = render(n[2], on)
                src.append(s)
                out += c
            else:
                s, c = render(n[2], on + (kind,))
                src += [a, s, z]
                out.append(E(tag, c, **({'class_': cls} if cls else {})))
        elif n[0] == 'bi':
            if 'bold' in on or 'italic' in on:
                s, c = render(n[1], on)
                src.append(s)
                out += c
            else:
                s, c = render(n[1], on + ('bold', 'italic'))
                src += ["'''''", s, "'''''"]
                out.append(E('strong', [E('i', c)]))
    return ''.join(' ' if x is SPACE else x for x in src), out


class _Space(object):
    pass


SPACE = _Space()

# ------------------------------------------------------------------ parts of a block


def paragraph(lines):
    src, out = [], []
    for l in lines:
        s, c = render(l)
        src.append(s)
        out += c + ['\n']
    return src, out


def heading(h):
    level, l = h
    s, c = render(l)
    m = '=' * level
    return ['%s %s %s' % (m, s, m)], [E('h%d' % level, c)]


def quote(lines):
    src, out = paragraph(lines)
    return ['  ' + s for s in src], [E('blockquote', [E('p', out)])]


def citation(lines):
    """p elements are left out of the comparison: where they begin and end is presentation."""
    src = []
    root = []
    stack = [root]
    for depth, l in lines:
        s, c = render(l)
        src.append('>' * depth + ' ' + s)
        while len(stack) - 1 > depth:
            stack.pop()
        while len(stack) - 1 < depth:
            new = []
            stack[-1].append(new)
            stack.append(new)
        stack[-1] += c + ['\n']

    def build(x):
        return [E('blockquote', build(y), class_='citation') if isinstance(y, list) else y for y in x]
    return src, build(root)


def table(rows):
    src, out = [], []
    for blanks, row in rows:
        cells = [render(c) if c else ('', []) for c in row]
        src.append('||' + ''.join(s + '||' for s, c in cells) + ' ' * blanks)
        out.append(E('tr', [E('td', c) for s, c in cells]))
    return src, [E('table', out, class_='wiki')]


MARKERS = {'star': ['*'], 'numeric': ['1.', '2.', '8', '3', '7.'], 'alpha': ['a.', 'b', 'h.', 'c'], 'roman': ['i.', 'v', 'ii.', 'iv', 'vii.', 'viii.', 'viiiii'],
           'sign': ['+', '++', '+++', '-', '--', '---']}
LISTTAG = {'star': ('ul', {}), 'numeric': ('ol', {}), 'alpha': ('ol', {'class_': 'loweralpha'}), 'roman': ('ol', {'class_': 'lowerroman'}),
           'sign': ('ul', {'class_': 'sign'})}
SIGN = {'+': 'plus', '++': 'doubleplus', '+++': 'tripleplus', '-': 'minus', '--': 'doubleminus', '---': 'tripleminus'}


def items(its):
    """its: (indent, kind, marker number, inline). A list has the kind of its first item."""
    src, root, stack = [], [], []

    class L(object):
        def __init__(self, kind):
            self.kind, self.items = kind, []

        def e(self):
            tag, at = LISTTAG[self.kind]
            return E(tag, [x.e() for x in self.items], **at)

    class I(object):
        def __init__(self, sign, children):
            self.sign, self.children = sign, children

        def e(self):
            return E('li', [x.e() if isinstance(x, L) else x for x in self.children], **({'class_': SIGN[self.sign]} if self.sign else {}))

    for indent, kind, k, l in its:
        while len(stack) > indent:
            stack.pop()
        while len(stack) < indent:
            new = L(kind if len(stack) + 1 == indent else 'star')
            if not stack:
                root.append(new)
            elif stack[-1].items and isinstance(stack[-1].items[-1], I):
                stack[-1].items[-1].children.append(new)
            else:  # nothing to be nested in
                stack[-1].items.append(new)
            stack.append(new)
        kind = stack[-1].kind
        m = MARKERS[kind][k % len(MARKERS[kind])]
        s, c = render(l)
        src.append(' ' * indent + m + ' ' + s)
        stack[-1].items.append(I(m if kind == 'sign' else None, c))
    return src, [x.e() for x in root]


def definition(defs):
    """[(term, [('text', line) | ('items', [...])])]"""
    src, out = [], []
    for term, body in defs:
        s, c = render(term)
        src.append(s + '::')
        out.append(E('dt', c))
        inner = []
        out.append(inner)
        for what, x in body:
            if what == 'plain':  # not indented: belongs to no definition, what comes after it to the next
                s, c = render(x)
                src.append(s)
                out += c + ['\n']
                inner = None
                continue
            if inner is None:
                inner = []
                out.append(inner)
            if what == 'text':
                s, c = render(x)
                src.append('  ' + s)
                inner += c + ['\n']
            else:
                s, c = items(x)
                src += s
                inner += c
    return src, [E('dl', [E('dd', x) if isinstance(x, list) else x for x in out])]


KINDS = dict(paragraph=paragraph, heading=heading, quote=quote, citation=citation, table=table, items=items, definition=definition)


def document(blocks):
    """A block is a list of (kind, content); blocks are separated by a blank line, preformatted ones stand alone."""
    src, out = [], []
    for b in blocks:
        lines, kids = [], []
        if b[0][0] == 'pre':
            lines = ['{{{'] + b[0][1] + ['}}}']
            src.append('\n'.join(lines))
            out.append(('pre', ''.join(l + '\n' for l in b[0][1])))
            continue
        for k, x in b:
            s, c = KINDS[k](x)
            lines += s
            kids += c
        src.append('\n'.join(lines))
        out.append(E('div', kids))
    return '\n\n'.join(src), out


# ------------------------------------------------------------------ generators


def mostly(a, b):
    return st.integers(0, 5).flatmap(lambda k: a if k else b)


BRIEF = st.text(st.sampled_from('kz&'), max_size=3).map(lambda w: [('text', 'k' + w)])
LINES = mostly(st.lists(INLINE, min_size=1, max_size=3), st.lists(BRIEF, min_size=4, max_size=12))
KIND = st.sampled_from(sorted(MARKERS))
DEPTH = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(1, 12))
ITEM = st.tuples(DEPTH, KIND, st.integers(0, 9), INLINE)


def tidy(its):
    """Indentation mostly grows one by one."""
    out, d = [], 0
    for jump, (ind, kind, k, l) in its:
        d = ind if jump else min(ind, d + 1)
        out.append((d, kind, k, l))
    return out


ITEMS = st.lists(st.tuples(st.sampled_from([False] * 7 + [True]), ITEM), min_size=1, max_size=7).map(tidy)
MANY = st.lists(st.tuples(st.sampled_from([False] * 7 + [True]), st.tuples(DEPTH, KIND, st.integers(0, 9), BRIEF)), min_size=8, max_size=25).map(tidy)
CITATION = st.lists(st.tuples(DEPTH, INLINE), min_size=1, max_size=5)
TABLE = mostly(st.lists(st.tuples(st.sampled_from((0, 0, 0, 1, 3)), st.lists(st.one_of(INLINE, INLINE, INLINE, st.just([])), min_size=1, max_size=4)), min_size=1, max_size=4),
               st.lists(st.tuples(st.just(0), st.lists(st.one_of(BRIEF, st.just([])), min_size=1, max_size=12)), min_size=1, max_size=10))
BODY = st.tuples(st.lists(INLINE, max_size=2), st.one_of(st.none(), ITEMS), st.lists(INLINE, max_size=2)).map(
    lambda t: [('text', x) for x in t[0]] + ([('items', t[1])] if t[1] else []) + ([('text', x) for x in t[2]] if t[1] else []))
PLAINBODY = st.tuples(st.lists(INLINE, max_size=2), INLINE, st.lists(INLINE, min_size=1, max_size=2)).map(
    lambda t: [('text', x) for x in t[0]] + [('plain', t[1])] + [('text', x) for x in t[2]])
DEFS = st.lists(st.tuples(INLINE, st.one_of(BODY, BODY, PLAINBODY)), min_size=1, max_size=3)
CLOSED = st.one_of(st.tuples(st.just('paragraph'), LINES), st.tuples(st.just('heading'), st.tuples(st.integers(1, 3), INLINE)),
                   st.tuples(st.just('quote'), LINES), st.tuples(st.just('citation'), CITATION))
LAST = st.one_of(st.tuples(st.just('items'), ITEMS), st.tuples(st.just('table'), TABLE), st.tuples(st.just('definition'), DEFS))
SOURCE = st.lists(st.sampled_from(['', 'x', '  y', ' * z', "'''", '<b>', '&amp;', '= h =', '||a||', '#!x y', '}}} ', '{{{', '[[BR]]']), max_size=4)


def block(t):
    parts, last = t
    if last and parts and last[0] == 'items' and parts[-1][0] == 'quote':
        parts = parts[:-1]  # would go on inside the quote
    out = []
    for p in parts:
        # two quotes or citations in a row are one
        if out and out[-1][0] == p[0] and p[0] in ('quote', 'citation'):
            continue
        out.append(p)
    return out + ([last] if last else [])


BLOCK = st.tuples(st.lists(CLOSED, max_size=3), st.one_of(st.none(), LAST)).map(block).filter(bool)
PRE = st.tuples(st.just('pre'), SOURCE).map(lambda p: [p])
DOCUMENT = st.lists(st.one_of(BLOCK, BLOCK, BLOCK, PRE), min_size=1, max_size=4)


def strip_p(t):
    """Elements p of citations spliced."""
    if isinstance(t, str):
        return t
    kids = []
    for c in t[2]:
        c = strip_p(c)
        if not isinstance(c, str) and c[0] == 'p' and t[0] == 'blockquote' and t[1]:
            kids += list(c[2])
        elif not isinstance(c, str) and c[0] == 'blockquote' and t[0] == 'p' and c[1]:
            kids.append(c)
        else:
            kids.append(c)
    return (t[0], t[1], respaced(kids))


def respaced(kids):
    out = []
    for c in kids:
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += ' ' + c
        else:
            out.append(c)
    return tuple(out)


def depth(t):
    return 0 if isinstance(t, str) else 1 + max([depth(c) for c in t[2]] or [0])


def formatted(ctx, text):
    html = ctx.ok('ops_doc', 'wiki', text)
    try:
        return doc.parse(html), html
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s):\n%s\n--- from\n%r' % (e, html, text))


def grammar(ctx, blocks):
    text, want = document(blocks)
    root, html = formatted(ctx, text)
    got = []
    for e in root:
        if e.tag == 'pre':
            got.append(('pre', ''.join(e.itertext())))
        elif e.tag == 'div' and len(e) == 0 and not doc.squeeze(e.text):
            continue  # an empty paragraph shows nothing
        else:
            got.append(strip_p(doc.tree(e)))
    ctx.check(got == want, lambda: 'source\n%s\n--- gives\n%s--- expected\n%s--- html\n%s' % (
        text, ''.join(doc.show(g) if g[0] != 'pre' else repr(g) + '\n' for g in got),
        ''.join(doc.show(g) if g[0] != 'pre' else repr(g) + '\n' for g in want), html))
    for b in blocks:
        for k in b:
            ctx.label(k[0])
    ctx.label('depth %d' % max(depth(w) if w[0] != 'pre' else 1 for w in want))


def paths(ctx, case):
    """Links to pages begin with the path the formatter was made with."""
    path, names = case
    text = ' k '.join(['k'] + [n if camel else '[wiki:%s]' % n for camel, n in names])
    html = ctx.ok('ops_doc', 'wiki', text, path)
    try:
        got = [(a.get('class'), a.get('href'), doc.squeeze(a.text)) for a in doc.parse(html).iter('a')]
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s): %r' % (e, html))
    ctx.eq(got, [('wiki-link', (path or '/') + n, n) for _, n in names], 'links of %r with the path %r' % (text, path))


# ------------------------------------------------------------------ what only resembles markup
LOW, UP, DIG = "bz09", "ABZ", st.text(st.sampled_from('0129'), min_size=1, max_size=6)
NEAR = st.one_of(
    # one capital, or capitals with nothing between them, or a last capital that stands alone
    st.builds(lambda a, b: a + b, st.sampled_from(UP), st.text(st.sampled_from(LOW), min_size=1, max_size=5)),
    st.builds(lambda a, b, c: a + b + c, st.sampled_from(UP), st.text(st.sampled_from(LOW), min_size=1, max_size=5), st.text(st.sampled_from(UP), min_size=1, max_size=2)),
    st.text(st.sampled_from(UP), min_size=1, max_size=6),
    st.builds(lambda a, b, c: a + b + c, st.text(st.sampled_from('bz'), min_size=1, max_size=3), st.sampled_from(UP), st.text(st.sampled_from(LOW), min_size=1, max_size=3)),
    st.builds(lambda a, b: '%s-%s' % (a, b), *[st.builds(lambda a, b: a + b, st.sampled_from(UP), st.text(st.sampled_from(LOW), min_size=1, max_size=3))] * 2),
    # a link without its number, or with something that is no number
    st.sampled_from(['entry', 'query', 'match', 'entry:', 'query:', 'match:', '#', 'm', '{', '}', '[', ']', '{}', '[]', 'http:', 'http:/a', 'ftp:/a', 'https:a', '//a', 'wiki:', 'wiki:Ab', '[wiki:', '[wiki:]']),
    st.builds(lambda k, a: k % a, st.sampled_from(['#%s', 'entry:%s', 'query:%s', 'match:%s', '{%s}', '[%s]', 'm%s']), st.text(st.sampled_from('kqx'), min_size=1, max_size=4)),
    st.builds(lambda k, n: k % n, st.sampled_from(['entry%s', 'query%s', 'match%s', '{%sk}', '[%sk]', '[k%s]', '{k%s}', '[-%s]', '{.%s}', 'n%s', 'e%s', '{%s]', '[%s}', '{%s', '[%s', '[wiki:%s]', 'entry.%s', '#-%s', 'm:%s', 'query;%s']), DIG),
    st.builds(lambda k, n: k % n, st.sampled_from(['[wiki;%s]', '[viki:%s]', '[wik:%s]', '[http:%s]', '[httpx://%s]', 'htp://%s', 'http;//%s', 'http:/%s']), st.sampled_from(['a', 'ab', 'q'])),
    # half a marker
    st.sampled_from(["'", '_', '~', ',', '{{', '}}', '|', ':', '{', '}', ']]', '[[', '[[]]', '[[k l]]', '[BR]', '[[k', '[[k]', '[[k(]]', '[[k)]]', '[[-k]]']))


def plain(ctx, case):
    """(text, near miss)*: nothing but a paragraph of text."""
    text = ' '.join('%s %s k' % (t, n) for t, n in case)
    root, html = formatted(ctx, text)
    tags = [e.tag for r in root for e in r.iter()]
    ctx.check(set(tags) <= {'p', 'div'}, lambda: '%r became the elements %r: %r' % (text, tags, html))
    got = doc.squeeze(' '.join(''.join(r.itertext()) for r in root))
    ctx.eq(got, doc.squeeze(text), 'text that denotes no construct')


# ------------------------------------------------------------------ markers in any order
TOGGLE = [k for k in sorted(STYLES) if k != 'mono2']


def toggles(ctx, case):
    """text (marker text)*: a marker whose style is on ends it and what was begun within, otherwise begins it."""
    first, rest = case
    text = first + ''.join(m + t for m, t in rest)
    root = [first]
    stack = [('div', None, root)]

    def enter(kind):
        new = []
        a, z, tag, cls = STYLES[kind]
        stack[-1][2].append((tag, cls, new))
        stack.append((kind, None, new))

    def leave(kind):
        if kind in [s[0] for s in stack]:
            while stack.pop()[0] != kind:
                pass

    for m, t in rest:
        on = [s[0] for s in stack]
        if m == "'''''":
            if ('bold' in on) != ('italic' in on):
                ctx.trivial()
                ctx.label('not judged')
                return
            if 'bold' in on:
                leave('bold')
                leave('italic')
            else:
                enter('bold')
                enter('italic')
        elif m == '{{{':
            if 'mono' in on:
                ctx.trivial()
                ctx.label('not judged')
                return
            enter('mono')
        elif m == '}}}':
            leave('mono')
        else:
            kind = [k for k in TOGGLE if STYLES[k][0] == m][0]
            (leave if kind in on else enter)(kind)
        stack[-1][2].append(t)

    def build(kids):
        return [k if isinstance(k, str) else E(k[0], build(k[2]), **({'class_': k[1]} if k[1] else {})) for k in kids]
    want = E('div', build(root))
    tr, html = formatted(ctx, text)
    got = doc.tree(tr)[2]
    ctx.check(got == (want,), lambda: '%r gives\n%s\nexpected\n%s' % (text, ''.join(map(doc.show, got)), doc.show(want)))
    ctx.label('depth %d' % (depth(want) - 1))
    if not rest:
        ctx.trivial()


MARK = st.sampled_from([STYLES[k][0] for k in TOGGLE] + ['{{{', '}}}', "'''''", "'''", "''"])
SHORT = st.text(st.sampled_from('kxyz'), min_size=1, max_size=3)


# ------------------------------------------------------------------ blocks are independent
def blocks(ctx, texts):
    """Any texts, separated by a blank line: the page is that of the texts one after the other."""
    texts = [t if doc.split(t)[-1:] == [] or doc.split(t)[-1][0] == 'text' or doc.split(t)[-1][3] else t + '\n}}}' for t in texts]
    texts = [t.rstrip('\n') for t in texts]
    text = '\n\n'.join(texts)
    one, html = formatted(ctx, text)
    each = []
    for t in texts:
        each += [doc.tree(e) for e in formatted(ctx, t)[0]]
    got = [doc.tree(e) for e in one]
    empty = ('div', (), ())
    got, each = [g for g in got if g != empty], [g for g in each if g != empty]
    ctx.check(got == each, lambda: '%r\ntogether\n%sone by one\n%s' % (texts, ''.join(map(doc.show, got)), ''.join(map(doc.show, each))))
    if len(each) < 2:
        ctx.trivial()
    ctx.label('%d elements' % min(len(each), 5))


TEXTS = doc.soup(doc.SYMBOLS, doc.INLINE, doc.LINKS, doc.LINES, doc.MACROS, [b for b in doc.BLOCKS if 'rst' not in b], doc.WORDS, doc.WORDS, min_size=1, max_size=14)

PARTS = [
    Part('grammar', DOCUMENT, grammar, 1200, 40000, rule='every document'),
    Part('lists', mostly(ITEMS, MANY).map(lambda i: [[('items', i)]]), grammar, 300, 8000, rule='every list'),
    Part('paths', st.tuples(st.one_of(st.sampled_from(['/', '/wiki/', 'http://a.b/?x=1&page=', '', None, '/a/b', '../', '/w//']),
                                      st.text(st.sampled_from('ab/?=&.-#+%'), max_size=12).map(lambda t: '/' + t)),
                            st.lists(st.one_of(st.tuples(st.just(False), NAME), st.tuples(st.just(True), CAMEL)), min_size=1, max_size=3)),
         paths, 150, 3000, rule='all'),
    Part('plain', st.lists(st.tuples(st.text(st.sampled_from('klop'), max_size=4).map(lambda w: 'k' + w), NEAR), min_size=1, max_size=5), plain, 250, 6000, rule='all'),
    Part('toggles', st.tuples(SHORT, st.lists(st.tuples(MARK, SHORT), max_size=10)), toggles, 800, 20000, rule='at least one marker, meaning defined'),
    Part('blocks', st.lists(TEXTS, min_size=2, max_size=4), blocks, 500, 20000, rule='two elements or more on the page'),
]
