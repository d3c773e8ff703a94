import html as pyhtml
import re
from xml.parsers import expat
from hypothesis import strategies as st
from vf import Part, U
import doc

PROPERTY = 'C25'
ASSUMPTIONS = ['fragments consist of US-ASCII, use only the five XML entities and character references, and hold no html or body tags (the validator '
               'wraps them in those)', 'white space at either end of a text and line breaks are presentation and may be ignored by the comparison']

TEXT = st.text(st.sampled_from('<>&"\'?;#amplgtqu x1\n!'), max_size=20)
# now and then the same over and over
TEXT = st.one_of(*[TEXT] * 8, st.tuples(TEXT, st.integers(2, 400), TEXT).map(lambda t: t[0] * t[1] + t[2]))


def escaping(ctx, s):
    e = ctx.ok('ops_doc', 'escape', U(s) if any(ord(c) > 127 for c in s) else s)
    ctx.check('<' not in e and '>' not in e, 'escape(%r) = %r holds an angle bracket' % (s, e))
    ctx.check(all(re.match(r'&(amp|lt|gt|quot|#\d+|#x[0-9a-fA-F]+);', e[m.start():]) for m in re.finditer('&', e)), 'escape(%r) = %r holds a raw ampersand' % (s, e))
    ctx.eq(pyhtml.unescape(e), s, 'unescape(escape(%r)) by way of %r' % (s, e))
    try:
        ctx.eq(''.join(doc.parse(e).itertext()), s.replace('\r\n', '\n').replace('\r', '\n'), 'escape(%r) read as XML' % s)
    except doc.Malformed as x:
        ctx.fail('escape(%r) = %r is not well-formed: %s' % (s, e, x))
    if e == s:
        ctx.trivial()


# ------------------------------------------------------------------ fragments
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
TAG = st.one_of(st.sampled_from(['p', 'b', 'div', 'a', 'li', 'td', 'h1', 'x1']), st.sampled_from(['p', 'b', 'div', 'a', 'li', 'td', 'h1', 'x1']),
                st.builds(lambda a, b: a + b, st.sampled_from(ALNUM[:52]), st.text(st.sampled_from(ALNUM), max_size=3)))
NAMES = st.sampled_from(['class', 'href', 'title', 'id', 'src', 'alt', 'style', 'name', 'colspan', 'rel'])
NAME = st.one_of(NAMES, NAMES, st.builds(lambda a, b: a + b, st.sampled_from(ALNUM[:52] + ':_'), st.text(st.sampled_from(ALNUM + ':_.-'), max_size=5)))
VALUE = st.one_of(st.sampled_from(['wiki', 'ext-link', 'http://a.b/c', '/entry/12', 'a b', '/image?x=1&y=2', "Nori's", '<b>', '"', '', 'a_b', '#f0', '100%',
                                   '&lt;', 'x=1', "a/b"]), st.text(st.sampled_from('ab12 _-.:;/?=&<>"\'#%+()'), max_size=8),
                  st.tuples(st.sampled_from(['a', 'ab ', '"', '&', '<b']), st.integers(20, 400), st.text(st.sampled_from('ab1'), max_size=3)).map(lambda t: t[0] * t[1] + t[2]))
WORDS = st.one_of(st.sampled_from(['', 'foo', 'bar', 'a b', '<', '&', 'lt;', '&lt;', 'amp;', '>', 'a&b', 'x<y>z', '"', 'b', '/b', 'b class="wiki"']),
                  st.text(st.sampled_from('ab <>&;lt/"='), max_size=6))
# (text, [(tag, {attributes}, content, tail)])
ATTRS = st.lists(st.tuples(NAME, VALUE), max_size=4, unique_by=lambda t: t[0]) | st.lists(st.tuples(NAME, VALUE), min_size=5, max_size=16, unique_by=lambda t: t[0])
CONTENT = st.recursive(st.tuples(WORDS, st.just([])),
                       lambda c: st.tuples(WORDS, st.lists(st.tuples(TAG, ATTRS, c, WORDS), max_size=3)), max_leaves=7)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def write(c, brk='', order=0, single=True):
    out = [esc(c[0])]
    for tag, attrs, inner, tail in c[1]:
        attrs = attrs[::-1] if order == 1 else attrs[order:] + attrs[:order]
        a = ''.join(' %s="%s"' % (k, esc(v).replace('"', '&quot;')) for k, v in attrs)
        if single and inner == ('', []) and tag == 'x1':
            out.append('<%s%s />' % ('br', a))
        else:
            out.append('<%s%s>%s%s%s</%s>' % (tag, a, brk, write(inner, brk, order, single), brk if inner[1] else '', tag))
        out.append(brk + esc(tail))
    return ''.join(out)


def meaning(c):
    """What the comparison is to tell apart."""
    return (c[0].strip(), tuple((t, tuple(sorted(a)), meaning(i), tail.strip()) for t, a, i, tail in c[1]))


def same(ctx, case):
    c, brk, order = case
    a, b = write(c), write(c, brk, order)
    d = ctx.ok('ops_doc', 'differences', a, b)
    ctx.eq(d, [0, 0], 'number of differences of\n%r\n%r' % (a, b))
    ctx.eq(ctx.ok('ops_doc', 'differences', a, a), [0, 0], 'differences of %r and itself' % a)
    if a == b:
        ctx.trivial()


def paths(c, at=()):
    yield at, c
    for i, k in enumerate(c[1]):
        yield from paths(k[2], at + (i,))


def tweak(s, where, ch):
    '''One letter more, less or other; blanks are doubled more often than not.'''
    blanks = [m.start() for m in re.finditer(' ', s.rstrip()) if m.start()]
    if blanks and where % 3:
        k = blanks[where % len(blanks)]
        return s[:k] + ' ' + s[k:]
    k = where % (len(s) + 1)
    return s[:k] + ch + s[k + where // 7 % 2:]


def change(c, how, where, what):
    """One change of the tree."""
    ps = [p for p, k in paths(c)]
    at = ps[where % len(ps)]

    def go(c, at):
        if at:
            kids = list(c[1])
            t, a, i, tail = kids[at[0]]
            kids[at[0]] = (t, a, go(i, at[1:]), tail)
            return (c[0], kids)
        if how == 'text':
            return (what[0], c[1])
        if how == 'letter':
            return (tweak(c[0], where, what[3]), c[1])
        kids = list(c[1])
        if how == 'insert':
            k = where % (len(kids) + 1)
            return (c[0], kids[:k] + [(what[1], [], ('', []), '')] + kids[k:])
        if not kids:
            return (what[0], c[1])
        k = where % len(kids)
        t, a, i, tail = kids[k]
        if how == 'tag':
            kids[k] = (what[1], a, i, tail)
        elif how == 'tag case':
            kids[k] = (t.swapcase(), a, i, tail)
        elif how == 'name case' and a:
            j = where % len(a)
            kids[k] = (t, a[:j] + [(a[j][0].swapcase(), a[j][1])] + a[j + 1:], i, tail)
        elif how == 'name letter' and a:
            j = where % len(a)
            kids[k] = (t, a[:j] + [(a[j][0] + 'xX9_'[where % 4], a[j][1])] + a[j + 1:], i, tail)
        elif how == 'tail letter':
            kids[k] = (t, a, i, tweak(tail, where, what[3]))
        elif how == 'value letter' and a:
            j = where % len(a)
            kids[k] = (t, a[:j] + [(a[j][0], tweak(a[j][1], where, what[3]))] + a[j + 1:], i, tail)
        elif how == 'tail':
            kids[k] = (t, a, i, what[0])
        elif how == 'value':
            if a:
                j = where % len(a)
                kids[k] = (t, a[:j] + [(a[j][0], what[2])] + a[j + 1:], i, tail)
            else:
                kids[k] = (t, [('class', what[2])], i, tail)
        elif how == 'drop':
            kids[k] = (t, a[1:], i, tail) if a else (t, [('id', what[2])], i, tail)
        elif how == 'remove':
            del kids[k]
        elif how == 'unwrap':
            kids[k:k + 1] = i[1]
        elif how == 'swap':
            kids = kids[1:] + kids[:1]
        return (c[0], kids)
    return go(c, at)


def differ(ctx, case):
    c, how, where, what, order = case
    d = change(c, how, where, what)
    a, b = write(c, single=False), write(d, '', order, single=False)
    n = ctx.ok('ops_doc', 'differences', a, b)
    if meaning(c) == meaning(d) or any(len(set(n for n, v in k[1])) < len(k[1]) for p, x in paths(d) for k in x[1]):
        ctx.trivial()
    else:
        ctx.label(how)
        ctx.check(n[0] > 0 and n[1] > 0, lambda: 'no difference (%r) reported (%s) between\n%r\n%r' % (n, how, a, b))


def report(ctx, case):
    """Every one of several changes is in what is reported."""
    items, edits = case
    old, new, marks = [], [], []
    for n, (tag, attr, text) in enumerate(items):
        e = edits.get(n)
        plain = '<%s class="%s">%s</%s>' % (tag, attr, text, tag)
        if e is None:
            old.append(plain)
            new.append(plain)
            continue
        m = 'zq%dk' % n
        marks.append(m)
        marked = '<%s class="%s">%s</%s>' % ((tag, attr, m, tag) if e in ('text', 'more') else (tag, m, text, tag))
        old.append('' if e.startswith('more') else plain)
        new.append(marked)
    a, b = ''.join(old), ''.join(new)
    for side, r in zip(('old, new', 'new, old'), ctx.ok('ops_doc', 'report', a, b)):
        for m in marks:
            ctx.check(m in r, lambda: 'the difference %r is not in the report (%s) %s\n%s\n%s' % (m, side, r[:2000], a, b))
    if len(marks) < 2:
        ctx.trivial()
    ctx.label('%s items' % ('1-9' if len(items) < 10 else '10-99' if len(items) < 100 else '100+'))


@st.composite
def edited(draw):
    items = draw(st.lists(st.tuples(st.sampled_from(('p', 'b', 'td')), st.sampled_from(('wiki', 'a')), st.sampled_from(('one', 'two', 'three', '4'))), min_size=1, max_size=12))
    items = items * draw(st.sampled_from((1, 1, 1, 3, 25)))
    at = draw(st.lists(st.integers(0, len(items) - 1), min_size=1, max_size=9))
    return items, dict((i, draw(st.sampled_from(('text', 'value', 'more', 'more value')))) for i in at)


# ------------------------------------------------------------------ validator
def judge(fragment):
    p = expat.ParserCreate()
    try:
        p.Parse('<r>' + fragment + '</r>', True)
    except expat.ExpatError:
        return False
    return True


def validate(ctx, s):
    if re.search(r'&(?!(?:amp|lt|gt|quot|apos);)[a-zA-Z_:]', s):
        ctx.trivial()
        ctx.label('other entity')
        return
    good = judge(s)
    got = ctx.ok('ops_doc', 'valid', s)
    ctx.check(got is good, '%r is %swell-formed, validate %s it' % (s, '' if good else 'not ', 'accepts' if got else 'rejects'))
    ctx.label('well-formed' if good else 'malformed')
    if '<' not in s and '&' not in s:
        ctx.trivial()


PIECES = st.sampled_from(['<p>', '</p>', '<b>', '</b>', '<br />', '<br/>', '<p class="a">', "<p class='a'>", '<p class=a>', '<p class="a" class="b">',
                          '<p class="<">', '<p a="&amp;">', '<p a="&">', '&lt;', '&amp;', '&', '&x', '&#65;', '&#0;', '<', '>', 'a', ' ', '\n', '"', ']]>',
                          '<!-- c -->', '<!-- -- -->', '<![CDATA[<]]>', '<?x y?>', '<P>', '</ p>', '< p>', '</p >', '<p', '<p >', '<1>', '<a:b/>', 'p>', '<p class>'])


def mangled(t):
    c, cuts = t
    s = write(c)
    for where, n, ins in cuts:
        k = where % (len(s) + 1)
        s = s[:k] + ins + s[k + n:]
    return s


FRAGMENT = st.one_of(CONTENT.map(write), CONTENT.map(lambda c: write(c, '\n')),
                     st.tuples(CONTENT, st.lists(st.tuples(st.integers(0, 200), st.integers(0, 3), st.sampled_from(['', '', '<', '>', '&', '"', '/', 'x', '</p>'])),
                                                 min_size=1, max_size=2)).map(mangled),
                     st.lists(PIECES, max_size=8).map(''.join))
# one element with many attributes
NAMED = st.tuples(NAME, VALUE)
ONE = st.tuples(WORDS, TAG, st.one_of(*[st.lists(NAMED, min_size=1, max_size=24, unique_by=lambda t: t[0])] * 4,
                                      st.tuples(st.integers(18, 60), NAMED).map(lambda t: [('a%d' % i if i % 3 else 'b%d:' % i, str(i)) for i in range(t[0])] + [t[1]])), WORDS).map(lambda t: (t[0], [(t[1], t[2], ('', []), t[3])]))
HOW = st.sampled_from(['tag case', 'name case', 'name letter', 'text', 'insert', 'tag', 'tail', 'value', 'letter', 'letter', 'tail letter', 'value letter', 'drop', 'remove', 'unwrap', 'swap'])
PARTS = [
    Part('escape', TEXT, escaping, 800, 30000, rule='something is escaped'),
    Part('unicode', st.text(st.sampled_from('<>&"\u00e9\u65e5?a'), max_size=10), escaping, 100, 2000, rule='something is escaped'),
    Part('same', st.tuples(CONTENT, st.sampled_from(['', '\n', '\n\n']), st.integers(0, 3)), same, 700, 30000, rule='the two texts differ'),
    Part('differ', st.tuples(CONTENT, HOW, st.integers(0, 40), st.tuples(WORDS, TAG, VALUE, st.sampled_from('ab <>&1')), st.integers(0, 2)), differ, 1500, 50000, rule='the two documents differ'),
    Part('attributes', st.tuples(ONE, st.sampled_from(['value', 'value letter', 'name case', 'name letter', 'value letter']), st.integers(0, 200), st.tuples(WORDS, TAG, VALUE, st.sampled_from('ab <>&1')),
                                 st.integers(0, 2)), differ, 300, 8000, rule='the two documents differ'),
    Part('report', edited(), report, 300, 8000, rule='two changes or more'),
    Part('validate', FRAGMENT, validate, 1500, 50000, rule='some markup'),
]
