import re
from hypothesis import strategies as st
from vf import Part, U
import doc

PROPERTY = 'C21'
ASSUMPTIONS = ['docutils and expat as installed in the Jython environment; texts hold characters allowed in XML only']


def wellformed(ctx, html, text):
    try:
        return doc.parse(html)
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s):\n%s\n--- from\n%r' % (e, html, text))


EMPTY = ('br', 'img', 'hr', 'col', 'area', 'base', 'input', 'link', 'meta', 'param')
TAG = re.compile(r'<(/?)([a-zA-Z][a-zA-Z0-9]*)\b[^<>]*?(/?)>')


def tags(ctx, html, text):
    """Elements that XHTML defines as empty are written as one tag, all others as two: what a browser reads as HTML is the same tree."""
    for m in TAG.finditer(html):
        if m.group(2) in EMPTY:
            ctx.check(not m.group(1) and m.group(3), lambda: '%s is not how an empty element is written:\n%s\n--- from\n%r' % (m.group(), html, text))
        else:
            ctx.check(not m.group(3), lambda: '%s is not the tag of an empty element:\n%s\n--- from\n%r' % (m.group(), html, text))


def page(ctx, text):
    html = ctx.ok('ops_doc', 'wiki', text)
    root = wellformed(ctx, html, text)
    tags(ctx, html, text)
    n = sum(1 for _ in root.iter()) if root is not None else 0
    if n < 4:
        ctx.trivial()
    ctx.label('elements %s' % ('0-3' if n < 4 else '4-9' if n < 10 else '10-29' if n < 30 else '30+'))


def unipage(ctx, text):
    page(ctx, U(text))


def twice(ctx, case):
    text, others = case
    r = ctx.ok('ops_doc', 'twice', text, list(others))
    for what, h in zip(('fed line by line among other work', 'after other work', 'asked for again'), r[1:]):
        ctx.check(h == r[0], 'the page %s differs\n%s\n---\n%s\n--- from\n%r %r' % (what, h, r[0], text, others))
    if len(text) < 4:
        ctx.trivial()


def deep(ctx, case):
    """Nesting far beyond what anybody writes."""
    unit, n, tail = case
    text = unit * n + tail
    html = ctx.ok('ops_doc', 'wiki', text)
    ctx.check(html.count('<') == html.count('>'), 'unbalanced tags')
    try:
        doc.parse(html)
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s): %r * %d + %r' % (e, unit, n, tail))
    ctx.label('depth %s' % ('<100' if n < 100 else '<1000' if n < 1000 else '1000+'))


NOSTAMP = [m for m in doc.PAGEMACROS if 'Timestamp' not in m]
# a piece may end in the middle of nothing but a line: \r and unicode line ends are not generated here
ALL = doc.soup(doc.SYMBOLS, doc.INLINE, doc.LINKS, doc.LINES, doc.LINES, doc.HOSTILE, doc.MACROS, NOSTAMP, doc.WORDS, max_size=25)
PARTS = [
    Part('soup', doc.ANYPAGE, page, 1300, 40000, rule='at least three elements'),
    Part('long', doc.LONG, page, 200, 6000, rule='at least three elements'),
    Part('chars', doc.CHARS, page, 700, 30000, rule='at least three elements'),
    Part('unicode', doc.soup(doc.SYMBOLS, doc.INLINE, doc.LINKS, doc.LINES, doc.BLOCKS, doc.HOSTILE, doc.MACROS, doc.UNI, doc.UNI, doc.WORDS),
         unipage, 500, 20000, rule='at least three elements'),
    Part('twice', st.tuples(ALL, st.lists(doc.SMALL, max_size=4)), twice, 400, 15000, rule='a text of four characters or more'),
    Part('deep', st.tuples(st.sampled_from(['{{{', ' ', '>', "'''{{{", '||', '[[BR]]', '{{{ a ', "''__~~", '=', ' * x\n  ', 'a\n\n', '{{{\n', '* ', '> ']),
                           st.one_of(st.integers(1, 60), st.integers(900, 3000)), st.sampled_from(['', '* x', ' x', '1. x', 'x::', '\n  y', '[[TableOfContent]]', '\n}}}\n'])),
         deep, 120, 2500, examples=[(' ', 3000, '* x'), ('>', 3000, ' x'), ('{{{', 3000, 'x')], rule='every case'),
]
