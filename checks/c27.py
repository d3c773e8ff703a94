import re
from hypothesis import strategies as st
from vf import Part, U
import doc

PROPERTY = 'C27'
CALL_TIMEOUT = 120.0
ASSUMPTIONS = ['docutils and markdown as installed in the Jython environment decide what reStructuredText and Markdown mean',
               'raw HTML inside Markdown is passed on by design and not judged', 'a wiki text is cut at line ends only, as its formatter works line by line']


def parsed(ctx, html, src):
    try:
        return doc.parse(html)
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s):\n%s\n--- from\n%r' % (e, html, src))


EMPTY = ('div', (), ())


def trees(ctx, html, src):
    return [t for t in (doc.tree(e) for e in parsed(ctx, html, src)) if t != EMPTY]


RST = ['Title\n=====\n', 'Sub\n---\n', '* a\n', '* b\n\n', '1. c\n', '- d\n  e\n', '``lit``', '*em*', '**strong**', '`link <http://a.b/>`_', 'http://a.b/?c&d',
       'ref_', '.. _ref: http://x/\n', '|sub|', '.. |sub| replace:: text\n', '::\n\n  code <x>\n\n', 'para & <b>\n\n', '.. note:: hey\n', '.. raw:: html\n\n   <script>\n\n',
       '.. include:: /etc/hostname\n', ':role:`x`', ':raw-html:`<b>`', '.. role:: raw-html(raw)\n   :format: html\n', '.. image:: a"b.png\n   :alt: "<\n', '=== ===\na   b\n=== ===\n',
       '+-+\n|a|\n+-+\n', ':field: body\n', '-o  option\n', '>>> doctest\n\n', '[1]_', '.. [1] foot\n', '.. comment\n', '\n', '\n\n', ' ', '   ', 'word', '"quote"', '\\*', '`', '*', '|', '_',
       '.. table:: x\n', '.. unknown:: x\n', '.. csv-table::\n   :file: /etc/hostname\n', '.. class:: a"b\n', '.. figure:: x\n   :figwidth: image\n', '.. contents::\n', '.. sectnum::\n',
       '.. meta::\n   :a: "b\n', '.. math:: x<y\n', '.. code:: python\n\n   a < b\n', '|', '-- me\n', '.. epigraph::\n\n   a\n\n   -- b\n', '====\n', 'x\n~~\n', '.. header:: h\n', '.. title:: t\n',
       '.. unicode:: 0x3c\n', '.. parsed-literal::\n\n  <b>\n', '__ http://a\n', 'an__', '.. target-notes::\n', '.. topic:: t\n\n  x\n', '.. line-block::\n', '| l1\n| l2\n', '.. default-role:: raw\n']
PLAIN = ['foo', 'bar\n', '<b>', '&amp;', ' x', '\n', '\n\n', '#!rst\n', '#!x\n', '{{{\n', '{{{', '}}} ', ' }}}\n', "'''", '= h =\n', '||', ' * i\n', '  def f():\n', '"', '[[BR]]', 'a&b<c>d"e\'\n', '::\n', '\t', '\\']
CODE = st.tuples(st.sampled_from(['', '', '', '\n', '\n\n', ' \n', 'a\n']), st.sampled_from(['', '', '#!rst\n', '#!preformat\n', '#!x\n']),
                 st.one_of(*[st.lists(st.sampled_from(PLAIN), max_size=10).map(''.join)] * 9, st.tuples(st.lists(st.sampled_from(PLAIN), min_size=1, max_size=6), st.integers(20, 200)).map(
                     lambda t: ''.join(t[0] * t[1])))).map(''.join)
RSTTEXT = st.lists(st.one_of(st.sampled_from(RST), st.sampled_from(RST), st.sampled_from(doc.HOSTILE)), max_size=10).map(''.join)
AROUND = doc.soup([s for s in doc.SYMBOLS if s not in '{}'], [i for i in doc.INLINE if '{' not in i and '}' not in i], doc.LINKS[:6],
                  [l for l in doc.LINES if '{' not in l and '}' not in l], doc.HOSTILE, doc.WORDS, doc.WORDS, max_size=10)


def content(text):
    """Lines of a block: none of them ends it."""
    ls = [l for l in text.split('\n') if l != '}}}']
    if ls and ls[-1] == '':
        ls.pop()
    return ls


def block(ctx, case):
    kind, text, before, after, gap, closed = case
    lines = content(text)
    if kind is None and lines and re.match(r'#!\w+\Z', lines[0]):
        lines = ['x'] + lines
    if not closed:
        after = ''
    head = ['{{{'] + ([] if kind is None else ['#!' + kind])
    blk = '\n'.join(head + lines + (['}}}'] if closed else []))
    b = before.rstrip('\n')
    page = (b + '\n' + '\n' * gap if b else '') + blk + '\n' + ('\n' * gap + after if closed else '')
    html = ctx.ok('ops_doc', 'wiki', page)
    inner = ''.join(l + '\n' for l in lines)
    alone, again = ctx.ok('ops_doc', 'alone', 'rst' if kind == 'rst' else 'preformat', [inner])
    ctx.eq(again, alone, 'asking the formatter again')
    ctx.check(html.count(alone) >= 1, lambda: 'the page does not hold what the formatter alone makes of the block:\n%s\n---\n%s\n--- source\n%s' % (html, alone, page))
    if kind != 'rst':
        e = parsed(ctx, alone, inner)
        ctx.check(''.join(e.itertext()).rstrip('\n') == inner.rstrip('\n') and [x.tag for x in e.iter()][1:] == ['pre'],
                  lambda: 'a preformatted text reads %r, source %r' % (''.join(e.itertext()), inner))
    got = trees(ctx, html, page)
    want = (trees(ctx, ctx.ok('ops_doc', 'wiki', b), b) if b else []) + trees(ctx, alone, inner) + (trees(ctx, ctx.ok('ops_doc', 'wiki', after), after) if after else [])
    ctx.check(got == want, lambda: 'page with block\n%spieces one by one\n%s--- source\n%s' % (''.join(map(doc.show, got)), ''.join(map(doc.show, want)), page))
    ctx.label(str(kind), 'closed' if closed else 'open')
    if not lines:
        ctx.trivial()


BADTAGS = ('script', 'style', 'iframe', 'object', 'embed', 'link', 'meta', 'form', 'html', 'body', 'head', 'frame', 'base')


def rst(ctx, text):
    """Any reStructuredText: no exception, well-formed, nothing raw, nothing from files."""
    alone, again = ctx.ok('ops_doc', 'alone', 'rst', [text])
    root = parsed(ctx, alone, text)
    for e in root.iter():
        ctx.check(e.tag not in BADTAGS, lambda: 'element %s from reStructuredText:\n%s\n--- from\n%r' % (e.tag, alone, text))
        for k in e.attrib:
            ctx.check(not k.lower().startswith('on'), lambda: 'attribute %s from reStructuredText:\n%s\n--- from\n%r' % (k, alone, text))
    ctx.eq(alone, again, 'asked again')
    ctx.check(all(e.tag == "div" for e in root), lambda: "not within elements of its own: %s" % alone)
    if len(text) < 5:
        ctx.trivial()


WORD = st.text(st.sampled_from('abcdefgh'), min_size=1, max_size=6).map(lambda w: 'k' + w)
SPECIAL = st.sampled_from(['<', '&', '"', '&amp;', '<b>', ';', '(k)', '1.5'])
PARAS = st.lists(st.tuples(st.sampled_from(['', '- ', '']), st.lists(st.one_of(WORD, WORD, WORD, SPECIAL), min_size=1, max_size=6)), min_size=1, max_size=5)


def words(ctx, case):
    """Paragraphs and items of plain words keep them in order."""
    kind, paras = case
    if kind == 'mkdn':
        paras = [(m, [w for w in ws if '<' not in w and '&' not in w] or ['k']) for m, ws in paras]
    paras = [(m, ws if m == '' or ws[0][0].isalpha() else ['k'] + ws) for m, ws in paras]
    paras = [(m, ws if ws[0][0].isalpha() else ['k'] + ws) for m, ws in paras]
    text = '\n\n'.join(m + ' '.join(ws) for m, ws in paras) + '\n'
    html = ctx.ok('ops_doc', 'alone', kind, [text])[0]
    got = ''.join(parsed(ctx, html, text).itertext()).split()
    want = [w for m, ws in paras for w in ws]
    ctx.check(got == want, lambda: '%s words %r, in the source %r\n%s' % (kind, got, want, html))
    ctx.label(kind)


MK = ['# h\n', '## h\n', '* a\n', '1. b\n', '**s**', '*e*', '`c`', '    code\n', '> q\n', '[l](http://a.b/)', '![i](x)', '\n\n', '\n', 'word ', '---\n', 'h\n===\n', '<b>', '&', '<', '[r]: http://x\n',
      '[a][r]', '\\*', '"', '<http://a.b>', '_', '__', '- x\n', '  ', '\t']


def pieces(ctx, case):
    kind, text, cuts = case
    if kind == 'wiki':
        ls = text.splitlines(True)
        at = sorted(set(c % (len(ls) + 1) for c in cuts))
        parts = [''.join(ls[a:b]) for a, b in zip([0] + at, at + [len(ls)])]
        whole = ctx.ok('ops_doc', 'wiki', text)
        got = ctx.ok('ops_doc', 'pieces', parts)
        ctx.check(got == whole, lambda: 'in pieces %r\n%s\nwhole\n%s' % (parts, got, whole))
    else:
        at = sorted(set(c % (len(text) + 1) for c in cuts))
        parts = [text[a:b] for a, b in zip([0] + at, at + [len(text)])]
        whole = ctx.call('ops_doc', 'alone', kind, [text])
        got = ctx.call('ops_doc', 'alone', kind, parts)
        if not isinstance(whole, list) and kind == 'mkdn':
            ctx.label('markdown raises')  # the markdown package's own business
            ctx.trivial()
            return
        ctx.check(isinstance(whole, list) and got == whole and whole[0] == whole[1], lambda: '%s in pieces %r\n%r\nwhole\n%r' % (kind, parts, got, whole))
    ctx.label(kind)
    if len(parts) < 2:
        ctx.trivial()


CUTS = st.lists(st.integers(0, 400), min_size=1, max_size=4)
KIND = st.sampled_from([None, None, 'preformat', 'other', 'rst', 'rst', 'RST', 'Rst', 'rst2', 'rs', 'preformatted', '_', '9', 'x' * 40])
WIKITEXT = doc.soup(doc.SYMBOLS, doc.INLINE, doc.LINKS, doc.LINES, doc.LINES, doc.BLOCKS, doc.MACROS, doc.WORDS, max_size=20)
def options(ctx, case):
    """The documented options: promotion of a lone title, level of the headers, encodings."""
    secs, uni, doctitle, level, src = case
    text, heads, lv = '', [], 0
    for n, (want, w) in enumerate(secs):
        lv = min(want, lv + 1)
        t = '%s %d%s' % (w, n, '\xe9\u65e5' if uni and n % 2 == 0 else '')
        text += '%s\n%s\n\npara %d\n\n' % (t, '=-~'[lv - 1] * (len(t) + 4), n)
        heads.append((lv, t))
    opt = {}
    if doctitle is not None:
        opt['doctitle'] = doctitle
    if level is not None:
        opt['initial_header_level'] = level
    if src:
        opt['source_path'] = 'some/where.txt'
    r = ctx.ok('ops_doc', 'rst_body', U(text), opt)
    ctx.check(r[1] is True, 'the body is not a text')
    for what, same in r[2:]:
        ctx.check(same, 'the body differs when asked for by way of %s\n%r %r' % (what, text, opt))
    root = parsed(ctx, r[0], text)
    got = [(e.tag, doc.squeeze(''.join(e.itertext()))) for e in root.iter() if re.match(r'h\d\Z', e.tag)]
    lone = doctitle in (None, 1, True) and sum(1 for l, _ in heads if l == 1) == 1
    base = 1 if level is None else level
    want = [('h1', t) if lone and l == 1 else ('h%d' % (base + l - 1 - (1 if lone else 0)), t) for l, t in heads]
    ctx.check(got == want, lambda: 'headers %r, expected %r with %r\n%s\n%s' % (got, want, opt, text, r[0]))
    titles = [e for e in root.iter() if e.tag == 'h1' and e.get('class') == 'title']
    ctx.eq(len(titles), 1 if lone else 0, 'document titles')
    ctx.check(['para %d' % n for n in range(len(secs))] == [doc.squeeze(e.text) for e in root.iter('p')], lambda: 'paragraphs of\n%s' % r[0])
    ctx.label('lone' if lone else 'several', 'level %s' % level)


PARTS = [
    Part('block', st.tuples(KIND, CODE, AROUND, AROUND, st.integers(0, 1), st.sampled_from([True, True, True, False])), block, 500, 15000, rule='a block with a line in it'),
    Part('rstblock', st.tuples(st.just('rst'), RSTTEXT, AROUND, AROUND, st.integers(0, 1), st.sampled_from([True, True, True, False])), block, 300, 5000, rule='a block with a line in it'),
    Part('rst', RSTTEXT, rst, 300, 12000, rule='five characters or more'),
    Part('words', st.tuples(st.sampled_from(['rst', 'mkdn']), PARAS), words, 300, 4000, rule='every case'),
    Part('pieces', st.one_of(st.tuples(st.just('wiki'), WIKITEXT, CUTS), st.tuples(st.just('wiki'), WIKITEXT, CUTS), st.tuples(st.just('preformat'), CODE, CUTS),
                             st.tuples(st.just('rst'), RSTTEXT, CUTS), st.tuples(st.just('mkdn'), st.lists(st.sampled_from(MK), max_size=12).map(''.join), CUTS)),
         pieces, 500, 15000, rule='two pieces or more'),
    Part('options', st.tuples(st.lists(st.tuples(st.integers(1, 3), st.sampled_from(('One', 'Two', 'A b', 'x'))), min_size=1, max_size=6), st.booleans(),
                              st.sampled_from((None, 0, 1, False, True)), st.sampled_from((None, 1, 2, 3)), st.booleans()), options, 120, 2500, rule='every case'),
]
