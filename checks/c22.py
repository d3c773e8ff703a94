import re
from hypothesis import strategies as st
from vf import Part, U
import doc

PROPERTY = 'C22'
ASSUMPTIONS = ['line breaks and the white space between a text and the next element are presentation and are not compared, '
               'except that words on different lines stay apart']


def wellformed(ctx, html, text):
    try:
        return doc.parse(html)
    except doc.Malformed as e:
        ctx.fail('not well-formed (%s):\n%s\n--- from\n%r' % (e, html, text))


def flat(s):
    return s.replace('\n', '')


def expected(text):
    """(everything to be read without line ends, contents of the preformatted blocks); None if it cannot be said here."""
    out, blocks = [], []
    for p in doc.split(text):
        if p[0] == 'text':
            t = doc.line_text(p[1])
            if t is None:
                return None
            out.append(t)
        else:
            if p[1] == 'rst':
                return None
            b = ''.join(l + '\n' for l in p[2])
            blocks.append(b)
            out.append(b)
    return flat(''.join(out)), blocks


def page(ctx, text, uni=False):
    want = expected(text)
    if want is None:
        ctx.trivial()
        ctx.label('not judged')
        return
    html = ctx.ok('ops_doc', 'wiki', U(text) if uni else text)
    root = wellformed(ctx, html, text)
    f = doc.foreign(root)
    ctx.check(f is None, lambda: 'the page has an %s that no markup defines:\n%s\n--- from\n%r' % (f, html, text))
    got = flat(''.join(root.itertext()))
    ctx.check(got == want[0], lambda: 'text read from the page: %r\ntext of the source:      %r\n%s\n--- from\n%r' % (got, want[0], html, text))
    pres = [''.join(e.itertext()) for e in root.iter('pre')]
    ctx.check(pres == want[1] and all(len(e) == 0 for e in root.iter('pre')),
              lambda: 'preformatted blocks read %r, in the source %r\n%s' % (pres, want[1], html))
    special = [c for c in '<>&"' if c in want[0]]
    ctx.label(*['holds ' + c for c in special])
    if want[1]:
        ctx.label('preformatted')
    if len(want[0]) < 3:
        ctx.trivial()


def unipage(ctx, text):
    page(ctx, text, True)


# one construct around one text
AROUND = [("'''", "'''"), ("''", "''"), ("'''''", "'''''"), ('__', '__'), ('~~', '~~'), (',,', ',,'), ('^', '^'), ('`', '`'),
          ('{{{', '}}}'), ('= ', ' ='), ('== ', ' =='), ('=== ', ' ==='), ('||', '||'), ('||a||', '||'), ('[http://a.b/ ', ']'),
          (' * ', ''), ('  1. ', ''), (' + ', ''), ('> ', ''), ('>> ', ''), ('  ', ''), ('', '::'), ('a::\n  ', ''), ('{{{\n', '\n}}}'),
          ('{{{\n#!preformat\n', '\n}}}'), ('{{{\n#!foo\n', '\n}}}'), ('{{{\n', ''), ('', ''), ('a ', ' b'), ('!', ''), ('[wiki:', ']'),
          ('[[', ']]'), ('[[Position(', ')]]'), ('[[Foo(', ')]]'), ('http://a.b/', ''), ('[http://a.b/', ' x]'), ('!{{{', '}}}'), ('{', '}'),
          ('[', ']'), ('entry:', ''), (' a. ', ''), ('  - ', '')]
NASTY = st.text(st.sampled_from('<>&"\'?!aZ19;#xX= /:%-$\\{}[]()|`^'), max_size=12)


def around(ctx, case):
    outer, inner, rest = case
    # the constructs are opened from the outside in
    opened = ''.join(o[0] for o in outer)
    closed = ''.join(o[1] for o in reversed(outer))
    page(ctx, rest[0] + opened + inner + closed + rest[1])


# ---- text escaped with an exclamation mark, or in a block, stands as it is written
MARKUP = ["'''", "''", "'''''", "__", "~~", ",,", "^", "`", "{{{", "}}}", "===", "==", "=", "||", "#12", "entry:3", "query:4", "{5}", "m6",
          "match:7", "[8]", "[http://a.b/c]", "[http://a.b/c <d> \"e&f]", "[wiki:Foo]", "http://a.b/?c=d&e", "CamelWord"]


def escaped(ctx, case):
    """(prefix, [(text, markup), ...]): every markup escaped."""
    pre, items = case
    text = pre + ' '.join('%s !%s' % (t, m) for t, m in items)
    want = ('a' if pre[:1] == 'a' else '') + ' '.join('%s %s' % (t, m) for t, m in items)
    root = wellformed(ctx, ctx.ok('ops_doc', 'wiki', text), text)
    got = flat(''.join(root.itertext()))
    ctx.check(got == want, lambda: 'escaped markup reads %r, expected %r' % (got, want))
    tags = [e.tag for e in root.iter()][1:]
    ref = wellformed(ctx, ctx.ok('ops_doc', 'wiki', pre + 'x'), pre)
    ctx.eq(tags, [e.tag for e in ref.iter()][1:], 'elements around escaped markup in %r' % text)
    ctx.label('%d escapes' % len(items))


# ---- words stay apart
WORD = st.text(st.sampled_from('abcdefgh<&"'), min_size=0, max_size=6).map(lambda w: 'k' + w)


def lines(ctx, case):
    prefix, ls = case
    text = '\n'.join(prefix + ' '.join(l) for l in ls)
    root = wellformed(ctx, ctx.ok('ops_doc', 'wiki', text), text)
    want = [w for l in ls for w in l]
    ctx.check(''.join(root.itertext()).split() == want, lambda: 'words %r, in the source %r' % (''.join(root.itertext()).split(), want))
    if len(ls) < 2:
        ctx.trivial()


PARTS = [
    Part('soup', doc.soup(doc.SYMBOLS, doc.INLINE, doc.LINKS, doc.LINES, doc.HOSTILE, doc.HOSTILE, doc.MACROS,
                          [b for b in doc.BLOCKS if 'rst' not in b], doc.WORDS, doc.WORDS), page, 1500, 60000, rule='three characters of text or more'),
    Part('around', st.tuples(st.lists(st.sampled_from(AROUND), min_size=1, max_size=3), st.one_of(NASTY, st.sampled_from(doc.HOSTILE)),
                             st.tuples(st.sampled_from(['', 'a\n', 'a ', "'''a ", ' * a\n', '> a\n']), st.sampled_from(['', '\nb', ' b', "'''", '\n\nb']))),
         around, 1500, 60000, rule='three characters of text or more'),
    Part('chars', doc.CHARS, page, 800, 40000, rule='three characters of text or more'),
    Part('unicode', doc.soup(doc.INLINE, doc.LINKS, doc.LINES, doc.HOSTILE, [u for u in doc.UNI if u not in '\u2028\u0085\u0663\u0130\u0131\u3000\u00a0\u00c9cole'],
                             doc.WORDS), unipage, 400, 20000, rule='three characters of text or more'),
    Part('escaped', st.tuples(st.sampled_from(['', ' * ', '> ', '  ', '||', '{{{', "'''", 'a::\n  ']),
                              st.lists(st.tuples(st.sampled_from(['k', 'kb c', 'ke', '<', 'k & g']), st.sampled_from(MARKUP)), min_size=1, max_size=5)),
         escaped, 500, 15000, rule='every case'),
    Part('lines', st.tuples(st.sampled_from(['', '> ', '  ', '>> ']), st.lists(st.lists(WORD, min_size=1, max_size=4), min_size=1, max_size=5)),
         lines, 200, 5000, rule='two lines or more'),
]
