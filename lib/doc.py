"""Wiki markup: generators of texts and documents, and an independent account of what a text says."""
import re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st

# ------------------------------------------------------------------ parsing what came out

class Malformed(Exception):
    pass


def parse(html):
    try:
        # the character entities of XHTML that docutils uses
        return ET.fromstring('<!DOCTYPE r [<!ENTITY nbsp "&#160;"><!ENTITY mdash "&#8212;">]><r>%s</r>' % html)
    except ET.ParseError as e:
        raise Malformed(str(e))


def squeeze(s):
    return ' '.join(s.split()) if s else ''


def tree(e):
    """(tag, sorted attributes, [text, child, text, ...]) with white space squeezed and empty texts left out."""
    c = []
    if squeeze(e.text):
        c.append(squeeze(e.text))
    for k in e:
        c.append(tree(k))
        if squeeze(k.tail):
            c.append(squeeze(k.tail))
    return (e.tag, tuple(sorted(e.attrib.items())), tuple(c))


def joined(children):
    """Neighbouring texts joined, squeezed, empty ones left out."""
    out = []
    for c in children:
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    out = [squeeze(c) if isinstance(c, str) else c for c in out]
    return tuple(c for c in out if c != '')


def E(tag, children=(), **attrs):
    return (tag, tuple(sorted((k.rstrip('_'), v) for k, v in attrs.items())), joined(children))


def show(t, depth=0):
    if isinstance(t, str):
        return '  ' * depth + repr(t) + '\n'
    return '  ' * depth + t[0] + ''.join(' %s=%r' % a for a in t[1]) + '\n' + ''.join(show(c, depth + 1) for c in t[2])


# ------------------------------------------------------------------ what may be in a page

URLCH = r'[a-zA-Z0-9_~#=?./\-&%]'
CLASSES = {
    'div': (), 'p': (), 'strong': (), 'i': (), 'del': (), 'sub': (), 'sup': (), 'h1': (), 'h2': (), 'h3': (),
    'span': ('underline', 'monospace', 'icon', 'position', 'error'),
    'table': ('wiki', 'cubeless', 'cubeaction', 'move'), 'tr': ('headerrow', 'evenrow', 'oddrow', 'actualrow'),
    'td': ('Equity',), 'th': (), 'ul': ('sign',), 'ol': ('loweralpha', 'lowerroman'),
    'li': ('plus', 'doubleplus', 'tripleplus', 'minus', 'doubleminus', 'tripleminus'),
    'blockquote': ('citation',), 'dl': (), 'dt': (), 'dd': (), 'a': ('entry', 'query', 'match', 'wiki-link', 'ext-link'),
    'img': (), 'br': (), 'pre': ('wiki',),
}
HREF = {'entry': r'/entry/\d+\Z', 'query': r'/query/\d+\Z', 'match': r'/match/\d+\Z', 'wiki-link': r'/wiki/[A-Za-z0-9]+\Z',
        'ext-link': r'https?://%s+\Z' % URLCH, None: r'#fragment\d+\Z'}


def foreign(root):
    """The first element or attribute of a page which no wiki markup defines, or None."""
    for e in root.iter():
        if e is root:
            continue
        if e.tag not in CLASSES:
            return 'element %s' % e.tag
        for k, v in e.attrib.items():
            if k == 'class':
                good = v in CLASSES[e.tag]
            elif k == 'href':
                good = e.tag == 'a' and re.match(HREF.get(e.get('class'), r'(?!)'), v)
            elif k == 'title':
                good = e.tag == 'a'
            elif k == 'id':
                good = e.tag in ('h1', 'h2', 'h3') and re.match(r'fragment\d+\Z', v)
            elif k == 'src':
                good = e.tag == 'img' and re.match(r'/image\?[a-zA-Z0-9=&%+.]*\Z', v)
            elif k in ('rowspan', 'colspan'):
                good = e.tag in ('td', 'th') and v in ('2', '6')
            else:
                good = False
            if not good:
                return 'attribute %s=%r of %s' % (k, v, e.tag)
    return None


# ------------------------------------------------------------------ what a text says

MARK = re.compile('|'.join((
    r"(?P<style>!?(?:'''''|'''|''|__|~~|,,|\^|`|\{\{\{|\}\}\}|===|==|=))",
    r"(?P<macro>\[\[(?P<name>\w+)(?:\((?P<args>[a-zA-Z0-9+, .=/#:]+)\))?\]\])",
    r"(?P<ref>!?(?:(?:#|entry:)\d+|query:\d+|\{\d+\}|m\d+|match:\d+|\[\d+\]))",
    r"(?P<cell>!?\|\|)",
    r"(?P<link>!?\[(?P<url>https?://%s+)(?P<disp>[ ][^]]+)?\])" % URLCH,
    r"(?P<wiki>!?\[wiki:(?P<page>[A-Za-z]+)\])",
    r"(?P<auto>!?https?://%s+)" % URLCH,
    r"(?P<camel>!?[A-Z][a-z0-9]+(?:[A-Z][a-z0-9]+)+)",
    r"(?P<item>^[ ]+(?:[*]|[+]{1,3}|-{1,3}|[1-8]\.?|[a-h]\.?|[iv]+\.?)[ ])",
    r"(?P<cite>^[>]+[ ])",
    r"(?P<dt>::$)",
    r"(?P<quote>^[ ]{2,})",
    r"(?P<rest>.)",
)), re.A | re.S)
GNUBGID = r'[a-zA-Z0-9/+]{14}:[a-zA-Z0-9/+]{12}'
POSITION = re.compile(GNUBGID + r'(,[ ]*css=[a-zA-Z]+)?(,[ ]*format=[a-zA-Z]+)?(,[ ]*width=[0-9]+)?(,[ ]*height=[0-9]+)?[ ]*\Z')


def macro_text(name, args):
    """What is to be read where a macro stands; None if that is not a matter of its arguments alone."""
    if name == 'BR':
        return ''
    if name == 'Position' and args and POSITION.match(args):
        return ''
    if name in ('Position', 'Analysis') and not (args and POSITION.match(args)):
        return 'Bad args "%s" for %s' % (args or 'None', name)
    if name in ('Timestamp', 'TableOfContent', 'Analysis'):
        return None
    return 'No such macro "%s" with argument "%s"' % (name, args or 'None')


def line_text(line):
    out = []
    i = 0
    while i < len(line):
        m = MARK.match(line, i)
        i = m.end()
        k, s = m.lastgroup, m.group()
        # the outermost named group
        for k in ('style', 'macro', 'ref', 'cell', 'link', 'wiki', 'auto', 'camel', 'item', 'cite', 'dt', 'quote', 'rest'):
            if m.group(k):
                break
        if k == 'rest' or (s[0] == '!' and k != 'rest'):
            out.append(s if k == 'rest' else s[1:])
        elif k in ('ref', 'auto', 'camel'):
            out.append(s)
        elif k == 'cell' and line[m.end():].strip() == '' and m.end() < len(line):
            i = len(line)
        elif k == 'link':
            out.append(m.group('disp')[1:] if m.group('disp') else m.group('url'))
        elif k == 'wiki':
            out.append(m.group('page'))
        elif k == 'macro':
            t = macro_text(m.group('name'), m.group('args'))
            if t is None:
                return None
            out.append(t)
    return ''.join(out)


def split(text):
    """[('text', line) | ('block', processor or None, [lines], closed?)]"""
    out = []
    block = None
    ls = text.split('\n')
    if ls[-1] == '':
        ls.pop()
    for l in ls:
        if block is not None:
            if l == '}}}':
                out.append(('block', block[0], block[1], True))
                block = None
            else:
                m = re.match(r'#!(\w+)\Z', l, re.A)
                if m and not block[1] and block[0] is None:
                    block[0] = m.group(1)
                else:
                    block[1].append(l)
        elif l == '{{{':
            block = [None, []]
        else:
            out.append(('text', l))
    if block is not None:
        out.append(('block', block[0], block[1], False))
    return out


# ------------------------------------------------------------------ texts

SYMBOLS = list("""[]'"_~^`{}.:*=-+#|!<>/&?Xx,()$%;\\""")
INLINE = ["'''", "''", "'''''", "__", "~~", ",,", "^", "`", "{{{", "}}}", "===", "==", "="]
LINKS = ["http://a.b/c", "http:", "https://x/?a=1&b=2", "query:", "query:12", "entry:", "entry:5", "#7", "match:3", "m4",
         "[5]", "{6}", "[wiki:Foo]", "[wiki:", "CamelWord", "[http://a.b/ ", "[http://a.b/?x=1&y=2]", "[http://a.b/ n\"a<m&e]",
         "http://", "m", "#", "{", "}", "[", "]"]
LINES = ["\n * ", "\n  * ", "\n   a. ", " 1. ", "\n 1. ", "\n  i. ", "\n + ", "\n  -- ", "\n - ", "\n> ", "\n>> ", "\n>>> ",
         "::\n", "\nword::\n", "\n  ", "\n    ", "\n\n", "\n", "\n * ", "\n  2. ", "||\n||", "||", "||", "|| ||", "\n||",
         "\n = ", " =\n", "\n      * ", "\n{{{\n", "\n}}}\n", "\n+++ ", "\n--- ",
         "\n 9. ", "\n 0. ", "\n 10. ", "\n ** ", "\n j. ", "\n ++++ ", "\n I. ", "\n  x. "]
HOSTILE = ['<script>', '</div>', '<b onclick="x">', '"onmouseover="x', '&amp;', '&#60;', "'", '"', '<', '>', '&', '-->', '<!--',
           '<![CDATA[', ']]>', '<?x?>', '%3C', '\\"', '?', '%s', '$name', '!<', '!&', '!"']
MACROS = ["[[BR]]", "[[BR(x)]]", "[[Foo(a b)]]", "[[Foo]]", "[[Position]]", "[[Position(vzsAAFhu2xFABA:QYkqASAAIAAA)]]",
          "[[Position(vzsAAFhu2xFABA:QYkqASAAIAAA, width=20)]]", "[[Position(a)]]", "[[Analysis]]", "[[Analysis(x)]]", "[["]
PAGEMACROS = ["[[TableOfContent]]", "[[Timestamp]]", "[[Analysis(vzsAAFhu2xFABA:QYkqASAAIAAA)]]",
              "[[Analysis(cNcxAxCY54YBBg:cAn7ADAAIAAA)]]", "[[Analysis(cNcxAxCY54YBBg:cAn7ADAAIAAB)]]"]
BLOCKS = ["\n{{{\n#!rst\n", "\n{{{\n#!preformat\n", "\n{{{\n#!other\n", "\n{{{\n", "\n}}}\n", "\n#!rst\n", "#!x"]
WORDS = ["a", "b", " c ", "ab cd", "Word", "1", "2.", "i", " ", "  ", "!", "!!", "x y\nz w", "end"]
UNI = ["\u00e9", "\u65e5\u672c", "\u0663", "\u00c9cole", "\u2028", "\u0085", "\u3000", "\U0001f600", "\u00a0", "\u200b", "\u0130\u0131"]


def soup(*kinds, min_size=0, max_size=40):
    return st.lists(st.one_of(*[st.sampled_from(k) for k in kinds]), min_size=min_size, max_size=max_size).map(''.join)


SMALL = soup(SYMBOLS, INLINE, INLINE, LINKS, LINES, LINES, HOSTILE, MACROS, WORDS, WORDS, max_size=14)
PAGE = soup(SYMBOLS, INLINE, INLINE, LINKS, LINES, LINES, HOSTILE, MACROS, WORDS, WORDS, WORDS)
LONG = soup(INLINE, LINES, LINKS, HOSTILE, WORDS, min_size=30, max_size=150)
ANYPAGE = soup(SYMBOLS, INLINE, LINKS, LINES, LINES, HOSTILE, MACROS, PAGEMACROS, BLOCKS, WORDS, WORDS)
CHARS = st.text(st.sampled_from("""'_~^`{}=[]|!<>&"#*+-:. \n\tam1AXi()/,?"""), max_size=60)
