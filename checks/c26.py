from hypothesis import strategies as st
from vf import Part
import doc

PROPERTY = 'C26'
ASSUMPTIONS = ['which element accepts which is asked of the elements themselves (is_acceptable) once per run; texts go anywhere',
               'leaving a kind that is not open, but was closed implicitly by entering an element still open, leaves that element']

KINDS = ['BRElement', 'SpanElement', 'BoldElement', 'ItalicElement', 'UnderlineElement', 'StrikeElement', 'SubscriptElement', 'SuperscriptElement',
         'MonospaceElement', 'AnchorElement', 'ImgElement', 'TableElement', 'TableRowElement', 'TableCellElement', 'TableHeaderElement',
         'ListElement', 'ItemizeElement', 'DefinitionListElement', 'DefinitionHeaderElement', 'DefinitionBodyElement', 'H1Element', 'H2Element',
         'H3Element', 'DivElement', 'BlockQuoteElement', 'CitationElement', 'CitationContentElement', 'BgWikiElementNode', 'BgWikiElementMacroNode',
         'LineElement', 'BoxElement']
COMMON = ['DivElement', 'BoldElement', 'ItalicElement', 'ListElement', 'ItemizeElement', 'TableElement', 'TableRowElement', 'TableCellElement',
          'AnchorElement', 'CitationElement', 'CitationContentElement', 'H1Element', 'DefinitionListElement', 'DefinitionBodyElement', 'BlockQuoteElement']
INFO = {}


def info(ctx):
    if not INFO:
        INFO['accepts'] = ctx.ok('ops_doc', 'matrix', KINDS)
        INFO['isa'] = ctx.ok('ops_doc', 'bases', KINDS)
        # a few the markup cannot do without
        for p, c, want in (('DivElement', 'BoldElement', True), ('DivElement', 'ListElement', True), ('ListElement', 'ItemizeElement', True),
                           ('BoldElement', 'ItalicElement', True), ('ItemizeElement', 'ListElement', True), ('TableElement', 'TableRowElement', True),
                           ('TableRowElement', 'TableCellElement', True), ('BoldElement', 'DivElement', False), ('BoldElement', 'ListElement', False),
                           ('H1Element', 'H2Element', False), ('TableCellElement', 'TableCellElement', False), ('AnchorElement', 'ItemizeElement', False),
                           ('BgWikiElementMacroNode', 'BoldElement', False)):
            ctx.check(INFO['accepts'][KINDS.index(p)][KINDS.index(c)] is want, '%s accepts %s: %r' % (p, c, not want))
    return INFO


def isa(k, kinds):
    if k == 'BgWikiElementRoot':
        return 'BgWikiElementNode' in kinds
    return any(INFO['isa'][KINDS.index(k)][KINDS.index(x)] for x in kinds if x in KINDS)


class N(object):
    def __init__(self, i, kind, parent, text=None):
        self.i, self.kind, self.parent, self.text = i, kind, parent, text
        self.children, self.closed = [], []


def history(ctx, ops):
    info(ctx)
    r = ctx.ok('ops_doc', 'edit', [list(o) for o in ops])
    root = cur = N(0, 'BgWikiElementRoot', None)
    nodes = [root]

    def up(n):
        while n is not None:
            yield n
            n = n.parent

    def append(kind):
        n = N(len(nodes), kind, None)
        nodes.append(n)
        c = cur
        while c is not root and not INFO['accepts'][KINDS.index(c.kind)][KINDS.index(kind)]:
            n.closed.append(c.kind)
            c = c.parent
        n.parent = c
        c.children.append(n)
        return n, c

    closes, gone = 0, []
    for k, op in enumerate(ops):
        res = None
        if op[0] == 'enter':
            cur = append(op[1])[0]
            res = cur.i
            closes += bool(cur.closed)
        elif op[0] == 'append':
            n, cur = append(op[1])
            res = n.i
        elif op[0] == 'leave':
            for n in up(cur):
                if n is not root and (isa(n.kind, op[1]) or any(isa(x, op[1]) for x in n.closed)):
                    cur = n.parent
                    break
        elif op[0] == 'text':
            if cur.children and cur.children[-1].kind == 'Text':
                cur.children[-1].text += op[1]
            else:
                n = N(len(nodes), 'Text', cur, op[1])
                nodes.append(n)
                cur.children.append(n)
        elif op[0] == 'remove':
            if cur.children:
                n = cur.children.pop(op[1] % len(cur.children))
                res = n.i
                gone.append(n)
        elif op[0] == 'done':
            cur = root
        elif op[0] == 'ancestor':
            res = ([n.i for n in up(cur) if isa(n.kind, op[1])] + [None])[0]
        elif op[0] == 'count':
            res = sum(1 for n in up(cur) if isa(n.kind, op[1]))
        ctx.check(r['steps'][k] == [res, cur.i], lambda: 'after %r the result and cursor are %r, expected %r' % (ops[:k + 1], r['steps'][k], [res, cur.i]))

    got = {}
    for n in r['nodes']:
        ctx.check(n[0] != 'twice' and n[0] not in got, lambda: 'node %r is in the tree twice: %r' % (n, r['nodes']))
        got[n[0]] = n
    # what holds of any valid tree
    for i, (_, kind, parent, kids, text) in got.items():
        for c in kids:
            ctx.check(got[c][2] == i, lambda: 'node %d lists %d, whose parent is %r: %r' % (i, c, got[c][2], ops))
            if kind in KINDS and got[c][1] in KINDS:
                ctx.check(INFO['accepts'][KINDS.index(kind)][KINDS.index(got[c][1])], lambda: '%s does not accept %s: %r' % (kind, got[c][1], ops))
        ctx.check(len(set(kids)) == len(kids), 'listed twice: %r' % (kids,))
    ctx.check(r['steps'][-1][1] in got if ops else True, 'the cursor is not in the tree')
    # the tree there should be
    left, todo = [], [root]
    while todo:
        left.append(todo.pop())
        todo += left[-1].children
    want = sorted([n.i, n.kind, None if n.parent is None else n.parent.i, [c.i for c in n.children], n.text] for n in left)
    ctx.check(r['nodes'] == want, lambda: '%r\ngives    %r\nexpected %r' % (ops, r['nodes'], want))
    # written in order, opened and closed once each
    events, html = [], []

    def walk(n):
        o, c = r['tags'][n.i]
        events.append([1, n.i])
        html.append(o)
        for k in n.children:
            walk(k)
        html.append(c)
        events.append([0, n.i])
    walk(root)
    ctx.check(r['events'] == events, lambda: '%r: visited %r, expected %r' % (ops, r['events'], events))
    ctx.check(r['html'] == ''.join(html) == r['again'], lambda: '%r: written %r, then %r, expected %r' % (ops, r['html'], r['again'], ''.join(html)))
    texts = [op[1].replace('&amp;', '&') for op in ops if op[0] == 'text']
    if all(op[0] in ('enter', 'append', 'leave', 'text') for op in ops):
        try:
            flat = ''.join(doc.parse(r['html']).itertext()).replace('\n', '')
        except doc.Malformed as e:
            ctx.fail('written %r (%s)' % (r['html'], e))
        ctx.check(flat == ''.join(texts) or any(op[0] == 'leave' for op in ops), lambda: 'text %r written as %r' % (texts, flat))
    if gone:
        ctx.label('removed')
    if len(nodes) < 4:
        ctx.trivial()
    ctx.label('implicit closes %d' % min(closes, 4), 'nodes %s' % ('<5' if len(nodes) < 5 else '5-14' if len(nodes) < 15 else '15+'))


KIND = st.one_of(st.sampled_from(COMMON), st.sampled_from(COMMON), st.sampled_from(KINDS))
SETS = st.one_of(KIND.map(lambda k: [k]), st.lists(KIND, min_size=1, max_size=3))
NUM = st.integers(0, 5)
OP = st.one_of(st.tuples(st.just('enter'), KIND, NUM), st.tuples(st.just('enter'), KIND, NUM), st.tuples(st.just('enter'), KIND, NUM),
               st.tuples(st.just('append'), KIND, NUM), st.tuples(st.just('leave'), SETS), st.tuples(st.just('leave'), SETS),
               st.tuples(st.just('text'), st.sampled_from(['a', 'bc', ' d', 'e'])), st.tuples(st.just('text'), st.sampled_from(['f', 'g h', '&amp;'])),
               st.tuples(st.just('ancestor'), SETS), st.tuples(st.just('count'), SETS), st.just(('done',)), st.tuples(st.just('remove'), NUM))
# one operation, or a few, many times over
RUNS = st.tuples(st.lists(OP, max_size=4), st.lists(OP, min_size=1, max_size=3), st.integers(8, 60), st.lists(OP, max_size=8)).map(lambda t: t[0] + t[1] * t[2] + t[3])
# many levels below one which is left again
DEEP = st.tuples(st.lists(OP, max_size=3), st.lists(st.sampled_from(COMMON), min_size=1, max_size=2), st.lists(st.sampled_from(COMMON), min_size=1, max_size=3), st.integers(3, 40), st.integers(0, 2),
                 st.lists(OP, max_size=4)).map(
    lambda t: t[0] + [('enter', k, 0) for k in t[1]] + [('enter', k, i % 3) for i in range(t[3]) for k in t[2]] + [('leave', [t[1][0]])] + [('text', 'z')] * t[4] + t[5])
PARTS = [
    Part('deep', DEEP, history, 200, 6000, rule='three nodes or more'),
    Part('runs', RUNS, history, 150, 5000, rule='three nodes or more'),
    Part('short', st.lists(OP, max_size=10), history, 1200, 60000, rule='three nodes or more'),
    Part('long', st.lists(OP, min_size=15, max_size=60), history, 600, 30000, rule='three nodes or more'),
    Part('nested', st.lists(st.one_of(*[st.tuples(st.just('enter'), st.just(k), NUM) for k in COMMON], *[st.tuples(st.just('leave'), st.just([k])) for k in COMMON]),
                            min_size=2, max_size=14), history, 600, 30000, rule='three nodes or more'),
]
