import atexit, os, shutil, tempfile
from hypothesis import strategies as st
from vf import Part
import image
from c18 import ATTRS, NONE, ENUM, fits

PROPERTY = 'C19'
QUICK_SHARDS = 4
DIR = tempfile.mkdtemp(prefix='c19-')
OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == OWNER:
        shutil.rmtree(DIR, ignore_errors=True)


def convert(kind, name, text, base):
    """The value a style's text stands for; NONE if there is none."""
    if name in ('image', 'font'):
        parts = text.split('"')
        return os.path.join(base, parts[1]) if len(parts) > 1 else NONE
    try:
        v = {'int': int, 'float': float, 'bool': lambda t: {'True': True, 'False': False}[t]}.get(kind, str)(text)
    except (ValueError, KeyError):
        return NONE
    return v if fits(kind, v) else NONE


class Bad(Exception):
    pass


def selects(sel, e):
    name, cond, data = sel
    if e['name'] != name:
        return False
    if cond is not None:
        k, v = cond
        if k not in e['attrs'] or convert(ATTRS[name][k][0], k, v, '') != e['attrs'][k]:
            return False
    return data is None or data in e['texts']


def matches(pattern, path):
    if not selects(pattern[-1], path[-1]):
        return False

    def embeds(p, q):
        if not p:
            return True
        return any(selects(p[-1], q[i - 1]) and embeds(p[:-1], q[:i - 1]) for i in range(len(q), 0, -1))
    return embeds(pattern[:-1], path[:-1])


def cascade(dump, sheets):
    """The styled tree and the lines applied to each element; sheets: (lines, directory)"""
    applied = []

    def visit(d, path, lines, base, hits_of):
        e = dict(name=d[1], attrs=dict(map(tuple, d[2])), texts=[c for c in d[3] if isinstance(c, str)])
        path = path + [e]
        hits = []
        hits_of.append((e['name'], hits))
        for no, l in enumerate(lines):
            if l[0] != 'rule' or not matches(l[1], path):
                continue
            final = {k: v for k, v in l[2] if v is not None}
            for k, v in final.items():
                t = ATTRS[e['name']]
                w = convert(t[k][0], k, v, base) if k in t else NONE
                if w is NONE:
                    raise Bad('%s: %s of %s' % (k, v, e['name']))
                e['attrs'][k] = w
            hits.append(no + 1)
        return ['elem', e['name'], sorted(e['attrs'].items()), [visit(c, path, lines, base, hits_of) if isinstance(c, list) else c for c in d[3]]]
    for lines, base in sheets:
        hits_of = []
        dump = visit(dump, [], lines, base, hits_of)
        applied = [(n, h + g) for (n, h), (m, g) in zip(applied, hits_of)] if applied else hits_of
    return dump, applied


def text_of(line, sp):
    if line[0] != 'rule':
        return line[1]
    pattern = (' ' * (1 + sp % 2)).join(n + ('[%s=%s]' % c if c else '') + (':data(%s)' % d if d else '') for n, c, d in line[1])
    decl = [k if v is None else k + (':', ': ', ' : ', ' :')[(sp + i) % 4] + v for i, (k, v) in enumerate(line[2])]
    return ' ' * (sp // 4 % 3) + pattern + (' ', '', '  ')[sp % 3] + '{' + ('', ' ')[sp // 2 % 2] + (';', '; ', ' ; ')[sp // 3 % 3].join(decl) + \
        ('', ';', '; ', ' ')[sp // 5 % 4] + '}' + ('', ' ', '\r')[sp // 7 % 3]


def norm(d):
    return ['elem', d[1], [list(t) for t in d[2]], [norm(c) if isinstance(c, list) else c for c in d[3]]]


def sheet(ctx, case):
    s, linesets, extras, spacing, how, end = case
    texts = ['\n'.join(text_of(l, spacing[i % len(spacing)]) for i, l in enumerate(lines)) + end for lines in linesets]
    dirs = [os.path.join(DIR, *('d%d' % os.getpid(), 'other')[:1 + n % 2]) for n in range(len(linesets))]
    r = ctx.ok('ops_image', 'styled', s, [(os.path.join(d, 'sheet-%d.css' % n), t) for n, (d, t) in enumerate(zip(dirs, texts))], extras, how)
    text = '\n-- the next sheet\n'.join(texts)
    try:
        want, applied = cascade(r[0], list(zip(linesets, dirs)))
    except Bad as e:
        ctx.label('error')
        ctx.check(r[1] == 'exc', 'no error for %s\n%s' % (e, text))
        return
    ctx.check(r[1] == 'ok', '%r raised by\n%s' % (r[2:], text))
    if not any(h for _, h in applied):
        ctx.trivial()
    n = max(len(h) for _, h in applied)
    ctx.label('up to %s rules per element' % ('0' if n == 0 else '1' if n == 1 else '2-4' if n < 5 else '5 or more'))
    ctx.eq(r[3][0], [a for a, _ in applied], 'elements visited')
    for (name, hits), got in zip(applied, r[3][1]):
        ctx.check(hits == got, 'lines applied to a %s: %r, expected %r in\n%s' % (name, got, hits, text))
    ctx.check(norm(r[2]) == norm(want), lambda: 'attributes after\n%s\nare %r' % (text, diff(norm(r[2]), norm(want))))


def diff(a, b):
    if a[:3] != b[:3]:
        return [a[:3], 'expected', b[:3]]
    for x, y in zip(a[3], b[3]):
        if x != y:
            return diff(x, y) if isinstance(x, list) else [x, y]


CHAINS = [('board', 'position', x) + t for x, t in (('field', ('die',)), ('field', ('cube',)), ('field', ('resign',)), ('home', ('cube',)),
          ('home', ('chequer',)), ('bar', ('chequer',)), ('point', ('chequer',)), ('cubeholder', ('cube',)), ('top_frame', ()), ('point', ()), ('point', ('chequer',)))]
CHAINS += [('board', 'match', x) for x in ('action', 'length', 'crawford', 'score')]
CONDS = {'player': ('you', 'him', 'you', 'him', 'nobody'), 'parity': ('odd', 'even'), 'id': ('left', 'right'), 'x': ('0', '1', '2', '-1', '10', '100', '12345', '123456'), 'y': ('0', '1'),
         'flip': ('True', 'False'), 'color': ('red', 'blue', 'Red', 'lightgray', 'lightgrey', 'lightgoldenrod', 'lightgoldenrodyellow'), 'x_offset': ('1', '2'), 'max_count': ('5',), 'fill': ('True', 'False'),
         'hide_count': ('True', 'False'), 'mag': ('1', '2'), 'text': ('red', 'a'), 'diestyle': ('dot', 'numeric'),
         'x_offset2': ('1', '2', '0'), 'y_offset2': ('1', '-3'), 'eyesize': ('1', '40'), 'initialCube': ('a', 'red'), 'background': ('red', 'a-b_9', 'RED', 'a-b_9-c_8-d_7')}
ODD_TEXTS = ('a-b', 'x.y', '50%', '-1', '1.5', 'a', '1', '25', 'True', '"q"', 'a:b', '+3', '2,5', 'you', '#1', 'x' * 40)
DATA = {'point': [str(i) for i in range(0, 26)], 'chequer': [str(i) for i in range(1, 6)] + ['15', '10'], 'die': list('1234567'),
        'cube': list('0123'), 'resign': list('1234'), 'length': ['0', '5', '7'], 'crawford': ['True', 'False'], 'score': list('0123'), 'action': ['you']}
VALUES = {'int': ('0', '1', '2', '-1', '5', '341', '+3'), 'float': ('1', '2', '0.5', '-2.5'), 'bool': ('True', 'False'), 'str': ('red', 'blue', '#aabbcc', '#AABBCC', 'lightgrey', 'lightgoldenrodyellow', 'a', 'a:b', 'a-b_9', '"q"', 'x,y'),
          'player': ('you', 'him'), 'diestyle': ('dot', 'numeric'), 'parity': ('odd', 'even')}
URIS = ('uri("a.jpg")', 'uri("sub/b.png")', 'uri("/abs/c.ttf")', 'uri("d-1.jpg")', 'uri("c:/x:y.jpg")', 'uri("../up.jpg")')


@st.composite
def selector(draw, name, plain=False):
    known = name in ATTRS
    cond = data = None
    if known and draw(st.integers(0, 2)) == 0:
        ks = [k for k in CONDS if k in ATTRS[name]]
        if name in ('score', 'field', 'home', 'bar', 'chequer'):
            ks += ['player'] * 4
        if name == 'point':
            ks += ['parity'] * 3
        if name == 'die':
            ks += ['id'] * 3
        k = draw(st.sampled_from(ks))
        vs = [v for v in CONDS[k]]
        cond = (k, draw(st.sampled_from(vs)))
    if draw(st.integers(0, 3)) == 0:
        data = draw(st.sampled_from(DATA.get(name, ['1', 'x']) if draw(st.booleans()) else ODD_TEXTS))
    return (name, cond, data)


@st.composite
def rule(draw, errors=False):
    chain = draw(st.sampled_from(CHAINS))
    k = draw(st.integers(1, len(chain)))
    ix = sorted(draw(st.sets(st.integers(0, len(chain) - 1), min_size=k, max_size=k)))
    names = [chain[i] for i in ix]
    odd = draw(st.integers(0, 19))
    if odd == 0:
        names[draw(st.integers(0, len(names) - 1))] = draw(st.sampled_from(('player', 'chip', 'points', 'boar', 'board', 'chequer')))
    elif odd == 1:
        names = names[::-1]
    elif odd == 2:
        names = names[:1] * draw(st.integers(1, 6)) + names
    pattern = [draw(selector(n)) for n in names]
    t = ATTRS.get(names[-1], ATTRS['board'])
    decl = []
    for _ in range(draw(st.sampled_from((0, 1, 1, 2, 2, 2, 3, 3, 5, 24)))):
        a = draw(st.one_of(st.sampled_from(sorted(t)), st.sampled_from([c for c in CONDS if c in t])))
        v = draw(st.sampled_from(URIS if a in ('image', 'font') else VALUES[t[a][0]]))
        decl.append((a, v))
    if draw(st.integers(0, 9)) == 0:
        decl.insert(draw(st.integers(0, len(decl))), draw(st.sampled_from((('image', None), ('flip=True', None), ('', None), ('nonsense', None)))))
    if errors and draw(st.booleans()):
        decl.append(draw(st.sampled_from((('colour', 'red'), ('x-offset', '2'), ('X', '1'), ('x', 'wide'), ('flip', '1') if False else ('width', '1.5'),
                                          ('image', 'a.jpg'), ('mag', 'big'), ('z', '1')))))
    return ('rule', tuple(pattern), tuple(decl))


other = st.tuples(st.just('other'), st.sampled_from(('', '  ', '/* a comment */', '# a comment', 'x: 5;', '@import "x.css";', 'point', 'point {', '}', '#; flip=True}',
                                                     'board { x: 3', 'point:data(1)', 'x: 7; y: 8}', '\r', ';')))
lines = st.lists(st.one_of(rule(), rule(), rule(), rule(), other), min_size=1, max_size=14)
bad_lines = st.tuples(lines, rule(True), lines).map(lambda t: t[0] + [t[1]] + t[2])
PADS = (('other', '/* more */'), ('rule', (('nothing', None, None),), (('x', '1'),)), ('rule', (('board', None, None),), (('color', 'red'),)), ('other', ''))
pad = st.tuples(st.sampled_from((0, 0, 0, 0, 0, 0, 0, 0, 0, 90, 260)), st.sampled_from(PADS)).map(lambda t: [t[1]] * t[0])
padded = st.tuples(pad, lines).map(lambda t: t[0] + t[1])
extra = st.tuples(st.one_of(st.integers(0, 80), st.sampled_from(sorted(DATA) + ['point', 'home', 'bar', 'field', 'chequer'])), st.one_of(st.sampled_from(ODD_TEXTS).map(lambda v: (None, v)), st.sampled_from(ODD_TEXTS).map(lambda v: (None, v)),
                  st.sampled_from(sorted(CONDS)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(CONDS[k]))))).map(lambda t: (t[0],) + t[1])


def fitted(xs):
    """values set before are of the attribute's type"""
    kind = {k: v[0] for t in ATTRS.values() for k, v in t.items()}
    out = []
    for i, k, v in xs:
        w = v if k is None else convert(kind[k], k, v, '')
        if w is not NONE:
            out.append((i, k, w))
    return out


@st.composite
def cases(draw, sheets):
    """The texts and attributes added to the tree are often what a selector asks for."""
    ls = draw(sheets)
    xs = draw(st.one_of(st.just([]), st.lists(extra, max_size=12).map(fitted)))
    asked = [(n, None, d) for l in ls for r in l if r[0] == 'rule' for n, c, d in r[1] if d is not None]
    asked += [(n,) + c for l in ls for r in l if r[0] == 'rule' for n, c, d in r[1] if c is not None]
    if asked and draw(st.booleans()):
        xs = xs + fitted([(draw(st.integers(0, 80)) if draw(st.integers(0, 3)) == 0 else n, k, v)
                          for n, k, v in draw(st.lists(st.sampled_from(asked), max_size=4))])
    return (draw(image.states()), ls, xs, draw(st.lists(st.integers(0, 300), min_size=1, max_size=6)), draw(st.sampled_from(('load', 'css'))), draw(st.sampled_from(('\n', '', '\n\n'))))


PARTS = [
    Part('cascade', cases(padded.map(lambda l: [l])), sheet, 2000, 50000, rule='at least one rule applies to some element'),
    Part('sheets', cases(st.lists(lines, min_size=2, max_size=4)), sheet, 500, 12000, rule='at least one rule applies to some element'),
    Part('errors', cases(bad_lines.map(lambda l: [l])), sheet, 600, 15000, rule='at least one rule applies, or an error is due'),
]
