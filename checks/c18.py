import re
from hypothesis import strategies as st
from vf import Part, U

PROPERTY = 'C18'

# ---- the declared document type, frozen
CHILDREN = {
    'board': ('match', 'position'), 'match': ('action', 'length', 'crawford', 'score'),
    'action': ('#',), 'length': ('#',), 'crawford': ('#',), 'score': ('#',),
    'position': ('cubeholder', 'field', 'home', 'bar', 'point', 'top_frame', 'bottom_frame'),
    'top_frame': ('#',), 'bottom_frame': ('#',), 'cubeholder': ('#', 'cube'), 'field': ('#', 'die', 'cube', 'resign'),
    'die': ('#',), 'cube': ('#',), 'resign': ('#',), 'home': ('#', 'cube', 'chequer'), 'chequer': ('#',),
    'bar': ('#', 'chequer'), 'point': ('#', 'chequer'),
}
# only these are known to the element factory
MADE = [n for n in sorted(CHILDREN) ]
REGISTERED = [n for n in MADE if n not in ('top_frame', 'bottom_frame', 'cubeholder')]
NONE = object()
# name: (kind, inherited, default)
BASE = {'x': ('int', True, NONE), 'y': ('int', True, NONE), 'width': ('int', True, NONE), 'height': ('int', True, NONE),
        'image': ('str', False, NONE), 'flip': ('bool', True, False), 'background': ('str', False, NONE),
        'color': ('str', False, NONE), 'font': ('str', True, NONE), 'mag': ('float', True, NONE)}
PLAYER = {'player': ('player', False, NONE)}
OFF = {'x_offset': ('int', False, 0), 'y_offset': ('int', False, 0)}
FILL = {'fill': ('bool', True, True)}
EXTRA = {
    'action': PLAYER, 'score': PLAYER, 'field': dict(PLAYER, text=('str', False, NONE)),
    'die': {'backgammon': ('str', False, NONE), 'diestyle': ('diestyle', False, 'dot'), 'eyesize': ('int', False, NONE), 'id': ('str', False, NONE)},
    'cube': {'initialCube': ('str', False, NONE)}, 'resign': dict(PLAYER, **OFF), 'home': dict(PLAYER, **FILL),
    'chequer': dict(PLAYER, x_offset2=('int', False, 0), y_offset2=('int', False, 0), hide_count=('bool', False, False),
                    max_count=('int', False, NONE), **OFF),
    'bar': PLAYER, 'point': dict(parity=('parity', False, NONE), **FILL),
}
ATTRS = {n: dict(BASE, **EXTRA.get(n, {})) for n in MADE}
ENUM = {'player': ('you', 'him'), 'diestyle': ('dot', 'numeric'), 'parity': ('even', 'odd')}
ALL = sorted({a for t in ATTRS.values() for a in t}) + ['colour', 'X', 'foo', 'class', 'playe']


def fits(kind, v):
    """True, False or None (not judged)."""
    if isinstance(v, U):
        return False
    if kind == 'int':
        return None if isinstance(v, bool) else isinstance(v, int)
    if kind == 'float':
        return isinstance(v, float)
    if kind == 'bool':
        return isinstance(v, bool)
    if kind == 'str':
        return isinstance(v, str)
    return isinstance(v, str) and v in ENUM[kind]


values = st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1), st.integers(-5, 400), st.floats(allow_nan=False, allow_infinity=False),
                   st.booleans(), st.sampled_from(('you', 'him', 'dot', 'numeric', 'even', 'odd', 'YOU', '', 'red', 'center', 'True', '10')),
                   st.none(), st.sampled_from(('red', 'you')).map(U), st.just((1, 2)), st.just([]))


def good(kind):
    d = {'int': st.integers(-1000, 1000), 'float': st.sampled_from((0.5, 1.0, 2.75, -1.0)), 'bool': st.booleans(),
         'str': st.sampled_from(('red', '#ffffff', 'a.jpg', ''))}
    return d[kind] if kind in d else st.sampled_from(ENUM[kind])


class Model(object):
    def __init__(self):
        self.es = []

    def new(self, name, kw):
        bad = any(k not in ATTRS[name] or fits(ATTRS[name][k][0], v) is False for k, v in kw)
        self.es.append(dict(name=name, parent=None, kids=[], attrs={} if bad else dict(kw)))
        return not bad

    def appendable(self, i, x):
        if isinstance(x, tuple):
            return self.es[x[1]]['name'] in CHILDREN[self.es[i]['name']]
        return isinstance(x, str) and not isinstance(x, U) and '#' in CHILDREN[self.es[i]['name']]

    def append(self, i, x):
        if not self.appendable(i, x):
            return False
        if isinstance(x, tuple):
            self.es[x[1]]['parent'] = i
            self.es[i]['kids'].append(x[1])
        else:
            self.es[i]['kids'].append(x)
        return True

    def get(self, i, k):
        e = self.es[i]
        if k not in ATTRS[e['name']]:
            return NONE
        kind, inherits, default = ATTRS[e['name']][k]
        j = i
        while j is not None:
            if k in self.es[j]['attrs']:
                return self.es[j]['attrs'][k]
            j = self.es[j]['parent'] if inherits else None
        return default

    def look(self):
        return [[e['name'], e['parent'], e['kids'], sorted(e['attrs'].items())] for e in self.es]


@st.composite
def programs(draw):
    m, cmds = Model(), []
    for _ in range(draw(st.integers(3, 25))):
        op = draw(st.sampled_from(('new', 'new', 'child', 'child', 'append', 'set', 'set', 'set', 'get', 'get', 'get', 'style', 'text')))
        if not m.es:
            op = 'new'
        if op == 'child':  # a fitting child, so that trees grow
            i = draw(st.integers(0, len(m.es) - 1))
            fit = [c for c in CHILDREN[m.es[i]['name']] if c in REGISTERED]
            if not fit:
                continue
            c = draw(st.sampled_from(fit))
            m.new(c, ())
            cmds.append(('new', c, ()))
            j = len(m.es) - 1
            m.append(i, ('elem', j))
            cmds.append(('append', i, ('elem', j)))
        elif op == 'new':
            n = draw(st.sampled_from(REGISTERED))
            kw = {}
            for _ in range(draw(st.sampled_from((0, 0, 1, 1, 2, 3)))):
                k = draw(st.one_of(st.sampled_from(sorted(ATTRS[n])), st.sampled_from(ALL)))
                kw[k] = draw(st.one_of(good(ATTRS[n][k][0]), values)) if k in ATTRS[n] else draw(values)
            kw = tuple(sorted(kw.items()))
            m.new(n, kw)
            cmds.append(('new', n, kw))
        elif op == 'append':
            i = draw(st.integers(0, len(m.es) - 1))
            # an element without parent, which is not above i
            above, j = set(), i
            while j is not None:
                above.add(j)
                j = m.es[j]['parent']
            free = [j for j, e in enumerate(m.es) if e['parent'] is None and j not in above]
            x = ('elem', draw(st.sampled_from(free))) if free else draw(st.sampled_from(('a', '1')))
            m.append(i, x)
            cmds.append(('append', i, x))
        elif op == 'text':
            i = draw(st.integers(0, len(m.es) - 1))
            x = draw(st.sampled_from(('a', '1', 'True', U('a'), 3, None)))
            m.append(i, x)
            cmds.append(('append', i, x))
        elif op in ('set', 'style'):
            i = draw(st.integers(0, len(m.es) - 1))
            t = ATTRS[m.es[i]['name']]
            if op == 'style':
                k = draw(st.one_of(st.sampled_from(sorted(t)), st.sampled_from(ALL)))
                cmds.append(('style', i, k, draw(st.sampled_from(('7', 'you', 'dot', 'even', '0.5', 'uri("a.jpg")', 'True', 'False', 'nonsense')))))
            else:
                k = draw(st.sampled_from(sorted(t)))
                cmds.append(('set', i, k, draw(st.one_of(good(t[k][0]), values))))
            # applied to the model when run
        else:
            i = draw(st.integers(0, len(m.es) - 1))
            k = draw(st.one_of(st.sampled_from(sorted(ATTRS[m.es[i]['name']])), st.sampled_from(ALL)))
            cmds.append(('get', i, k))
    return tuple(cmds)


def converted(kind, inherits, s, k):
    """The value a style's text stands for, NONE if it is not acceptable."""
    if k in ('image', 'font'):
        return '/themes/a.jpg' if s.startswith('uri') else NONE
    try:
        v = {'int': int, 'float': float, 'bool': lambda t: {'True': True, 'False': False}[t]}.get(kind, str)(s)
    except (ValueError, KeyError):
        return NONE
    return v if fits(kind, v) else NONE


def program(ctx, cmds):
    got = ctx.ok('ops_image', 'elements', [c[:2] + ([list(kv) for kv in c[2]],) if c[0] == 'new' else c for c in cmds])
    m = Model()
    refused = 0
    for n, (c, (r, look)) in enumerate(zip(cmds, got)):
        what = 'command %d %r' % (n, c)
        before = m.look()
        if c[0] == 'new':
            want = m.new(c[1], c[2])
            open_ = want and any(fits(ATTRS[c[1]][k][0], v) is None for k, v in c[2])
            if open_ and r[0] == 'exc':
                m.es[-1]['attrs'] = {}
            elif not open_:
                ctx.check((r[0] == 'ok') == want, '%s: %r, expected to be %s' % (what, r, 'accepted' if want else 'refused'))
            refused += not want
        elif c[0] == 'append':
            want = m.append(c[1], c[2])
            ctx.check((r[0] == 'ok') == want, '%s: %r, expected to be %s' % (what, r, 'accepted' if want else 'refused'))
            refused += not want
        elif c[0] == 'set':
            e = m.es[c[1]]
            want = fits(ATTRS[e['name']][c[2]][0], c[3])
            if want is None:
                want = r[0] == 'ok'
            if want:
                e['attrs'][c[2]] = c[3]
            ctx.check((r[0] == 'ok') == want, '%s: %r, expected to be %s' % (what, r, 'accepted' if want else 'refused'))
            refused += not want
        elif c[0] == 'style':
            e = m.es[c[1]]
            t = ATTRS[e['name']]
            v = converted(t[c[2]][0], t[c[2]][1], c[3], c[2]) if c[2] in t else NONE
            if c[2] in t and t[c[2]][0] == 'bool' and c[3] not in ('True', 'False'):
                # other words for flags are not judged
                if r[0] == 'ok':
                    e['attrs'][c[2]] = dict(look[c[1]][3]).get(c[2])
                    ctx.check(isinstance(e['attrs'][c[2]], bool), '%s: %r' % (what, e['attrs'][c[2]]))
            else:
                if v is not NONE:
                    e['attrs'][c[2]] = v
                ctx.check((r[0] == 'ok') == (v is not NONE), '%s: %r, expected to be %s' % (what, r, 'refused' if v is NONE else 'accepted'))
                refused += v is NONE
        else:
            v = m.get(c[1], c[2])
            if v is NONE:
                ctx.check(r[:2] == ['exc', 'AttributeError'], '%s: %r, expected an error' % (what, r))
            else:
                ctx.check(r == ['ok', v] and type(r[1]) is type(v), '%s: %r, expected %r' % (what, r, v))
        for i, (g, w) in enumerate(zip(look, m.look())):
            ctx.check([g[0], g[1], g[2], [list(t) for t in g[3]]] == [w[0], w[1], w[2], [list(t) for t in w[3]]],
                      lambda: '%s: element %d is %r, expected %r' % (what, i, g, w))
    ctx.label('refusals' if refused else 'no refusal')


def pair(ctx, case):
    """One child in one parent, over the whole table."""
    p, c = case
    cmds = (('new', p, ()),)
    cmds += (('append', 0, 'text'),) if c == '#' else (('new', c, ()), ('append', 0, ('elem', 1)))
    program(ctx, cmds)


def lookup(ctx, case):
    """Reading every attribute of every element of a chain with some settings."""
    chain, settings = case
    cmds = [('new', n, ()) for n in chain] + [('append', i, ('elem', i + 1)) for i in range(len(chain) - 1)]
    for i, k, v in settings:
        i %= len(chain)
        if k in ATTRS[chain[i]]:
            cmds.append(('set', i, k, v))
    for i, n in enumerate(chain):
        cmds += [('get', i, k) for k in sorted(ATTRS[n])]
    program(ctx, tuple(cmds))


def doctype(ctx, _):
    """The document type as it is written out declares exactly these elements with these children and attributes."""
    text = ctx.ok('ops_image', 'doctype')
    got = {}
    for m in re.finditer(r'<!ELEMENT\s+(\w+)\s+\(([^)]*)\)\*\s*>', text):
        ctx.check(m.group(1) not in got, 'element %s is declared twice' % m.group(1))
        got[m.group(1)] = [sorted(c.strip() for c in m.group(2).split('|')), None]
    for m in re.finditer(r'<!ATTLIST\s+(\w+)\s+([^>]*)>', text):
        ctx.check(m.group(1) in got and got[m.group(1)][1] is None, 'attributes of %s' % m.group(1))
        got[m.group(1)][1] = sorted(re.findall(r'(\w+)\s+CDATA\s+#IMPLIED', m.group(2)))
    ctx.eq(re.sub(r'<!(ELEMENT|ATTLIST)[^>]*>', '', text).strip(), '', 'rest of the document type')
    ctx.check(set(REGISTERED) <= set(got) <= set(MADE), 'declared elements: %r' % sorted(got))
    for n in sorted(got):
        ctx.eq(got[n], [sorted(c.replace('#', '#PCDATA') for c in CHILDREN[n]), sorted(ATTRS[n])], 'declaration of ' + n)


NEAR = ('you', 'him', 'dot', 'numeric', 'even', 'odd', 'YOU', 'You', 'HIM', 'yo', 'youhim', 'you ', ' him', '', ' ', 'ev', 'n o', 'even odd', 'Even', 'ODD', 'Dot', 'do', 'dots', 'numeric ',
        'True', 'False', '1', '0', '0.5', 'red', '#ffffff', True, False, 0, 1, -1, 7, 400, -2 ** 31, 2 ** 31 - 1, 0.0, 1.0, -0.5, 1e300, None, U(''), U('you'), U('even'), (), (1, 2), ['you'], [])


def every(ctx, case):
    """One attribute of one element, set to every kind of value."""
    n, k = case
    cmds = [('new', n, ())]
    for v in NEAR:
        cmds += [('set', 0, k, v), ('get', 0, k), ('new', n, ((k, v),))]
    program(ctx, tuple(cmds))


CHAINS = [('board', 'position', x) + t for x, t in (('field', ('die',)), ('field', ('cube',)), ('field', ('resign',)), ('home', ('cube',)),
          ('home', ('chequer',)), ('bar', ('chequer',)), ('point', ('chequer',)))] + [('board', 'match', x) for x in ('action', 'length', 'crawford', 'score')]
setting = st.sampled_from(sorted({(k, t[k][0]) for t in ATTRS.values() for k in t})).flatmap(
    lambda kk: st.tuples(st.integers(0, 3), st.just(kk[0]), st.one_of(good(kk[1]), good(kk[1]), values)))
PARTS = [
    Part('document type', None, doctype, 0, 0, examples=['once'], rule='the whole document type'),
    Part('every pair', None, pair, 0, 0, examples=[(p, c) for p in REGISTERED for c in REGISTERED + ['#']], rule='every ordered pair of element types'),
    Part('every value', None, every, 0, 0, examples=[(n, k) for n in REGISTERED for k in sorted(ATTRS[n])], rule='every attribute of every element'),
    Part('reading', st.tuples(st.sampled_from(CHAINS), st.lists(setting, min_size=1, max_size=10)), lookup, 800, 20000, rule='some attribute is set'),
    Part('programs', programs(), program, 1500, 40000, rule='at least three commands'),
]
