import atexit, os, re, shutil, tempfile
from hypothesis import strategies as st
from vf import Part, Raised
import ref, image

PROPERTY = 'C20'
STUBS = True
QUICK_SHARDS = 6
ASSUMPTIONS = ['the Python Imaging Library is not installed here; lib/stubs/Image.py, ImageDraw.py and ImageFont.py stand in for it and record what '
               'the PIL drawer asks of it (fonts are taken to be 0.6 of their height wide per letter)']

DIR = tempfile.mkdtemp(prefix='c20-')
OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == OWNER:
        shutil.rmtree(DIR, ignore_errors=True)


TEXTUAL = ('deutsche', 'flower', 'kotobuki', 'minimal', 'nature', 'neon')
THEMES = TEXTUAL + ('matrix', 'safari')
NATURAL = dict({t: (341, 262) for t in TEXTUAL}, matrix=(1000, 800), safari=(341, 232))


def groups(ops):
    out = []
    for op in ops:
        if op[0] == 'element':
            out.append([op, []])
        else:
            out[-1][1].append(op)
    return out


def must_show(ctx, theme, s, gs):
    """What the state demands of the drawing, by theme, whatever the style says."""
    want = image.shown(s)
    place = None
    stacks = {}
    for el, ops in gs:
        name, player, texts = el[1], el[3], el[4]
        if name == 'point':
            place = (name, int(texts[0]))
        elif name in ('home', 'bar', 'field', 'score', 'cubeholder', 'length', 'crawford', 'action'):
            place = (name, player) if name in ('home', 'bar', 'field', 'score') else (name,)
        said = [op[3] for op in ops if op[0] == 'text']
        pictures = [op[1][0] for op in ops if op[0] == 'image']
        spots = [op for op in ops if op[0] == 'ellipse']
        t = texts[0] if texts else None
        if name == 'chequer':
            n = int(t)
            stacks.setdefault(place, []).append(('chequer', player, n))
            items = spots if theme in TEXTUAL else [op for op in ops if op[0] == 'image']
            if theme == 'safari' and place[0] == 'home':
                pass  # it has no pictures of chequers borne off
            elif theme == 'safari':
                ctx.check(len(pictures) == 1 and re.search(r'[-_]%d\.\w+$' % n, pictures[0]), 'stack of %d on %r: %r' % (n, place, ops))
            else:
                ctx.check(1 <= len(items) <= n, '%d chequers of %d on %r' % (len(items), n, place))
                ctx.check(len(items) == n or said == [str(n)], '%d chequers on %r, number %r' % (n, place, said))
                # the matrix theme has no room for several chequers on the bar
                ctx.check(len({image.box(o) for o in items}) == len(items) or (theme, place[0]) == ('matrix', 'bar'),
                          'chequers on top of each other on %r: %r' % (place, items))
                if theme == 'matrix':
                    ctx.check(set(pictures) == {'matrix/checker_blue.png' if player == 'you' else 'matrix/checker_red.png'}, 'pictures %r of %s' % (pictures, player))
        elif name == 'die':
            if theme in TEXTUAL:
                ctx.eq(len(spots), int(t), 'eyes of a die')
            else:
                ctx.check(len(pictures) == 1 and re.search(r'_%s\.\w+$' % t, pictures[0]), 'die %s drawn as %r' % (t, pictures))
        elif name == 'cube':
            v = 2 ** int(t)
            if theme in TEXTUAL:
                ctx.check(said == [str(v)] or v == 1 and said == ['64'], 'cube at %d says %r' % (v, said))
            elif theme == 'safari' and v <= 32:
                ctx.check(len(pictures) == 1 and re.search(r'_%s\.\w+$' % t, pictures[0]), 'cube %s drawn as %r' % (t, pictures))
        elif name in ('score', 'length'):
            if theme in TEXTUAL or theme == 'matrix' and name == 'score':
                ctx.eq(said, [t], name)
            elif theme == 'safari' and int(t) <= 25:
                ctx.check(len(pictures) == 1 and pictures[0].endswith('/score_%s.jpg' % t), '%s %s drawn as %r' % (name, t, pictures))
        elif name == 'crawford':
            if theme in TEXTUAL:
                ctx.eq(bool(said), t == 'True', 'mark of the Crawford game')
            elif theme == 'safari':
                ctx.eq(pictures, ['safari/crawford.jpg' if t == 'True' else 'safari/score_template.jpg'], 'Crawford')
        elif name == 'action':
            if theme in TEXTUAL:
                ctx.eq(said, [t], 'action')
            else:
                ctx.eq(len(pictures), 1, 'pictures for the action')
        elif name == 'resign':
            if theme in TEXTUAL:
                ctx.eq(said, [('single', 'gammon', 'backgammon')[int(t) - 1]], 'resignation')
            elif theme == 'safari':
                ctx.eq(len(pictures), int(t), 'chips for a resignation')
    ctx.eq({p: sorted(v) for p, v in stacks.items()}, {p: [x for x in v if x[0] == 'chequer'] for p, v in want.items() if any(x[0] == 'chequer' for x in v)}, 'stacks drawn')


def drawing(ctx, case):
    theme, s, size = case
    plan = ctx.ok('ops_image', 'plan', theme, s)
    ops = ctx.ok('ops_image', 'drawing', theme, s, size)
    gs = groups(ops)
    ctx.label(theme, image.kind_of(s))
    for op in ops:
        if op[0] == 'element':
            continue
        x0, y0, x1, y1 = image.box(op)
        ctx.check(0 <= x0 <= x1 <= size[0] and 0 <= y0 <= y1 <= size[1], '%r leaves the picture of %r' % (op, size))
    want = image.render(plan, size)
    ctx.eq([(g[0][1], g[0][4]) for g in gs], [w[0] for w in want], 'elements drawn')
    for (el, got), (_, w) in zip(gs, want):
        norm = lambda l: [[list(map(tuple, x)) if o[0] == 'polygon' and isinstance(x, list) else x for x in o] for o in l]
        ctx.check(norm(got) == norm(w), lambda: '%s %r drawn as %r, expected %r' % (el[1], el[4], got, w))
    if size[0] >= 300 and size[1] >= 200:
        must_show(ctx, theme, s, gs)
    # the same proportions at every size: each item where the natural size has it, times one factor
    n = ctx.ok('ops_image', 'drawing', theme, s, NATURAL[theme])
    k = min(size[0] / NATURAL[theme][0], size[1] / NATURAL[theme][1])
    a, b = [o for o in ops if o[0] != 'element'], [o for o in n if o[0] != 'element']
    if theme != 'matrix':  # its stacks wrap at the end of a row, which the rounding can move
        ctx.eq([o[0] for o in a], [o[0] for o in b], 'kinds of items at the natural size')
        for x, y in zip(a, b):
            tol = 3 + 6 + max(1, k) * 2
            ctx.check(all(abs(p - q * k) <= tol for p, q in zip(image.box(x), image.box(y))), '%r is not %r times %r' % (x, k, y))
    uris = sorted({o[1][0] for o in a if o[0] == 'image'} | {o[4] for o in a if o[0] == 'text' and o[4]})
    for u, there in zip(uris, ctx.ok('ops_image', 'files', uris)):
        ctx.check(there, 'the theme names a file that does not exist: %s' % u, 'missing ' + u)
    ctx.eq(ctx.ok('ops_image', 'drawing', theme, s, size), ops, 'drawn again')


def on_bar(ctx, case):
    theme, player, n = case
    side, other = tuple(n if i == 24 else 0 for i in range(25)), ref.DEFAULT['position'][1]
    s = dict(ref.DEFAULT, position=(side, other) if player == 'you' else (other, side), game_state=ref.ON_GOING)
    drawing(ctx, (theme, s, (800, 700)))


def several(ctx, case):
    theme, jobs = case
    if len(jobs) < 2:
        ctx.trivial()
    got = ctx.ok('ops_image', 'drawings', theme, jobs)
    for i, (s, size) in enumerate(jobs):
        ctx.eq(got[i], ctx.ok('ops_image', 'drawing', theme, s, size), 'drawing %d of a drawer and of a fresh one' % i)
    a, b = ctx.ok('ops_image', 'plain', theme, jobs)
    ctx.eq(a, b, 'plain drawings of one drawer and of fresh ones')
    for p, g in zip(a, got):
        ctx.eq([l.split(' ')[0] for l in p], [{'text': 'draw_text', 'image': 'paste_image', 'ellipse': 'draw_ellipse', 'polygon': 'draw_polygon',
                                               'rect': 'draw_rect'}[o[0]] for o in g if o[0] != 'element'], 'kinds of operations')


def fitting(text, size):
    """(font size, w, h) of a text in a box, None if it does not fit."""
    f = size[1]
    while True:
        w, h = len(text) * f * 3 // 5, f * 5 // 4
        if w < size[0] and h < size[1]:
            return f, w, h
        f -= 1
        if f < 8:
            return None


def expected_pil(plan, size):
    out = []
    for _, ops in image.render(plan, size):
        for o in ops:
            if o[0] == 'text':
                f = fitting(o[3], o[2])
                if f:
                    x, y = o[1]
                    out.append(['text', (x + (o[2][0] - f[1]) // 2, y + (o[2][1] - f[2]) // 2), o[3], o[4], f[0], o[5]])
            elif o[0] == 'ellipse':
                out.append(['ellipse', image.box(o), o[3]])
            elif o[0] == 'polygon':
                out.append(['polygon', o[1], o[2]])
            elif o[0] == 'rect':
                x0, y0, x1, y1 = image.box(o)
                out.append(['rectangle', [(x0, y0), (x1 - 1, y1 - 1)], o[3]])
            else:
                uri, sz, flip = o[1]
                out.append(['paste', ('flipped', uri) if flip else uri, sz, image.box(o), uri.endswith('.png')])
    return out


def pil(ctx, case):
    theme, jobs, spoil = case
    if theme == 'safari':  # it lacks some pictures, see 'bar'
        jobs = [j for j in jobs if j[0]['position'][0][24] < 8 and j[0]['position'][1][24] < 8]
    if not jobs:
        ctx.trivial()
        return
    got = ctx.ok('ops_image', 'pil', theme, jobs, spoil)
    if spoil:
        ctx.label('after failures')
    n = len(jobs)
    for i, (s, size) in enumerate(jobs):
        ctx.eq(got[i], got[n + i], 'picture %d of a drawer and of a fresh one' % i)
        ctx.eq(got[i], got[2 * n + i], 'picture %d of a drawer and of the one that comes with the theme' % i)
        ctx.eq(got[i][:3], ['new', 'RGBA', size], 'picture')
        want = expected_pil(ctx.ok('ops_image', 'plan', theme, s), size)
        for a, b in zip(got[i][3], want):
            ctx.check(a == b, 'picture of %s at %r: %r, expected %r' % (theme, size, a, b))
        ctx.eq(len(got[i][3]), len(want), 'operations')
    ctx.label(theme)


def own_rules(ctx, case):
    """A theme with rules of one's own: every item where and as the resulting style says."""
    theme, s, size, rules, how = case
    text = ''.join('%s {%s}\n' % (sel, '; '.join('%s: %s' % d for d in decls)) for sel, decls in rules)
    path = os.path.join(DIR, 'own-%d.css' % os.getpid())
    for name in ('own.ttf', 'a/b.png'):
        if not os.path.exists(os.path.join(DIR, name)):
            os.makedirs(os.path.dirname(os.path.join(DIR, name)), exist_ok=True)
            open(os.path.join(DIR, name), 'w').close()
    plan, got = ctx.ok('ops_image', 'with_rules', theme, text, path, how, s, size)
    if how == 'pil':
        want = expected_pil(plan, size)
        for a, b in zip(got[0][3], want):
            ctx.check(a == b, lambda: 'picture with\n%s\n%r, expected %r' % (text, a, b))
        ctx.eq(len(got[0][3]), len(want), 'operations with\n%s' % text)
        return
    gs = groups(got)
    want = image.render(plan, size)
    ctx.eq([(g[0][1], g[0][4]) for g in gs], [w[0] for w in want], 'elements drawn')
    for (el, got), (_, w) in zip(gs, want):
        norm = lambda l: [[list(map(tuple, x)) if o[0] == 'polygon' and isinstance(x, list) else x for x in o] for o in l]
        ctx.check(norm(got) == norm(w), lambda: '%s %r drawn as %r, expected %r with\n%s' % (el[1], el[4], got, w, text))
    for sel, decls in rules:
        ctx.label(sel.split('[')[0].split(' ')[-1])


DIM = st.one_of(st.integers(0, 60), st.integers(0, 300)).map(str)
POS = st.one_of(st.integers(0, 340), st.integers(-40, 400)).map(str)
COLOUR = st.sampled_from(('red', '#123456', 'white'))
YES = st.sampled_from(('True', 'False'))
FILE = st.sampled_from(('uri("own.ttf")', 'uri("a/b.png")'))
COMMON = dict(x=POS, y=POS, width=DIM, height=DIM, color=COLOUR, background=COLOUR, font=FILE, image=FILE, flip=YES)
OWN = dict(point=dict(fill=YES), chequer=dict(x_offset=st.integers(-20, 30).map(str), y_offset=st.integers(-20, 30).map(str), x_offset2=st.integers(-90, 90).map(str),
                                              y_offset2=st.integers(-90, 90).map(str), max_count=st.integers(0, 15).map(str), hide_count=YES),
           die=dict(eyesize=st.integers(0, 20).map(str), diestyle=st.sampled_from(('dot', 'numeric'))), cube=dict(initialCube=st.sampled_from(('1', '64', 'x'))),
           resign=dict(x_offset=st.integers(-20, 30).map(str), y_offset=st.integers(-20, 30).map(str)), field=dict(text=st.sampled_from(('t', 'abc'))),
           home=dict(fill=YES), action={}, score={}, length={}, crawford={}, bar={}, board={}, match={}, position={}, cubeholder={})
WHERE = dict(point=['[parity=odd]', '[parity=even]', ':data(7)'], chequer=['[player=you]', '[player=him]'], die=['[id=left]', '[id=right]', ':data(5)'],
             field=['[player=you]', '[player=him]'], home=['[player=you]', '[player=him]'], bar=['[player=you]', '[player=him]'], score=['[player=you]'])


@st.composite
def own(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        e = draw(st.one_of(st.sampled_from(('point', 'chequer', 'die', 'cube', 'resign', 'field')), st.sampled_from(sorted(OWN))))
        kinds = dict(COMMON, **OWN[e])
        if e in ('board', 'match', 'position'):  # everything else inherits from these
            kinds = {k: v for k, v in kinds.items() if k in ('background', 'flip', 'color', 'font', 'image') and (e != 'board' or k != 'image')}
        special = sorted(OWN[e]) * 2
        names = draw(st.lists(st.sampled_from(sorted(k for k in kinds if k != 'image' or e in ('point', 'chequer', 'resign', 'bar', 'home')) + special),
                              min_size=1, max_size=5, unique=True))
        decls = [(k, draw(kinds[k])) for k in names]
        if ('diestyle', 'numeric') in decls and 'font' not in names:
            decls.append(('font', 'uri("own.ttf")'))
        out.append((e + draw(st.sampled_from([''] + WHERE.get(e, []))), decls))
    return out


theme = st.sampled_from(THEMES)
side = st.one_of(st.integers(1, 2000), st.integers(200, 900), st.integers(1, 40), st.sampled_from((341, 262, 1000, 800, 682, 524, 400, 5000)))
size = st.one_of(st.tuples(side, side), st.tuples(side, side), side.map(lambda n: (n, n)))
big = st.integers(200, 1500)
job = st.tuples(image.states(), size)
PARTS = [
    Part('drawing', st.tuples(theme, image.states(), size), drawing, 900, 25000, rule='every case draws a board'),
    Part('bar', None, on_bar, 0, 0, examples=[(t, p, n) for t in ('safari', 'matrix', 'nature') for p in image.NAME for n in range(1, 16)], rule='every number of chequers on each bar'),
    Part('drawer', st.tuples(theme, st.lists(job, min_size=1, max_size=4)), several, 250, 5000, rule='at least two boards on one drawer'),
    Part('own rules', st.tuples(st.sampled_from(TEXTUAL + TEXTUAL + ('matrix',)), image.states(), st.tuples(big, big), own(), st.sampled_from(('drawing', 'drawing', 'pil'))), own_rules, 500, 12000,
         rule='every case draws a board'),
    Part('PIL drawer', st.tuples(theme, st.lists(st.tuples(image.states(), st.tuples(big, big)), min_size=1, max_size=4), st.sampled_from((False, False, True))), pil, 350, 8000,
         rule='every case draws a board'),
]
