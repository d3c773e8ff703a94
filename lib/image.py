"""States of a game in progress, and the picture tree they should give."""
from hypothesis import strategies as st
import ref, gen

KINDS = ('to roll', 'to move', 'double offered', 'double taken', 'resignation offered', 'resignation after the roll')
NAME = ('you', 'him')
YH = (0, 1)
CONTAINERS = {'you': 0, 'him': 1}


@st.composite
def states(draw, kinds=KINDS, lengths=(0, 0, 1, 3, 5, 7, 25, 64, 300)):
    kind = draw(st.sampled_from(kinds))
    w = draw(gen.who)
    me, opp = draw(gen.duel())
    if draw(st.integers(0, 7)) == 0:  # tall stacks
        p = draw(st.sampled_from(tuple(range(25)) + (24,) * 10))
        n = draw(st.integers(4, 15))
        q = draw(st.integers(0, 24))
        me = [0] * 25
        me[q] = 15 - n if draw(st.booleans()) else 0
        me[p] += n
        me = tuple(me)
        me, opp = gen.resolve(me, opp)
    ml = draw(st.sampled_from(lengths))
    s = dict(ref.DEFAULT)
    s.update(position=ref.join(me, opp, w), on_action=w, on_inner_action=w, game_state=ref.ON_GOING, match_length=ml,
             score=tuple(draw(st.integers(0, ml - 1 if ml else draw(st.sampled_from((120, 1200, 70000))))) for _ in YH),
             crawford=draw(st.booleans()) if ml else False,
             cube_in_logarithm=draw(st.integers(0, 10)), cube_owner=draw(st.sampled_from((0, 1, 3))))
    if kind in ('to move', 'resignation after the roll'):
        s['rolled'] = draw(gen.dice)
    if kind.startswith('double'):
        s['doubled'] = True
    if kind == 'double taken' and draw(st.booleans()):
        s['rolled'] = draw(gen.dice)
    if kind.startswith('resignation'):
        s['resign_offer'] = draw(st.integers(1, 3))
    if kind in ('double offered', 'resignation offered', 'resignation after the roll'):
        s['on_inner_action'] = 1 - w
    return s


def kind_of(s):
    w, i = s['on_action'], s['on_inner_action']
    if s['resign_offer'] and i != w:
        return 'resign'
    if s['doubled'] and i != w:
        return 'offer'
    if s['rolled'] != (0, 0):
        return 'move'
    return 'took' if s['doubled'] else 'roll'


TEXT = {('roll', 0): 'you to roll or double.', ('roll', 1): 'him to roll or double.',
        ('move', 0): 'you to move.', ('move', 1): 'him to move.',
        ('took', 0): 'you doubled. he took. you to roll.', ('took', 1): 'he doubled. you took. him to roll.',
        ('offer', 0): 'you doubled. him to take or drop.', ('offer', 1): 'he doubled. you to take or drop.',
        ('resign', 0): 'him to accept your resignation or not.', ('resign', 1): 'you to accept his resignation or not.'}


def shown(s):
    """What the picture must show: {place: set of things}."""
    out = {}

    def put(place, *thing):
        out.setdefault(place, []).append(thing)
    for w in (0, 1):
        side = s['position'][w]
        for i in range(24):
            if side[i]:
                put(('point', i + 1 if w == 0 else 24 - i), 'chequer', NAME[w], side[i])
        if side[24]:
            put(('bar', NAME[w]), 'chequer', NAME[w], side[24])
        if sum(side) < 15:
            put(('home', NAME[w]), 'chequer', NAME[w], 15 - sum(side))
        put(('score', NAME[w]), 'text', str(s['score'][w]))
    put(('length',), 'text', str(s['match_length']))
    put(('crawford',), 'text', str(s['crawford']))
    k, w, other = kind_of(s), s['on_action'], 1 - s['on_action']
    if k == 'offer':
        put(('field', NAME[other]), 'cube', str(s['cube_in_logarithm'] + 1))
    elif s['cube_owner'] == ref.CENTER:
        put(('cubeholder',), 'cube', str(s['cube_in_logarithm']))
    else:
        put(('home', NAME[s['cube_owner']]), 'cube', str(s['cube_in_logarithm']))
    if k == 'move':
        put(('field', NAME[w]), 'die', 'right', str(s['rolled'][0]))
        put(('field', NAME[w]), 'die', 'left', str(s['rolled'][1]))
    if k == 'resign':
        put(('field', NAME[other]), 'resign', str(s['resign_offer']))
    put(('action',), 'text', TEXT[k, w])
    return {p: sorted(v) for p, v in out.items()}


# the player of the action: whose decision it is; after your own double the reference pictures of the themes
# (bglib/image/resource/*/test/a.xml) mark your side
def actor(s):
    k, w = kind_of(s), s['on_action']
    if k == 'offer':
        return NAME[0]
    return NAME[1 - w] if k == 'resign' else NAME[w]


def seen(root):
    """The same of a dumped tree; raises ValueError on anything out of place."""
    out = {}

    def put(place, *thing):
        out.setdefault(place, []).append(thing)
    names = lambda e: sorted(c[1] for c in e[3] if isinstance(c, list))
    if root[1] != 'board' or names(root) != ['match', 'position']:
        raise ValueError('board made of %r' % names(root))
    match, position = sorted((c for c in root[3]), key=lambda c: c[1])
    if names(match) != ['action', 'crawford', 'length', 'score', 'score']:
        raise ValueError('match made of %r' % names(match))
    want = ['bar'] * 2 + ['bottom_frame', 'cubeholder'] + ['field'] * 2 + ['home'] * 2 + ['point'] * 24 + ['top_frame']
    if names(position) != want:
        raise ValueError('position made of %r' % names(position))
    places = set()
    player = None
    for e in match[3] + position[3]:
        name, a, kids = e[1], dict(e[2]), e[3]
        texts = [c for c in kids if isinstance(c, str)]
        if name == 'point':
            n = int(texts[0])
            if len(texts) != 1 or str(n) != texts[0] or not 1 <= n <= 24:
                raise ValueError('point named %r' % texts)
            if a.get('parity') != ('odd' if n % 2 else 'even'):
                raise ValueError('point %d is %r' % (n, a))
            place, texts = (name, n), []
        elif name in ('bar', 'home', 'field', 'score'):
            place = (name, a['player'])
        else:
            place = (name,)
        if place in places:
            raise ValueError('%r twice' % (place,))
        places.add(place)
        if name == 'action':
            player = a.get('player')
        for t in texts:
            put(place, 'text', t)
        for c in kids:
            if isinstance(c, str):
                continue
            ca = dict(c[2])
            if len(c[3]) != 1 or not isinstance(c[3][0], str):
                raise ValueError('%s with %r' % (c[1], c[3]))
            if c[1] == 'chequer':
                put(place, 'chequer', ca['player'], int(c[3][0]))
            elif c[1] == 'die':
                put(place, 'die', ca['id'], c[3][0])
            else:
                put(place, c[1], c[3][0])
    return {p: sorted(v) for p, v in out.items()}, player


# ---- what a styled tree looks like when drawn
def scale(root, size):
    d = dict(map(tuple, root[2]))
    return min(float(size[0]) / d['width'], float(size[1]) / d['height'])


DOTS = {'1': 'c', '2': 'RT LB', '3': 'RT c LB', '4': 'RT RB LT LB', '5': 'RT RB LT LB c', '6': 'RT RM RB LT LM LB'}


def render(root, size):
    """The drawing operations of a styled tree, by element: [(element, [operation])]."""
    mag = scale(root, size)
    m = lambda v: int(v * mag)
    out = []

    def visit(e, parent):
        name, a, kids = e[1], dict(map(tuple, e[2])), e[3]
        texts = [c for c in kids if isinstance(c, str)]
        ops = []
        out.append(((name, texts), ops))
        if 'background' in a or 'image' in a or 'color' in a:
            pos, sz = (m(a['x']), m(a['y'])), (m(a['width']), m(a['height']))
        if 'background' in a:
            ops.append(['rect', pos, sz, a['background']])
        if 'image' in a or 'color' in a:
            # an image named by an empty text is none
            draw(name, a, texts, pos, sz, parent, ops)
        for c in kids:
            if isinstance(c, list):
                visit(c, a)

    def draw(name, a, texts, pos, sz, parent, ops):
        image, font, flip = a.get('image'), a.get('font'), a.get('flip')
        picture = lambda p=pos, f=flip: ops.append(['image', (image, sz, f), p, sz])
        text = lambda t, color, p=pos: ops.append(['text', p, sz, t, font, color])
        if name in ('action', 'length', 'score'):
            if image:
                picture()
            elif font:
                text(texts[0], a.get('color', 'white'))
        elif name == 'crawford':
            if image:
                picture()
            elif font and texts[0] == 'True':
                text('*', a.get('color', 'white'))
        elif name == 'field':
            if image:
                picture()
            elif font and a.get('text'):
                text(a['text'], a.get('color', 'black'))
        elif name == 'die':
            if image:
                picture()
            elif a['diestyle'] == 'numeric':
                text(texts[0], a.get('color', 'black'))
            else:
                eye = (m(a['eyesize']),) * 2
                half = lambda i, k: pos[i] + sz[i] * k // 4 - eye[i] // 2
                spots = {'c': (pos[0] + sz[0] // 2 - eye[0] // 2, pos[1] + sz[1] // 2 - eye[1] // 2)}
                for c, k in (('L', 1), ('R', 3)):
                    for r, l in (('T', 1), ('M', 2), ('B', 3)):
                        spots[c + r] = (half(0, k), half(1, l))
                for k in DOTS[texts[0]].split():
                    ops.append(['ellipse', spots[k], eye, a.get('color', 'black')])
        elif name == 'cube':
            v = 2 ** int(texts[0])
            if image:
                picture()
            elif v == 1 and 'initialCube' in a:
                text(a['initialCube'], a.get('color', 'white'))
            else:
                text(str(v), a.get('color', 'white'))
        elif name == 'resign':
            if image:
                p = pos
                for i in range(int(texts[0])):
                    p = (p[0] + m(a['x_offset']), p[1] + m(a['y_offset']))
                    picture(p, False)
            else:
                text(('none', 'single', 'gammon', 'backgammon')[int(texts[0])], a.get('color', 'white'))
        elif name == 'chequer':
            n, p = int(texts[0]), list(pos)
            for i in range(min(n, a['max_count'])):
                if image:
                    picture(tuple(p))
                else:
                    ops.append(['ellipse', tuple(p), sz, a.get('color', 'white')])
                p[0] += m(a['x_offset'])
                p[1] += m(a['y_offset'])
                if p[0] + sz[0] > m(parent['x']) + m(parent['width']) or p[1] + sz[1] > m(parent['y']) + m(parent['height']):
                    p[0] += m(a['x_offset2'])
                    p[1] += m(a['y_offset2'])
            if font and not a.get('hide_count') and n > a['max_count']:
                text(str(n), a.get('color', 'white'), tuple(p))
        elif name == 'point':
            (x, y), (w, h) = pos, sz
            if image:
                picture()
            else:
                tri = [(x, y), (x + w // 2, y + h), (x + w, y)] if flip else [(x, y + h), (x + w // 2, y), (x + w, y + h)]
                ops.append(['polygon', tri, a['color']] if a.get('fill', True) else ['polygon', tri, None])
        elif image:
            picture()
    visit(root, None)
    return out


def box(op):
    if op[0] == 'polygon':
        xs, ys = [p[0] for p in op[1]], [p[1] for p in op[1]]
        return min(xs), min(ys), max(xs), max(ys)
    pos, sz = (op[2], op[3]) if op[0] == 'image' else (op[1], op[2])
    return pos[0], pos[1], pos[0] + sz[0], pos[1] + sz[1]
