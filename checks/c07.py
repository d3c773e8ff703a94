from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C07'
CENTER, ON_GOING = ref.CENTER, ref.ON_GOING
NAMES = ('roll', 'move', 'double', 'beaver', 'take or drop', 'resign', 'answer a resignation')


def entitled(s, w):
    a, i = s['on_action'], s['on_inner_action']
    live = s['game_state'] == ON_GOING
    turn = live and a == w and i == w
    ml, cube = s['match_length'], 2 ** s['cube_in_logarithm']
    decide = live and s['doubled'] and i == w and a != w
    return [
        turn and s['resign_offer'] == 0 and s['rolled'] == (0, 0),
        turn and s['resign_offer'] == 0 and s['rolled'] != (0, 0),
        turn and not s['crawford'] and s['rolled'] == (0, 0) and not s['doubled'] and
        s['cube_owner'] in (CENTER, w) and (ml == 0 or s['score'][w] + cube < ml),
        decide and ml == 0,
        decide,
        turn,
        live and s['resign_offer'] != 0 and i == w,
    ]


def step(s, cmd):
    """The state after a command, or None if the player is not entitled to it."""
    op = cmd[0]
    s = dict(s)
    if op == 'roll':
        w = s['on_action']
        if not entitled(s, w)[0]:
            return 'skip'
        s['rolled'] = cmd[1]
        return s
    if op == 'pickupdice':
        if not entitled(s, s['on_action'])[1]:
            return 'skip'
        s['rolled'] = (0, 0)
        s['on_action'] = s['on_inner_action'] = 1 - s['on_action']
        return s
    w = cmd[1]
    e = entitled(s, w)
    sc = list(s['score'])
    cube = 2 ** s['cube_in_logarithm']
    if op == 'double':
        if not e[2]:
            return None
        s.update(doubled=True, on_inner_action=1 - w)
    elif op == 'take':
        if not e[4]:
            return None
        s.update(doubled=False, on_inner_action=s['on_action'], cube_owner=w,
                 cube_in_logarithm=s['cube_in_logarithm'] + 1)
    elif op == 'drop':
        if not e[4]:
            return None
        sc[1 - w] += cube
        s.update(game_state=ref.DOUBLED_OUT, score=tuple(sc))
    elif op == 'offer_resign':
        if not e[5]:
            return None
        s.update(resign_offer=cmd[2], on_inner_action=1 - w)
    elif op == 'accept_resign':
        if not e[6]:
            return None
        sc[w] += s['resign_offer'] * cube
        s.update(game_state=ref.RESIGNED, score=tuple(sc))
    elif op == 'reject_resign':
        if not e[6]:
            return None
        s.update(resign_offer=0, on_inner_action=1 - w)
    return s


@st.composite
def start(draw):
    me, opp = draw(gen.duel(['contact', 'race', 'few']))
    w = draw(gen.who)
    s = dict(ref.DEFAULT)
    ml = draw(st.sampled_from((0, 0, 1, 2, 3, 4, 5, 7, 9, 11, 17, 25, 33, 64, 64, 97, 129, 200, 513, 5000)))
    top = ml - 1 if ml else 30
    close = st.sampled_from(sorted(set(max(0, top - k) for k in (0, 1, 2, 3, 4, 7))))
    cube = draw(st.one_of(st.sampled_from((0, 0, 0, 1, 1, 2, 3, 4, 5, 6)), st.integers(4, 18))) if ml > 64 or not draw(st.integers(0, 9)) else \
        draw(st.sampled_from((0, 0, 0, 1, 1, 2, 3, 4, 5, 6)))
    # just before, at and after the score at which the cube is worth the rest of the match
    edge = st.sampled_from([min(top, max(0, ml - 2 ** cube + k)) for k in (-1, 0, 1)])
    sc = tuple(draw(st.one_of(st.integers(0, top), close, edge)) for _ in range(2))
    s.update(position=ref.join(me, opp, w), on_action=w, on_inner_action=w,
             game_state=draw(st.sampled_from((ON_GOING,) * 9 + (ref.NOT_STARTED, ref.FINISHED))),
             match_length=ml, score=sc, cube_in_logarithm=cube,
             cube_owner=draw(st.sampled_from((CENTER, 0, 1) if cube else (CENTER,))),
             crawford=draw(st.sampled_from((False, False, True))) if ml else False,
             rolled=draw(st.one_of(st.just((0, 0)), st.just((0, 0)), gen.dice)))
    return s


PLAN = {  # what is likely to be possible next, so that histories get somewhere; the rest is tried as well
    'turn': ('roll', 'double', 'roll', 'double', 'offer_resign'),
}


@st.composite
def scripts(draw):
    s = draw(start())
    first = s
    cmds = []
    for _ in range(draw(st.integers(1, 25))):
        w = draw(gen.who)
        cand = []
        if draw(st.integers(0, 3)):
            # something permitted
            for w2 in (0, 1):
                e = entitled(s, w2)
                cand += ['roll'] * 2 * e[0] + ['pickupdice'] * 2 * e[1] + [('double', w2)] * 3 * e[2] + \
                    [('take', w2)] * 3 * e[4] + [('drop', w2)] * e[4] + [('offer_resign', w2)] * e[5] + \
                    [('accept_resign', w2), ('reject_resign', w2), ('reject_resign', w2)] * e[6]
        c = draw(st.sampled_from(cand)) if cand else \
            (draw(st.sampled_from(('double', 'take', 'drop', 'offer_resign', 'accept_resign', 'reject_resign'))), w)
        if c == 'roll':
            cmd = ('roll', draw(gen.dice))
        elif c == 'pickupdice':
            cmd = ('pickupdice',)
        elif c[0] == 'offer_resign':
            cmd = c + (draw(st.integers(1, 3)),)
        else:
            cmd = c
        t = step(s, cmd)
        if t == 'skip':
            continue
        cmds.append(cmd)
        s = s if t is None else t
    return (first, cmds)


def turns(ctx, case):
    s, cmds = case
    if not cmds:
        ctx.trivial()
    out = ctx.ok('ops_model', 'turns', s, cmds)
    for i, (err, b, ent) in enumerate(out):
        where = 'at the start'
        if i:
            cmd = cmds[i - 1]
            where = 'after %r' % (cmds[:i],)
            t = step(s, cmd)
            if t == 'skip':
                return
            if t is None:
                ctx.check(err is not None, '%s: %r is not entitled to it' % (where, cmd[1]))
                ctx.label(cmd[0] + ' refused')
            else:
                ctx.check(err is None, '%s: the action raised %s' % (where, err))
                ctx.label(cmd[0])
                s = t
        for k in ref.FIELDS:
            ctx.check(b[k] == s[k], '%s: %s is %r, expected %r' % (where, k, b[k], s[k]))
        want = entitled(s, 0) + entitled(s, 1)
        for j, (g, x) in enumerate(zip(ent, want)):
            ctx.check(g == bool(x), '%s: may player %d %s? library %r, rules %r; state %r' %
                      (where, j // 7, NAMES[j % 7], g, bool(x), s))


PARTS = [Part('turns', scripts(), turns, 2000, 15000, rule='at least one action')]
