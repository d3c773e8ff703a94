from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C11'
YOU, HIM = ref.YOU, ref.HIM

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_<>'
names = st.one_of(*[st.text(alphabet=LETTERS, min_size=1, max_size=12)] * 5, st.text(alphabet=LETTERS, min_size=13, max_size=40))


@st.composite
def situation(draw):
    you, him = draw(gen.duel())
    log = draw(st.integers(0, 10))
    turn = draw(st.sampled_from((1, 1, 1, -1, -1, -1, 0)))  # the viewer, the opponent, nobody
    d = st.one_of(gen.dice, st.just((0, 0)))
    return dict(you=you, him=him, colour=draw(st.sampled_from((1, -1))), direction=draw(st.sampled_from((1, -1))),
                turn=turn, your_dice=draw(d), his_dice=draw(d), cube=log,
                may=draw(st.tuples(st.booleans(), st.booleans())), doubled=bool(turn) and draw(st.integers(0, 3)) == 0,
                ml=draw(st.one_of(st.integers(0, 25), st.integers(26, 99), st.integers(100, 999), st.sampled_from((999, 1000, 9999, 12345)))),
                score=draw(st.one_of(st.tuples(st.integers(0, 25), st.integers(0, 25)), st.tuples(st.integers(0, 999), st.integers(0, 999)), st.tuples(st.integers(0, 99999), st.integers(0, 99999)))),
                names=draw(st.tuples(st.sampled_from(('You', 'You', 'bob')), names)),
                rest=draw(st.tuples(st.integers(0, 4), st.integers(0, 1), st.integers(0, 1), st.integers(0, 9))))


def line(s):
    b = [0] * 26
    c, d = s['colour'], s['direction']
    # playing from 24 to 1 (direction -1) home is 0 and the bar 25; the other way round otherwise
    for i in range(25):
        n = i + 1
        b[n if d < 0 else 25 - n] += c * s['you'][i]
        b[25 - n if d < 0 else n] -= c * s['him'][i]
    f = ['board', s['names'][0], s['names'][1], s['ml'], s['score'][0], s['score'][1]] + b
    f += [s['turn'] * c] + list(s['your_dice']) + list(s['his_dice']) + [2 ** s['cube'], int(s['may'][0]), int(s['may'][1]),
                                                                       int(s['doubled']), c, d]
    f += [0 if d < 0 else 25, 25 if d < 0 else 0, 15 - sum(s['you']), 15 - sum(s['him']), s['you'][24], s['him'][24]]
    f += list(s['rest'])
    return ':'.join(map(str, f))


def expected(s):
    may = s['may']
    w = dict(position=(s['you'], s['him']), cube_in_logarithm=s['cube'], match_length=s['ml'], score=s['score'],
             cube_owner=ref.CENTER if may[0] == may[1] else YOU if may[0] else HIM, crawford=may == (False, False),
             doubled=s['doubled'], resign_offer=0)
    if s['turn']:
        who = YOU if s['turn'] > 0 else HIM
        w.update(on_action=who, on_inner_action=1 - who if s['doubled'] else who, game_state=ref.ON_GOING,
                 rolled=s['your_dice'] if who == YOU else s['his_dice'])
    else:
        w.update(game_state=ref.FINISHED, rolled=(0, 0))
    return w


def judge(ctx, got, s, l, where=''):
    w = expected(s)
    for k in sorted(w):
        ctx.check(got[k] == w[k], '%s%s: got %r, the line says %r; %s' % (where, k, got[k], w[k], l))
    if not s['turn']:
        ctx.check(got['on_action'] not in (YOU, HIM), 'nobody is on turn but player %r is on action' % got['on_action'])


def board(ctx, case):
    l = line(case)
    judge(ctx, ctx.ok('ops_enc', 'fb_decode', l), case, l)
    ctx.label('colour %+d direction %+d turn %+d' % (case['colour'], case['direction'], case['turn']))
    if case['doubled']:
        ctx.label('doubled')


def session(ctx, case):
    lines = [line(s) for s in case]
    out = ctx.ok('ops_enc', 'fb_reuse', lines)
    for i, s in enumerate(case):
        judge(ctx, out[i], s, lines[i], 'line %d of the session, ' % i)


@st.composite
def journeys(draw, up):
    """Steps of one turn as FIBS prints them; up: the player moves from 1 to 24."""
    out, txt = [], []
    for _ in range(draw(st.integers(1, 4))):
        src = draw(st.one_of(st.integers(0, 23), st.just(24), st.integers(0, 5)))
        dest = max(-1, src - draw(gen.die))
        hit = dest >= 0 and draw(st.booleans())
        nm = lambda n: 'bar' if n == 24 else 'off' if n < 0 else str(24 - n if up else n + 1)
        out.append((src - dest, src, dest, hit))
        txt.append('%s-%s%s' % (nm(src), nm(dest), '*' if hit else ''))
    return out, ' '.join(txt)


@st.composite
def messages(draw):
    name = draw(names)
    a, b, c = draw(st.integers(0, 999)), draw(st.integers(0, 999)), draw(st.integers(1, 99))
    d = draw(st.tuples(gen.die, gen.die))
    k = draw(st.sampled_from(('dice', 'name', 'taker', 'nottaker', 'yours', 'his', 'score', 'scores', 'resign', 'noname')))
    if k == 'dice':
        return ('get_dice', draw(st.sampled_from(('%s rolls %d and %d.' % ((name,) + d), 'You roll %d and %d.' % d,
                                                  '%s roll %d, %d' % ((name,) + d)))), d)
    if k == 'name':
        return ('get_name', name + draw(st.sampled_from((' makes the first move.', ' rolls 3 and 1.', '', ' wins the game and gets 2 points.',
                                                         ': hello bob'))), name)
    if k == 'noname':
        return ('get_name', draw(st.sampled_from(('** there is no one', ' bob rolls', '12 points', '', '-'))), None)
    if k == 'taker':
        return ('get_taker_name', name + ' accepts the double. The cube shows %d.' % c, name)
    if k == 'nottaker':
        return ('get_taker_name', draw(st.sampled_from((name + ' gives up. You win %d points.' % c, name + ' doubles. Type accept or reject',
                                                        'The cube: ' + name + ' accepts.', name))), None)
    if k in ('yours', 'his'):
        mv, t = draw(journeys(k == 'his'))
        return ('get_move', '%s moves %s .' % (name, t), mv, YOU if k == 'yours' else HIM)
    if k == 'score':
        return ('get_score', draw(st.sampled_from(('%s wins the game and gets %d points. Sorry.' % (name, a),
                                                   'You win the game and get %d points. Congratulations!' % a, '%d' % a))), a)
    if k == 'scores':
        return ('get_match_scores', draw(st.sampled_from(('score: %d-%d in a %d point match', 'you %d, him %d, match length %d',
                                                          '%d %d %d'))) % (a, b, c), (a, b, c))
    return ('get_resign_score', draw(st.sampled_from(('%s wants to resign. You will win %d points. Type accept or reject.' % (name, a),
                                                      '%s wants to resign. You will win %d points in this %d point match.' % (name, a, c)))), a)


def helper(ctx, case):
    ctx.label(case[0])
    if case[0] == 'get_move':
        got = ctx.ok('ops_enc', 'fb_move', case[1], case[3])
    else:
        got = ctx.ok('ops_enc', 'fb_helper', case[0], case[1])
    ctx.eq(got, case[2], '%s(%r)' % (case[0], case[1]))


PARTS = [Part('board', situation(), board, 2500, 20000, rule='all'),
         Part('session', st.lists(situation(), min_size=2, max_size=5), session, 400, 4000, rule='all'),
         Part('helper', messages(), helper, 3000, 30000, rule='all')]
