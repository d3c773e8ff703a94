from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C06'

BORING = {'position': ((0,) * 25, (0,) * 25), 'cube_in_logarithm': 99, 'cube_owner': 99, 'on_action': 99,
          'game_state': 99, 'on_inner_action': 99, 'resign_offer': 99, 'rolled': (9, 9), 'match_length': 99,
          'score': (99, 99)}


def other(k, v):
    if isinstance(v, bool):
        return not v
    return BORING[k] if v != BORING[k] else ref.DEFAULT[k]


@st.composite
def boards(draw):
    a = draw(gen.any_state(True))
    b = dict(a)
    for k in draw(st.lists(st.sampled_from(ref.FIELDS), max_size=4)):
        b[k] = draw(st.sampled_from((ref.DEFAULT[k], other(k, a[k]), a[k])))
    if draw(st.booleans()):
        # one chequer elsewhere
        i, j = draw(st.integers(0, 1)), draw(st.integers(0, 24))
        p = [list(x) for x in b['position']]
        p[i][j] += 1
        b['position'] = (tuple(p[0]), tuple(p[1]))
    return (a, b, draw(st.lists(st.sampled_from(ref.FIELDS), max_size=4)))


def values(ctx, case):
    a, b, ks = case
    r = ctx.ok('ops_model', 'board_values', a, b, [(k, b[k]) for k in ks])
    same = all(a[k] == b[k] for k in ref.FIELDS)
    ctx.label('equal' if same else 'different')
    ctx.check(r['dump_a'] == a, 'a new board reads %r, given %r' % (r['dump_a'], a))
    for n in ('board', 'editor'):
        eq, ne, eq2, ne2 = r['cmp_' + n]
        ctx.check((eq, ne, eq2, ne2) == (same, not same, same, not same),
                  '%ss %s but == gives %r/%r, != gives %r/%r' % (n, 'equal' if same else 'different', eq, eq2, ne, ne2))
    ctx.check(all(e == 'TypeError' for e in r['set_errors']), 'assignment to a frozen board: %r' % (r['set_errors'],))
    ctx.check(all(r['del_errors']), 'a field of a frozen board could be deleted: %r' % (r['del_errors'],))
    ctx.check(r['after_set'] == a, 'a frozen board changed: %r' % (r['after_set'],))
    ctx.check(r['copy'] == a, 'copying a frozen board: %r' % (r['copy'],))
    c = dict(a)
    for k in ks:
        c[k] = b[k]
    if not ks:
        ctx.label('no edit')
    ctx.check(r['edited'] == c, 'edited editor: %r, expected %r' % (r['edited'], c))
    ctx.check(r['frozen'] == c, 'frozen editor: %r, expected %r' % (r['frozen'], c))
    ctx.check(r['origin'] == [a, a, c], 'editing a copy changed its origin: %r' % (r['origin'],))
    ctx.check(r['kw'] == c, 'editor made with changes: %r, expected %r' % (r['kw'], c))
    ctx.check(r['frozen_later'] == c, 'a frozen board changed with its editor')


def mirror(ctx, case):
    s = case
    one, two, qa, qb = ctx.ok('ops_model', 'mirror', s)
    f = ref.flip_state(s)
    ctx.check(one == f, 'swapped: %r, expected %r' % (one, f))
    ctx.check(two == s, 'swapped twice: %r, expected %r' % (two, s))
    ctx.check(len(qa) == len(qb) and len(qa) > 50, 'questions')
    for (n, x), (m, y) in zip(qa, qb):
        ctx.check((n, x) == (m, y), '%s: %r, for the other player on the swapped board %s: %r' % (n, x, m, y))
    me, opp = ref.sides(s['position'], s['on_action'])
    ans = dict((n, x) for n, x in qa)
    for n in range(24):
        ctx.eq(bool(ans['open %d' % n]), opp[23 - n] < 2, 'open to land on %d' % n)
        ctx.eq(bool(ans['hit %d' % n]), opp[23 - n] == 1, 'hitting on %d' % n)
    ctx.eq(bool(ans['open -1']), True, 'open off')
    ctx.eq(bool(ans['hit -1']), False, 'hitting off')
    for n in range(25):
        ctx.eq(bool(ans['has %d' % n]), bool(me[n]) and (n == 24 or not me[24]), 'chequer to move on %d' % n)
        for d in range(1, 7):
            # only asked of points with a chequer of the player to move: elsewhere the answer means nothing
            if me[n] and n - d < 0:
                want = ref.step_for(me, opp, n, d) is not None
                ctx.eq(bool(ans['off %d %d' % (n, d)]), want, 'bearing off from %d with %d' % (n, d))
                ctx.label('bear off' if want else 'no bear off')
    for d in range(1, 7):
        c = [x[1] for x in ref.steps(me, opp, d) if x[2] == -1]
        got = ans['find %d' % d]
        ctx.check(got == (c[0] if c else None), 'chequer to bear off with %d: %r, legal: %r' % (d, got, c))


def idle(ctx, case):
    """Nobody is to play: a game is over."""
    s, on, inner = case
    s = dict(s, on_action=on, on_inner_action=inner)
    one, frozen, two = ctx.ok('ops_model', 'idle', s)
    ctx.check(one == ref.flip_state(s), 'swapped: %r, expected %r' % (one, ref.flip_state(s)))
    ctx.check(frozen == one, 'frozen: %r, expected %r' % (frozen, one))
    ctx.check(two == s, 'swapped twice: %r, expected %r' % (two, s))


PARTS = [Part('values', boards(), values, 1500, 10000, rule='every generated pair'),
         Part('mirror', gen.any_state(True), mirror, 1500, 10000, rule='every generated state'),
         Part('idle', st.tuples(gen.any_state(True), st.just(ref.CENTER), st.sampled_from((ref.CENTER, ref.YOU, ref.HIM))), idle, 300, 3000,
              rule='every generated state')]
