import math
from hypothesis import strategies as st
from vf import Part

PROPERTY = 'C15'
rating = st.one_of(st.integers(500, 2500), st.floats(500, 2500), st.sampled_from((1000, 1000.0, 1500)))
money = st.one_of(st.integers(1, 10000), st.floats(0.5, 10000))


def relerr(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def chance(player, other, n):
    return 1 / (1 + 10.0 ** (-(player - other) * math.sqrt(n) / 2000.0))


def handicap(ctx, case):
    player, average, rounds, n, winner, runnerup, fee = case
    prizes, hfee, mine, avg = ctx.ok('ops_stat', 'handicaps', *case)
    p, q = chance(player, average, n), chance(average, player, n)
    ctx.check(relerr(mine[0], p ** rounds) and relerr(mine[1], p ** (rounds - 1) * q),
              'chances to win and to be runner-up %r, expected %r' % (mine, (p ** rounds, p ** (rounds - 1) * q)))
    ctx.check(relerr(avg[0], 0.5 ** rounds) and relerr(avg[1], 0.5 ** rounds), 'chances of the average player %r' % (avg,))
    for k, (prize, full) in enumerate(zip(prizes, (winner, runnerup))):
        ctx.check(relerr(prize * mine[k], full * avg[k]), 'prize %r of %r: the player expects %r, the average player %r' %
                  (prize, full, prize * mine[k], full * avg[k]))
    ctx.check(relerr(hfee * avg[0], fee * mine[0]), 'entry fee %r for a chance of %r, %r for %r' % (hfee, mine[0], fee, avg[0]))
    if player == average:
        ctx.check(relerr(prizes[0], winner) and relerr(prizes[1], runnerup) and relerr(hfee, fee), 'handicap of the average player')
        ctx.label('average')
    ctx.label('stronger' if player > average else 'weaker')


def simulation(ctx, case):
    players, n, seed, rounds, length = case
    if players is None:
        start = dict((i, (3, 1000)) for i in range(n))
    else:
        start = dict((k, (l, r)) for k, l, r in players)
    if len(start) < 2:
        ctx.trivial()
    total = sum(l for l, _ in start.values())
    rounds = min(rounds, total + 2) if rounds else total + 2
    hist, given = ctx.ok('ops_stat', 'run', players, n, seed, rounds, length)
    if players is not None:
        ctx.eq(set(given), set(start), 'the field the tournament was made from, afterwards')
    prev = None
    for i, (alive, dead) in enumerate(hist):
        where = 'after %d rounds: alive %r, dead %r: ' % (i, alive, dead)
        a, d = dict((x[0], x) for x in alive), dict((x[0], x) for x in dead)
        ctx.check(set(a) | set(d) == set(start), where + 'not all of the entrants')
        ctx.check(not set(a) & set(d), where + 'someone is both alive and dead')
        lives = {}
        for k, l, r, isdead in alive + dead:
            lives[k] = l
            ctx.check(r == start[k][1], where + 'rating of %r changed' % (k,))
            ctx.check((l <= 0) == (k in d) == isdead, where + '%r has %d lives' % (k, l))
            ctx.check(l >= 0, where + '%r has %d lives' % (k, l))
        if prev is None:
            ctx.check(lives == dict((k, v[0]) for k, v in start.items()), where + 'lives at the start')
        else:
            plives, palive, pdead = prev
            lost = [k for k in lives if lives[k] != plives[k]]
            for k in lost:
                ctx.check(lives[k] == plives[k] - 1, where + '%r went from %d to %d lives in a round' % (k, plives[k], lives[k]))
                ctx.check(k in palive, where + 'the dead %r played' % (k,))
            ctx.check(len(lost) == len(palive) // 2, where + '%d players lost a life of %d alive before' % (len(lost), len(palive)))
            ctx.check(set(pdead) <= set(d), where + 'someone rose from the dead')
        prev = (lives, set(a), set(d))
    if rounds == total + 2 and start:
        ctx.eq(len(hist[-1][0]), 1, 'survivors in the end')
        ctx.label('played out')


def duels(ctx, case):
    """The favourite wins with (about) his winning chance."""
    gap, length, seed = case
    n = 2500
    w = ctx.ok('ops_stat', 'duels', gap, n, seed, length)
    p = chance(gap, 0, length)
    sd = math.sqrt(n * p * (1 - p))
    # seven standard deviations and three more: about one false alarm in 10**11
    ctx.check(abs(w - n * p) <= 7 * sd + 3, 'the favourite (chance %.4f) won %d of %d' % (p, w, n))


name = st.one_of(st.integers(0, 30), st.text('abcdefgh', min_size=1, max_size=3))


@st.composite
def fields(draw):
    if draw(st.integers(0, 4)) == 0:
        pl, n = None, draw(st.integers(0, 12) | st.integers(13, 140))
    else:
        ks = draw(st.lists(name, max_size=14, unique=True))
        if draw(st.integers(0, 5)) == 0:
            ks = list(range(draw(st.integers(0, 3)), draw(st.integers(20, 140))))
        top = draw(st.sampled_from((1, 1, 1, 2, 5, 5, 30)))
        pl = [(k, draw(st.integers(1, top)), draw(rating)) for k in ks]
        n = len(pl)
    return pl, n, draw(st.integers(0, 10 ** 6)), draw(st.sampled_from((0, 0, 0, 1, 2, 5) if n < 40 else (1, 2, 5, 12))), draw(st.sampled_from((None, 1, 25, 64)))


PARTS = [Part('handicap', st.tuples(rating, rating, st.integers(1, 12), st.one_of(st.integers(1, 25), st.integers(1, 200)), money, money, money), handicap, 1500, 15000,
              examples=[(1000.0, 1000.0, 4, 7, 100.0, 30.0, 100.0), (1000, 1000, 1, 1, 1, 1, 1)], rule='all'),
         Part('simulation', fields(), simulation, 800, 8000, rule='two players or more'),
         Part('duels', st.tuples(st.sampled_from((1, 100, 300, 700, 1500, 4000)), st.sampled_from((1, 5, 7, 25)), st.integers(0, 10 ** 6)), duels, 60, 400,
              rule='all')]
