"""Reference model of backgammon, written from the rules (Python 3, independent of bglib).

A position is (you, him): two 25-tuples, each from its owner's side; index 0..23 the points, 24 the bar.
Chequers that are on neither are off. A step is (die, src, dest, hit); dest -1 is off, src 24 the bar.
"""
YOU, HIM, CENTER = 0, 1, 3
NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT = range(5)
BAR, OFF = 24, -1


def step_for(me, opp, src, die):
    """The legal step of the chequer on src with die, or None."""
    if not 0 <= src <= 24 or me[src] == 0:
        return None
    if me[BAR] and src != BAR:
        return None
    dest = src - die
    if dest >= 0:
        n = opp[23 - dest]
        if n >= 2:
            return None
        return (die, src, dest, n == 1)
    # bearing off: everything home, exact or from the highest point
    if any(me[i] for i in range(6, 25)):
        return None
    if dest == -1 or not any(me[i] for i in range(src + 1, 25)):
        return (die, src, OFF, False)
    return None


def steps(me, opp, die):
    out = []
    for src in range(24, -1, -1):
        s = step_for(me, opp, src, die)
        if s:
            out.append(s)
    return out


def play(me, opp, s):
    die, src, dest, hit = s
    me, opp = list(me), list(opp)
    me[src] -= 1
    if dest >= 0:
        me[dest] += 1
    if hit:
        opp[23 - dest] -= 1
        opp[BAR] += 1
    return tuple(me), tuple(opp)


def unplay(me, opp, s):
    die, src, dest, hit = s
    me, opp = list(me), list(opp)
    me[src] += 1
    if dest >= 0:
        me[dest] -= 1
    if hit:
        opp[23 - dest] += 1
        opp[BAR] -= 1
    return tuple(me), tuple(opp)


def dice_of(rolled):
    a, b = rolled
    if a == 0:
        return ()
    return (a,) * 4 if a == b else (a, b)


def sides(position, who):
    return (position[0], position[1]) if who == YOU else (position[1], position[0])


def join(me, opp, who):
    return (me, opp) if who == YOU else (opp, me)


def remove(pool, die):
    l = list(pool)
    l.remove(die)
    return tuple(l)


def max_dice(me, opp, pool):
    """(largest number of dice playable, set of first dice of such plays)."""
    best = 0
    level = {(me, opp, tuple(sorted(pool)))}
    while level:
        nxt = set()
        for m, o, p in level:
            for d in set(p):
                for s in steps(m, o, d):
                    m2, o2 = play(m, o, s)
                    nxt.add((m2, o2, remove(p, d)))
        if not nxt:
            return best
        best += 1
        level = nxt
    return best


def turn_over(me, opp, rolled, played):
    """May the turn be ended after the steps played (list of steps) from (me, opp)?"""
    pool = dice_of(rolled)
    m = max_dice(me, opp, pool)
    if len(played) != m:
        return False
    if m == 1 and len(pool) == 2:
        big = max(pool)
        if steps(me, opp, big) and played[0][0] != big:
            return False
    return True


DEFAULT = dict(position=((0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0),) * 2,
               cube_in_logarithm=0, cube_owner=CENTER, on_action=YOU, crawford=False, game_state=NOT_STARTED,
               on_inner_action=YOU, doubled=False, resign_offer=0, rolled=(0, 0), match_length=0, score=(0, 0))
FIELDS = sorted(DEFAULT)


def flip_state(s):
    f = lambda w: {YOU: HIM, HIM: YOU}.get(w, w)
    t = dict(s)
    t['position'] = (s['position'][1], s['position'][0])
    t['score'] = (s['score'][1], s['score'][0])
    for k in ('cube_owner', 'on_action', 'on_inner_action'):
        t[k] = f(s[k])
    return t
