"""Generators of positions, dice and game states, as plain literals."""
from hypothesis import strategies as st
import ref

ZONES = {
    'any': st.integers(0, 23),
    'home': st.integers(0, 5),
    'outer': st.integers(6, 17),
    'far': st.integers(12, 24),
    'ace': st.integers(0, 2),
    'deep': st.integers(18, 23),
    'bar': st.just(24),
}


@st.composite
def placement(draw, zones, most=15, max_groups=9, min_groups=0):
    """25-tuple with at most `most` chequers."""
    v = [0] * 25
    left = most
    n = draw(st.integers(min_groups, max_groups))
    for _ in range(n):
        if left == 0:
            break
        z = ZONES[draw(st.sampled_from(zones))]
        p = draw(z)
        c = min(left, draw(st.sampled_from((1, 2, 1, 3, 2, 4, 5, 15))))
        v[p] += c
        left -= c
    return tuple(v)


def resolve(me, opp):
    """No point may hold chequers of both sides: the opponent's chequers there are taken off."""
    opp = list(opp)
    for p in range(24):
        if me[p] and opp[23 - p]:
            opp[23 - p] = 0
    return me, tuple(opp)


PROFILES = {
    # zones of the player to move, zones of the opponent
    'contact': (('any', 'any', 'any', 'home'), ('any', 'any', 'home', 'home')),
    'bar': (('bar', 'any', 'any', 'home'), ('home', 'home', 'home', 'any')),
    'bearoff': (('home', 'home', 'ace'), ('any', 'home', 'bar', 'deep')),
    'nearoff': (('home', 'home', 'home', 'outer'), ('home', 'any', 'deep')),
    'blocked': (('deep', 'far', 'any', 'bar'), ('home', 'home', 'outer')),
    'race': (('home', 'outer'), ('home', 'outer')),
    'few': (('any',), ('any',)),
    'stack': (('any',), ('any',)),
    'full': (('any', 'home', 'far', 'bar'), ('any', 'home', 'far', 'bar')),
    'straggler': (('home',), ('any',)),
}


@st.composite
def stacked(draw):
    """Most chequers, up to all fifteen, on one point."""
    v = [0] * 25
    n = draw(st.sampled_from((15, 15, 14, 13, 11, 10, 9, 8)))
    v[draw(st.integers(0, 24))] = n
    for _ in range(draw(st.integers(0, 15 - n))):
        v[draw(st.integers(0, 24))] += 1
    return tuple(v)


@st.composite
def straggler(draw):
    """One or two chequers outside a home board which is otherwise ready to bear off; points of the opponent in front of them."""
    me = list(draw(placement(('home', 'ace'), most=13, max_groups=4, min_groups=1)))
    last = draw(st.one_of(st.integers(6, 8), st.integers(6, 24)))
    me[last] += draw(st.sampled_from((1, 1, 2)))
    opp = [0] * 25
    for d in draw(st.sets(st.integers(1, 6), max_size=6)):
        if 0 <= last - d and not me[last - d]:
            opp[23 - (last - d)] = draw(st.sampled_from((2, 2, 2, 3, 1)))
    while sum(opp) > 15:
        opp[max(range(25), key=lambda j: opp[j])] -= 1
    return tuple(me), tuple(opp)


@st.composite
def duel(draw, profiles=None):
    """(me, opp) of the player to move and the other."""
    prof = draw(st.sampled_from(profiles or sorted(PROFILES)))
    a, b = PROFILES[prof]
    if prof == 'stack':
        return resolve(draw(stacked()), draw(stacked()))
    if prof == 'straggler':
        return draw(straggler())
    me = draw(placement(a, most=2 if prof == 'few' else 15, max_groups=2 if prof == 'few' else 9,
                        min_groups=1))
    opp = draw(placement(b))
    if prof in ('blocked', 'bar') and draw(st.booleans()):
        # make points where there are blots
        opp = tuple(2 if c == 1 and i < 24 else c for i, c in enumerate(opp))
        while sum(opp) > 15:
            i = max(range(25), key=lambda j: opp[j])
            opp = opp[:i] + (opp[i] - 1,) + opp[i + 1:]
    return resolve(me, opp)


# wall: a straightforward opening/whole game position reached by play is generated by the history checks
die = st.integers(1, 6)
dice = st.one_of(st.tuples(die, die), st.tuples(die, die), die.map(lambda d: (d, d)))
who = st.sampled_from((0, 1))


@st.composite
def moving_state(draw, profiles=None, rolled=None):
    """A state in which the player on action has rolled and is to move."""
    w = draw(who)
    me, opp = draw(duel(profiles))
    s = dict(ref.DEFAULT)
    s.update(position=ref.join(me, opp, w), on_action=w, on_inner_action=w, game_state=ref.ON_GOING,
             rolled=draw(rolled if rolled is not None else dice))
    s.update(draw(background()))
    return s


@st.composite
def background(draw):
    """Fields that moving chequers must not touch."""
    ml = draw(st.sampled_from((0, 0, 1, 3, 5, 7, 25, 129)))
    sc = draw(st.tuples(st.integers(0, max(0, ml - 1) or 9), st.integers(0, max(0, ml - 1) or 9)))
    return dict(match_length=ml, score=sc, crawford=draw(st.booleans()) if ml else False,
                cube_in_logarithm=draw(st.one_of(st.integers(0, 6), st.integers(0, 15))), cube_owner=draw(st.sampled_from((0, 1, 3))),
                doubled=draw(st.sampled_from((False, False, True))))


@st.composite
def any_state(draw, large=False):
    """Every field over its whole range, in any combination (for laws that hold of all boards)."""
    me, opp = draw(duel())
    w = draw(who)
    s = dict(position=ref.join(me, opp, w),
             cube_in_logarithm=draw(st.one_of(st.integers(0, 15), st.integers(0, 60)) if large else st.integers(0, 15)), cube_owner=draw(st.sampled_from((0, 1, 3))),
             on_action=draw(who), crawford=draw(st.booleans()), game_state=draw(st.integers(0, 4)),
             on_inner_action=draw(who), doubled=draw(st.booleans()), resign_offer=draw(st.integers(0, 3)),
             rolled=draw(st.one_of(st.just((0, 0)), dice)), match_length=draw(st.one_of(st.sampled_from((0, 1, 2, 3, 5, 7, 64)), st.integers(0, 32767))),
             score=draw(st.one_of(st.tuples(st.integers(0, 9), st.integers(0, 9)), st.tuples(st.integers(0, 32767), st.integers(0, 32767)))))
    if large and draw(st.integers(0, 5)) == 0:
        # more than the identifiers have room for
        s[draw(st.sampled_from(('match_length', 'score')))] = 0
        s.update(match_length=s['match_length'] or draw(st.integers(0, 10 ** 6)), score=s['score'] or tuple(draw(st.integers(0, 10 ** 6)) for _ in (0, 1)))
    return s
