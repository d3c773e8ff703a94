from hypothesis import strategies as st
from vf import Part
import ref, gen
import fibsgen as F
import c07, c11

PROPERTY = 'C32'
ASSUMPTIONS = ['the viewer plays from 24 to 1, as the move messages are read that way (get_move knows no direction)',
               'the follower acts on the kind of a message alone, as a client does: read with the helpers of bglib.encoding.FIBS and carried out on a BoardEditor']
YOU, HIM, CENTER, ON_GOING = ref.YOU, ref.HIM, ref.CENTER, ref.ON_GOING

NAME = st.one_of(st.sampled_from(['bob', 'You_', 'jim', 'X', 'moves', 'gBOTworldclass', 'rolls', 'bar', 'off', 'accepts', 'doubles', 'board']),
                 st.text(st.sampled_from('abcXYZ_<>'), min_size=1, max_size=14)).filter(lambda n: n not in ('You', 'login'))
# said by others in between: nothing of it is of the game
ASIDE = ['13 %s hello', '15 %s You roll 6 and 6.', '13 bob %s moves 24-23 .', '12 %s board:You:bob:1:0:0', '16 %s doubles.', '15 jim %s accepts the double. The cube shows 8.',
         '5 %s - - 1 0 1500.00 0 18 1199472484 localhost - -', '6', '7 %s %s logs in.', '8 %s %s logs out.', '9 bob 1041253132 %s rolls 1 and 2.', '', "It's your turn to roll or double.",
         'Please move 2 pieces.', '** You tell %s: %s gives up. You win 2 points.', '%s is watching you.', '10 %s', '18 %s', '19 %s hi']


def plural(n):
    return '%d point%s' % (n, '' if n == 1 else 's')


def moved(steps, w):
    nm = lambda n: 'bar' if n == 24 else 'off' if n < 0 else str(n + 1 if w == YOU else 24 - n)
    return ' '.join('%s-%s%s' % (nm(a), nm(b), '*' if h else '') for d, a, b, h in steps)


@st.composite
def games(draw):
    """[(what the server prints or what the player does, its kind, the state after it)]"""
    s = draw(c07.start().filter(lambda s: s['game_state'] == ON_GOING))
    if s['crawford']:
        s.update(cube_in_logarithm=0, cube_owner=CENTER)
    watch = draw(st.booleans())
    names = draw(st.tuples(NAME if watch else st.just('You'), NAME).filter(lambda t: t[0] != t[1]))
    colour = draw(st.sampled_from((1, -1)))
    out = []

    def board():
        w = s['on_action']
        own = s['cube_owner']
        may = (False, False) if s['crawford'] else (own != HIM, own != YOU)
        l = c11.line(dict(you=s['position'][0], him=s['position'][1], colour=colour, direction=-1, turn=1 if w == YOU else -1,
                          your_dice=s['rolled'] if w == YOU else (0, 0), his_dice=s['rolled'] if w == HIM else (0, 0), cube=s['cube_in_logarithm'],
                          may=may, doubled=s['doubled'], ml=s['match_length'], score=s['score'], names=names, rest=(0, 0, 0, 0)))
        out.append((l, 'FIBS_Board', dict(s)))

    def say(line, kind):
        out.append((line, kind, dict(s)))

    def do(*cmd):
        t = c07.step(s, cmd)
        assert t not in (None, 'skip'), (cmd, s)
        s.clear()
        s.update(t)

    board()
    for _ in range(draw(st.integers(2, 14))):
        w = s['on_action']
        me, he = names[w], names[1 - w]
        mine = not watch and w == YOU
        e = c07.entitled(s, w)
        if s['rolled'] == (0, 0):
            if e[2] and draw(st.integers(0, 2)) == 0:
                do('double', w)
                if watch:
                    say(me + ' doubles.', 'FIBS_Doubles')
                elif mine:
                    say('You double. Please wait for %s to accept or reject.' % he, 'FIBS_YouDouble')
                else:
                    say(me + " doubles. Type 'accept' or 'reject'.", 'FIBS_AcceptRejectDouble')
                if draw(st.booleans()):
                    board()
                if draw(st.integers(0, 4)):
                    do('take', 1 - w)
                    cube = 2 ** s['cube_in_logarithm']
                    if he == 'You':
                        say('You accept the double. The cube shows %d.' % cube, 'FIBS_YouAcceptDouble')
                    else:
                        say('%s accepts the double. The cube shows %d.' % (he, cube), 'FIBS_PlayerAcceptsDouble')
                else:
                    n = 2 ** s['cube_in_logarithm']
                    do('drop', 1 - w)
                    if he == 'You':
                        say('You give up. %s wins %s.' % (me, plural(n)), 'FIBS_YouGiveUp')
                    elif me == 'You':
                        say('%s gives up. You win %s.' % (he, plural(n)), 'FIBS_ResignYouWin')
                    else:
                        say('%s gives up. %s wins %s.' % (he, me, plural(n)), 'FIBS_ResignWins')
                    break
                continue
            e = c07.entitled(s, w)
            if e[5] and draw(st.integers(0, 7)) == 0:
                how = draw(st.integers(1, 3))
                n = how * 2 ** s['cube_in_logarithm']
                do('offer_resign', w, how)
                if watch:
                    say('%s wants to resign. %s will win %s.' % (me, he, plural(n)), 'FIBS_WatchResign')
                elif mine:
                    say('You want to resign. %s will win %s.' % (he, plural(n)), 'FIBS_YouResign')
                else:
                    say("%s wants to resign. You will win %s. Type 'accept' or 'reject'." % (me, plural(n)), 'FIBS_PlayerWantsToResign')
                if draw(st.booleans()):
                    do('reject_resign', 1 - w)
                    say('You reject. The game continues.' if he == 'You' else he + ' rejects. The game continues.', 'FIBS_YouReject' if he == 'You' else 'FIBS_ResignRefused')
                else:
                    do('accept_resign', 1 - w)
                    say('You accept and win %s.' % plural(n) if he == 'You' else '%s accepts and wins %s.' % (he, plural(n)), 'FIBS_YouAcceptAndWin' if he == 'You' else 'FIBS_AcceptWins')
                    break
                continue
            d = draw(gen.dice)
            do('roll', d)
            say(('You roll %d and %d.' if mine else me + ' rolls %d and %d.') % d, 'FIBS_YouRoll' if mine else 'FIBS_PlayerRolls')
            if draw(st.booleans()):
                board()
        # the turn
        m, o = ref.sides(s['position'], w)
        pool, steps = ref.dice_of(s['rolled']), []
        while pool:
            opt = [x for k in sorted(set(pool)) for x in ref.steps(m, o, k)]
            if not opt:
                break
            x = opt[draw(st.integers(0, len(opt) - 1))]
            m, o = ref.play(m, o, x)
            steps.append(x)
            pool = ref.remove(pool, x[0])
        s['position'] = ref.join(m, o, w)
        gone = not any(m)
        do('pickupdice')
        if not steps:
            say(me + " can't move.", 'FIBS_CantMove')
        elif mine and draw(st.integers(0, 2)):
            say(steps, None)
        elif mine:
            say('You moves %s .' % moved(steps, w), 'FIBS_PlayerMoves')
        else:
            say('%s moves %s .' % (me, moved(steps, w)), 'FIBS_PlayerMoves')
        if gone:
            n = draw(st.integers(1, 3)) * 2 ** s['cube_in_logarithm']
            sc = list(s['score'])
            sc[w] += n
            s.update(score=tuple(sc), game_state=ref.FINISHED)
            say('You win the game and get %s. Congratulations!' % plural(n) if mine else '%s wins the game and gets %s.%s' % (me, plural(n), '' if watch else ' Sorry.'),
                'FIBS_YouWinGame' if mine else 'FIBS_PlayerWinsGame')
            break
        if draw(st.integers(0, 2)) == 0:
            board()
        if draw(st.integers(0, 3)) == 0:
            t = draw(st.sampled_from(ASIDE))
            t = t.replace('%s', names[draw(st.integers(0, 1))])
            k = F.kinds('RUN', t)
            if len(k) == 1:
                say(t, min(k))
    return names, out


SHARED = [k for k in ref.FIELDS if k != 'resign_offer']


def follow(ctx, case):
    names, events = case
    for l, k, s in events:
        if k and k != 'FIBS_Board':
            ctx.check(k in F.kinds('RUN', l), 'the check is wrong about %r' % l)
    out = ctx.ok('ops_enc', 'fb_follow', [e[0] for e in events], names)
    for i, ((l, k, s), (kind, state, shown)) in enumerate(zip(events, out)):
        said = lambda: '\n'.join(str(e[0]) for e in events[:i + 1])
        if k:
            ctx.check(kind == k, lambda: '%r is a %s, not a %s' % (l, kind, k))
            ctx.label(k)
        for f in ref.FIELDS:
            ctx.check(state[f] == s[f], lambda: 'after\n%s\n%s of the board is %r, of the game followed %r' % (said(), f, state[f], s[f]))
        if shown:
            for f in SHARED:
                ctx.check(shown[f] == s[f], lambda: 'after\n%s\nthe line shows %s %r, of the game followed %r' % (said(), f, shown[f], s[f]))
    if len(events) < 4:
        ctx.trivial()


PARTS = [Part('follow', games(), follow, 1200, 15000, rule='three messages or more after the first board')]
