from hypothesis import strategies as st
from vf import Part
import fibsgen as F

PROPERTY = 'C28'
ASSUMPTIONS = ['the published formats are the patterns listed in fibs.py, kept as a frozen copy in lib/fibsmsg.py; a pattern without ^ is searched for in the line']


def judge(ctx, lines):
    phs = list(F.phases(lines))
    alone = [F.PREFIX[p] + [l] for p, l in zip(phs, lines)]
    r = ctx.ok('ops_proto', 'kinds', [lines] + alone)
    ctx.eq(len(r[0]), len(lines), 'kinds given')
    for l, p, k, a in zip(lines, phs, r[0], r[1:]):
        want = F.kinds(p, l)
        ctx.check(k in want, lambda: '%r in phase %s is a %s, not one of %s' % (l, p, k, sorted(want)))
        ctx.check(a[-1] == k, lambda: '%r in phase %s is a %s in this session, but a %s as the first line of the phase' % (l, p, k, a[-1]))
        ctx.label(k)
    return phs


def published(ctx, case):
    ph, i, samples = case
    judge(ctx, F.PREFIX[ph] + [s for s in samples if F.after(ph, s) == ph])
    kind = F.PATTERNS[ph][i][0]
    if not any(kind in F.kinds(ph, s) for s in samples):
        ctx.trivial()


def history(ctx, case):
    ph, lines = case
    phs = judge(ctx, F.PREFIX[ph] + lines)
    if len(set(phs)) < 2 and len(lines) < 2:
        ctx.trivial()


def samples():
    ix = [(ph, i) for ph in ('LOGIN', 'MOTD', 'RUN') for i in range(len(F.S[ph]))]
    return st.sampled_from(ix).flatmap(lambda x: st.tuples(st.just(x[0]), st.just(x[1]), st.lists(F.S[x[0]][x[1]], min_size=1, max_size=8)))


def histories():
    return st.tuples(st.sampled_from(['RUN', 'RUN', 'RUN', 'RUN', 'LOGIN', 'MOTD']), st.lists(F.lines(), min_size=1, max_size=25))


@st.composite
def rivals(draw):
    """the same few lines again and again, most of them fitting several kinds"""
    over = [i for i, (k, p) in enumerate(F.PATTERNS['RUN']) if k in F.GENERAL]
    near = [i for i, (k, p) in enumerate(F.PATTERNS['RUN'])
            if k in ('FIBS_Board', 'FIBS_BAD_AcceptDouble', 'FIBS_ReportLimitedMatch', 'FIBS_ShowMovesRoll', 'FIBS_ShowMovesWins', 'FIBS_ShowMovesDoubles',
                     'FIBS_ShowMovesAccepts', 'FIBS_ShowMovesRejects', 'CLIP_WHO_INFO', 'FIBS_PlayerWinsGame', 'FIBS_WavesAgain', 'FIBS_OpponentLeftGame',
                     'FIBS_ResignWins', 'FIBS_NoOne', 'FIBS_PlayerNotPlaying', 'CLIP_SHOUTS', 'CLIP_KIBITZES', 'CLIP_MESSAGE', 'FIBS_IsAway', 'FIBS_Junk')]
    pool = draw(st.lists(st.sampled_from(over + near).flatmap(lambda i: F.S['RUN'][i]), min_size=2, max_size=8))
    return ('RUN', draw(st.lists(st.sampled_from(pool), min_size=2, max_size=20)))


CARRY = ['13 bob ', '12 bob ', '15 bob ', '16 ', '17 5 ', '9 bob 1041253132 ', '19 bob ', '14 bob ', '11 bob ', '** You tell bob: ', '8 bob ', '7 bob ', '** Unknown command: ', '   ', 'bob: ', 'You say: ', 'a ', 'x', '']


@st.composite
def quoted(draw):
    """messages, and the same messages told by somebody"""
    lines = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, len(F.PATTERNS['RUN']) + len(F.GENERAL) - 1))
        over = [j for j, (k, p) in enumerate(F.PATTERNS['RUN']) if k in F.GENERAL]
        m = draw(F.S['RUN'][i] if i < len(F.PATTERNS['RUN']) else F.S['RUN'][over[i % len(over)]])
        c = draw(st.sampled_from(CARRY))
        lines += [m, c + m, m] if draw(st.booleans()) else [c + m, m, c + m]
    return ('RUN', lines)


def text(ctx, case):
    ph, l = case
    judge(ctx, F.PREFIX[ph] + [l, l])
    if F.kinds(ph, l) == {F.DEFAULT[ph]}:
        ctx.trivial()


# every kind once with names, figures and texts of a plain game
PLAIN = [
    ('FIBS_Board', 'board:You:someplayer:3:0:0:0:-2:0:0:0:0:5:0:3:0:0:0:-5:5:0:0:0:-3:0:-5:0:0:0:0:2:0:1:0:0:0:0:1:1:1:0:1:-1:0:25:0:0:0:0:2:0:0:0'),
    ('FIBS_BAD_Board', 'board:You:some1player:3'), ('FIBS_YouRoll', 'You roll 6 and 6.'), ('FIBS_PlayerRolls', 'bob rolls 1 and 6.'),
    ('FIBS_AcceptRejectDouble', "bob doubles. Type 'accept' or 'reject'."), ('FIBS_Doubles', 'bob doubles.'),
    ('FIBS_YouStopWatching', "bob logs out. You're not watching anymore."), ('FIBS_OpponentLogsOut', 'bob drops connection. The game was saved.'),
    ('FIBS_FirstRoll', 'You rolled 3, bob rolled 4'), ('FIBS_MakesFirstMove', 'bob makes the first move.'),
    ('FIBS_PlayerWantsToResign', "bob wants to resign. You will win 2 points. Type 'accept' or 'reject'."),
    ('FIBS_WatchResign', 'bob wants to resign. jim will win 2 points.'), ('FIBS_PlayerWantsToResign', 'bob wants to resign.'),
    ('FIBS_ResignRefused', 'bob rejects. The game continues.'), ('FIBS_YouReject', 'You reject. The game continues.'),
    ('FIBS_PlayerStartsWatching', 'bob starts watching jim.'), ('FIBS_PlayerStartsWatching', 'bob is watching you.'),
    ('FIBS_PlayerIsWatching', 'bob is watching jim.'), ('FIBS_PlayerStopsWatching', 'bob stops watching jim.'),
    ('FIBS_BAD_AcceptDouble', 'bob accepts the double. The cube shows 2. bob rolls 1 and 2.'),
    ('FIBS_BAD_AcceptDouble', 'You accept the double. The cube shows 2. bob rolls 1 and 2.'), ('FIBS_ResumeMatchAck0', '** Player bob has joined you. Your running match was loaded.'),
    ('FIBS_RatingCalcInfo', 'Probability that underdog wins: 0.494'), ('FIBS_WatchGameWins', 'you, bob, wins the game and gets 2'),
    ('FIBS_PlayerAcceptsDouble', 'bob accepts the double. The cube shows 2.'), ('FIBS_YouAcceptDouble', 'You accept the double. The cube shows 2.'),
    ('FIBS_PlayerWinsGame', 'bob wins the game and gets 1 point. Sorry.'), ('FIBS_YouWinGame', 'You win the game and get 1 point. Congratulations!'),
    ('FIBS_PlayersStartingUnlimitedMatch', 'bob and jim start an unlimited match.'), ('FIBS_ReportLimitedMatch', 'bob        -       jim (5 point match 2-2)'),
    ('FIBS_ReportUnlimitedMatch', 'bob        -       jim (unlimited 2-2)'), ('FIBS_ShowMovesRoll', 'X: (6 1) 8-7 13-7'), ('FIBS_ShowMovesWins', 'O: wins 2 points'),
    ('FIBS_ShowMovesDoubles', 'X: doubles'), ('FIBS_ShowMovesOther', 'X: resigns'), ('FIBS_Waves', 'bob waves goodbye.'), ('FIBS_Waves', 'You wave goodbye.'),
    ('FIBS_WavesAgain', 'bob waves goodbye again.'), ('FIBS_WavesAgain', 'You wave goodbye again and log out.'), ('FIBS_AllowpipTrue', 'allowpip     YES'),
    ('FIBS_AllowpipTrue', "** You allow the use the server's 'pip' command."), ('FIBS_WrapFalse', 'wrap         NO'), ('FIBS_Average', '12:30-  17 10 25'),
    ('FIBS_DiceTest', 'T: 36'), ('FIBS_DiceTest', '6-1 100'), ('FIBS_Junk', 'Closed old connection with user bob.'), ('FIBS_Junk', '** You tell bob: hi'),
    ('FIBS_RatingCalcInfo', 'P=0.505861 is 1-Pu if underdog wins and Pu if favorite wins'), ('FIBS_IsPlayingWith', 'bob is playing with jim.'),
    ('FIBS_AlreadyPlaying', '** bob is already playing with jim.'), ('FIBS_OpponentLeftGame', '** Player bob has left the game. The game was saved.'),
    ('FIBS_PlayerLeftGame', 'bob has left the game.'), ('FIBS_Why', '*** Why would you want to do that?'), ('FIBS_Username', '** User bob is not known'),
    ('CLIP_WHO_INFO', '5 bob - - 1 0 1500.00 0 18 1199472484 localhost - -'), ('CLIP_SHOUTS', '13 bob jim is playing with me'), ('CLIP_SAYS', '12 bob hi'),
    ('CLIP_MESSAGE', '9 bob 1041253132 I will be back. The game was saved.'), ('CLIP_KIBITZES', '15 bob wants to resign.'), ('CLIP_WHO_END', '6'),
    ('FIBS_Stat', '1024 bytes allocated'), ('FIBS_SavedMatchReady', '**bob   5   2 -  3'), ('FIBS_Ratings', '*   1   bob    1939.02    7'),
    ('FIBS_Empty', ''), ('FIBS_Unknown', 'something else')]


def plain(ctx, case):
    a, b = case
    lines = [PLAIN[i][1] for i in (a, b, a, b)]
    r = ctx.ok('ops_proto', 'kinds', [['3', '4'] + lines])[0][2:]
    for l, k, i in zip(lines, r, (a, b, a, b)):
        ctx.check(PLAIN[i][0] in F.kinds('RUN', l), 'the table is wrong about %r' % l)
        ctx.eq(k, PLAIN[i][0], 'kind of %r' % l)


def told():
    """every kind of general message, told by somebody in every way, between the real ones; one message of every pattern within other words"""
    for k, m in PLAIN:
        if k in F.GENERAL or k == 'FIBS_Junk':
            yield ('RUN', [x for c in CARRY for x in (m, c + m)])
            yield ('RUN', [x for c in CARRY for x in (c + m, m, c + m.lower())])
    for ph, i, l in F.sweep(3):
        for m in l[::2]:
            lines = [x for c in CARRY[:3] + CARRY[-8:] for x in (c + m, m + ' x', m + 'x', m[1:], m[:-1])]
            yield (ph, [x for x in lines if F.after(ph, x) == ph])


PARTS = [
    Part('published', samples(), published, 800, 30000, examples=list(F.sweep()), rule='a line fits the pattern it was made from'),
    Part('plain', st.tuples(st.integers(0, len(PLAIN) - 1), st.integers(0, len(PLAIN) - 1)), plain, 500, 4000,
         examples=[(i, i) for i in range(len(PLAIN))], rule='all'),
    Part('history', histories(), history, 800, 12000, rule='more than one line'),
    Part('rivals', rivals(), history, 500, 8000, rule='more than one line'),
    Part('quoted', quoted(), history, 600, 10000, examples=list(told()), rule='more than one line'),
    Part('text', st.tuples(st.sampled_from(['LOGIN', 'MOTD', 'RUN']), st.one_of(F.noise, F.words, F.bent(F.words))), text, 800, 12000,
         rule='the line fits some pattern'),
    Part('bent', st.tuples(st.just('RUN'), st.lists(F.bent(F.fitting('RUN')).filter(lambda l: F.after('RUN', l) == 'RUN'), min_size=1, max_size=4)), history, 300, 8000,
         examples=list(F.misses()), rule='more than one line'),
]
