"""Oracle and generators for the messages of a FIBS session (phases, kinds, lines)."""
import re
import re._parser as sp
import re._constants as sc
from hypothesis import strategies as st
import fibsmsg

PHASE = {'LOGIN': fibsmsg.LOGIN, 'MOTD': fibsmsg.MOTD, 'RUN': fibsmsg.RUN}
PREFIX = {'LOGIN': [], 'MOTD': ['3'], 'RUN': ['3', '4']}
DEFAULT = {'LOGIN': 'FIBS_PreLogin', 'MOTD': 'FIBS_MOTD', 'RUN': 'FIBS_Unknown'}
RX = {ph: {k: [re.compile(p) for p in v] for k, v in d.items()} for ph, d in PHASE.items()}

# kinds with a pattern that is also found in messages of other kinds
GENERAL = set('''FIBS_BAD_Board FIBS_AcceptRejectDouble FIBS_Doubles FIBS_YouStopWatching FIBS_OpponentLogsOut FIBS_FirstRoll
    FIBS_MakesFirstMove FIBS_PlayerWantsToResign FIBS_WatchResign FIBS_ResignRefused FIBS_PlayerStartsWatching FIBS_PlayerStopsWatching
    FIBS_PlayerIsWatching FIBS_YouAcceptDouble FIBS_PlayerAcceptsDouble FIBS_ResumeMatchAck0 FIBS_WatchGameWins
    FIBS_PlayersStartingUnlimitedMatch FIBS_ReportUnlimitedMatch FIBS_ShowMovesOther FIBS_Waves FIBS_RatingCalcInfo FIBS_IsPlayingWith
    FIBS_Stat FIBS_Username FIBS_PlayerLeftGame FIBS_NoOne FIBS_NoUser FIBS_AlreadyPlaying FIBS_Why'''.split())
# general kind -> the special kinds going before it
SPECIAL = {'FIBS_Doubles': {'FIBS_AcceptRejectDouble'}, 'FIBS_PlayerIsWatching': {'FIBS_PlayerStartsWatching'}}


def kinds(phase, line):
    """the kinds the line may be given in the phase"""
    if phase == 'RUN' and line == '':
        return {'FIBS_Empty'}
    fit = {k for k, v in RX[phase].items() if any(r.search(line) for r in v)}
    if not fit:
        return {DEFAULT[phase]}
    own = fit - GENERAL
    if phase == 'RUN':
        if own:
            return own
        if 'FIBS_WatchResign' in fit and RX['RUN']['FIBS_PlayerWantsToResign'][0].search(line):
            fit -= {'FIBS_WatchResign'}
        for g, s in SPECIAL.items():
            if fit & s:
                fit -= {g}
    return fit


def after(phase, line):
    if phase == 'LOGIN' and 'CLIP_MOTD_BEGIN' in kinds(phase, line):
        return 'MOTD'
    if phase == 'MOTD' and 'CLIP_MOTD_END' in kinds(phase, line):
        return 'RUN'
    if phase == 'RUN' and 'FIBS_Goodbye' in kinds(phase, line):
        return 'LOGIN'
    return phase


def phases(lines):
    ph = 'LOGIN'
    for l in lines:
        yield ph
        ph = after(ph, l)


def stream(s):
    """the lines of what the server sends (a login prompt counts as one) and the rest"""
    out = []
    while True:
        if s.startswith('login: '):
            out.append('login: ')
            s = s[7:]
            continue
        i = s.find('\r\n')
        if i < 0:
            return out, s
        out.append(s[:i])
        s = s[i + 2:]


# ---------------------------------------------------------------- generators
NAMES = ['bob', 'You', 'X', 'O', 'RepBot', 'donzbot_IV', 'michele_', '<a>', 'User', 'bytes', 'accounts', 'tobgol', 'marvin', 'board', 'login']
WORDS = ['hello', 'is playing with', 'The game was saved.', 'wants to resign.', "doubles. Type 'accept' or 'reject'.", 'Goodbye.', '3', '4', '6', '-',
         '1 - 2', 'board:', '** You', 'login: ', 'has left the game.', 'waves goodbye', 'wins the game and gets', '5 - - 0', 'points', ' ', '  ', '.', 'ok?',
         'starts watching jim.', 'is watching you.', '           Goodbye.', 'YES', 'NO', "You're not watching anymore.", '\xe9\xdf', '%s', '\\', "'"]
names = st.one_of(st.sampled_from(NAMES), st.text('abcXYZ_<>', min_size=1, max_size=12), st.text('abklmzABKLMZ_<>', min_size=13, max_size=45))
digits = st.one_of(st.text('0123456789', min_size=1, max_size=4), st.text('0123456789', min_size=5, max_size=20))
PRINT = [chr(i) for i in range(32, 127)]


def pieces(pattern):
    """strategy for texts matched by the pattern; (strategy, anchored at the start, at the end)"""
    items = list(sp.parse(pattern))
    left = bool(items) and items[0] == (sc.AT, sc.AT_BEGINNING)
    right = bool(items) and items[-1] == (sc.AT, sc.AT_END)

    def chars(av):
        neg, s = False, set()
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                s.add(chr(a))
            else:
                s |= {chr(i) for i in range(a[0], a[1] + 1)}
        return sorted(set(PRINT) - s) if neg else sorted(s)

    def go(items):
        out, lit = [], ''
        for op, av in items:
            if op is sc.LITERAL:
                lit += chr(av)
                continue
            if op is sc.AT:
                continue
            if lit:
                out.append(st.just(lit))
                lit = ''
            if op is sc.IN:
                out.append(st.sampled_from(chars(av)))
            elif op is sc.NOT_LITERAL:
                out.append(st.sampled_from([c for c in PRINT if c != chr(av)]))
            elif op is sc.ANY:
                out.append(st.sampled_from(PRINT))
            elif op is sc.SUBPATTERN:
                out.append(go(av[3]))
            elif op is sc.MAX_REPEAT:
                lo, hi, sub = av
                sub = list(sub)
                hi = lo + 25 if hi is sc.MAXREPEAT else hi
                if len(sub) == 1 and sub[0][0] is sc.IN and lo == 1:
                    c = chars(sub[0][1])
                    if c == sorted('0123456789'):
                        out.append(digits)
                    elif set('bob') <= set(c) and '-' not in c:
                        out.append(names)
                    else:
                        out.append(st.one_of(st.text(c, min_size=1, max_size=12), st.text(c, min_size=13, max_size=50)))
                else:
                    out.append(st.lists(go(sub), min_size=lo, max_size=hi).map(''.join))
            else:
                raise ValueError(op)
        if lit:
            out.append(st.just(lit))
        return st.tuples(*out).map(''.join) if len(out) != 1 else out[0]
    return go(items), left, right


words = st.lists(st.sampled_from(WORDS + NAMES), min_size=0, max_size=4).map(' '.join)
noise = st.text(''.join(chr(i) for i in range(1, 256) if i not in (10, 13, 17, 255)), max_size=20)
PATTERNS = {ph: [(k, p) for k, v in d.items() for p in v] for ph, d in PHASE.items()}
S = {ph: [] for ph in PHASE}
for _ph, _l in PATTERNS.items():
    for _k, _p in _l:
        _s, _a, _b = pieces(_p)
        if not _a:
            _s = st.tuples(st.one_of(names.map(lambda n: n + ' '), words.map(lambda w: w + ' '), st.just('')), _s).map(''.join)
        if not _b:
            _s = st.tuples(_s, st.one_of(st.just(''), st.just(' '), words.map(lambda w: ' ' + w), digits)).map(''.join)
        S[_ph].append(_s)


def fitting(phase):
    return st.integers(0, len(S[phase]) - 1).flatmap(lambda i: S[phase][i])


@st.composite
def bent(draw, base):
    l = draw(base)
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(l)))
        how = draw(st.integers(0, 8))
        if how == 0:
            l = l[:i] + l[i + 1:]
        elif how == 1:
            l = l[:i] + draw(st.sampled_from(' 0164.:*-Xx_\'')) + l[i:]
        elif how == 2:
            l = l[:i]
        elif how == 3:
            l = l[i:]
        elif how == 4:
            l = draw(st.sampled_from(['* ', '** ', ' ', '13 bob ', '5 ', 'bob '])) + l
        elif how == 5:
            l = l[:i] + l[i:i + 1].swapcase() + l[i + 1:]
        elif how == 6:
            l = l + draw(st.sampled_from([' ', '.', ' bob', '1']))
        else:
            # a word or the blanks between two words is missing
            w = re.split(r'( +|[0-9]+)', l)
            i = draw(st.integers(0, len(w) - 1))
            l = ''.join(w[:i] + w[i + 1:])
    return l


MARKS = ['3', '4', '           Goodbye.', '3 ', ' 3', '33', '34', '4 ', '44', '4.', ' 4', '          Goodbye.', '            Goodbye.',
         '           Goodbye', '           goodbye.', '           Goodbye. See you', '13 bob            Goodbye.', 'Goodbye.', '3.', '03', 'login: ', 'login:',
         '1 bob 1207724539 host', '2 bob 1 1 0 0', '> 5', '6', '', ' ', '5 bob - - 0', 'hello', '** You gag', '4\t', "You're not watching anymore."]


def lines(bias=True):
    run = fitting('RUN')
    return st.one_of(run, run, bent(run), fitting('LOGIN'), fitting('MOTD').map(lambda s: s[:60]), st.sampled_from(MARKS), words, noise)


def shorter(s):
    return s.replace('\n', '')


def walk(pattern, rnd):
    """a text fitting the pattern"""
    def go(items):
        out = ''
        for op, av in items:
            if op is sc.LITERAL:
                out += chr(av)
            elif op is sc.NOT_LITERAL:
                out += rnd.choice([c for c in PRINT if c != chr(av)])
            elif op is sc.ANY:
                out += rnd.choice(PRINT)
            elif op is sc.IN:
                neg, s = False, set()
                for o, a in av:
                    if o is sc.NEGATE:
                        neg = True
                    elif o is sc.LITERAL:
                        s.add(chr(a))
                    else:
                        s |= {chr(i) for i in range(a[0], a[1] + 1)}
                out += rnd.choice(sorted(set(PRINT) - s if neg else s))
            elif op is sc.SUBPATTERN:
                out += go(av[3])
            elif op is sc.MAX_REPEAT:
                lo, hi, sub = av
                for _ in range(rnd.randint(lo, lo + rnd.choice((7, 7, 7, 40)) if hi is sc.MAXREPEAT else hi)):
                    out += go(sub)
        return out
    return go(list(sp.parse(pattern)))


def sweep(per=8):
    """a few texts for every pattern"""
    import random
    rnd = random.Random(7)
    for ph, l in PATTERNS.items():
        for i, (k, p) in enumerate(l):
            out = []
            for n in range(per):
                s = walk(p, rnd)
                if not p.startswith('^') and n % 2:
                    s = 'bob ' + s
                if not p.endswith('$') and n % 3:
                    s += rnd.choice([' ', ' bob.', ' 12', ': x'])
                out.append(s)
            yield (ph, i, out)


def misses():
    """for every pattern and every part of it, texts that fit but for that part: a run left out, one letter of another class, a literal letter missing"""
    import random
    rnd = random.Random(11)

    def parts(items, path=()):
        for n, (op, av) in enumerate(items):
            if op is sc.SUBPATTERN:
                yield from parts(av[3], path + (n,))
            elif op is not sc.AT:
                yield path + (n,), op

    def walk_item(op, av):
        if op is sc.SUBPATTERN:
            return ''.join(walk_item(*i) for i in av[3])
        if op is sc.MAX_REPEAT:
            lo, hi, sub = av
            return ''.join(walk_item(*i) for _ in range(rnd.randint(lo, lo + 4 if hi is sc.MAXREPEAT else hi)) for i in sub)
        if op is sc.LITERAL:
            return chr(av)
        if op is sc.AT:
            return ''
        if op is sc.NOT_LITERAL:
            return rnd.choice([c for c in PRINT if c != chr(av)])
        if op is sc.ANY:
            return rnd.choice(PRINT)
        return rnd.choice([c for c in PRINT if one(op, av, c)])

    def one(op, av, c):
        neg, hit = False, False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                hit |= ord(c) == a
            else:
                hit |= a[0] <= ord(c) <= a[1]
        return hit != neg

    def build(items, path, how):
        out = ''
        for n, (op, av) in enumerate(items):
            if path and n == path[0]:
                if len(path) > 1:
                    out += build(av[3], path[1:], how)
                elif how == 0:
                    pass
                else:
                    out += rnd.choice(' .a1_:-Z')
            else:
                out += walk_item(op, av)
        return out

    for ph, l in PATTERNS.items():
        for i, (k, p) in enumerate(l):
            items = list(sp.parse(p))
            lines = []
            for path, op in parts(items):
                if op is sc.LITERAL and rnd.random() < .6:
                    continue
                for how in (0, 1):
                    s = build(items, path, how)
                    if s and '\n' not in s and '\r' not in s:
                        lines.append(s)
            lines = [x for x in lines if after(ph, x) == ph]
            for j in range(0, len(lines), 12):
                yield (ph, lines[j:j + 12])
