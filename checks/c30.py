from hypothesis import strategies as st
from vf import Part
import fibsgen as F

PROPERTY = 'C30'
CALL_TIMEOUT = 120.0
ASSUMPTIONS = ['the server side is a scripted peer on the loopback network; how packets arrive is driven by small pauses, the verdict does not depend on them',
               'a login prompt at the start of a line counts as a line; what comes after the last line end before the connection ends may or may not be delivered',
               'when a handler registers or unregisters another subscriber, whether that one gets the line being delivered is left open']


def plan(defs, actual, steps):
    """walks through the steps with the kinds actually given; returns per subscriber lists of (line, sure)"""
    got = [[] for d in defs]
    members = [0]
    said = []
    n = 0

    def deliver(upto):
        nonlocal n
        while n < min(upto, len(actual)):
            k = actual[n]
            snapshot = list(members)
            changed = set()
            for i in snapshot:
                if defs[i][0] is not None and k not in defs[i][0]:
                    continue
                sure = i not in changed
                got[i].append((n, sure))
                if not sure:
                    continue
                at = len(got[i]) - 1
                for d in defs[i][1]:
                    if d[0] == at:
                        if d[1] == 'line':
                            said.append(d[2])
                            continue
                        for j in d[2]:
                            if d[1] == 'reg':
                                members.append(j)
                                got[j].append((n, None))    # may get this one, may not
                            else:
                                members.remove(j)
                                if j != i:
                                    changed.add(j)
            n += 1
    for s in steps:
        if s[0] == 'wait':
            deliver(s[1])
        elif s[0] in ('reg', 'unreg'):
            for j in s[1]:
                members.append(j) if s[0] == 'reg' else members.remove(j)
    deliver(len(actual))
    return got, said, members


def kinds_ok(ctx, texts, kinds):
    for l, p, k in zip(texts, F.phases(texts), kinds):
        want = F.kinds(p, l)
        ctx.check(k in want, lambda: 'line %r in phase %s went to the handler %s, not to one of %s' % (l, p, k, sorted(want)))


def cut(text, cuts):
    cuts = sorted(set(c for c in cuts if 0 < c < len(text)))
    return [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]


LOSS = ('EOFError', 'socket_error')


def run(ctx, defs, steps, text):
    """defs: (kinds or None, deeds); steps as for ops_proto.play; text: all the server sends"""
    lines, rest = F.stream(text)
    ends = any(s[0] == 'close' for s in steps)
    events, heard, waits, active = ctx.ok('ops_proto', 'play', [list(d) for d in defs], steps)
    for want, ok in waits:
        seen = [e[2] for e in events[0]]
        ctx.check(ok, lambda: 'the server sent %r; after 20 s only %d of %d messages have been delivered: %r' % (text, len(seen), want, seen[-3:]))
    ctx.eq(active[0], False, 'is_active before opening')
    ctx.eq(active[1], True, 'is_active after opening')
    base = events[0]
    if ends:
        ctx.check(base and base[-1][1] in LOSS, lambda: 'loss of the connection was not reported: last delivered %r' % (base[-1:],))
        base = base[:-1]
    texts = [e[2] for e in base]
    if ends and rest and texts[len(lines):] == [rest]:
        lines = lines + [rest]
    if texts != lines:
        i = next((i for i, (a, b) in enumerate(zip(texts, lines)) if a != b), min(len(texts), len(lines)))
        ctx.fail('the server sent %r; delivered line %d is %r, expected %r' % (text, i, texts[i:i + 2], lines[i:i + 2]))
    actual = [e[1] for e in base]
    kinds_ok(ctx, texts, actual)
    return events, heard, texts, actual


def settle(ctx, events, defs, got, texts, actual, ends, final):
    for i in range(1, len(defs)):
        mine = [(e[1], e[2]) for e in events[i]]
        loss = [m for m in mine if m[0] in LOSS]
        mine = [m for m in mine if m[0] not in LOSS]
        if ends:
            takes = i in final and (defs[i][0] is None or 'EOFError' in defs[i][0])
            ctx.check(len(loss) == (1 if takes else 0), lambda: 'subscriber %d was told %d times of the loss of the connection' % (i, len(loss)))
        at = {0}        # how many of its messages may be accounted for
        for n, sure in got[i]:
            item = (actual[n], texts[n])
            new = {p + 1 for p in at if p < len(mine) and mine[p] == item}
            if sure is not True:
                new |= at
            ctx.check(new, lambda: 'subscriber %d missed line %d, %r (%s): it got %r next' % (i, n, texts[n], actual[n], mine[max(at):max(at) + 2]))
            at = new
        ctx.check(len(mine) in at, lambda: 'subscriber %d got %r, which it should not have' % (i, mine[max(at):max(at) + 2]))


def delivery(ctx, case):
    pre, body, cuts, end, tail = case
    text = ''.join(l + '\r\n' for l in pre + body)
    if end:
        text += tail
    n = len(F.stream(text)[0])
    steps = [['send', cut(text, cuts)], ['wait', n]]
    if end:
        steps += [['close'], ['lost']]
    defs = [(None, [])]
    run(ctx, defs, steps, text)
    if len(cuts) < 1 or n < 2:
        ctx.trivial()


def prompts(ctx, case):
    parts, cuts = case
    text = ''.join(parts) + '\r\nend\r\n'
    n = len(F.stream(text)[0])
    run(ctx, [(None, [])], [['send', cut(text, cuts)], ['wait', n]], text)
    if 'login: ' not in text:
        ctx.trivial()


def crowd(ctx, case):
    """subscribers come and go between lines and from handlers"""
    defs, script = case
    text, sent, steps = '', 0, []
    members = {0}
    for s in script:
        if s[0] == 'send':
            t = ''.join(l + '\r\n' for l in s[1])
            text += t
            sent = len(F.stream(text)[0])
            steps += [['send', cut(t, s[2])], ['wait', sent]]
        else:
            steps.append([s[0], s[1]])
    steps += [['close'], ['lost']]
    events, heard, texts, actual = run(ctx, defs, steps, text)
    got, said, final = plan(defs, actual, steps)
    settle(ctx, events, defs, got, texts, actual, True, final)
    if sum(1 for s in script if s[0] != 'send') < 2 or sent < 2:
        ctx.trivial()


def talk(ctx, case):
    """what the client sends"""
    texts, bursts, answers = case
    defs = [(None, [[i, 'line', t] for i, t in enumerate(answers)])]
    text = '3\r\n4\r\n' + ''.join('line %d\r\n' % i for i in range(len(answers)))
    want = ''.join(t + '\r\n' for t in texts)
    total = len(want) + sum(len(t) + 2 for b in bursts for t in b) + sum(len(t) + 2 for t in answers)
    steps = [['line', t] for t in texts]
    if bursts:
        steps.append(['burst', bursts])
    steps += [['send', [text]], ['wait', 2 + len(answers)], ['heard', total], ['close'], ['lost']]
    events, heard, waits, active = ctx.ok('ops_proto', 'play', [list(d) for d in defs], steps)
    ctx.check(all(ok for n, ok in waits), lambda: 'messages not delivered: %r' % (waits,))
    ctx.check(events[0] and events[0][-1][1] in LOSS, 'loss of the connection was not reported')
    ctx.check(heard.endswith('\r\n') or not total, lambda: 'the server heard %r' % heard)
    ctx.check(heard.startswith(want), lambda: 'the client sent %r, the server heard %r' % (want, heard[:len(want) + 20]))
    rest = heard[len(want):]
    said = rest.split('\r\n')[:-1] if rest else []
    pools = [list(b) for b in bursts] + [list(answers)]
    ctx.eq(sorted(said), sorted(t for p in pools for t in p), 'lines the server heard')
    if len(set(t for p in pools for t in p)) == sum(map(len, pools)):
        for p in pools:
            ctx.eq([t for t in said if t in p], p, 'order of the lines of one sender')
    if total < 10:
        ctx.trivial()


def leaving(ctx, case):
    """the client closes: nothing is delivered from then on"""
    before, after, times = case
    a = ''.join(l + '\r\n' for l in before)
    n = len(F.stream(a)[0])
    steps = [['send', [a]], ['wait', n]] + [['cclose']] * times + [['reg', [1]], ['trysend', [''.join(l + '\r\n' for l in after)]], ['sleep', 0.01]]
    events, heard, waits, active = ctx.ok('ops_proto', 'play', [[None, []], [None, []]], steps)
    ctx.check(all(ok for x, ok in waits), 'messages not delivered')
    ctx.eq([e[2] for e in events[0]], F.stream(a)[0], 'lines delivered before closing')
    ctx.eq(events[1], [], 'delivered after closing')
    ctx.eq(active, [False, True, False], 'is_active before opening, after opening, after closing')


def two(ctx, case):
    """two sessions at once, whose handlers run in a given order: a handler of one may wait for one of the other"""
    a, b, order, answers = case
    texts = [''.join(l + '\r\n' for l in t) for t in (a, b)]
    events, stuck, heard = ctx.ok('ops_proto', 'pair', texts, order, answers)
    ctx.check(not stuck, lambda: 'a handler waiting for a line of the other session waits for ever: %r; delivered so far %r' % (stuck, events))
    for t, ev in zip(texts, events):
        ctx.eq([e[1] for e in ev], F.stream(t)[0], 'lines delivered in one of two sessions')
        kinds_ok(ctx, [e[1] for e in ev], [e[0] for e in ev])
    ctx.eq(heard, [x + '\r\n' for x in answers], 'what the two servers heard')
    if sum(1 for x, y in zip(order, order[1:]) if x != y) < 2:
        ctx.trivial()


# ---------------------------------------------------------------- generators
def clean(l):
    l = l.replace('\r\n', ' ')
    for c in '\0\x11\xff\n':
        l = l.replace(c, '')
    return l


LINES = st.one_of(F.lines(), st.sampled_from(F.MARKS), F.words).map(clean)
NICE = st.sampled_from(['13 bob hello', '12 jim hi', 'bob moves 3/4', 'You roll 1 and 2.', 'something else', '', '6', '5 bob - - 0', 'bob doubles.',
                        'board:x', '** You gag bob', 'login: ', 'bob is playing with jim.', '           Goodbye.', '3', '4', 'allowpip  YES', '[1;2'])


LONG = st.tuples(st.sampled_from(['13 bob ', 'bob moves ', '** ', '', 'board:', '12 jim login: ']), st.text('ab c:', min_size=1, max_size=12),
                 st.integers(4, 400)).map(lambda t: t[0] + t[1] * t[2])


@st.composite
def deliveries(draw):
    pre = draw(st.sampled_from([[], ['3', '4'], ['3']]))
    body = draw(st.lists(st.one_of(LINES, LINES, LINES, LONG), min_size=1, max_size=8))
    if draw(st.integers(0, 9)) == 0:
        body = body * draw(st.integers(2, 25))
    size = sum(len(l) + 2 for l in pre + body)
    cuts = draw(st.lists(st.integers(1, size), max_size=10))
    if draw(st.booleans()):
        # around a line end
        p, ends = 0, []
        for l in pre + body:
            p += len(l) + 2
            ends.append(p)
        cuts += [e - draw(st.integers(0, 2)) for e in draw(st.lists(st.sampled_from(ends), max_size=4))]
    end = draw(st.booleans())
    tail = draw(st.sampled_from(['', '', 'part', '3', '13 bob he', 'logi', 'x\r'])) if end else ''
    return pre, body, cuts, end, tail


@st.composite
def promptings(draw):
    parts = draw(st.lists(st.one_of(st.sampled_from(['login: ', '\r\n', 'login: ', 'login:', 'xlogin: ', '13 bob login: hi', '1 bob 123 host', '2 bob 1 1', '3', '4',
                                                     ' ', '\r', 'logi', 'n: ', '> 5'])), min_size=1, max_size=14))
    t = ''.join(parts)
    cuts = draw(st.lists(st.integers(1, len(t)), max_size=8))
    i = t.find('login: ')
    if i >= 0 and draw(st.booleans()):
        cuts.append(i + draw(st.integers(1, 8)))
    return parts, cuts


KIND_SETS = [['CLIP_SHOUTS'], ['FIBS_Unknown', 'FIBS_Empty'], ['CLIP_SHOUTS', 'CLIP_SAYS', 'FIBS_PlayerMoves', 'EOFError'], ['EOFError', 'socket_error'],
             ['FIBS_PreLogin', 'FIBS_MOTD', 'FIBS_Unknown'], []]


@st.composite
def crowds(draw):
    n = draw(st.one_of(st.integers(2, 5), st.integers(2, 14)))
    defs = [[None, []]]
    for i in range(1, n):
        defs.append([draw(st.one_of(st.none(), st.sampled_from(KIND_SETS))), []])
    members, ever = set(), set()
    # a handler only ever takes away itself, or changes a subscriber set apart for that, once
    script = []
    owned = {}
    for i in range(1, n):
        how = draw(st.integers(0, 5))
        if how == 0 and defs[i][0] is None:
            owned[i] = i                      # takes itself away at its k-th line
        elif how == 1:
            owned[i] = 0                      # the base recorder takes it in, or away, at its k-th line
    for i, by in owned.items():
        k = draw(st.integers(0, 6))
        if by == i:
            defs[i][1].append([k, 'unreg', [i]])
            script.append(['reg', [i]])
        else:
            if draw(st.booleans()):
                defs[0][1].append([k, 'reg', [i]])
            else:
                defs[0][1].append([k, 'unreg', [i]])
                script.append(['reg', [i]])
    free = [i for i in range(1, n) if i not in owned]
    if draw(st.booleans()):
        script.append(['send', ['3', '4'], []])
    for _ in range(draw(st.integers(1, 12))):
        if draw(st.integers(0, 2)) == 0 or not free:
            ls = draw(st.lists(NICE, min_size=1, max_size=5))
            size = sum(len(l) + 2 for l in ls)
            script.append(['send', ls, draw(st.lists(st.integers(1, size), max_size=3))])
        else:
            ids = draw(st.lists(st.sampled_from(free), min_size=1, max_size=3, unique=True))
            if draw(st.booleans()):
                ids = [i for i in ids if i not in members]
                members |= set(ids)
                what = 'reg'
            else:
                ids = [i for i in ids if i in members]
                members -= set(ids)
                what = 'unreg'
            if ids:
                script.append([what, ids])
    return defs, script


say = st.one_of(st.sampled_from(['board', 'roll', "tell bob hi", '', 'login wxpygammon 1008 a b', 'm 8 7 6 5', 'say login: ']),
                st.text(''.join(chr(i) for i in range(1, 255) if i not in (10, 13, 17)), max_size=40), st.text('x', min_size=200, max_size=3000))


@st.composite
def talks(draw):
    texts = draw(st.lists(say, max_size=4))
    bursts = []
    if draw(st.booleans()):
        size = draw(st.sampled_from([1, 10, 500]))
        bursts = [['%d-%d %s' % (i, j, 'y' * size) for j in range(draw(st.integers(1, 15)))] for i in range(draw(st.integers(2, 4)))]
    answers = ['answer %d' % i for i in range(draw(st.integers(0, 4)))]
    return texts, bursts, answers


PLAIN = ['13 bob hello', '12 jim hi', 'bob moves 3/4', 'You roll 1 and 2.', 'something else', '', '6', '5 bob - - 0', 'bob doubles.', '** You gag bob', '3', '4']


@st.composite
def pairs(draw):
    a, b = [draw(st.sampled_from([[], ['3', '4'], ['3']])) + draw(st.lists(st.sampled_from(PLAIN), min_size=1, max_size=4)) for _ in (0, 1)]
    order = draw(st.permutations([0] * len(a) + [1] * len(b)))
    return a, b, list(order), ['from a %d' % len(a), 'b says %d' % len(b)]


PARTS = [
    Part('delivery', deliveries(), delivery, 260, 6000, rule='two lines or more, in two packets or more'),
    Part('prompts', promptings(), prompts, 300, 4000, rule='the text has a login prompt'),
    Part('crowd', crowds(), crowd, 400, 6000, rule='two registrations or more, two lines or more'),
    Part('talk', talks(), talk, 240, 3000, rule='ten characters or more are sent'),
    Part('two', pairs(), two, 160, 2000, rule='the sessions take turns twice or more'),
    Part('leaving', st.tuples(st.lists(NICE, min_size=1, max_size=4), st.lists(NICE, min_size=1, max_size=4), st.integers(1, 2)), leaving, 120, 1500, rule='all'),
]
