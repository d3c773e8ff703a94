import base64, re
from hypothesis import strategies as st
from vf import Part
import ref, gen

PROPERTY = 'C10'
STUBS = True
CALL_TIMEOUT = 30.0
ASSUMPTIONS = ['tonic.BitsArray is not installed here; lib/stubs/tonic stands in for it (little-endian bit field)']
WIDTHS = (('cube_in_logarithm', 4), ('cube_owner', 2), ('on_action', 1), ('crawford', 1), ('game_state', 3),
          ('on_inner_action', 1), ('doubled', 1), ('resign_offer', 2), ('die0', 3), ('die1', 3), ('match_length', 15),
          ('score0', 15), ('score1', 15))
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def to_id(bits, nbytes):
    bits = bits + [0] * (nbytes * 8 - len(bits))
    assert len(bits) == nbytes * 8
    by = bytes(sum(bits[i * 8 + j] << j for j in range(8)) for i in range(nbytes))
    return base64.b64encode(by).decode().rstrip('=')


def bits_of(text, nbytes):
    by = base64.b64decode(text + '=' * (-len(text) % 4))[:nbytes]
    return [(b >> j) & 1 for b in by for j in range(8)]


def pos_id(first, second):
    bits = []
    for n in first + second:
        bits += [1] * n + [0]
    return to_id(bits, 10)


def match_id(s):
    bits = []
    f = dict(s, die0=s['rolled'][0], die1=s['rolled'][1], score0=s['score'][0], score1=s['score'][1])
    for k, w in WIDTHS:
        bits += [(int(f[k]) >> j) & 1 for j in range(w)]
    return to_id(bits, 9)


def read_match(text):
    bits = bits_of(text, 9)
    out, i = {}, 0
    for k, w in WIDTHS:
        out[k] = sum(b << j for j, b in enumerate(bits[i:i + w]))
        i += w
    for k in ('crawford', 'doubled'):
        out[k] = bool(out[k])
    out['rolled'] = (out.pop('die0'), out.pop('die1'))
    out['score'] = (out.pop('score0'), out.pop('score1'))
    return out


def read_position(text):
    """Two 25-tuples, None (no such), or 'odd' (the last run is not terminated)."""
    runs, n = [], 0
    for b in bits_of(text, 10):
        if b:
            n += 1
        else:
            runs.append(n)
            n = 0
    if len(runs) == 49:
        return 'odd'
    if len(runs) < 49:
        return None
    return (tuple(runs[:25]), tuple(runs[25:50]))


big = st.one_of(st.integers(0, 25), st.integers(0, 32767), st.sampled_from((0, 1, 2 ** 14, 2 ** 15 - 1, 255, 256)))


@st.composite
def states(draw):
    s = draw(gen.any_state())
    s['game_state'] = draw(st.one_of(st.integers(0, 4), st.integers(0, 7)))
    s['cube_owner'] = draw(st.sampled_from((0, 1, 3, 3, 2)))
    ml = draw(big)
    a, b = draw(big), draw(big)
    if s['game_state'] == ref.ON_GOING and ml:
        a, b = a % (ml + 1), b % (ml + 1)
    s.update(match_length=ml, score=(a, b), rolled=draw(st.one_of(gen.dice, st.just((0, 0)), st.tuples(st.integers(0, 7), st.integers(0, 7)))))
    return s


def state(ctx, case):
    pid, mid, back, again, before, e2 = ctx.ok('ops_enc', 'gn_encode', case)
    you, him = case['position']
    first, second = (him, you) if case['on_action'] == ref.YOU else (you, him)
    ctx.eq(pid, pos_id(first, second), 'position id')
    ctx.eq(mid, match_id(case), 'match id')
    ctx.check(len(pid) == 14 and len(mid) == 12, 'lengths')
    ctx.eq(again, [pid, mid], 'ids of the same state in an editor')
    for k in ref.FIELDS:
        ctx.check(back[k] == case[k], '%s decoded as %r, encoded from %r' % (k, back[k], case[k]))
        ctx.check(type(back[k]) is type(case[k]), 'type of %s: %r' % (k, back[k]))
        ctx.check(before[k] == case[k] and e2[k] == case[k], 'encoding changed %s' % k)
    n = sum(you) + sum(him)
    if (50 + n) % 8 == 0:
        ctx.label('bits fill whole bytes')
    if case['match_length'] == 0 and any(case['score']):
        ctx.label('money game with score')


def reuse(ctx, case):
    ids = []
    for s in case:
        you, him = s['position']
        ids.append((pos_id(*((him, you) if s['on_action'] == ref.YOU else (you, him))), match_id(s)))
    for s, g in zip(case, ctx.ok('ops_enc', 'gn_reuse', ids)):
        for k in ref.FIELDS:
            ctx.check(g[k] == s[k], 'decoding into the same board one after another %r: %s is %r, expected %r' % (ids, k, g[k], s[k]))


def history(ctx, case):
    """What came before, failures included, makes no difference."""
    got = ctx.ok('ops_enc', 'gn_history', case)
    for i, ((op, arg), g) in enumerate(zip(case, got)):
        where = 'step %d (%s %r) of %r' % (i, op, arg, case)
        if op == 'state':
            you, him = arg['position']
            ctx.eq(g, ['ok', (pos_id(*((him, you) if arg['on_action'] == ref.YOU else (you, him))), match_id(arg))], where)
        elif op == 'text':
            p, m = read_position(arg[0]), read_match(arg[1])
            ctx.eq(g, [['ok', p], ['ok', m]], where)
        else:
            ctx.label('failed' if g[0] != 'ok' else op)


def position(ctx, case):
    a, b = case
    s, back = ctx.ok('ops_enc', 'gn_position', (a, b))
    ctx.eq(s, pos_id(a, b), 'position id')
    ctx.eq(back, (a, b), 'decoded')


def text(ctx, case):
    pid, mid = case
    p, m, both = ctx.ok('ops_enc', 'gn_decode', pid, mid)
    want = None
    if re.match(r'[A-Za-z0-9+/]{14}\Z', pid):
        want = read_position(pid)
    if want is None:
        ctx.check(p[0] != 'ok', 'position id %r is none, decoded to %r' % (pid, p[1]))
        ctx.label('pid rejected')
    elif want != 'odd':
        ctx.eq(p, ['ok', want], 'position id %r' % pid)
        ctx.label('pid accepted')
    if p[0] == 'ok':
        ctx.check(len(p[1]) == 2 and len(p[1][0]) == 25 and len(p[1][1]) == 25, 'wrong number of points %r' % (p[1],))
    wm = None
    if re.match(r'[A-Za-z0-9+/]{12}\Z', mid):
        wm = read_match(mid)
        ctx.eq(m, ['ok', wm], 'match id %r' % mid)
        ctx.label('mid accepted')
    else:
        ctx.check(m[0] != 'ok', 'match id %r is none, decoded to %r' % (mid, m[1]))
        ctx.label('mid rejected')
    if want is None or wm is None:
        ctx.check(both[0] != 'ok', 'decoded %r %r to %r' % (pid, mid, both[1]))
    elif want != 'odd':
        over = wm['game_state'] == ref.ON_GOING and wm['match_length'] and max(wm['score']) > wm['match_length']
        if over:  # a game going on though someone has won the match: may be refused as inconsistent
            ctx.check(both[0] != 'exc', 'internal error %r' % (both,))
        if not over or both[0] == 'ok':
            ctx.check(both[0] == 'ok', '%r %r: %r' % (pid, mid, both))
            w = dict(wm)
            w['position'] = (want[1], want[0]) if wm['on_action'] == ref.YOU else want
            for k in ref.FIELDS:
                ctx.eq(both[1][k], w[k], k)


good_pid = gen.duel().map(lambda t: pos_id(*t))
good_mid = states().map(match_id)
chars = st.text(alphabet=B64, max_size=20)
full14, full12 = st.text(alphabet=B64, min_size=14, max_size=14), st.text(alphabet=B64, min_size=12, max_size=12)
weird = st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=20)


@st.composite
def damaged(draw, base):
    s = draw(base)
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.integers(0, 4))
        i = draw(st.integers(0, len(s)))
        c = draw(st.one_of(st.sampled_from('=-_ \n\t!A/+'), st.characters(min_codepoint=0, max_codepoint=255),
                           st.sampled_from(B64)))
        if how == 0:
            s = s[:i] + c + s[i:]
        elif how == 1:
            s = s[:i] + s[i + 1:]
        elif how == 2:
            s = s[:i] + c + s[i + 1:]
        elif how == 3:
            s = s[:i]
        else:
            s = s + c
    return s


OPS = st.one_of(st.tuples(st.just('state'), states()), st.tuples(st.just('state'), states()),
                st.tuples(st.just('text'), st.tuples(gen.duel().map(lambda t: pos_id(*t)), good_mid)),
                st.tuples(st.just('torn'), st.tuples(st.lists(st.one_of(st.integers(0, 5), st.sampled_from(('x', None))), min_size=1, max_size=8),
                                                     st.lists(st.one_of(st.integers(0, 5), st.sampled_from(('x', None))), max_size=8))),
                st.tuples(st.just('short'), st.tuples(states(), st.sampled_from(('score', 'rolled', 'cube_in_logarithm', 'position', 'match_length')),
                                                      st.sampled_from((None, 'x', (1,), (1, 'x'))))))


@st.composite
def lumps(draw):
    # up to thirty chequers anywhere, many of them in one place (nothing forbids sixteen in an id)
    runs = [0] * 50
    left = 30
    for _ in range(draw(st.integers(1, 6))):
        n = draw(st.integers(0, left))
        runs[draw(st.integers(0, 49))] += n
        left -= n
    return pos_id(tuple(runs[:25]), tuple(runs[25:]))


pids = st.one_of(good_pid, lumps(), damaged(good_pid), damaged(good_pid), full14, chars, weird,
                 st.sampled_from(('', '/' * 14, 'A' * 14, 'A' * 13, 'A' * 15, 'A' * 12 + '==', 'A' * 14 + '\n')))
mids = st.one_of(good_mid, damaged(good_mid), damaged(good_mid), full12, full12, chars, weird,
                 st.sampled_from(('', '/' * 12, 'A' * 12, 'A' * 11, 'A' * 16, 'A' * 12 + '\n')))

PARTS = [Part('state', states(), state, 1600, 15000, rule='all',
              examples=[dict(ref.DEFAULT, game_state=1)]),
         Part('reuse', st.lists(states(), min_size=2, max_size=4), reuse, 300, 3000, rule='all'),
         Part('history', st.lists(OPS, min_size=2, max_size=6), history, 400, 4000, rule='all'),
         Part('position', gen.duel(), position, 800, 8000, rule='all'),
         Part('text', st.tuples(pids, mids), text, 1500, 15000, rule='all')]
