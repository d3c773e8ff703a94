from hypothesis import strategies as st
from vf import Part
import ref, gen, image
import c07

PROPERTY = 'C31'
STUBS = True
ASSUMPTIONS = ['tonic.BitsArray is not installed here; lib/stubs/tonic stands in for it (little-endian bit field)']
KINDS = ('freeze', 'copy', 'gnubg', 'db')
BY_HAND = ('double', 'take', 'drop', 'offer_resign', 'accept_resign', 'reject_resign')


class Game(object):
    """The reference: the state, the steps played in this turn and the dice remaining (None: nothing rolled)."""
    def __init__(self, s, played, pool):
        self.s, self.played, self.pool = dict(s), played, pool

    def copy(self):
        return Game(self.s, None if self.played is None else list(self.played), self.pool)

    def sides(self):
        return ref.sides(self.s['position'], self.s['on_action'])

    def put(self, me, opp):
        self.s['position'] = ref.join(me, opp, self.s['on_action'])

    def options(self):
        me, opp = self.sides()
        return [x for d in sorted(set(self.pool)) for x in ref.steps(me, opp, d)]

    def origin(self):
        me, opp = self.sides()
        for x in reversed(self.played):
            me, opp = ref.unplay(me, opp, x)
        return me, opp

    def over(self):
        me, opp = self.origin()
        return ref.turn_over(me, opp, self.s['rolled'], self.played)

    def moving(self):
        return self.pool is not None and bool(c07.entitled(self.s, self.s['on_action'])[1])

    def expect(self):
        if self.pool is None:
            return [self.s, None, None, None]
        return [self.s, self.played, sorted(self.pool), self.over()]

    def do(self, cmd):
        """Whether the command is carried out; None if it is not to be tried."""
        op = cmd[0]
        if op == 'roll':
            t = c07.step(self.s, cmd)
            if t == 'skip':
                return None
            self.s, self.played, self.pool = t, [], ref.dice_of(cmd[1])
        elif op == 'play':
            self.put(*ref.play(*(self.sides() + (cmd[1],))))
            self.played.append(cmd[1])
            self.pool = ref.remove(self.pool, cmd[1][0])
        elif op == 'undo':
            self.put(*ref.unplay(*(self.sides() + (cmd[1],))))
            self.played.pop()
            self.pool += (cmd[1][0],)
        elif op == 'pickup':
            if not self.over():
                return False
            self.s = c07.step(self.s, ('pickupdice',))
            self.played = self.pool = None
        else:
            t = c07.step(self.s, cmd)
            if t is None:
                return False
            self.s = t
        return True


@st.composite
def scripts(draw):
    s = draw(c07.start())
    live = s['rolled'] != (0, 0)
    g = Game(s, [] if live else None, ref.dice_of(s['rolled']) if live else None)
    games, cmds = [g], []
    for _ in range(draw(st.integers(3, 26))):
        cand = []
        for w in (0, 1):
            e = c07.entitled(g.s, w)
            cand += ['roll'] * 4 * bool(e[0]) + [('double', w)] * 3 * bool(e[2]) + [('take', w)] * 3 * bool(e[4]) + \
                [('drop', w)] * (bool(e[4]) and len(cmds) % 3 == 2) + [('offer_resign', w)] * (bool(e[5]) and len(cmds) % 3 == 2) + \
                [('accept_resign', w)] * (bool(e[6]) and len(cmds) % 3 == 2) + [('reject_resign', w), ('reject_resign', w)] * bool(e[6])
        if g.moving():
            if g.options():
                cand += ['play'] * 6
            if g.played:
                cand += ['undo'] * 2
            cand += ['pickup'] * (5 if g.over() else 1)
        cand += ['save'] * 3 + ['wrong']
        if len(games) > 1:
            cand += ['switch']
        if g.s['game_state'] == ref.ON_GOING:
            cand += ['look']
        c = draw(st.sampled_from(cand))
        if c == 'roll':
            cmd = ('roll', draw(gen.dice))
        elif c == 'play':
            o = g.options()
            cmd = ('play', o[draw(st.integers(0, len(o) - 1))])
        elif c == 'undo':
            cmd = ('undo', g.played[-1])
        elif c == 'save':
            # an identifier of GNU Backgammon holds cubes up to 2 ** 15
            cmd = ('save', draw(st.sampled_from([k for k in KINDS if k != 'gnubg' or g.s['cube_in_logarithm'] < 16])))
        elif c == 'switch':
            cmd = ('switch', draw(st.integers(0, len(games) - 1)))
        elif c in ('pickup', 'look'):
            cmd = (c,)
        else:
            cmd = c if isinstance(c, tuple) else (draw(st.sampled_from(BY_HAND)), draw(gen.who))
            if cmd[0] == 'offer_resign':
                cmd += (draw(st.integers(1, 3)),)
        g = advance(games, g, cmd)[0]
        cmds.append(cmd)
    return s, cmds


def advance(games, g, cmd):
    if cmd[0] == 'save':
        g = g.copy()
        games.append(g)
        return g, True
    if cmd[0] == 'switch':
        return games[cmd[1]], True
    if cmd[0] == 'look':
        return g, True
    return g, g.do(cmd)


def judge(ctx, where, got, g):
    want = g.expect()
    for k in ref.FIELDS:
        ctx.check(got[0][k] == want[0][k], '%s: %s is %r, expected %r' % (where, k, got[0][k], want[0][k]))
    ctx.check(got[1] == want[1], '%s: steps played %r, expected %r' % (where, got[1], want[1]))
    ctx.check(got[2] == want[2], '%s: dice left %r, expected %r' % (where, got[2], want[2]))
    if want[0]['rolled'] != (0, 0):
        ctx.check(got[3] == want[3], '%s: may the turn be ended? library %r, rules %r' % (where, got[3], want[3]))
    ent = c07.entitled(g.s, 0) + c07.entitled(g.s, 1)
    for j, (a, b) in enumerate(zip(got[4], ent)):
        ctx.check(a == bool(b), '%s: may player %d %s? library %r, rules %r' % (where, j // 7, c07.NAMES[j % 7], a, bool(b)))


def saved(ctx, case):
    s, cmds = case
    live = s['rolled'] != (0, 0)
    g = Game(s, [] if live else None, ref.dice_of(s['rolled']) if live else None)
    games = [g]
    if not any(c[0] == 'save' for c in cmds):
        ctx.trivial()
    out, end, frozen = ctx.ok('ops_model', 'saved_games', s, cmds)
    judge(ctx, 'at the start', out[0][1], g)
    for i, (cmd, (err, got)) in enumerate(zip(cmds, out[1:])):
        where = 'after %r from %r' % (cmds[:i + 1], s)
        g, done = advance(games, g, cmd)
        ctx.check(done is not None, 'harness: %s' % where)
        ctx.label(cmd[0] + ('' if done else ' refused') + (' ' + cmd[1] if cmd[0] == 'save' else ''))
        if cmd[0] == 'save' and g.played:
            ctx.label('saved within a turn')
        if cmd[0] == 'look':
            ctx.check(isinstance(err, list), '%s: the picture failed: %r' % (where, err))
            try:
                seen, player = image.seen(err)
            except (ValueError, KeyError, TypeError, IndexError) as e:
                ctx.fail('%s: picture out of shape: %r' % (where, e))
            want = image.shown(g.s)
            for p in sorted(set(seen) | set(want), key=repr):
                ctx.check(seen.get(p, []) == want.get(p, []), '%s: shown at %r: %r, expected %r' %
                          (where, p, seen.get(p, []), want.get(p, [])))
            ctx.check(player == image.actor(g.s), '%s: player marked %r' % (where, player))
        elif done:
            ctx.check(err is None, '%s: %s' % (where, err))
        else:
            ctx.check(err is not None, '%s: was not refused' % where)
        judge(ctx, where, got, g)
    for k, (g, got) in enumerate(zip(games, end)):
        judge(ctx, 'at the end of %r from %r, game %d' % (cmds, s, k), got, g)
    ctx.check(all(frozen), 'a frozen board changed afterwards: %r from %r' % (cmds, s))


PARTS = [Part('saved', scripts(), saved, 2000, 20000, rule='the game is saved and taken up at least once')]
