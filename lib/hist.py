"""Histories of plays and undos: tokens drawn by Hypothesis, made concrete by the reference model."""
from hypothesis import strategies as st
import ref, gen

token = st.one_of(
    st.tuples(st.just('play'), st.integers(0, 60)),
    st.tuples(st.just('play'), st.integers(0, 60)),
    st.tuples(st.just('chain'), st.integers(0, 60)),
    st.tuples(st.just('undo'), st.just(0)),
    st.tuples(st.just('undo_any'), st.integers(0, 5)),
    st.tuples(st.just('undo_all'), st.just(0)),
    st.tuples(st.just('end'), st.integers(0, 35)),
    st.tuples(st.just('end'), st.integers(0, 35)),
)


@st.composite
def histories(draw, max_tokens=25):
    start = draw(st.sampled_from(('gen', 'gen', 'gen', 'initial')))
    s = draw(gen.moving_state())
    if start == 'initial':
        s['position'] = ref.DEFAULT['position']
    mode = draw(st.sampled_from(('factory', 'factory', 'raw')))
    return (s, mode, draw(st.lists(token, min_size=4, max_size=max_tokens)))


class Model(object):
    """The reference: board, steps recorded in this turn, dice remaining."""
    def __init__(self, state):
        self.s = dict(state)
        self.played = []
        self.pool = ref.dice_of(state['rolled'])

    def sides(self):
        return ref.sides(self.s['position'], self.s['on_action'])

    def put(self, me, opp):
        self.s['position'] = ref.join(me, opp, self.s['on_action'])

    def options(self):
        me, opp = self.sides()
        return [x for d in sorted(set(self.pool)) for x in ref.steps(me, opp, d)]

    def do(self, step):
        me, opp = self.sides()
        self.put(*ref.play(me, opp, step))
        self.played.append(step)
        self.pool = ref.remove(self.pool, step[0])

    def can_undo(self, step):
        me, opp = self.sides()
        die, src, dest, hit = step
        if dest >= 0 and me[dest] < 1:
            return False
        if hit and (opp[24] < 1 or me[dest] != 1):
            return False
        if src < 24 and opp[23 - src] > 0:
            return False
        return True

    def undo(self, step):
        me, opp = self.sides()
        self.put(*ref.unplay(me, opp, step))
        i = len(self.played) - 1 - self.played[::-1].index(step)
        del self.played[i]
        self.pool += (step[0],)

    def end(self, roll):
        o = 1 - self.s['on_action']
        self.s.update(on_action=o, on_inner_action=1 - self.s['on_inner_action'], rolled=(0, 0))


def concretise(case):
    """-> (commands, expected [(state, played, pool) after each])"""
    state, mode, tokens = case
    m = Model(state)
    cmds, want = [], []

    def note():
        want.append((dict(m.s), list(m.played), sorted(m.pool)))
    for op, k in tokens:
        if op == 'play':
            o = m.options()
            if o:
                x = o[k % len(o)]
                m.do(x)
                cmds.append(('append' if mode == 'factory' else 'raw', x))
                note()
        elif op == 'chain':
            seq = []
            for j in range(1 + k % 3):
                o = m.options()
                if not o:
                    break
                x = o[(k + j) % len(o)]
                m.do(x)
                seq.append(x)
            if seq:
                cmds.append(('add' if mode == 'factory' else 'make', seq))
                note()
        elif op in ('undo', 'undo_any', 'undo_all'):
            n = len(m.played) if op == 'undo_all' else min(1, len(m.played))
            for j in range(n):
                x = m.played[-1] if op != 'undo_any' else m.played[k % len(m.played)]
                if not m.can_undo(x):
                    x = m.played[-1]
                if not m.can_undo(x):
                    break
                m.undo(x)
                cmds.append(('undo' if mode == 'factory' else 'rawundo', x))
                note()
        elif op == 'end':
            me, opp = m.sides()
            if m.options():
                continue
            m.end(None)
            cmds.append(('end', None))
            m.played, m.pool = [], ()
            note()
            want[-1] = (want[-1][0], None, None)
            roll = (1 + k // 6, 1 + k % 6)
            m.s['rolled'] = roll
            m.pool = ref.dice_of(roll)
            cmds.append(('roll', roll))
            note()
    return cmds, want
