# -*- coding: us-ascii -*-
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.move import AvailableToPlay, PartialMove, Move, MoveFactory
from bglib.model import constants, util

FIELDS = ['position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state',
          'on_inner_action', 'doubled', 'resign_offer', 'rolled', 'match_length', 'score']


def editor(state):
  return BoardEditor(Board(**state))


def dump(b):
  return dict([(k, getattr(b, k)) for k in FIELDS])


def pms(mv):
  return [(pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in mv]


def pool(av):
  out = []
  for d in (1, 2, 3, 4, 5, 6):
    for i in range(av[d]):
      out.append(d)
  return out


def mkpool(dice):
  av = AvailableToPlay((0, 0))
  for d in dice:
    av.add(d)
  return av


def pm(t):
  return PartialMove(t[0], t[1], t[2], t[3])


def inv(t):
  return PartialMove(t[0], t[2], t[1], t[3])


def attempt(f, *args, **kw):
  try:
    return f(*args, **kw)
  except Exception, e:
    return ('exc', e.__class__.__name__, str(e)[:200])


def answer(r):
  """A suggestion: the step(s) found, or a refusal."""
  if isinstance(r, tuple) and r and r[0] == 'exc':
    return list(r)
  if not r:
    return ['no', r is None or str(r)]
  if isinstance(r, PartialMove):
    return ['pm', (r.die, r.src, r.dest, bool(r.is_hitting))]
  if isinstance(r, (Move, list, tuple)):
    return ['mv', pms(r)]
  return ['odd', repr(r)]


def play_history(state, script):
  """script: list of commands; returns the dump of everything after each of them."""
  b = editor(state)
  mf = None
  if state['rolled'] != (0, 0):
    mf = MoveFactory(b)
  out = []
  for cmd in script:
    op, arg = cmd
    err = None
    try:
      if op == 'append':
        mf.append(pm(arg))
      elif op == 'undo':
        mf.append(inv(arg))
      elif op == 'add':
        mv = Move()
        for t in arg:
          mv.append(pm(t))
        mf.add(mv)
      elif op == 'raw':
        b.make_partial_move(pm(arg))
      elif op == 'rawundo':
        b.make_partial_move(inv(arg))
      elif op == 'make':
        mv = Move()
        for t in arg:
          mv.append(pm(t))
        b.make(mv)
      elif op == 'end':
        b.pickupdice()
      elif op == 'roll':
        b.rolled = arg
        mf = MoveFactory(b)
      else:
        raise ValueError(op)
    except Exception, e:
      err = '%s: %s' % (e.__class__.__name__, e)
    out.append([err, dump(b), mf and pms(mf.move), mf and pool(mf.available)])
  return out


def elsewhere(who):
  return MoveFactory(BoardEditor(on_action=who, on_inner_action=who, game_state=constants.ON_GOING, rolled=(6, 4)))


def suggest_all(state, dice, explicit):
  """Every single-step question on one position, with the dice of the pool still to be played."""
  b = editor(state)
  before = dump(b)
  out = []
  for kind, args in (('src', range(0, 25)), ('dst', range(-1, 24))):
    for a in args:
      if explicit:
        # asked of a factory that is about another game
        held = elsewhere(1 - state['on_action'])
        mf, had = held, [4, 6]
      else:
        av = mkpool(dice)
        mf, had = MoveFactory(b, available=av), list(dice)
      f = kind == 'src' and mf.guess_your_single_pm_from_source or mf.guess_your_single_pm_from_dest
      mine = mkpool(dice)
      if explicit:
        r = attempt(f, a, b=b, available=mine)
      else:
        r = attempt(f, a)
      out.append([kind, a, answer(r), pool(mf.available) == had, pool(mine) == list(dice), dump(b) == before,
                  len(mf.move)])
  return out


def chains(state, played, pairs):
  """After the steps played: every multi-step question, and the taking back."""
  b = editor(state)
  mf = MoveFactory(b)
  for t in played:
    mf.append(pm(t))
  before = dump(b), pms(mf.move), pool(mf.available)
  out = []
  for src, dest in pairs:
    if src > dest:
      r = attempt(mf.guess_your_multiple_pms, src, dest)
    else:
      r = attempt(mf.guess_your_multiple_partial_undoes, src, dest)
    out.append([src, dest, answer(r), (dump(b), pms(mf.move), pool(mf.available)) == before, True])
    if src > dest and (src + dest) % 3 == 0 and out[-1][3]:
      # the same question with board and dice given to a factory that is about another game
      other, mine = elsewhere(1 - state['on_action']), mkpool(before[2])
      start = dump(other.board)
      r2 = attempt(other.guess_your_multiple_pms, src, dest, b=b, available=mine)
      out[-1][4] = answer(r2)[0] == out[-1][2][0] and (answer(r2)[0] == 'no' or answer(r2) == out[-1][2]) and dump(b) == before[0] and \
                   pool(mine) == before[2] and dump(other.board) == start and pool(other.available) == [4, 6] and len(other.move) == 0
    if not out[-1][3]:
      # judged on a damaged board everything after would fail for the same reason
      b = editor(state)
      mf = MoveFactory(b)
      for t in played:
        mf.append(pm(t))
  return out


def there_and_back(state, played, src, dest):
  """Ask for a chain, play it, ask to take it back, play that."""
  b = editor(state)
  mf = MoveFactory(b)
  for t in played:
    mf.append(pm(t))
  start = dump(b), pms(mf.move), pool(mf.available)
  r = attempt(mf.guess_your_multiple_pms, src, dest)
  a = answer(r)
  if a[0] != 'mv':
    return [a]
  mf.add(r)
  mid = dump(b)
  u = attempt(mf.guess_your_multiple_partial_undoes, dest, src)
  ua = answer(u)
  if ua[0] != 'mv':
    return [a, mid, ua]
  unchanged = dump(b) == mid
  mf.add(u)
  return [a, mid, ua, unchanged, (dump(b), pms(mf.move), pool(mf.available)) == start]


def pickup(state, played, then_end):
  """Is the turn over after each prefix of the steps played? And does asking change anything?"""
  b = editor(state)
  mf = MoveFactory(b)
  out = []
  for i in range(len(played) + 1):
    before = dump(b), pms(mf.move), pool(mf.available)
    r = attempt(mf.is_leagal_to_pickup_dice)
    after = dump(b), pms(mf.move), pool(mf.available)
    if isinstance(r, tuple):
      r = list(r)
    else:
      r = bool(r)
    out.append([r, before == after])
    if i < len(played):
      if before != after:
        # carry on from the true state
        b = editor(state)
        mf = MoveFactory(b)
        for t in played[:i]:
          mf.append(pm(t))
      mf.append(pm(played[i]))
  end = None
  if then_end:
    e = attempt(mf.pickupdice)
    end = [isinstance(e, tuple) and list(e) or None, dump(b)]
  return [out, end]


def pool_ops(rolled, ops):
  p = [AvailableToPlay(rolled), None]
  p[1] = AvailableToPlay(rolled=None, copy_src=p[0])
  cur = 0
  out = []
  for op, d in ops:
    err = None
    if op == 'consume':
      try:
        p[cur].consume(d)
      except Exception, e:
        err = e.__class__.__name__
    elif op == 'add':
      p[cur].add(d)
    elif op == 'copy':
      p[1 - cur] = AvailableToPlay(rolled=None, copy_src=p[cur])
    else:
      cur = 1 - cur
    facts = [[len(x), x.get_max(), bool(x.is_doubles()), [i in x for i in range(1, 7)], x.items()] for x in p]
    out.append([err, pool(p[0]), pool(p[1]), facts])
  return out


def move_ops(steps, undo):
  mv = Move()
  copies = []
  out = []
  for t, u in zip(steps, undo):
    mv.append(u and inv(t) or pm(t))
    frozen = True
    for c, was in copies:
      if pms(c) != was:
        frozen = False
    c = Move(src=mv)
    copies.append((c, pms(c)))
    if pms(c) != pms(mv):
      frozen = False
    # editing a copy leaves the original alone
    c2 = Move(src=mv)
    was = pms(mv)
    c2.append(PartialMove(1, 1, 0, False))
    if pms(mv) != was:
      frozen = False
    out.append([pms(mv), len(mv), frozen, str(mv)])
  return out


def play_unavailable(state, played, step):
  b = editor(state)
  mf = MoveFactory(b)
  for t in played:
    mf.append(pm(t))
  before = [dump(b), pms(mf.move), pool(mf.available)]
  err = None
  try:
    mf.append(pm(step))
  except Exception, e:
    err = e.__class__.__name__
  after = [dump(b), pms(mf.move), pool(mf.available)]
  mf2 = MoveFactory(BoardEditor(b), mf.move, mf.available)
  other = [pms(mf2.move), pool(mf2.available)]
  # and editing the copy leaves the original alone
  for t in after[1][-1:]:
    mf2.append(inv(t))
  if [dump(b), pms(mf.move), pool(mf.available)] != after:
    other = [[], []]  # the original changed: shown by losing its steps
  return [before, after, err, other]


def points(state, played):
  b = editor(state)
  mf = MoveFactory(b)
  for t in played:
    mf.append(pm(t))
  out = []
  for dest in range(24):
    before = dump(b), pms(mf.move), pool(mf.available)
    r = attempt(mf.guess_your_making_point, dest)
    out.append([dest, answer(r), (dump(b), pms(mf.move), pool(mf.available)) == before, True])
    other, mine = elsewhere(state['on_action']), mkpool(before[2])
    start = dump(other.board)
    r2 = attempt(other.guess_your_making_point, dest, position=b.position, available=mine)
    out[-1][3] = answer(r2)[0] == out[-1][1][0] and (answer(r2)[0] == 'no' or answer(r2) == out[-1][1]) and dump(b) == before[0] and \
                 pool(mine) == before[2] and dump(other.board) == start and pool(other.available) == [4, 6] and len(other.move) == 0
  return out


def board_values(a, b, edits):
  import copy
  x, y = Board(**a), Board(**b)
  r = {}
  r['dump_a'] = dump(x)
  r['cmp_board'] = (x == y, x != y, y == x, y != x)
  ex, ey = BoardEditor(x), BoardEditor(y)
  r['cmp_editor'] = (ex == ey, ex != ey, ey == ex, ey != ex)
  r['set_errors'] = []
  r['del_errors'] = []
  for k in FIELDS + ['something_else']:
    for how in (lambda: setattr(x, k, b.get(k)), lambda: setattr(x, k, a.get(k))):
      try:
        how()
        r['set_errors'].append(None)
      except Exception, e:
        r['set_errors'].append(e.__class__.__name__)
  for k in FIELDS:
    try:
      delattr(x, k)
      r['del_errors'].append(False)
    except Exception, e:
      r['del_errors'].append(True)
  x2 = x
  x = Board(**a)
  r['after_set'] = all(r['del_errors']) and dump(x2) or {}
  r['copy'] = dump(copy.copy(x))
  e1 = BoardEditor(x)
  e2 = BoardEditor(e1)
  for k, v in edits:
    setattr(e2, k, v)
  e3 = BoardEditor(e2)
  r['edited'] = dump(e2)
  f = e2.freeze()
  r['frozen'] = dump(f)
  for k in FIELDS:
    setattr(e3, k, a[k])
  r['origin'] = [dump(x), dump(e1), dump(e2)]
  r['kw'] = dump(BoardEditor(x, **dict(edits)))
  for k in FIELDS:
    setattr(e2, k, b[k])
  e2.flip
  e2.position = ((1,) * 25, (2,) * 25)
  r['frozen_later'] = dump(f)
  return r


def questions(b, mine):
  """Every rules question, named from the point of view of `mine`."""
  out = []
  yours = util.get_opp(mine)
  for n in range(-1, 24):
    out.append(['open %d' % n, attempt(b.is_open_to_land, n)])
    out.append(['hit %d' % n, attempt(b.is_hitting_to_land, n)])
  for n in range(25):
    out.append(['has %d' % n, attempt(b.has_chequer_to_move, n)])
    for d in range(1, 7):
      out.append(['off %d %d' % (n, d), attempt(b.is_ok_to_bearoff_from, n, d)])
  for d in range(1, 7):
    out.append(['find %d' % d, attempt(b.find_src_of_bearoff_with, d)])
  for name in ('is_leagal_to_roll', 'is_leagal_to_move', 'is_cube_take_or_pass', 'is_leagal_to_double',
               'is_leagal_to_redouble', 'is_leagal_to_resign', 'is_to_accept_resign'):
    for w, who in (('mine', mine), ('yours', yours)):
      out.append([name + ' ' + w, attempt(getattr(b, name), who)])
  out.append(['rolled', attempt(b.has_rolled)])
  if b.has_rolled():
    out.append(['doubles', attempt(b.is_doubles)])
  return out


def mirror(state):
  b = editor(state)
  qa = questions(b, 0)
  qf = questions(Board(**state), 0)
  if qa != qf:
    raise ValueError('a frozen board answers otherwise than its editor')
  b.flip()
  one = dump(b)
  qb = questions(b, 1)
  b.flip()
  return [one, dump(b), qa, qb]


def idle(state):
  b = editor(state)
  b.flip()
  one = dump(b)
  frozen = b.freeze()
  b.flip()
  return [one, dump(frozen), dump(b)]


ACTIONS = ('roll', 'move', 'double', 'beaver', 'decide', 'resign', 'answer')


def entitled(b):
  out = []
  for who in (0, 1):
    for name in ('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double', 'is_leagal_to_redouble',
                 'is_cube_take_or_pass', 'is_leagal_to_resign', 'is_to_accept_resign'):
      r = attempt(getattr(b, name), who)
      if isinstance(r, tuple):
        r = list(r)
      else:
        r = bool(r)
      out.append(r)
  return out


def turns(state, script):
  b = editor(state)
  out = [[None, dump(b), entitled(b)]]
  for cmd in script:
    op, args = cmd[0], cmd[1:]
    err = None
    try:
      if op == 'roll':
        b.rolled = args[0]
      else:
        getattr(b, op)(*args)
    except Exception, e:
      err = e.__class__.__name__
    out.append([err, dump(b), entitled(b)])
  return out


def notation():
  rng = range(-1, 25)
  return {'pos': [[util.position_ntop(n, w) for n in rng] for w in (0, 1)],
          'posback': [[util.position_pton(util.position_ntop(n, w), w) for n in rng] for w in (0, 1)],
          'move': [util.move_ntop(n) for n in rng],
          'moveback': [util.move_pton(util.move_ntop(n)) for n in rng],
          'flip': [util.flip_point(n) for n in range(24)],
          'opp': [util.get_opp(0), util.get_opp(1)]}


def outcome(f, *args):
  try:
    return ['ok', f(*args)]
  except Exception, e:
    return ['exc', e.__class__.__name__]


def from_text(t):
  return {'pos': [outcome(util.position_pton, t, w) for w in (0, 1)], 'move': outcome(util.move_pton, t)}


def from_number(n, who):
  return [outcome(util.move_ntop, n), outcome(util.position_ntop, n, who), outcome(util.get_opp, who)]


def move_text(steps):
  mv = Move()
  for t in steps:
    mv.append(pm(t))
  return [str(mv), [str(x) for x in mv]]


def saved_games(state, script):
  """A whole game: actions, plays and undos, saved and taken up again in between."""
  from bglib.encoding import gnubgid, dbbyte
  from bglib.image.base import ElementTree
  import ops_image

  def snap(g):
    b, mf = g
    over = None
    if mf is not None:
      over = attempt(mf.is_leagal_to_pickup_dice)
      over = isinstance(over, tuple) and list(over) or bool(over)
    return [dump(b), mf and pms(mf.move), mf and pool(mf.available), over, entitled(b)]

  def restore(g, kind):
    b, mf = g
    if kind == 'freeze':
      f = b.freeze()
      frozen.append((f, dump(f)))
      r = BoardEditor(f)
    elif kind == 'copy':
      r = BoardEditor(b)
    elif kind == 'gnubg':
      r = BoardEditor()
      gnubgid.decode(r, *gnubgid.encode(b))
    elif kind == 'db':
      r = BoardEditor(dbbyte.DatabaseBytesExpression(b.freeze()).tomodel())
    else:
      raise ValueError(kind)
    if mf is not None:
      mf = MoveFactory(r, move=mf.move, available=mf.available)
    return [r, mf]

  b = editor(state)
  g = [b, None]
  if state['rolled'] != (0, 0):
    g[1] = MoveFactory(b)
  games, frozen = [g], []
  out = [[None, snap(g)]]
  for cmd in script:
    op, args = cmd[0], cmd[1:]
    b, mf = g
    err = None
    try:
      if op == 'roll':
        b.rolled = args[0]
        g[1] = MoveFactory(b)
      elif op == 'play':
        mf.append(pm(args[0]))
      elif op == 'undo':
        mf.append(inv(args[0]))
      elif op == 'pickup':
        mf.pickupdice()
        g[1] = None
      elif op == 'save':
        g = restore(g, args[0])
        games.append(g)
      elif op == 'switch':
        g = games[args[0]]
      elif op == 'look':
        before = dump(b)
        err = ops_image.dump(ElementTree(b).board)
        if dump(b) != before:
          raise ValueError('drawing changed the board')
      else:
        getattr(b, op)(*args)
    except Exception, e:
      err = '%s: %s' % (e.__class__.__name__, e)
    out.append([err, snap(g)])
  return [out, [snap(x) for x in games], [dump(f) == was for f, was in frozen]]
