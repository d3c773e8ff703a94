# -*- coding: us-ascii -*-
import os
import tempfile
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.encoding import dbbyte
import bglib.encoding
from ops_model import FIELDS, dump, editor, attempt


# ------------------------------------------------------------- dbbyte
def db_position(xs):
  s = dbbyte.encode_position(xs)
  return [s, dbbyte.decode_position(s)]


def db_decode(s):
  p = dbbyte.decode_position(s)
  return [p, dbbyte.encode_position(p)]


def db_board(state):
  b = Board(**state)
  d = dbbyte.DatabaseBytesExpression(b)
  raw = dict([(k, getattr(d, k)) for k in FIELDS])
  m = d.tomodel()
  errs = []
  for k in FIELDS:
    try:
      setattr(d, k, raw[k])
    except TypeError:
      pass
    else:
      errs.append(k)
  # one made of nothing is that of a new board
  new = dump(dbbyte.DatabaseBytesExpression().tomodel()) == dump(Board())
  return [raw, dump(m), m == b and new, errs, isinstance(m, Board)]


def db_distance(a, b):
  return [dbbyte.distance(a, b), dbbyte.distance(b, a), dbbyte.distance(a, a)]


# ------------------------------------------------------------- gnubgid
def gn_encode(state):
  from bglib.encoding import gnubgid
  b = Board(**state)
  pid, mid = gnubgid.encode(b)
  e = BoardEditor()
  gnubgid.decode(e, pid, mid)
  e2 = editor(state)
  pid2, mid2 = gnubgid.encode(e2)
  return [pid, mid, dump(e), [pid2, mid2], dump(b), dump(e2)]


def gn_position(xs):
  from bglib.encoding import gnubgid
  s = gnubgid.encode_position(xs)
  return [s, gnubgid.decode_position(s)]


def err(f, *args):
  """['ok', value] or ['enc', class] for the library's errors or ['exc', class, text]"""
  try:
    return ['ok', f(*args)]
  except bglib.encoding.EncodingError, e:
    return ['enc', e.__class__.__name__, str(e)[:100]]
  except Exception, e:
    return ['exc', e.__class__.__name__, str(e)[:100]]


def gn_decode(pid, mid):
  from bglib.encoding import gnubgid
  def both():
    e = BoardEditor()
    gnubgid.decode(e, pid, mid)
    return dump(e)
  def match():
    m = gnubgid.decode_match(mid)
    return dict([(k, getattr(m, k)) for k in m.index])
  return [err(gnubgid.decode_position, pid), err(match), err(both)]


# ------------------------------------------------------------- xgid
def xg_decode(text):
  from bglib.encoding import xgid
  def f():
    e = BoardEditor()
    xgid.decode(e, text)
    return dump(e)
  return err(f)


def xg_reuse(texts):
  """The same editor is used for every text."""
  from bglib.encoding import xgid
  e = BoardEditor()
  out = []
  for t in texts:
    xgid.decode(e, t)
    out.append(dump(e))
  return out


def gn_reuse(ids):
  from bglib.encoding import gnubgid
  e = BoardEditor()
  out = []
  for pid, mid in ids:
    gnubgid.decode(e, pid, mid)
    out.append(dump(e))
  return out


def gn_history(ops):
  """Encodings and decodings one after another, some of which fail half way."""
  from bglib.encoding import gnubgid
  out = []
  for op, arg in ops:
    if op == 'state':
      out.append(err(gnubgid.encode, Board(**arg)))
    elif op == 'torn':
      out.append(err(gnubgid.encode_position, arg))
    elif op == 'short':
      b = editor(arg[0])
      setattr(b, arg[1], arg[2])
      out.append(err(gnubgid.encode, b))
    elif op == 'text':
      out.append(gn_decode(arg[0], arg[1])[:2])
  return out


# ------------------------------------------------------------- FIBS
def fb_decode(line):
  from bglib.encoding import FIBS
  e = BoardEditor()
  FIBS.decode(e, line)
  return dump(e)


def fb_reuse(lines):
  """The same editor is used for every line."""
  from bglib.encoding import FIBS
  e = BoardEditor()
  out = []
  for l in lines:
    FIBS.decode(e, l)
    out.append(dump(e))
  return out


def fb_helper(name, text):
  from bglib.encoding import FIBS
  return getattr(FIBS, name)(text)


# ------------------------------------------------------------- bearoff
def bo_nori(pos):
  from bglib.encoding.bearoff import nori
  t = nori.oneside_upto6_t2k(pos)
  return [t, nori.oneside_upto6_k2t(t)]


def bo_index(kind, args):
  from bglib.encoding import bearoff
  from bglib.encoding.bearoff import gnubgdb, trice
  m = {'gnubg': gnubgdb, 'trice': trice, 'base': bearoff}
  k, f = kind.split('.')
  return getattr(m[k], f)(*args)


def homes(c, p):
  """Every placement of exactly c chequers on p points."""
  if p == 1:
    yield (c,)
    return
  for i in range(c + 1):
    for rest in homes(c - i, p - 1):
      yield (i,) + rest


def bo_nori_block(c):
  """Every home position of exactly c chequers: [(position, number)], those that do not convert back."""
  from bglib.encoding.bearoff import nori
  nums = []
  bad = []
  for t in homes(c, 6):
    n = nori.oneside_upto6_t2k(t)
    nums.append(n)
    try:
      b = nori.oneside_upto6_k2t(n)
    except Exception, e:
      b = repr(e)
    if b != t:
      bad.append((t, n, b))
  return [len(nums), sorted(set(nums)), bad[:3]]


def bo_gnubg_block(p, c):
  from bglib.encoding.bearoff import gnubgdb
  out = []
  for m in range(c + 1):
    for t in homes(m, p):
      out.append((t, gnubgdb.oneside_index(t, p, c)))
  return out


def bo_totals():
  from bglib.encoding import bearoff
  return [[bearoff.BackgammonCombination(m) for m in range(16)],
          [bearoff.BackgammonCombination_allC(m) for m in range(16)], bearoff.WTN]


def bo_D(n, m):
  from bglib.encoding import bearoff
  return [bearoff.D(n, m), bearoff.D(n, m - 1), bearoff.D(n - 1, m)]


def bo_sides(us, them):
  from bglib.encoding import bearoff
  from bglib.encoding.bearoff import gnubgdb
  return [[bearoff.backward(us), bearoff.backward(them)], [bearoff.count(us), bearoff.count(them)],
          list(gnubgdb.bearoff_param(us, them))]


def bo_read(kind, data, reads):
  """Reads records from a file holding the data; reads: list of (operation, index)."""
  from bglib.encoding import bearoff
  from bglib.encoding.bearoff import gnubgdb, nori, trice
  if kind in ('gnubgdb', 'nori', 'trice'):
    r = {'gnubgdb': gnubgdb, 'nori': nori, 'trice': trice}[kind].DBRreader()
  else:
    class R(bearoff.DBReader):
      datalen = int(kind)
    r = R()
  fd, path = tempfile.mkstemp()
  try:
    os.write(fd, data)
    os.close(fd)
    r.open(path)
    out = []
    for op, i in reads:
      try:
        out.append(['ok', getattr(r, op)(i)])
      except IndexError:
        out.append(['IndexError', None])
      except Exception, e:
        out.append(['exc', repr(e)])
    r.close()
  finally:
    os.unlink(path)
  return out


def bo_reopen(kind, files, visits):
  """One reader on several files one after another; visits: list of (file, list of indices). The files are lists of (place, record)
  and otherwise holes."""
  from bglib.encoding.bearoff import gnubgdb, nori, trice
  r = {'gnubgdb': gnubgdb, 'nori': nori, 'trice': trice}[kind].DBRreader()
  d = tempfile.mkdtemp()
  out = []
  try:
    try:
      for i, pieces in enumerate(files):
        f = open('%s/%d' % (d, i), 'wb')
        for place, rec in pieces:
          f.seek(place)
          f.write(rec)
        f.close()
    except EnvironmentError:
      return None # no such files on this file system
    for i, indices in visits:
      r.open('%s/%d' % (d, i))
      for k in indices:
        try:
          out.append(['ok', r.rawread(k)])
        except IndexError:
          out.append(['IndexError', None])
      r.close()
  finally:
    for i in range(len(files)):
      if os.path.exists('%s/%d' % (d, i)):
        os.unlink('%s/%d' % (d, i))
    os.rmdir(d)
  return out


def bo_hre(t):
  from bglib.encoding.bearoff import trice
  return trice.human_readable_eq(t)


def fb_move(text, who):
  from bglib.encoding import FIBS
  from ops_model import pms
  return pms(FIBS.get_move(text, who))


def fb_follow(lines, names):
  """A client: the first board, then what the messages say. Per line its kind, the board followed and the one a board line shows."""
  from bglib.encoding import FIBS
  from bglib.protocol.fibs import CookieMonster
  from bglib.model.constants import YOU, HIM, FINISHED
  from bglib.model.move import Move, PartialMove
  m = CookieMonster()
  for l in ('3', '4'):
    m.make_cookie(l)
  e, out = None, []
  def player(name):
    return YOU if name in ('You', names[0]) else HIM
  for l in lines:
    kind = shown = None
    if not isinstance(l, (str, unicode)):
      mv = Move()
      for t in l:
        mv.append(PartialMove(*t))
      e.make(mv)
      e.pickupdice()
      out.append([kind, dump(e), shown])
      continue
    kind = m.make_cookie(l)
    if kind == 'FIBS_Board':
      b = BoardEditor()
      FIBS.decode(b, l)
      shown = dump(b)
      if e is None:
        e = b
    elif kind in ('FIBS_YouRoll', 'FIBS_PlayerRolls'):
      assert e.on_action == player(FIBS.get_name(l)), 'who rolls?'
      e.rolled = FIBS.get_dice(l)
    elif kind == 'FIBS_PlayerMoves':
      e.make(FIBS.get_move(l, player(FIBS.get_name(l))))
      e.pickupdice()
    elif kind == 'FIBS_CantMove':
      e.pickupdice()
    elif kind in ('FIBS_Doubles', 'FIBS_AcceptRejectDouble', 'FIBS_YouDouble'):
      e.double(player(FIBS.get_name(l)))
    elif kind == 'FIBS_YouAcceptDouble':
      e.take(YOU)
    elif kind == 'FIBS_PlayerAcceptsDouble':
      e.take(player(FIBS.get_taker_name(l)))
    elif kind in ('FIBS_ResignYouWin', 'FIBS_ResignWins', 'FIBS_YouGiveUp'):
      before = e.score
      e.drop(player(FIBS.get_name(l)))
      assert sum(e.score) - sum(before) == FIBS.get_score(l), 'points'
    elif kind in ('FIBS_PlayerWantsToResign', 'FIBS_WatchResign', 'FIBS_YouResign'):
      e.offer_resign(player(FIBS.get_name(l)), FIBS.get_resign_score(l) // 2 ** e.cube_in_logarithm)
    elif kind in ('FIBS_ResignRefused', 'FIBS_YouReject'):
      e.reject_resign(player(FIBS.get_name(l)))
    elif kind in ('FIBS_AcceptWins', 'FIBS_YouAcceptAndWin'):
      before = e.score
      e.accept_resign(player(FIBS.get_name(l)))
      assert sum(e.score) - sum(before) == FIBS.get_score(l), 'points'
    elif kind in ('FIBS_PlayerWinsGame', 'FIBS_YouWinGame'):
      sc = list(e.score)
      sc[player(FIBS.get_name(l))] += FIBS.get_score(l)
      e.score = tuple(sc)
      e.game_state = FINISHED
    out.append([kind, dump(e), shown])
  return out
