# -*- coding: us-ascii -*-
import socket
import threading
import time
from bglib.protocol import fibs, session


def kinds(histories):
  out = []
  for h in histories:
    m = fibs.CookieMonster()
    out.append([m.make_cookie(l) for l in h])
  return out


def interleaved(schedule):
  # [session, line]: a session starts with its first line
  ms = {}
  out = []
  for i, l in schedule:
    if i not in ms:
      ms[i] = fibs.CookieMonster()
    out.append(ms[i].make_cookie(l))
  return out


class Recorder(session.Subscriber):
  def __init__(self, world, nth, kinds, deeds):
    session.Subscriber.__init__(self)
    self.world = world
    self.nth = nth
    self.kinds = kinds
    self.deeds = deeds
    self.events = []

  def __getattr__(self, name):
    if not (name.startswith('FIBS_') or name.startswith('CLIP_') or name in ('EOFError', 'socket_error')):
      raise AttributeError(name)
    if self.kinds is not None and name not in self.kinds:
      raise AttributeError(name)
    return lambda got: self.handle(name, got)

  def handle(self, name, got):
    text = got
    if name in ('EOFError', 'socket_error'):
      text = None
    self.events.append([self.world.count, name, text])
    if self.nth == 0:
      self.world.saw()
    n = len(self.events) - 1
    for deed in self.deeds:
      if deed[0] == n:
        self.world.do(deed[1:])


class World(object):
  def __init__(self, defs):
    self.count = 0
    self.cond = threading.Condition()
    self.lost = False
    self.session = session.Session()
    self.members = [Recorder(self, i, d[0], d[1]) for i, d in enumerate(defs)]
    self.trouble = []

  def saw(self):
    # called by the recorder registered first, for every message
    self.cond.acquire()
    self.count += 1
    self.cond.notifyAll()
    self.cond.release()

  def wait(self, n, limit=20.0):
    end = time.time() + limit
    self.cond.acquire()
    try:
      while self.count < n and time.time() < end:
        self.cond.wait(0.5)
      return self.count >= n
    finally:
      self.cond.release()

  def do(self, deed):
    what = deed[0]
    if what == 'reg':
      self.session.register(*[self.members[i] for i in deed[1]])
    elif what == 'unreg':
      self.session.unregister(*[self.members[i] for i in deed[1]])
    elif what == 'line':
      self.session.send_line(deed[1])


def play(defs, steps):
  w = World(defs)
  listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
  listener.bind(('127.0.0.1', 0))
  listener.listen(1)
  port = listener.getsockname()[1]
  heard = []
  conn = None
  waits = []
  try:
    w.session.register(w.members[0])
    active = [w.session.is_active()]
    w.session.open('127.0.0.1', port)
    conn, addr = listener.accept()
    conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    active.append(w.session.is_active())

    def hear():
      try:
        while True:
          d = conn.recv(4096)
          if not d:
            break
          heard.append(d)
      except:
        pass
    t = threading.Thread(target=hear)
    t.setDaemon(True)
    t.start()
    for step in steps:
      what = step[0]
      if what == 'send':
        for piece in step[1]:
          conn.sendall(piece)
          time.sleep(0.002)
      elif what == 'wait':
        waits.append([step[1], w.wait(step[1])])
        if not waits[-1][1]:
          break
      elif what == 'lost':
        end = time.time() + 20
        while time.time() < end:
          if w.members[0].events and w.members[0].events[-1][1] in ('EOFError', 'socket_error'):
            break
          time.sleep(0.001)
        time.sleep(0.005)
      elif what == 'burst':
        def run(ls):
          for l in ls:
            w.session.send_line(l)
        ts = [threading.Thread(target=run, args=(ls,)) for ls in step[1]]
        for x in ts:
          x.start()
        for x in ts:
          x.join()
      elif what == 'close':
        conn.close()
      elif what == 'heard':
        end = time.time() + 20
        while sum([len(d) for d in heard]) < step[1] and time.time() < end:
          time.sleep(0.002)
      elif what == 'cclose':
        w.session.close()
      elif what == 'trysend':
        try:
          for piece in step[1]:
            conn.sendall(piece)
        except socket.error:
          pass
      elif what == 'sleep':
        time.sleep(step[1])
      else:
        w.do(step)
    time.sleep(0.005)
    active.append(w.session.is_active())
    return [[list(m.events) for m in w.members], ''.join(heard), waits, active]
  finally:
    try:
      if conn is not None:
        conn.close()
    except:
      pass
    listener.close()
    try:
      w.session.close()
    except:
      pass


class Turns(session.Subscriber):
  """A subscriber whose handlers run in a fixed order with those of another session."""
  def __init__(self, shared, me, order):
    session.Subscriber.__init__(self)
    self.shared = shared
    self.order = [i for i, w in enumerate(order) if w == me]
    self.events = []
    self.stuck = None

  def __getattr__(self, name):
    if not (name.startswith('FIBS_') or name.startswith('CLIP_')):
      raise AttributeError(name)
    return lambda got: self.handle(name, got)

  def handle(self, name, got):
    n = len(self.events)
    self.events.append([name, got])
    s = self.shared
    s.cond.acquire()
    try:
      if n < len(self.order) and not s.stuck:
        end = time.time() + 8
        while s.turn < self.order[n] and time.time() < end:
          s.cond.wait(0.25)
        if s.turn < self.order[n]:
          s.stuck = [n, name, got]
      s.turn += 1
      s.cond.notifyAll()
    finally:
      s.cond.release()


class Shared(object):
  def __init__(self):
    self.cond = threading.Condition()
    self.turn = 0
    self.stuck = None


def pair(texts, order, answers):
  """Two sessions at a time; the handlers run in the given order, each session answers on its own connection."""
  shared = Shared()
  ends = []
  try:
    for i in (0, 1):
      listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
      listener.bind(('127.0.0.1', 0))
      listener.listen(1)
      s = session.Session()
      r = Turns(shared, i, order)
      e = [listener, s, r, None]
      ends.append(e)
      s.register(r)
      s.open('127.0.0.1', listener.getsockname()[1])
      e[3], addr = listener.accept()
    for i in (0, 1):
      ends[i][3].sendall(texts[i])
    end = time.time() + 20
    while time.time() < end and not shared.stuck and shared.turn < len(order):
      time.sleep(0.002)
    heard = []
    if not shared.stuck:
      for i in (0, 1):
        ends[i][1].send_line(answers[i])
      for i in (0, 1):
        d = ''
        ends[i][3].settimeout(20)
        while len(d) < len(answers[i]) + 2:
          x = ends[i][3].recv(4096)
          if not x:
            break
          d += x
        heard.append(d)
      time.sleep(0.005)
    return [[e[2].events for e in ends], shared.stuck, heard]
  finally:
    for listener, s, r, conn in ends:
      try:
        if conn is not None:
          conn.close()
      except:
        pass
      listener.close()
      try:
        s.close()
      except:
        pass
