# -*- coding: us-ascii -*-
# Runs under Jython 2.7 with /repo on the path: executes requests against the real code.
# One JSON request per line on stdin {"m": module, "f": function, "a": args};
# one JSON answer per line on the real stdout {"r": value} or {"x": [class, text, traceback]}.
# Strings travel as latin-1 "byte strings" (str); {"$u": text} asks for a unicode object.
import sys
import json
import traceback
import os

_real_out = sys.stdout


class Null(object):
  encoding = 'us-ascii'
  def write(self, s):
    pass
  def writelines(self, s):
    pass
  def flush(self):
    pass
  def isatty(self):
    return False

sys.stdout = Null()
if not os.environ.get('VF_WORKER_STDERR'):
  sys.stderr = Null()

import logging
logging.getLogger().addHandler(logging.StreamHandler(Null()))


def dec(x):
  if isinstance(x, unicode):
    return x.encode('latin-1')
  if isinstance(x, list):
    return [dec(i) for i in x]
  if isinstance(x, dict):
    if len(x) == 1:
      if '$u' in x:
        return x['$u']
      if '$t' in x:
        return tuple([dec(i) for i in x['$t']])
      if '$f' in x:
        return float(x['$f'])
    return dict([(dec(k), dec(v)) for k, v in x.items()])
  return x


def enc(x):
  # NB bool before int; longs are ints on the other side
  if x is None or isinstance(x, (bool, int, long)):
    return x
  if isinstance(x, float):
    return {'$f': repr(x)}
  if isinstance(x, unicode):
    return x
  if isinstance(x, str):
    return x.decode('latin-1')
  if isinstance(x, tuple):
    return {'$t': [enc(i) for i in x]}
  if isinstance(x, list):
    return [enc(i) for i in x]
  if isinstance(x, dict):
    return dict([(enc(k), enc(v)) for k, v in x.items()])
  return {'$o': [x.__class__.__name__, repr(x)[:500]]}


def main():
  mods = {}
  rd = sys.stdin
  while True:
    line = rd.readline()
    if not line:
      break
    req = json.loads(line)
    try:
      m = req['m']
      if m not in mods:
        try:
          mods[m] = __import__(m)
        except:
          _real_out.write(json.dumps({'h': traceback.format_exc().decode('latin-1')}) + '\n')
          _real_out.flush()
          continue
      f = getattr(mods[m], req['f'])
      args = [dec(a) for a in req['a']]
    except:
      _real_out.write(json.dumps({'h': traceback.format_exc().decode('latin-1')}) + '\n')
      _real_out.flush()
      continue
    try:
      r = {'r': enc(f(*args))}
    except KeyboardInterrupt:
      raise
    except:
      et, ev, tb = sys.exc_info()
      name = getattr(et, '__name__', str(et))
      try:
        text = str(ev)
      except:
        text = repr(ev)
      if isinstance(text, str):
        text = text.decode('latin-1')
      t = ''.join(traceback.format_exception(et, ev, tb)[-14:])
      if isinstance(t, str):
        t = t.decode('latin-1')
      r = {'x': [name, text[:2000], t[-3000:]]}
    _real_out.write(json.dumps(r) + '\n')
    _real_out.flush()

main()
