# -*- coding: us-ascii -*-
import imp
import os
import StringIO
s = imp.load_source('vf_snowietxt', os.path.join(os.environ['VF_REPO'], 'bglib', 'record', 'snowietxt.py'))


def attempt(f, *args):
  try:
    return ['ok', f(*args)]
  except ValueError, e:
    return ['ValueError', str(e)[:200]]
  except Exception, e:
    return ['exc', repr(e)[:300]]


def feed(lines):
  v = s.Validator()
  for l in lines:
    v.feed(l)
  return v.done().hexdigest()


def whole(text, limit):
  v = s.Validator(limit)
  return v.validate(StringIO.StringIO(text)).hexdigest()


def validate(text, limit):
  lines = text.splitlines(True)
  return [attempt(feed, lines), attempt(whole, text, None), attempt(whole, text, limit)]


def two(a, b):
  """Two validators fed in turns."""
  out = [None, None]
  vs = [s.Validator(), s.Validator()]
  ls = [a.splitlines(True), b.splitlines(True)]
  for i in range(max(len(ls[0]), len(ls[1]))):
    for k in (0, 1):
      if out[k] is None and i < len(ls[k]):
        r = attempt(vs[k].feed, ls[k][i])
        if r[0] != 'ok':
          out[k] = r
  for k in (0, 1):
    if out[k] is None:
      out[k] = ['ok', vs[k].done().hexdigest()]
  return out


def chop(text):
  r = attempt(lambda: list(s.chop(text)))
  if r[0] != 'ok':
    return [r, []]
  return [r, [validate(p, None)[0] for p in r[1]]]
