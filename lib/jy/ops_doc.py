# -*- coding: us-ascii -*-
import xml.parsers.expat
import bglib.doc.bgwiki
import bglib.doc.doctree
import bglib.doc.html
import bglib.doc.macro
import bglib.doc.mkdn
import bglib.doc.mock
from bglib.doc.bgwiki import Formatter


class Db(object):
  def __init__(self, data):
    self.data = data
  def get_analysis(self, pid, mid):
    r = self.data[(pid, mid)]
    return 'CubelessEquity' == r[0].get('name', ''), r

bglib.doc.macro.setup(bglib.doc.mock.DataBaseMock())


def wiki(text, path='/wiki/', db=None):
  """The page of a text."""
  if db is not None:
    bglib.doc.macro.setup(Db(dict([(tuple(k), v) for k, v in db])))
  else:
    bglib.doc.macro.setup(bglib.doc.mock.DataBaseMock())
  f = Formatter(None, path)
  f.parse(text)
  return f.make_html()


def dispatch(name, args):
  """What a macro called by a program writes."""
  bglib.doc.macro.setup(Db({}))
  root = bglib.doc.doctree.BgWikiElementRoot()
  e = bglib.doc.doctree.Editor()
  e.start(root)
  bglib.doc.macro.dispatch(e, name, args)
  e.done()
  w = bglib.doc.doctree.HtmlWriter()
  root.accept(w)
  return w.html()


def pieces(parts, path='/wiki/'):
  """One formatter fed several texts."""
  f = Formatter(None, path)
  for p in parts:
    f.parse(p)
  return f.make_html()


def twice(text, others):
  """The text's page before, among and after other work."""
  a = wiki(text)
  f = Formatter(None, '/wiki/')
  g = Formatter(None, '/wiki/')
  for i in range(max(len(text.splitlines(True)), len(others))):
    if i < len(others):
      g.parse(others[i])
    if i < len(text.splitlines(True)):
      f.parse(text.splitlines(True)[i])
  try:
    g.make_html()
  except Exception:
    pass
  b = f.make_html()
  for o in others:
    wiki(o)
  return [a, b, wiki(text), f.make_html()]


# ---- html helpers

def escape(s):
  return bglib.doc.html.escape(s)


def valid(fragment):
  try:
    bglib.doc.html.validate(fragment)
  except xml.parsers.expat.ExpatError:
    return False
  return True


def differences(a, b):
  return [len(bglib.doc.html.cmp_tuple(a, b)), len(bglib.doc.html.cmp_tuple(b, a))]


def report(a, b):
  return [repr(bglib.doc.html.cmp_tuple(a, b)), repr(bglib.doc.html.cmp_tuple(b, a))]


# ---- the other formatters

def alone(kind, parts):
  if kind == 'rst':
    f = bglib.doc.rst.Formatter()
  elif kind == 'mkdn':

    f = bglib.doc.mkdn.Formatter()
  elif kind == 'preformat':
    f = bglib.doc.bgwiki.PreformatFormatter()
  else:
    raise ValueError(kind)
  for p in parts:
    f.parse(p)
  return [f.make_html(), f.make_html()]


def rst_body(text, options):
  """html_body as asked for, and as bytes in some encodings"""
  f = bglib.doc.rst.Formatter()
  plain = f.html_body(text, **options)
  r = [plain, isinstance(plain, unicode)]
  for enc in ('utf-8', 'us-ascii', 'latin-1', 'utf-16-le'):
    try:
      want = plain.encode(enc)
    except UnicodeError:
      continue
    o = dict(options)
    o['output_encoding'] = enc
    r.append([enc, f.html_body(text, **o) == want])
  # given as bytes
  o = dict(options)
  o['input_encoding'] = 'utf-8'
  r.append(['input', f.html_body(text.encode('utf-8'), **o) == plain])
  parts = f.html_parts(text, **options)
  r.append(['parts', parts['html_body'] == plain])
  return r


# ---- tree editing

import inspect
_KINDS = dict((n, k) for n, k in vars(bglib.doc.doctree).items() if inspect.isclass(k) and issubclass(k, bglib.doc.doctree.Node))
_LIST = dict(star=None, ordered_numeric=None, ordered_roman=None, ordered_alpha=None, sign=None)


def _attrs(kind, n):
  if kind == 'ListElement':
    d = dict(_LIST)
    k = [None, 'star', 'ordered_numeric', 'ordered_roman', 'ordered_alpha', 'sign'][n % 6]
    if k:
      d[k] = 'x'
    return d
  if kind == 'ItemizeElement':
    return dict(style=None) if n % 2 else dict(style={'+': 'class="plus"'}, plus=['+', None, '++'][n % 3], minus=None)
  if kind == 'Text':
    return {'text': 't%d' % n}
  if n == 5 and kind != 'Node':
    return {'title': 'a"b<c>&' * 12, 'alt': '"' * 40, 'id': '<' * 20}
  return [{}, {'class': 'c%d' % n}, {'title': 'a"b<c>&%d' % n, 'id': 'i'}][n % 3] if kind not in ('Node',) else {}


def matrix(kinds):
  """Which element kind accepts which."""
  r = []
  root = bglib.doc.doctree.BgWikiElementRoot()
  for p in kinds:
    row = []
    for c in kinds:
      row.append(bool(_KINDS[p](root).is_acceptable(_KINDS[c](root))))
    r.append(row)
  return r


def bases(kinds):
  return [[issubclass(_KINDS[a], _KINDS[b]) for b in kinds] for a in kinds]


class _Events(bglib.doc.doctree.Visitor):
  def __init__(self, ids):
    self.ids = ids
    self.log = []
  def enter(self, node):
    self.log.append([1, self.ids[id(node)]])
  def leave(self, node):
    self.log.append([0, self.ids[id(node)]])


def edit(ops):
  """Runs a history; after each step the cursor, at the end the whole tree and what visitors saw."""
  t = bglib.doc.doctree
  root = t.BgWikiElementRoot()
  e = t.Editor()
  e.start(root)
  ids = {id(root): 0}
  keep = [root]
  def number(n):
    if id(n) not in ids:
      ids[id(n)] = len(keep)
      keep.append(n)
    return ids[id(n)]
  steps = []
  for op in ops:
    r = None
    if op[0] == 'enter':
      n = e.enter(_KINDS[op[1]], **_attrs(op[1], op[2]))
      r = number(n)
    elif op[0] == 'append':
      n = e.append(_KINDS[op[1]], **_attrs(op[1], op[2]))
      r = number(n)
    elif op[0] == 'leave':
      e.leave(tuple(_KINDS[k] for k in op[1]))
    elif op[0] == 'text':
      e.append_text(op[1])
      for c in e.current.children:
        number(c)
    elif op[0] == 'remove':
      c = e.current.children
      if c:
        r = number(c[op[1] % len(c)])
        e.remove(c[op[1] % len(c)])
    elif op[0] == 'done':
      assert e.done() is root
    elif op[0] == 'ancestor':
      n = e.ancestor(tuple(_KINDS[k] for k in op[1]))
      r = None if n is None else number(n)
    elif op[0] == 'count':
      r = e.count_nesting(*[_KINDS[k] for k in op[1]])
    else:
      raise ValueError(op)
    steps.append([r, number(e.current)])
  nodes = []
  todo = [root]
  seen = set()
  while todo:
    n = todo.pop()
    if id(n) in seen:
      nodes.append(['twice', number(n)])
      continue
    seen.add(id(n))
    nodes.append([number(n), n.__class__.__name__, None if n.parent is None else number(n.parent), [number(c) for c in n.children],
                  getattr(n, 'text', None)])
    todo.extend(n.children)
  ev = _Events(ids)
  root.accept(ev)
  w = t.HtmlWriter()
  root.accept(w)
  e.done()
  w2 = t.HtmlWriter()
  e.accept(w2)
  return dict(steps=steps, nodes=sorted(nodes), events=ev.log, html=w.html(), again=w2.html(), tags=[[n.open(), n.close()] for n in keep])


def timestamp(text):
  import datetime
  a = datetime.datetime.now().isoformat()
  h = wiki(text)
  return [a, h, datetime.datetime.now().isoformat()]
