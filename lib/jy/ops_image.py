# -*- coding: us-ascii -*-
import imp
import os
import bglib.image.base
import bglib.image.css
import bglib.image.draw
from bglib.image.base import Element, BaseElement, ElementTree
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
import ops_model

THEMES = os.path.join(os.path.dirname(os.path.abspath(bglib.image.__file__.replace('$py.class', '.py'))), 'resource')


def frozen(state, editor):
  return BoardEditor(Board(**state)) if editor else Board(**state)


def attrs(e):
  return sorted([(k, a.get()) for k, a in e.attributes.items()])


def dump(e):
  out = []
  for c in e.children:
    if isinstance(c, BaseElement):
      assert c.parent is e
      out.append(dump(c))
    else:
      out.append(c)
  return ['elem', e.name, attrs(e), out]


def nodes(tree):
  out = []
  given = []
  def callback(path, *args, **kw):
    assert path[0] is tree.board and path[0].parent is None
    for above, below in zip(path, path[1:]):
      assert below.parent is above and len([c for c in above.children if c is below]) == 1, 'not a path'
    given.append((args, kw))
    out.append(path[-1])
  tree.visit(callback, None, 'x', n=1)
  assert given == [(('x',), {'n': 1})] * len(out), 'arguments of the visitor %r' % given[:3]
  # every element once, parents first, in order
  def walk(e):
    yield e
    for c in e.children:
      if isinstance(c, BaseElement):
        for x in walk(c):
          yield x
  assert [id(x) for x in walk(tree.board)] == [id(x) for x in out], 'the elements visited are not those of the tree'
  # from an element on
  for e in out[1::7]:
    part = []
    way = [e]
    tree.visit(lambda path: part.append((len(path), path[-1])), way)
    assert [id(x) for n, x in part] == [id(x) for x in walk(e)] and part[0][0] == 1 and len(way) == 1, 'a visit from %s on' % e.name
  return out


def tree(state, editor):
  t = ElementTree(frozen(state, editor))
  return [dump(t.board), t.xml(), str(t)]


def decorated(state, settings):
  """settings: (index of a node, attribute, value)"""
  t = ElementTree(frozen(state, False))
  ns = nodes(t)
  for i, k, v in settings:
    e = ns[i % len(ns)]
    if k in e.DTD_ATTLIST:
      setattr(e, k, v)
  return [dump(t.board), t.xml()]


# ---- C18
def attempt(f, *args, **kw):
  try:
    return ['ok', f(*args, **kw)]
  except Exception, e:
    return ['exc', e.__class__.__name__, str(e)[:100]]


def look(es):
  ids = dict([(id(e), i) for i, e in enumerate(es)])
  out = []
  for e in es:
    out.append([e.name, ids.get(id(e.parent)) if e.parent is not None else None,
                [ids[id(c)] if isinstance(c, BaseElement) else c for c in e.children],
                attrs(e)])
  return out


def doctype():
  return Element.make_dtd()


def elements(cmds):
  """A program over elements: new/append/set/get; the outcome of each command, then a look at everything."""
  es, out = [], []
  for c in cmds:
    op = c[0]
    if op == 'new':
      r = attempt(Element, c[1], **dict(c[2]))
      if r[0] == 'ok':
        es.append(r[1])
        r = ['ok', None]
      else:
        es.append(Element(c[1]))
    elif op == 'append':
      x = c[2]
      r = attempt(es[c[1]].append, es[x[1]] if isinstance(x, tuple) and x[:1] == ('elem',) else x)
    elif op == 'set':
      r = attempt(setattr, es[c[1]], c[2], c[3])
    elif op == 'get':
      r = attempt(getattr, es[c[1]], c[2])
    elif op == 'style':
      r = attempt(es[c[1]].apply, '/themes/x.css', {c[2]: c[3]})
    out.append([r, look(es)])
  return out


# ---- C19
def styled(state, sheets, extras, how):
  """sheets: (path, text), applied in that order; extras: (index of a node or name of nodes, attribute or None for text, value)"""
  t = ElementTree(frozen(state, False))
  ns = nodes(t)
  for i, k, v in extras:
    for e in [x for x in ns if x.name == i] if isinstance(i, str) else [ns[i % len(ns)]]:
      if k is None:
        if e.DTD_ELEMENT is not None and '#PCDATA' in e.DTD_ELEMENT:
          e.append(v)
      elif k in e.DTD_ATTLIST:
        setattr(e, k, v)
  before = dump(t.board)
  try:
    for path, text in sheets:
      d = os.path.dirname(path)
      if not os.path.isdir(d):
        os.makedirs(d)
      f = open(path, 'w')
      try:
        f.write(text)
      finally:
        f.close()
      if how == 'load':
        bglib.image.css.load(path).apply(t)
      else:
        t.css(path)
  except Exception, e:
    return [before, 'exc', e.__class__.__name__, str(e)[:200]]
  return [before, 'ok', dump(t.board), [[x.name for x in nodes(t)], [list(x.css_lineno) for x in nodes(t)]]]


# ---- C20
ATT = ('x', 'y', 'width', 'height', 'image', 'flip', 'background', 'color', 'font', 'text', 'diestyle', 'eyesize',
       'initialCube', 'x_offset', 'y_offset', 'x_offset2', 'y_offset2', 'hide_count', 'max_count', 'fill', 'player', 'id', 'parity')


class Recorder(bglib.image.draw.Draw):
  def draw_element(self, path):
    e = path[-1]
    self.dc.append(['element', e.name, len(path), e.attributes.has_key('player') and e.player or None,
                    [c for c in e.children if isinstance(c, str)]])
    bglib.image.draw.Draw.draw_element(self, path)
  def draw_text(self, position, size, text, font_name, fill):
    self.dc.append(['text', tuple(position), tuple(size), text, font_name, fill])
  def draw_ellipse(self, position, size, fill=None):
    self.dc.append(['ellipse', tuple(position), tuple(size), fill])
  def draw_polygon(self, points, fill=None):
    self.dc.append(['polygon', [tuple(p) for p in points], fill])
  def draw_rect(self, position, size, fill=None):
    self.dc.append(['rect', tuple(position), tuple(size), fill])
  def paste_image(self, src, position, size):
    self.dc.append(['image', src, tuple(position), tuple(size)])
  def load_image(self, uri, size, flip):
    return (uri, tuple(size), flip)


def resolve(e):
  d = {}
  for k in ATT:
    if hasattr(e, k):
      d[k] = getattr(e, k)
  out = []
  for c in e.children:
    out.append(resolve(c) if isinstance(c, BaseElement) else c)
  return ['elem', e.name, sorted(d.items()), out]


CSS = {}


class Both(object):
  """A theme and further rules of a user."""
  def __init__(self, *sheets):
    self.sheets = sheets
  def apply(self, t):
    for s in self.sheets:
      s.apply(t)


def with_rules(name, text, path, op, *args):
  f = open(path, 'w')
  try:
    f.write(text)
  finally:
    f.close()
  key = '%s and %s' % (name, path)
  CSS[key] = Both(theme(name), bglib.image.css.load(path))
  try:
    return [plan(key, args[0]), op == 'pil' and pil(key, [args]) or drawing(key, *args)]
  finally:
    del CSS[key]


def theme(name):
  if name not in CSS:
    CSS[name] = bglib.image.css.load(os.path.join(THEMES, name, 'default.css'))
  return CSS[name]


def themes():
  return [THEMES, sorted([n for n in os.listdir(THEMES) if os.path.exists(os.path.join(THEMES, n, 'default.css'))])]


def rel(x):
  """Without the directory of the themes."""
  if isinstance(x, str):
    return x.replace(THEMES + '/', '')
  if isinstance(x, (tuple, list)):
    return type(x)([rel(y) for y in x])
  return x


def plan(name, state):
  """The styled tree, as resolved values."""
  t = ElementTree(frozen(state, False))
  theme(name).apply(t)
  return rel(resolve(t.board))


def drawing(name, state, size):
  return rel(Recorder(theme(name)).draw(frozen(state, False), size))


def drawings(name, jobs):
  d = Recorder(theme(name))
  return [rel(d.draw(frozen(s, False), size)) for s, size in jobs]


def plain(name, jobs):
  """The drawer of the package itself, one for all and a fresh one for each."""
  d = bglib.image.draw.Draw(theme(name))
  a = [d.draw(frozen(s, False), size) for s, size in jobs]
  b = [bglib.image.draw.Draw(theme(name)).draw(frozen(s, False), size) for s, size in jobs]
  return [rel(a), rel(b)]


MODULES = {}


def shipped(name):
  # the module lies beside a directory of the same name, which keeps Jython from importing it as usual
  if name not in MODULES:
    MODULES[name] = imp.load_source('vf_theme_' + name, os.path.join(THEMES, name + '.py'))
  return MODULES[name]


CROWDED = ((0,) * 24 + (12,),) * 2


def pil(name, jobs, spoil=False):
  """[drawn on one drawer], [drawn by fresh drawers], [drawn by the drawer which comes with a shipped theme]."""
  import bglib.image.PIL
  d = bglib.image.PIL.Draw(theme(name))
  ways = [lambda: d, lambda: bglib.image.PIL.Draw(theme(name))]
  if not isinstance(theme(name), Both):
    ways.append(lambda: shipped(name).draw)
  out = []
  for get in ways:
    for s, size in jobs:
      if spoil:
        # drawings which fail (or do not): no room at all, a picture which is missing
        attempt(get().draw, frozen(s, False), (0, 10))
        attempt(get().draw, frozen(dict(s, position=CROWDED), False), size)
      img = get().draw(frozen(s, False), size)
      out.append(rel([img.what, img.mode, img.size, img.ops]))
  return out


def files(names):
  return [os.path.exists(os.path.join(THEMES, n)) for n in names]
