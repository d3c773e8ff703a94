# Stand-in, see Image.py; the signatures are those of the library


def flat(xy):
  """a box or a list of points may be given as pairs or as plain numbers"""
  out = []
  for p in xy:
    if isinstance(p, (tuple, list)):
      out.extend(p)
    else:
      out.append(p)
  return out


def pairs(xy):
  xy = flat(xy)
  return [tuple(xy[i:i + 2]) for i in range(0, len(xy), 2)]


class Draw(object):
  def __init__(self, im, mode=None):
    self.img = im
  def text(self, xy, text, fill=None, font=None, anchor=None):
    self.img.ops.append(['text', tuple(xy), text, font.path, font.size, fill])
  def ellipse(self, xy, fill=None, outline=None):
    self.img.ops.append(['ellipse', tuple(flat(xy)), fill])
  def polygon(self, xy, fill=None, outline=None):
    self.img.ops.append(['polygon', pairs(xy), fill])
  def rectangle(self, xy, fill=None, outline=None):
    self.img.ops.append(['rectangle', pairs(xy), fill])
