# Stand-in for the Python Imaging Library, absent here: pictures remember what they were made from and what was drawn on them.
import os
FLIP_TOP_BOTTOM = 1


class Picture(object):
  def __init__(self, what, mode, size):
    self.what, self.mode, self.size, self.ops = what, mode, tuple(size), []
  def transpose(self, how):
    return Picture(('flipped', self.what), self.mode, self.size)
  def resize(self, size, resample=0):
    return Picture(self.what, self.mode, tuple(size))
  def paste(self, im, box=None, mask=None):
    box = tuple(box or (0, 0))
    if len(box) == 2:
      box += (box[0] + im.size[0], box[1] + im.size[1])
    self.ops.append(['paste', im.what, im.size, box, mask is im])


def new(mode, size, color=0):
  return Picture('new', mode, size)


def open(path, mode='r'):
  if not os.path.exists(path):
    raise IOError('no file %s' % path)
  return Picture(path, path.endswith('.png') and 'RGBA' or 'RGB', (40, 30))
