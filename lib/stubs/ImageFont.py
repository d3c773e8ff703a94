# Stand-in, see Image.py
import os


class Font(object):
  def __init__(self, path, size):
    self.path, self.size = path, size
  def getsize(self, text):
    return (len(text) * self.size * 3 // 5, self.size * 5 // 4)


def truetype(filename, size, index=0, encoding=''):
  path = filename
  if not os.path.exists(path):
    raise IOError('no file %s' % path)
  return Font(path, size)
