# -*- coding: us-ascii -*-
# Stand-in for the third-party package "tonic" (absent from this sandbox), as far as bglib uses it.
# Semantics taken from bglib's own tests and call sites.


class BitsArray(object):
  """A fixed number of bits; bit 0 is the least significant bit of the first byte (endian '<')."""
  def __init__(self, size, binary=None, endian='<', bits=None):
    assert endian == '<'
    self.size = size
    self.endian = endian
    if bits is not None:
      self._bits = list(bits)
    else:
      self._bits = [0] * size
      if binary is not None:
        for i in range(size):
          if i // 8 < len(binary):
            self._bits[i] = (ord(binary[i // 8]) >> (i % 8)) & 1
          else:
            raise IndexError('not enough bytes for %d bits' % size)

  def __getitem__(self, key):
    if isinstance(key, slice):
      b = self._bits[key]
      return BitsArray(len(b), bits=b)
    return self._bits[key]

  def __getslice__(self, i, j):
    b = self._bits[i:j]
    return BitsArray(len(b), bits=b)

  def __setitem__(self, key, value):
    self._bits[key] = int(bool(value))

  def __iter__(self):
    return iter(self._bits)

  def __len__(self):
    return self.size

  def __int__(self):
    n = 0
    for i, b in enumerate(self._bits):
      n |= b << i
    return n

  def __nonzero__(self):
    return int(self) != 0

  def set_shiftable(self, value, begin, end):
    value = int(value)
    if value < 0 or value >> (end - begin):
      raise ValueError('%d does not fit in %d bits' % (value, end - begin))
    for i in range(begin, end):
      self._bits[i] = (value >> (i - begin)) & 1

  @property
  def binary(self):
    out = []
    for i in range(0, self.size, 8):
      n = 0
      for j, b in enumerate(self._bits[i:i + 8]):
        n |= b << j
      out.append(chr(n))
    return ''.join(out)

  def __repr__(self):
    return "<BitsArray Instance '%s'>" % ':'.join(map(str, self._bits))
