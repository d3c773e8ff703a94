# -*- coding: us-ascii -*-
# Line parser as bglib.record.snowietxt uses it: the class has patterns _first and _last made of named groups; a line is
# matched from its start and handed to the method handle_<group> of the group that matched, if there is one.
import re


class LineParser(object):
  _first = ''
  _last = ''

  def parse(self, line):
    m = re.compile(self._first + '|' + self._last).match(line)
    if m is None:
      return
    for name, text in m.groupdict().items():
      if text is not None:
        handler = getattr(self, 'handle_' + name, None)
        if handler is not None:
          handler(text, m)
