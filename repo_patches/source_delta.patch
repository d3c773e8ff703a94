From 8ba9d754205f68a4bd373b2043f0e42bb9f864e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 01/59] fix: playing a die that is not available raises
 ValueError and records nothing

---
 bglib/model/move.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..2aaabf4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -52,7 +52,7 @@ class AvailableToPlay(object):
       assert self[die] > 0
       self[die] -= 1
     else:
-      raise
+      raise ValueError('die %s is not available'%(die,))
 
   def add(self, die):
     assert(die in [1, 2, 3, 4, 5, 6])
@@ -188,11 +188,11 @@ class MoveFactory(object):
 
   def append(self, pm):
     assert(isinstance(pm, PartialMove))
-    self.move.append(pm)
     if pm.is_undo():
       self.available.add(pm.die)
     else:
       self.available.consume(pm.die)
+    self.move.append(pm)
     self.board.make_partial_move(pm)
 
   def add(self, mv):
-- 
2.43.0


From b7ed899fc564c8d15c0236cabc32bd46b077f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 02/59] fix: a MoveFactory given an exhausted dice pool keeps
 it instead of the whole roll

---
 bglib/model/move.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 2aaabf4..3500941 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -172,12 +172,12 @@ class MoveFactory(object):
     #if not isinstance(b, board):
     #  raise TypeError('expected bglib.model.board.board but got %s'%type(b))
     self.board = b
-    if move:
+    if move is not None:
       assert isinstance(move, Move)
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0


From 3b99dfd59c8795449dafeb06ee9910544afb931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 03/59] fix: a chequer on the ace point can be borne off with a
 larger die

---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..e4c1e5e 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die - 1, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From 0dad51311393639a6dd0dd97d3744cad40c6be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 04/59] fix: asking for a chequer to bear off leaves the
 caller's dice alone

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 3500941..4cdee25 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -327,6 +327,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From cca4e0d780796eba117ff3648454747c2d916f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/59] fix: asking for a step into a far point no longer
 raises IndexError

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 4cdee25..a1c3e6a 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -332,7 +332,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From 4abf21d10d83ea99f26d1fc9ab1b15048c2248e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 06/59] fix: asking how to take back a move does not take it
 back on the board

---
 bglib/model/move.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index a1c3e6a..f7c13dd 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -415,8 +415,6 @@ class MoveFactory(object):
       if inverse.dest == dest:
         return mv
       elif inverse.dest < dest:
-        b.make_partial_move(inverse)
-        available.add(inverse.die)
         return self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
       else:
         assert(inverse.dest > dest)
-- 
2.43.0


From bfcaf6c752a408e15a70311ce15f88dbd6aa45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 07/59] fix: a multi-step suggestion tries the other die when a
 chain leads nowhere

---
 bglib/model/move.py | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index f7c13dd..970d964 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -367,35 +367,35 @@ class MoveFactory(object):
     assert isinstance(available, AvailableToPlay)
     assert isinstance(mv, Move)
 
-    pm = self.guess_your_single_pm_from_source(src, b, available)
+    untried = AvailableToPlay(rolled=None, copy_src=available)
+    pm = self.guess_your_single_pm_from_source(src, b, untried)
     print pm
-    if not pm:
-      return pm 
-
-    assert pm.src == src
-    if pm.dest == dest:
-      mv.append(pm)
-      return mv
-    elif pm.dest > dest:
-      # need to go further
-      mv.append(pm)
-      available.consume(pm.die)
-      b.make_partial_move(pm)
-      mv = self.guess_your_multiple_pms(pm.dest, dest, b, available, mv)
-      rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
-      b.make_partial_move(rewind)
-      return mv
-    else:
-      # over run
-      print 'over run'
-      assert pm.dest < dest
-      available.consume(pm.die)
+    while pm:
+      assert pm.src == src
+      if pm.dest == dest:
+        mv.append(pm)
+        return mv
+      elif pm.dest > dest:
+        # need to go further
+        rest = AvailableToPlay(rolled=None, copy_src=available)
+        rest.consume(pm.die)
+        b.make_partial_move(pm)
+        found = self.guess_your_multiple_pms(pm.dest, dest, b, rest)
+        rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
+        b.make_partial_move(rewind)
+        if found:
+          mv.append(pm)
+          mv.add(found)
+          return mv
+      else:
+        # over run
+        print 'over run'
+        assert pm.dest < dest
       # retry with other die
-      mv = self.guess_your_multiple_pms(src, dest, b, available, mv)
-      #rewind = PartialMove(die=pm.die, src=src, dest=pm.dest, is_hitting=pm.is_hitting)
-      #b.make_partial_move(rewind)
-      return mv
-    assert False
+      while pm.die in untried:
+        untried.consume(pm.die)
+      pm = self.guess_your_single_pm_from_source(src, b, untried)
+    return pm
 
   def guess_your_multiple_partial_undoes(self, src, dest, b=None, available=None, mv=None):
     if b is None:
-- 
2.43.0


From 74bc103987b26fd39a815836a46a55e79adb5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 08/59] fix: making a point is suggested with the dice left and
 without moving on the board

---
 bglib/model/move.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 970d964..9b267ef 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -8,6 +8,7 @@
 from bglib.model.constants import *
 from bglib.model import util
 from bglib.model import *
+from bglib.model.boardeditor import BoardEditor
 
 
 class AvailableToPlay(object):
@@ -424,20 +425,22 @@ class MoveFactory(object):
                 (util.move_ntop(src), util.move_ntop(dest)))
 
   def guess_your_making_point(self, dest, position=None, available=None, pms=None):
-    b = self.board
+    b = BoardEditor(self.board)
     if available is None:
-      available = AvailableToPlay(self.board.rolled)
-    if position is None:
-      position = self.board.position
+      available = self.available
+    available = AvailableToPlay(rolled=None, copy_src=available)
+    if position is not None:
+      b.position = position
     if pms is None:
       pms = []
 
-    pm = self.guess_your_single_pm_from_dest(dest)
+    pm = self.guess_your_single_pm_from_dest(dest, b=b, available=available)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
+      available.consume(pm.die)
+      b.make_partial_move(pm)
       pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
+                dest, b=b,
                 available=available)
       if pm:
         pms.append(pm)
-- 
2.43.0


From 1493385ea14752d1d4989d3b0f97f1d011369104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 09/59] fix: the end of the turn is decided by the rules and
 asking leaves the board alone

---
 bglib/model/move.py | 91 ++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 47 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 9b267ef..238c0c4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -205,57 +205,54 @@ class MoveFactory(object):
     assert self.board.rolled != (0, 0)
     if not self.available:
       return True
-    bar = util.move_pton('bar')
-    if self.board.has_chequer_to_move(bar):
-      if not self.guess_your_single_pm_from_source(bar):
-        return True #dance
-
-    for pt in POINTS:
-      if self.board.has_chequer_to_move(pt):
-        if self.guess_your_single_pm_from_source(pt):
-          return False
-          #if self.board.rolled[0] == self.board.rolled[1]:
-          #  print 'can move checker from', util.move_ntop(pt);
-
+    if self._max_playable(self.board, self.available) > 0:
+      return False
     if self.board.is_doubles():
+      # the order of play makes no difference
       return True
-            
-    #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
-    inverses  = []
-    for pm in mf.move:
-      inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-    for i in inverses:
-      mf.append(i)
-
-    assert len(mf.move) == 0
-
-    # No need to check doubles.
-    # care only about small-big use.
-    # thus ...
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        for dst in range(0, src):
-          if mf.board.is_open_to_land(dst) or mf.board.is_hitting_to_land(dst):
-            pms = mf.guess_your_multiple_pms(src, dst)
-            if pms and len(pms) == 2:
-              # all dice are used.
-              # that means there is way to use all dice.
-              return False
-    # There is no way to use both dice
-    # Make sure use big one
-    # thus ... 
-    if self.available.get_max() != mf.available.get_max():
-      return True #max is used.
-
-    die = mf.available.get_max()
-    for src in POINTS:
-      if mf.board.has_chequer_to_move(src):
-        pm = mf.guess_your_single_pm_from_source(src, available=AvailableToPlay(rolled=(die, 0)))
-        if pm:
-          return False # There is way to use big one.
+
+    #rewind all moves on a copy and see what could have been played.
+    b = BoardEditor(self.board)
+    available = AvailableToPlay(rolled=None, copy_src=self.available)
+    for pm in reversed(list(self.move)):
+      b.make_partial_move(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
+      available.add(pm.die)
+    most = self._max_playable(b, available)
+    if len(self.move) < most:
+      return False
+    if most == 1:
+      # There is no way to use both dice
+      # Make sure use big one
+      big = available.get_max()
+      if big in self.available and list(self._playable(b, big)):
+        return False # There is way to use big one.
     return True
 
+  def _playable(self, b, die):
+    ''' every partial move which is leagal on b with the die. '''
+    available = AvailableToPlay((0, 0))
+    available.add(die)
+    for src in range(BAR, OFF, -1):
+      pm = self.guess_your_single_pm_from_source(src, b, available)
+      if pm:
+        yield pm
+
+  def _max_playable(self, b, available):
+    ''' how many of the dice can be played on b at most. '''
+    most = 0
+    for die, count in available.items():
+      if count == 0:
+        continue
+      rest = AvailableToPlay(rolled=None, copy_src=available)
+      rest.consume(die)
+      for pm in self._playable(b, die):
+        after = BoardEditor(b)
+        after.make_partial_move(pm)
+        most = max(most, 1 + self._max_playable(after, rest))
+        if most == len(available) or available.is_doubles():
+          return most
+    return most
+
   def guess_your_single_pm_from_source(self, src, b=None, available=None):
     '''
     returns
-- 
2.43.0


From eca04f9244416920142bd567e460e0ea043b0fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 10/59] fix: doubling needs access to a cube which is not dead,
 and asking never raises

---
 bglib/model/board.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index e4c1e5e..5adde5a 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -147,11 +147,13 @@ class AbstractBoard(object):
     return None# no chequer on board!
 
   def is_leagal_to_double(self, who):
-    assert self.rolled == (0, 0)
-    assert self.game_state == ON_GOING
     your_score, his_score = self.score
     if self.game_state != ON_GOING:
       return False
+    if self.has_rolled():
+      return False
+    if self.cube_owner not in (CENTER, who):
+      return False
     if self.crawford:
       return False
     if self.doubled:
@@ -162,7 +164,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From b732673ce2388112db3cc261e6afec73ebb38084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 11/59] fix: nothing can be accepted, dropped or resigned when
 the game is over

---
 bglib/model/board.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 5adde5a..e060dfd 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -129,7 +129,8 @@ class AbstractBoard(object):
     return self.rolled[0] == self.rolled[1]
 
   def is_cube_take_or_pass(self, who):
-    return self.doubled and self.on_inner_action != self.on_action and \
+    return self.game_state == ON_GOING and \
+      self.doubled and self.on_inner_action != self.on_action and \
       self.on_inner_action == who
   
   def find_src_of_bearoff_with(self, die):
@@ -184,10 +185,12 @@ class AbstractBoard(object):
            self.match_length == MONEY_GAME 
 
   def is_leagal_to_resign(self, who):
-    return self.on_action == who and self.on_inner_action == who
+    return self.game_state == ON_GOING and \
+      self.on_action == who and self.on_inner_action == who
 
   def is_to_accept_resign(self, who):
-    return self.resign_offer in (RESIGN_SINGLE, 
+    return self.game_state == ON_GOING and \
+           self.resign_offer in (RESIGN_SINGLE, 
                                  RESIGN_GAMMON,
                                  RESIGN_BACKGAMMON
                                  ) \
-- 
2.43.0


From a219fbfa8ec7ee18c783ebf8be315c5f809ef785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 12/59] fix: taking a double turns the cube and gives it to the
 taker

---
 bglib/model/boardeditor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index d6f733f..c26ce17 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -106,7 +106,9 @@ class BoardEditor(AbstractBoard):
   def take(self, who):
     assert self.is_cube_take_or_pass(who)
     self.on_inner_action = self.on_action
-    #self.doubled = False
+    self.cube_in_logarithm = self.cube_in_logarithm + 1
+    self.cube_owner = who
+    self.doubled = False
 
   def drop(self, who):
     assert self.is_cube_take_or_pass(who)
-- 
2.43.0


From 5a24d86d4748b152161977357ab53f3081787f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 13/59] fix: the fields of a frozen board cannot be deleted

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index e060dfd..ad2562d 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -215,6 +215,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to mutate immutable object, deleting attr of "%s"'%(name, ))
+
   def __hash__(self):
     pass
 
-- 
2.43.0


From 62a40be76b27f8a832a9061f56cbee2ad20640fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 14/59] fix: decode FIBS boards with the opponent or nobody on
 turn, and without a pending double

---
 bglib/encoding/FIBS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..0a41a61 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,10 +118,11 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
-    m.on_action = INVALID
+    m.on_action = CENTER
+    m.on_inner_action = CENTER
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
@@ -133,6 +134,8 @@ def decode(m, s):
       m.on_inner_action = HIM
     elif m.on_action == HIM:
       m.on_inner_action = YOU
+  else:
+    m.doubled = False
 
   m.resign_offer = RESIGN_NONE
   # can't define!
-- 
2.43.0


From c78a17fea4fb5a51e0057d5bd1d488dd2cb5e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 15/59] fix: FIBS helpers for taker name, move and score did
 not work

---
 bglib/encoding/FIBS.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 0a41a61..b5c1a91 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -8,6 +8,8 @@ import re
 
 from bglib.model import BoardEditor
 from bglib.model.constants import *
+from bglib.model.move import Move, PartialMove
+from bglib.model.util import move_pton, flip_point
 
 class _FIBSBoardState(object):
   '''
@@ -159,9 +161,9 @@ def get_name(got):
     return None
   return got[m.start():m.end()]
 
-taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accpets")
+taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accepts")
 def get_taker_name(got):
-  m = name_expr.search(got)
+  m = taker_name_expr.search(got)
   if m is None:
     return None
   try:
@@ -171,28 +173,31 @@ def get_taker_name(got):
 
 def get_move(got, who):
   '''got = gBOTworldclass moves 22-off 24-off .'''
-  mv = bglib.model.move.Move()
+  mv = Move()
   for m in got.split(' ')[2:-1]:
     src, dest = m.split('-')
     is_hitting = dest.endswith('*')
     if is_hitting:
       dest = dest[:-1]
-    if who == bglib.model.constants.you:
-      src = bglib.model.util.move_pton(src)
-      dest = bglib.model.util.move_pton(dest)
-      pm = bglib.model.move.PartialMove(src-dest, src, dest, is_hitting)
-    elif who == bglib.model.constants.him:
-      src = bglib.model.util.move_pton(src)
-      dest = bglib.model.util.move_pton(dest)
-      pm = bglib.model.move.PartialMove(dest-src, src, dest, is_hitting)
+    src = move_pton(src)
+    dest = move_pton(dest)
+    if who == YOU:
+      pass
+    elif who == HIM:
+      # points are numbered from your side.
+      if 0 <= src < 24:
+        src = flip_point(src)
+      if 0 <= dest < 24:
+        dest = flip_point(dest)
     else:
       continue
+    pm = PartialMove(src-dest, src, dest, is_hitting)
     mv.append(pm)
   return mv
 
 score_expr = re.compile("[0-9]+")
 def get_score(got):
-  score = score_expr.findall(got)
+  score = score_expr.findall(got)[0]
   return int(score)
 
 match_score_expr = re.compile("[0-9]+")
-- 
2.43.0


From b5c7af46a9eba9316e7b3247cf58da3ed47422a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 16/59] fix: GNU Backgammon position id lost its last two
 characters for some chequer counts

---
 bglib/encoding/gnubgid.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..63bf860 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -44,21 +44,15 @@ def seq2bytes (xs):
   0 2 3 0 ---> 0 110 1110 0 : D mapping to binary.
   and endian is little endian.
   """
-  count = 0
   byte = ByteContext()
   for x in xs:
     for i in range(0, x):
       if not byte.write(1):
-        count += 1
         yield byte.pack()
     if not byte.write(0):
-      count += 1
       yield byte.pack()
   if byte.count != 0:
     yield byte.pad()
-  while count < 9:
-    count += 1
-    yield byte.pad()
 
 
 def byts2seq(b):
@@ -84,7 +78,7 @@ def byts2seq(b):
 
 def twoside_encode(xs):
   s = list(seq2bytes( list(xs[0])+ list(xs[1])))
-  return ''.join(s)
+  return ''.join(s).ljust(10, '\x00') # position id is always 10 bytes
 
 
 def twoside_decode(s):
-- 
2.43.0


From 82254c1bd70040df7edff41b3989fc30180d1f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 17/59] fix: GNU Backgammon match id of a money game with a
 score was refused

---
 bglib/encoding/gnubgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 63bf860..8559964 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -248,7 +248,7 @@ def decode(model, pid, mid):
  
   # FIXME not sure... 
   if model.game_state == ON_GOING and \
-    model.match_length == 0 and  \
+    model.match_length != 0 and  \
     (model.score[0] > model.match_length or \
      model.score[1] > model.match_length):
     msg = 'bad score'
-- 
2.43.0


From a7edefc05f169568936c270489496d7434dcb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 18/59] fix: text that is no GNU Backgammon id is rejected
 instead of decoded or looped on

---
 bglib/encoding/gnubgid.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 8559964..aa5c665 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -4,6 +4,7 @@
 #
 # Copyright 2006-2011 Noriyuki Hosaka bgnori@gmail.com
 #
+import re
 import struct
 
 from base64 import standard_b64encode, standard_b64decode
@@ -85,6 +86,9 @@ def twoside_decode(s):
   xs = list(byts2seq(s))
   return tuple(xs[:25]), tuple(xs[25:50]) # (on_action, opp)
 
+position_id_expr = re.compile(r'[A-Za-z0-9+/]{14}\Z')
+match_id_expr = re.compile(r'[A-Za-z0-9+/]{12}\Z')
+
 def encode_position(xs):
   """ encodes tuple expression into gnubg position id """
   return standard_b64encode(twoside_encode(xs)).rstrip('=')
@@ -94,15 +98,9 @@ def decode_position(s):
   """ decode tuple expression from gnubg position id """
   if '=' in s:
     raise TypeError
-  while True:
-    try:
-      bin = standard_b64decode(s)
-    except TypeError, e:
-      if str(e) != 'Incorrect padding':
-        raise
-      s += '='
-    else:
-      break
+  if not position_id_expr.match(s):
+    raise bglib.encoding.DecodeError('not a position id: %s '%(s,))
+  bin = standard_b64decode(s + '==')
   r = twoside_decode(bin)
   if not len(r) == 2 or not len(r[0])==25 or not len(r[1])==25:
     raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
@@ -192,15 +190,9 @@ def decode_match(s):
   """ decode tuple expression from gnubg position id """
   if '=' in s:
     raise TypeError
-  while True:
-    try:
-      bin = standard_b64decode(s)
-    except TypeError, e:
-      if str(e) != 'Incorrect padding':
-        raise
-      s += '='
-    else:
-      break
+  if not match_id_expr.match(s):
+    raise bglib.encoding.DecodeError('not a match id: %s '%(s,))
+  bin = standard_b64decode(s)
   return MatchProxy(bin)
 
 def encode(model):
-- 
2.43.0


From f2829c7af05e497894a696a50d07d6e0f6f89643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 19/59] fix: XGID with a non-numeric score raised a formatting
 error

---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..f7af650 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s %s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 35a388938f1930cb1200cd35ddacac315fb1aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 20/59] fix: XGID with a letter that is no chequer count is
 rejected

---
 bglib/encoding/xgid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index f7af650..ef056d3 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -30,6 +30,10 @@ def decode_position(s):
   if len(s) != 26:
     raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
 
+  for i, c in enumerate(s):
+    if not (i < 25 and c in conv_him or i > 0 and c in conv_you):
+      raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
+
   you = s[1:26]
   him = "".join(reversed(s[0:25]))
 
-- 
2.43.0


From b02e95b1b2c3d41ba4973cbe5fab16441a51e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 21/59] fix: XGID range checks of cube, dice, scores, flags and
 cube maximum

---
 bglib/encoding/xgid.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index ef056d3..e305f7b 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -71,6 +71,8 @@ def decode(model, s):
     model.cube_in_logarithm = int(cube_in_logarithm)
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer cube logarithm: %s '%(cube_in_logarithm,))
+  if model.cube_in_logarithm < 0:
+    raise bglib.encoding.InconsistentData('negative cube logarithm: %d '%(model.cube_in_logarithm,))
 
 
   '''
@@ -115,26 +117,34 @@ def decode(model, s):
     model.rolled = int(rolled[0]), int(rolled[1])
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer roll: %s '%(rolled,))
+  if model.rolled != (0, 0) and not (0 < min(model.rolled) and max(model.rolled) < 7):
+    raise bglib.encoding.InconsistentData('bad roll: %s '%(rolled, ))
 
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non interger score: %s %s '%(his_score, your_score,))
+  if min(model.score) < 0:
+    raise bglib.encoding.InconsistentData('negative score: %s %s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer Crawford/Jacoby flag: %s '%(is_crawford_jacoby,))
 
-  if is_crawford_jacoby not in (0, 1):
-    raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
-
-
   try:
     match_length = int(match_length)
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer match length: %s '%(match_length,))
 
+  if match_length == 0:
+    # bit 0 is the Jacoby rule, bit 1 are beavers.
+    valid_flags = (0, 1, 2, 3)
+  else:
+    valid_flags = (0, 1)
+  if is_crawford_jacoby not in valid_flags:
+    raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
+
   if match_length == 0:
     model.crawford = False
     model.match_length = match_length
@@ -144,6 +154,10 @@ def decode(model, s):
   else:
     raise bglib.encoding.InconsistentData('negative match length: %d '%(match_length, ))
 
+  try:
+    int(cube_max)
+  except ValueError:
+    raise bglib.encoding.DecodeError('got bad data, non integer cube max: %s '%(cube_max,))
 
   #UGH!
   model.game_state = ON_GOING  
-- 
2.43.0


From 323d35ad5b616df9bc1b977177438074442ec411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 22/59] fix: bear-off numbers of fifteen chequers convert back
 to their position

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From 68abc96ef1b99573e9aeabf3d311d7e87e8580f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 23/59] fix: rearmost point of a side with no chequers left is
 0, not an IndexError

---
 bglib/encoding/bearoff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/__init__.py b/bglib/encoding/bearoff/__init__.py
index dec5e92..8701935 100644
--- a/bglib/encoding/bearoff/__init__.py
+++ b/bglib/encoding/bearoff/__init__.py
@@ -13,7 +13,7 @@ from tonic.combination import fact, C, C_Hash, C_RHash
 
 def backward(t):
   i = 24
-  while not t[i]:
+  while i >= 0 and not t[i]:
     i -= 1
   return i + 1
 
-- 
2.43.0


From 5aa7a823c97c50b2aa9b049566df829d3ccd146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 24/59] fix: human_readable of the nori bear-off reader did not
 find its helper

---
 bglib/encoding/bearoff/nori.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 52003fa..221b04e 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -9,6 +9,7 @@ from bglib.encoding.gnubgid import decode_position
 from bglib.encoding import bearoff
 from bglib.encoding.bearoff import C, C_Hash, C_RHash, D, D_Hash
 from bglib.encoding.bearoff import count, backward
+from bglib.encoding.bearoff.trice import human_readable_eq
 
 '''
   nori's original indexing
-- 
2.43.0


From 7b2180ec06a6099f260920bc7dec69e0f2dc9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 25/59] fix: a match record without a match length line could
 not be split

---
 bglib/record/snowietxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/record/snowietxt.py b/bglib/record/snowietxt.py
index 75a81e6..a51e19a 100644
--- a/bglib/record/snowietxt.py
+++ b/bglib/record/snowietxt.py
@@ -148,7 +148,7 @@ class Validator(object):
 def chop(txt):
   assert isinstance(txt, str)
   linev = LineValidator()
-  match_length = 0
+  match_length = ''
   xs = []
   first = True
   for line in txt.splitlines(True):
-- 
2.43.0


From 07594f691af5c3fe992b9f6c55735e8b06fe9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 26/59] fix: the picture shows a resignation offered after the
 roll

---
 bglib/image/base.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..944e17c 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -780,20 +780,20 @@ class ElementTree(object):
       else:
         assert False
 
+    if board.on_action == YOU and not board.doubled and board.on_inner_action == HIM and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
+      self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
+      self.action.append('him to accept your resignation or not.')
+      resign = Element('resign')
+      resign.append(str(board.resign_offer))
+      self.field[HIM].append(resign)
+      return
+
     if board.on_action == YOU and board.rolled == (0, 0):
       if not board.doubled and board.on_inner_action == YOU:
         self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
         self.action.append('you to roll or double.')
         return
 
-      if not board.doubled and board.on_inner_action == HIM and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
-        self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
-        self.action.append('him to accept your resignation or not.')
-        resign = Element('resign')
-        resign.append(str(board.resign_offer))
-        self.field[HIM].append(resign)
-        return
-
       if board.doubled and board.on_inner_action == HIM:
         cube = Element('cube')
         cube.append(str(board.cube_in_logarithm+1))
@@ -818,18 +818,19 @@ class ElementTree(object):
       self.field[YOU].append(die)
       return
 
+    if board.on_action == HIM and not board.doubled and board.on_inner_action == YOU and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
+      self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
+      self.action.append('you to accept his resignation or not.')
+      resign = Element('resign')
+      resign.append(str(board.resign_offer))
+      self.field[YOU].append(resign)
+      return
+
     if board.on_action == HIM and board.rolled == (0, 0):
       if not board.doubled and board.on_inner_action == HIM:
         self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
         self.action.append('him to roll or double.')
         return
-      if not board.doubled and board.on_inner_action == YOU and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
-        self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
-        self.action.append('you to accept his resignation or not.')
-        resign = Element('resign')
-        resign.append(str(board.resign_offer))
-        self.field[YOU].append(resign)
-        return
 
       if board.doubled and board.on_inner_action == YOU:
         self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
-- 
2.43.0


From 217e437ef491df1f4daabd319a658438532f6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 27/59] fix: the XML form of a picture escapes markup
 characters in values

---
 bglib/image/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 944e17c..56c3f45 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -12,6 +12,9 @@ import bglib.model.constants
 
 from bglib.model.constants import YOU, HIM
 
+def escape(s):
+  return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
+
 class  ElementFactory(object):
   def __init__(self):
     self.ec = dict()
@@ -236,13 +239,13 @@ class BaseElement(object):
   def format(self, indent):
     s = ' '*indent + "<%s"%(self.name)
     for n, v in self.attributes.items():
-      s+= ' %s="%s"'%(n, str(v))
+      s+= ' %s="%s"'%(n, escape(str(v)).replace('"', '&quot;'))
     s+=">\n"
     for c in self.children:
       if isinstance(c, BaseElement):
         s += c.format(indent+2)
       else:
-        s += ' '*(indent +2) + str(c) + '\n'
+        s += ' '*(indent +2) + escape(str(c)) + '\n'
     s+= ' '*indent + "</%s>\n"%(self.name)
     return s
 
-- 
2.43.0


From 419629bf7fdeece64841e10280686b16053d9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 28/59] fix: an inheritable attribute the parent does not
 declare has its default

---
 bglib/image/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 56c3f45..b5a4d3a 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -285,7 +285,7 @@ class BaseElement(object):
       a = self.attributes.get(name, None)
       if a:
         return a.get()
-      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
+      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None and name in self.parent.DTD_ATTLIST:
         return getattr(self.parent, name)
       else:
         try:
-- 
2.43.0


From 608604a871d6564cb036a8fd3529e1f0ff9791f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 29/59] fix: attribute values given to an element's constructor
 are checked too

---
 bglib/image/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index b5a4d3a..d251bf9 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -192,7 +192,9 @@ class BaseElement(object):
 
   def __init__(self,  **kw):
     self.__dict__['children'] = list()
-    self.__dict__['attributes'] = dict([[key, self.DTD_ATTLIST[key](value=value)] for key, value in kw.items()])
+    self.__dict__['attributes'] = dict([[key, self.DTD_ATTLIST[key]()] for key in kw])
+    for key, value in kw.items():
+      self.attributes[key].set(value)
     self.__dict__['parent'] = None
     self.__dict__['css_lineno'] = list()
 
-- 
2.43.0


From 3356fecb12fb6eeac2add50a4a223060b30e239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 30/59] fix: a style's False is no longer read as True

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index d251bf9..19db124 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -136,7 +136,7 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    return bool(s) and s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -152,7 +152,7 @@ class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
   def parse(self, s):
-    return bool(s)
+    return bool(s) and s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From 78225aa8d6c7794ceb362d56d1e32e1371220584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 31/59] fix: a style rule with an empty block is no error

---
 bglib/image/css.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index d51848f..fca1b40 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -199,7 +199,6 @@ class CSSParser(object):
                         m.group('data')))
 
   def block(self, rule, s):
-    assert s
     for t in s.split(";"):
       if t:
         self.attribute(rule, t)
-- 
2.43.0


From f2827965cf469cad2f7c26d11b8ee6b0289fae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 32/59] fix: a second rule may style the image or font of an
 element

---
 bglib/image/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 19db124..28fa032 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -233,8 +233,7 @@ class BaseElement(object):
     for name, value in d.items():
       if name not in self.DTD_ATTLIST:
         raise KeyError('no such attribute %s in %s'%(name, self.name))
-      a = self.attributes.get(name, self.DTD_ATTLIST[name](css_path=css_path))
-      assert a
+      a = self.DTD_ATTLIST[name](css_path=css_path)
       v = a.parse(value)
       setattr(self, name, v)
 
-- 
2.43.0


From 1febeb42ddd026a13b4b0400796d168d592863a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 33/59] fix: the matrix theme names a font file that exists

---
 bglib/image/resource/matrix/default.css | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/resource/matrix/default.css b/bglib/image/resource/matrix/default.css
index 420c684..8b8d083 100644
--- a/bglib/image/resource/matrix/default.css
+++ b/bglib/image/resource/matrix/default.css
@@ -1,5 +1,5 @@
 board {x: 0; y: 0; width: 1000; height: 800}
-board {font:uri("DejaVuLGCSans-Bold.ttf")}
+board {font:uri("../nature/DejaVuLGCSans-Bold.ttf")}
 
 match {x: 800; y: 0; width: 200; height: 1000}
 length {x: 900; y: 400; width: 100; height: 200}
-- 
2.43.0


From 58bd997e0693a4328ebac27b6ba75de7f32dc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 34/59] fix: sizes at which the scaled picture is a rounding
 error too wide can be drawn

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 28fa032..10bb489 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -317,8 +317,8 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From 04e6832694173bac3759108be227e4c64a141ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 35/59] fix: the parent of a node is the node that lists it, so
 text is written in order

---
 bglib/doc/doctree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..deb4a9e 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -10,6 +10,7 @@ class Node(object):
     assert not parent or isinstance(parent, Node)
     self.parent = parent
     self.children = list()
+    self.implicitly_left = list() # by entering this node
 
   def on_enter(self, visitor):
     visitor.enter(self)
@@ -328,10 +329,11 @@ class Editor(object):
 
   def leave(self, *klasses):
     node = self.current
-    while node:
-      if isinstance(node, *klasses):
-        self.current = node.parent
-        return
+    while node.parent: # the root is never left.
+      for n in [node] + node.implicitly_left:
+        if isinstance(n, *klasses):
+          self.current = node.parent
+          return
       node = node.parent
       #implicitly leaving node.
     #assert False #ugh! No such node!
@@ -341,7 +343,9 @@ class Editor(object):
     node = klass(self.current, **d)
     c = self.current
     while c and not c.is_acceptable(node):
+      node.implicitly_left.append(c)
       c = c.parent
+    node.parent = c
     c.append(node)
     self.current = c
     return node
-- 
2.43.0


From 54d82ee1dd9522d4fba161c4be83476a0c24778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:48 +0000
Subject: [PATCH 36/59] fix: a double quote in an attribute value could end the
 attribute

---
 bglib/doc/doctree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index deb4a9e..d458579 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -67,7 +67,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From e9a0b4e063c4f6d54d0ee7d756d1a022c3375eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:58 +0000
Subject: [PATCH 37/59] fix: the text of a link is escaped, its address and
 title are escaped once

---
 bglib/doc/bgwiki.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..45dcd68 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -462,13 +462,12 @@ class LineFormatter(BaseFormatter):
 
   def _handle_pattern_auto_anchor(self, match, matchobj):
     #t = string.Template('<a class="ext-link" href="$url"><span class="icon">$url</span></a>')
-    url=bglib.doc.html.escape(match)
     editor = self.editor
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':"title"})
-    a.set_url(url)
+    a.set_url(match)
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(bglib.doc.html.escape(match))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
@@ -489,16 +488,16 @@ class LineFormatter(BaseFormatter):
     editor = self.editor
     d = matchobj.groupdict()
     if d['disp']:
-      disp = bglib.doc.html.escape(d['disp'][1:])
+      disp = d['disp'][1:]
     else:
-      disp = bglib.doc.html.escape(d['url_1'])
+      disp = d['url_1']
     #t = string.Template('''<a class="ext-link" href="$url"><span class="icon">$disp</span></a>''')
     #return t.substitute(url=bglib.doc.html.escape(d['url_1']), disp=disp)
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':disp})
-    a.set_url("%s"%bglib.doc.html.escape(d['url_1']))
+    a.set_url("%s"%d['url_1'])
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(disp)
+    editor.append_text(bglib.doc.html.escape(disp))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
-- 
2.43.0


From e3479bddac72aab146334f75d0599db88a3f5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:09 +0000
Subject: [PATCH 38/59] fix: an item without a sign in a list of signs raised
 KeyError

---
 bglib/doc/doctree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index d458579..0e72c9d 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -162,6 +162,8 @@ class ItemizeElement(LineElement):
       return '<%s>'%(self.html_element)
     else:
       m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+      if m not in style:
+        return '<%s>'%(self.html_element)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From cc6ef8928fda3a0f30c0c1096abde7086cc8ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 39/59] fix: a list item goes to the list it is in

---
 bglib/doc/bgwiki.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 45dcd68..b1b8a08 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -335,7 +335,7 @@ class LineFormatter(BaseFormatter):
     editor = self.editor
     while indent < nest:
       editor.leave(klass_or_klasses)
-      nest -= 1
+      nest = editor.count_nesting(klass_or_klasses)
     return nest
 
   def _nest(self, indent, nest, klass):
@@ -367,7 +367,7 @@ class LineFormatter(BaseFormatter):
     nest = self._unnest(indent, nest, bglib.doc.doctree.ListElement)
 
     if indent == nest:
-      editor.leave(bglib.doc.doctree.ItemizeElement)
+      editor.current = editor.ancestor(bglib.doc.doctree.ListElement)
     elif indent > nest:
       while indent > nest + 1:
         #bad indentation, push ListElement to balance.
-- 
2.43.0


From 5a5fcbc490244c3d3ec3d0ea452a2d0471a561ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 40/59] fix: Position and Analysis without arguments and an
 unknown analysis are bad arguments

---
 bglib/doc/macro.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..888d5bc 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -188,6 +188,8 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
+  if not s:
+    return None
   matchobj = _arg_pattern.match(s)
   if not matchobj:
     return None
@@ -219,7 +221,10 @@ def Analysis(editor, args):
   d = _parse_position(args)
   if not d:
     return False
-  cubeaction, analysis = _db.get_analysis(d['gnubgid'][:14], d['gnubgid'][15:27])
+  try:
+    cubeaction, analysis = _db.get_analysis(d['gnubgid'][:14], d['gnubgid'][15:27])
+  except KeyError:
+    return False
 
   if cubeaction:
     CubelessEquity(editor, **(analysis[0]))
-- 
2.43.0


From d8f4afce24f97b407c591467bc5c8f11a8545c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 41/59] fix: format, width and height of a position were
 ignored, and so was what follows them

---
 bglib/doc/macro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 888d5bc..48010ae 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -182,9 +182,10 @@ register(TableOfContent)
 _arg_pattern = re.compile(
                       r"(?P<gnubgid>[a-zA-Z0-9/+]{14}:[a-zA-Z0-9/+]{12})"
                       r"(,[ ]*css=(?P<css>[a-zA-Z]+))?"
-                      r"(,[ ]*format(?P<format>[a-zA-Z]+))?"
-                      r"(,[ ]*width(?P<width>[0-9]+))?"
-                      r"(,[ ]*height(?P<height>[0-9]+))?"
+                      r"(,[ ]*format=(?P<format>[a-zA-Z]+))?"
+                      r"(,[ ]*width=(?P<width>[0-9]+))?"
+                      r"(,[ ]*height=(?P<height>[0-9]+))?"
+                      r"[ ]*$"
                       )
 
 def _parse_position(s):
-- 
2.43.0


From 1a0b2273d69da1119bcc0ebd898b2123418554eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 42/59] fix: a heading with other than text and links broke the
 table of contents

---
 bglib/doc/macro.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 48010ae..35a7a22 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -121,19 +121,10 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       editor.leave(bglib.doc.doctree.ListElement)#, style='ordered_numeric')
       self.nesting -=1
 
-  def de_anchor(self, node, parent):
-      if isinstance(node, bglib.doc.doctree.Text):
-        return node
-      elif isinstance(node, bglib.doc.doctree.AnchorElement):
-        text = ''
-        for n in node.children:
-          if isinstance(n, bglib.doc.doctree.Text):
-            text += n.text
-        return bglib.doc.doctree.Text(parent, text=text)
-      else:
-        pass
-      return None
-        
+  def get_text(self, node):
+    if isinstance(node, bglib.doc.doctree.Text):
+      return node.text
+    return ''.join([self.get_text(n) for n in node.children])
 
   def enter(self, node):
     editor = self.editor
@@ -144,7 +135,7 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       editor.enter(bglib.doc.doctree.ItemizeElement, **d)
       editor.enter(bglib.doc.doctree.AnchorElement, **{'href':'#fragment%i'%self.fragment_count})
       if node.children:
-        editor.current.children = [self.de_anchor(n, editor.current) for n in node.children]
+        editor.append_text(self.get_text(node))
       editor.leave(bglib.doc.doctree.AnchorElement)
       editor.leave(bglib.doc.doctree.ItemizeElement)
       node.attrs['id'] = 'fragment%i'%self.fragment_count
-- 
2.43.0


From 16a1040c9e79aee7c4f4f0a91a145b649411b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 43/59] fix: links of the table of contents to headings in
 front of it led nowhere

---
 bglib/doc/macro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 35a7a22..91fbb17 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -166,7 +166,8 @@ class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
 
 
 def TableOfContent(editor, args):
-  editor.append(TableOfContentNode, editor=editor)
+  node = editor.append(TableOfContentNode, editor=editor)
+  node.open() # headings in front of the table need their identifiers, too
   return True
 register(TableOfContent)
 
-- 
2.43.0


From 447a87476da012bd00a864cb8d9d318f073be089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 44/59] fix: writing a page twice doubled its preformatted
 blocks

---
 bglib/doc/bgwiki.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index b1b8a08..169198b 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -97,6 +97,7 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
     if self.wrapped is None:
       self.prepare_formatter()
     self.wrapped.parse(self.buf)
+    self.buf = ''
     return self.wrapped.make_html()
 
   def set_editor(self, editor):
-- 
2.43.0


From 4fef3e96ae87cc6f56587eb00349f1e206034d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 45/59] fix: a line looking like a processor name inside a
 preformatted block was lost

---
 bglib/doc/bgwiki.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 169198b..fd02e34 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -129,6 +129,10 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
     self.buf += match + '\n'
 
   def _handle_pattern_processor_specifier(self, match, matchobj):
+    if self.wrapped is not None or self.buf:
+      # not the first line
+      self._handle_pattern_rest_of_the_world(match, matchobj)
+      return
     d = matchobj.groupdict()
     self.prepare_formatter(d['processor_name'])
 
-- 
2.43.0


From 41a5cfe85dec02afc14ff540a82fb81bbd3e31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 46/59] fix: reStructuredText could insert raw HTML and files,
 and raise on severe errors

---
 bglib/doc/rst.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/rst.py b/bglib/doc/rst.py
index 4b62029..1078724 100644
--- a/bglib/doc/rst.py
+++ b/bglib/doc/rst.py
@@ -41,7 +41,12 @@ class Formatter(bglib.doc.Formatter):
     """
     overrides = {'input_encoding': input_encoding,
                  'doctitle_xform': doctitle,
-                 'initial_header_level': initial_header_level}
+                 'initial_header_level': initial_header_level,
+                 # pages come from anybody
+                 'raw_enabled': False,
+                 'file_insertion_enabled': False,
+                 # errors are noted in the output
+                 'halt_level': 5}
     parts = core.publish_parts(
       source=input_string, source_path=source_path,
       destination_path=destination_path,
-- 
2.43.0


From 73bc6cce2b4a2737a82dd6d4bb9674719c7719b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:33 +0000
Subject: [PATCH 47/59] fix: deeply nested documents exceeded the recursion
 limit

---
 bglib/doc/doctree.py | 13 ++++++++++---
 bglib/doc/macro.py   | 14 +++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 0e72c9d..03d3a9f 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -31,9 +31,16 @@ class Node(object):
   def accept(self, visitor):
     assert isinstance(visitor, Visitor)
     self.on_enter(visitor)
-    for c in self.children:
-      c.accept(visitor)
-    self.on_leave(visitor)
+    path = [(self, iter(self.children))] # no recursion, trees may be deep
+    while path:
+      node, children = path[-1]
+      for c in children:
+        c.on_enter(visitor)
+        path.append((c, iter(c.children)))
+        break
+      else:
+        node.on_leave(visitor)
+        path.pop()
 
   def __str__(self):
     return "%s"%(self.__class__.__name__)
diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 91fbb17..f77396a 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -93,6 +93,14 @@ register(Timestamp)
 class TocEditor(bglib.doc.doctree.Editor):
   pass
 
+class TextVisitor(bglib.doc.doctree.Visitor):
+  def __init__(self):
+    super(TextVisitor, self).__init__()
+    self.text = ''
+  def enter(self, node):
+    if isinstance(node, bglib.doc.doctree.Text):
+      self.text += node.text
+
 class TocVisitor(bglib.doc.doctree.Visitor):
   
   nestingmap = {
@@ -122,9 +130,9 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       self.nesting -=1
 
   def get_text(self, node):
-    if isinstance(node, bglib.doc.doctree.Text):
-      return node.text
-    return ''.join([self.get_text(n) for n in node.children])
+    visitor = TextVisitor()
+    node.accept(visitor)
+    return visitor.text
 
   def enter(self, node):
     editor = self.editor
-- 
2.43.0


From c6cafa3cc20ab45425dea979e7a92c63d570afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 48/59] fix: words at the end of a line and the beginning of
 the next were joined

---
 bglib/doc/bgwiki.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index fd02e34..5b6a461 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -224,6 +224,10 @@ class LineFormatter(BaseFormatter):
       if input_line[0] not in '>':
         editor.leave((bglib.doc.doctree.CitationElement, ))
 
+      children = editor.current.children
+      if children and isinstance(children[-1], bglib.doc.doctree.Text):
+        editor.append_text('\n') # words of different lines stay apart
+
       if input_line.endswith('::'):
         self.start_definition_header()
       for matchobj in self.get_regexp().finditer(input_line):
-- 
2.43.0


From f3a88b811a111933f868e51a88d54c5cd7960ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 49/59] fix: text after a nested citation stayed in the outer
 citation

---
 bglib/doc/bgwiki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 5b6a461..e127b22 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -222,7 +222,8 @@ class LineFormatter(BaseFormatter):
         editor.leave((bglib.doc.doctree.BlockQuoteElement, 
                       bglib.doc.doctree.DefinitionBodyElement))
       if input_line[0] not in '>':
-        editor.leave((bglib.doc.doctree.CitationElement, ))
+        while editor.ancestor(bglib.doc.doctree.CitationElement):
+          editor.leave(bglib.doc.doctree.CitationElement)
 
       children = editor.current.children
       if children and isinstance(children[-1], bglib.doc.doctree.Text):
-- 
2.43.0


From 48cce2caf21bafdbee01fe6bc074d330ebccb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 50/59] fix: comparing documents missed differences in '&' and
 misread most attributes

---
 bglib/doc/html.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bglib/doc/html.py b/bglib/doc/html.py
index e990235..23fff62 100644
--- a/bglib/doc/html.py
+++ b/bglib/doc/html.py
@@ -33,12 +33,12 @@ def nomalize(html):
 
 
 ELEMENT = r'(?P<element>[/a-zA-Z0-9]+)'
-ATTRNAME = r'(?P<attrname>[a-zA-Z]+)'
-ATTRVALUE = r'(?P<attrvalue>[a-zA-Z0-9:;./\-]+)'
+ATTRNAME = r'(?P<attrname>[a-zA-Z:_][a-zA-Z0-9:_.\-]*)'
+ATTRVALUE = r'(?P<attrvalue>[^"<>]*)'
 ATTRIBUTE = r'(?P<attribute>' + ATTRNAME + '="' + ATTRVALUE + '")'
 ATTRIBUTE_LIST = '(?P<attribute_list>(' + ATTRIBUTE + '[ ]*)*)'
-TAG = '(?P<tag><' + ELEMENT + '( ' +  ATTRIBUTE_LIST + ')?>)'
-TEXT = '(?P<text>[^<>&]*)'
+TAG = '(?P<tag><' + ELEMENT + '( ' +  ATTRIBUTE_LIST + ')?(?P<single>/)?>)'
+TEXT = '(?P<text>[^<>]*)'
 TAG_OR_TEXT = '(' + TAG + '|' + TEXT + ')'
 
 r_attribute =re.compile(ATTRIBUTE)
@@ -74,7 +74,7 @@ def tupdict(normalized):
   for matchobj in r_tag_or_text.finditer(normalized):
     d = matchobj.groupdict('')
     if 'tag' in d and d['element']:
-      r.append((d['element'], dictify_attr(d['attribute_list'])))
+      r.append((d['element'] + d['single'], tuple(sorted(dictify_attr(d['attribute_list'])))))
     elif 'text' in d and d['text']:
       r.append(('text', d['text'].strip()))
   return tuple(r)
-- 
2.43.0


From d5dca8afa3a129d164c088d4da8324192dcc9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:42 +0000
Subject: [PATCH 51/59] fix: what follows a position went into the element of
 the position

---
 bglib/doc/macro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index f77396a..99eacc1 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -213,6 +213,7 @@ def Position(editor, args):
     return False
   editor.enter(bglib.doc.doctree.SpanElement, **{"class":"position"})
   editor.enter(bglib.doc.doctree.ImgElement, src='/image?'+urllib.urlencode(d, True))
+  editor.leave(bglib.doc.doctree.ImgElement)
   editor.leave(bglib.doc.doctree.SpanElement)
   return True
 register(Position)
-- 
2.43.0


From 50c65ec62e0f77262bd0f28819578ac70bf3044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 52/59] fix: a table of contents ended the paragraph it stands
 in

---
 bglib/doc/doctree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 03d3a9f..2aee669 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -203,7 +203,8 @@ class DefinitionBodyElement(BoxElement):
 class DivElement(BoxElement):
   html_element = 'div'
   def acceptables(self):
-    return (SpanElement, BoxElement) #Any Element...
+    return super(DivElement, self).acceptables() + \
+          (SpanElement, BoxElement) #Any Element...
 
 class ImgElement(SpanElement):
   html_element = 'img'
-- 
2.43.0


From 695605b74dbca835c36e7ab946f35625a6adb535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:12 +0000
Subject: [PATCH 53/59] fix: kinds of FIBS messages listed twice lost their
 first patterns

---
 bglib/protocol/fibs.py | 86 +++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 8e4f4da..0d2232c 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -131,7 +131,7 @@ class RunState(State):
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
-  FIBS_YouStopWatching = ["^You stop watching "]
+  FIBS_YouStopWatching += ["^You stop watching "]
   # overloaded
 
   FIBS_PlayerStartsWatching = ["[a-zA-Z_<>]+ starts watching [a-zA-Z_<>]+\\.",
@@ -161,7 +161,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign = ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["wants to resign\\."]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -217,7 +217,7 @@ class RunState(State):
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
   FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
-  FIBS_WavesAgain = ["^You wave goodbye again and log out\\."]
+  FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
   FIBS_SavedMatch = ["^  [a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +"]
@@ -313,10 +313,10 @@ class RunState(State):
                    "^5 [^ ]+ - [^ ]+ [01]",
                    ]
 
-  FIBS_Average = ["^[0-9][0-9]:[0-9][0-9]-"]
+  FIBS_Average += ["^[0-9][0-9]:[0-9][0-9]-"]
   # output of average command
 
-  FIBS_DiceTest = ["^[1-6]-1 [0-9]", # output of dicetest command
+  FIBS_DiceTest += ["^[1-6]-1 [0-9]", # output of dicetest command
                    "^[1-6]: [0-9]",
                    ]
 
@@ -344,7 +344,7 @@ class RunState(State):
 
   # class StarsBatch(Batch):
   FIBS_Username = ["^\\*\\* User"]
-  FIBS_Junk = ["^\\*\\* You tell "]
+  FIBS_Junk += ["^\\*\\* You tell "]
   # "** You tell PLAYER: xxxxx"]
 
   FIBS_YouGag = ["^\\*\\* You gag"]
@@ -367,40 +367,40 @@ class RunState(State):
   FIBS_YouInvited = ["^\\*\\* You invited"]
   FIBS_YourLastLogin = ["^\\*\\* Last login:"]
   FIBS_NoOne = ["^\\*\\* There is no one called"]
-  FIBS_AllowpipFalse = ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
-  FIBS_AllowpipTrue = ["^\\*\\* You allow the use the server's 'pip' command\\."]
-  FIBS_AutoboardFalse = ["^\\*\\* The board won't be refreshed"]
-  FIBS_AutoboardTrue = ["^\\*\\* The board will be refreshed"]
-  FIBS_AutodoubleTrue = ["^\\*\\* You agree that doublets"]
-  FIBS_AutodoubleFalse = ["^\\*\\* You don't agree that doublets"]
-  FIBS_AutomoveFalse = ["^\\*\\* Forced moves won't"]
-  FIBS_AutomoveTrue = ["^\\*\\* Forced moves will"]
-  FIBS_BellFalse = ["^\\*\\* Your terminal won't ring"]
-  FIBS_BellTrue = ["^\\*\\* Your terminal will ring"]
-  FIBS_CrawfordFalse = ["^\\*\\* You would like to play without using the Crawford rule\\."]
-  FIBS_CrawfordTrue = ["^\\*\\* You insist on playing with the Crawford rule\\."]
-  FIBS_DoubleFalse = ["^\\*\\* You won't be asked if you want to double\\."]
-  FIBS_DoubleTrue = ["^\\*\\* You will be asked if you want to double\\."]
-  FIBS_GreedyTrue = ["^\\*\\* Will use automatic greedy bearoffs\\."]
-  FIBS_GreedyFalse = ["^\\*\\* Won't use automatic greedy bearoffs\\."]
-  FIBS_MoreboardsTrue = ["^\\*\\* Will send rawboards after rolling\\."]
-  FIBS_MoreboardsFalse = ["^\\*\\* Won't send rawboards after rolling\\."]
-  FIBS_MovesTrue = ["^\\*\\* You want a list of moves after this game\\."]
-  FIBS_MovesFalse = ["^\\*\\* You won't see a list of moves after this game\\."]
-  FIBS_NotifyFalse = ["^\\*\\* You won't be notified"]
-  FIBS_NotifyTrue = ["^\\*\\* You'll be notified"]
-  FIBS_RatingsTrue = ["^\\*\\* You'll see how the rating changes are calculated\\."]
-  FIBS_RatingsFalse = ["^\\*\\* You won't see how the rating changes are calculated\\."]
-  FIBS_ReadyTrue = ["^\\*\\* You're now ready to invite or join someone\\."]
-  FIBS_ReadyFalse = ["^\\*\\* You're now refusing to play with someone\\."]
-  FIBS_ReportFalse = ["^\\*\\* You won't be informed"]
-  FIBS_ReportTrue = ["^\\*\\* You will be informed"]
-  FIBS_SilentTrue = ["^\\*\\* You won't hear what other players shout\\."]
-  FIBS_SilentFalse = ["^\\*\\* You will hear what other players shout\\."]
-  FIBS_TelnetFalse = ["^\\*\\* You use a client program"]
-  FIBS_TelnetTrue = ["^\\*\\* You use telnet"]
-  FIBS_WrapFalse = ["^\\*\\* The server will wrap"]
-  FIBS_WrapTrue = ["^\\*\\* Your terminal knows how to wrap"]
+  FIBS_AllowpipFalse += ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
+  FIBS_AllowpipTrue += ["^\\*\\* You allow the use the server's 'pip' command\\."]
+  FIBS_AutoboardFalse += ["^\\*\\* The board won't be refreshed"]
+  FIBS_AutoboardTrue += ["^\\*\\* The board will be refreshed"]
+  FIBS_AutodoubleTrue += ["^\\*\\* You agree that doublets"]
+  FIBS_AutodoubleFalse += ["^\\*\\* You don't agree that doublets"]
+  FIBS_AutomoveFalse += ["^\\*\\* Forced moves won't"]
+  FIBS_AutomoveTrue += ["^\\*\\* Forced moves will"]
+  FIBS_BellFalse += ["^\\*\\* Your terminal won't ring"]
+  FIBS_BellTrue += ["^\\*\\* Your terminal will ring"]
+  FIBS_CrawfordFalse += ["^\\*\\* You would like to play without using the Crawford rule\\."]
+  FIBS_CrawfordTrue += ["^\\*\\* You insist on playing with the Crawford rule\\."]
+  FIBS_DoubleFalse += ["^\\*\\* You won't be asked if you want to double\\."]
+  FIBS_DoubleTrue += ["^\\*\\* You will be asked if you want to double\\."]
+  FIBS_GreedyTrue += ["^\\*\\* Will use automatic greedy bearoffs\\."]
+  FIBS_GreedyFalse += ["^\\*\\* Won't use automatic greedy bearoffs\\."]
+  FIBS_MoreboardsTrue += ["^\\*\\* Will send rawboards after rolling\\."]
+  FIBS_MoreboardsFalse += ["^\\*\\* Won't send rawboards after rolling\\."]
+  FIBS_MovesTrue += ["^\\*\\* You want a list of moves after this game\\."]
+  FIBS_MovesFalse += ["^\\*\\* You won't see a list of moves after this game\\."]
+  FIBS_NotifyFalse += ["^\\*\\* You won't be notified"]
+  FIBS_NotifyTrue += ["^\\*\\* You'll be notified"]
+  FIBS_RatingsTrue += ["^\\*\\* You'll see how the rating changes are calculated\\."]
+  FIBS_RatingsFalse += ["^\\*\\* You won't see how the rating changes are calculated\\."]
+  FIBS_ReadyTrue += ["^\\*\\* You're now ready to invite or join someone\\."]
+  FIBS_ReadyFalse += ["^\\*\\* You're now refusing to play with someone\\."]
+  FIBS_ReportFalse += ["^\\*\\* You won't be informed"]
+  FIBS_ReportTrue += ["^\\*\\* You will be informed"]
+  FIBS_SilentTrue += ["^\\*\\* You won't hear what other players shout\\."]
+  FIBS_SilentFalse += ["^\\*\\* You will hear what other players shout\\."]
+  FIBS_TelnetFalse += ["^\\*\\* You use a client program"]
+  FIBS_TelnetTrue += ["^\\*\\* You use telnet"]
+  FIBS_WrapFalse += ["^\\*\\* The server will wrap"]
+  FIBS_WrapTrue += ["^\\*\\* Your terminal knows how to wrap"]
   FIBS_PlayerRefusingGames = ["^\\*\\* [a-zA-Z_<>]+ is refusing games\\."]
   FIBS_NotWatching = ["^\\*\\* You're not watching\\."]
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
@@ -416,13 +416,13 @@ class RunState(State):
   FIBS_MustMove = ["^\\*\\* You must give [1-4] moves"]
   FIBS_MustComeIn = ["^\\*\\* You have to remove pieces from the bar in your first move\\."]
   FIBS_UsersHeardYou = ["^\\*\\* [0-9]+ users? heard you\\."]
-  FIBS_Junk = ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
+  FIBS_Junk += ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
   FIBS_SavedMatchReady = ["^\\*\\*[a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +[0-9]+"]
   # double star before a name indicates you have a saved game with this player
 
   FIBS_NotYourTurnToRoll = ["^\\*\\* It's not your turn to roll the dice\\."]
   FIBS_NotYourTurnToMove = ["^\\*\\* It's not your turn to move\\."]
-  FIBS_YouStopWatching = ["^\\*\\* You stop watching"]
+  FIBS_YouStopWatching += ["^\\*\\* You stop watching"]
   FIBS_UnknownCommand = ["^\\*\\* Unknown command:"]
   FIBS_CantWatch = ["^\\*\\* You can't watch another game while you're playing\\."]
   FIBS_CantInviteSelf = ["^\\*\\* You can't invite yourself\\."]
@@ -436,7 +436,7 @@ class RunState(State):
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
   FIBS_NoSavedMatch = ["^\\*\\* There's no saved match with "]
-  FIBS_WARNINGSavedMatch = ["^\\*\\* WARNING: Don't accept if you want to continue"]
+  FIBS_WARNINGSavedMatch += ["^\\*\\* WARNING: Don't accept if you want to continue"]
   FIBS_CantGagYourself = ["^\\*\\* You talk too much, don't you\\?"]
   FIBS_CantBlindYourself = ["^\\*\\* You can't read this message now, can you\\?"]
 
-- 
2.43.0


From c0567d6aff85cecd33f680437a3673ad599c1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:46 +0000
Subject: [PATCH 54/59] fix: the kind of a FIBS message depended on the
 messages before it

---
 bglib/protocol/fibs.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 0d2232c..0b93518 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -30,6 +30,7 @@ class CookieMonster(object):
 
 class State(object):
   regexp_cache = dict()
+  overloaded = [] # kinds fitting messages of other kinds too, in the order to try them
 
   def __init__(self):
     self.last_match = list()
@@ -38,7 +39,10 @@ class State(object):
     for name in self.last_match:
       yield name, getattr(self, name)
     for name, value in self.__class__.__dict__.items():
-      yield name, value
+      if name not in self.overloaded:
+        yield name, value
+    for name in self.overloaded:
+      yield name, getattr(self, name)
     
   def candidates(self):
     # try to match latest match first.
@@ -64,6 +68,8 @@ class State(object):
     return self.default()
 
   def bring_to_top(self, name):
+    if name in self.overloaded:
+      return
     try:
       self.last_match.remove(name)
     except:
@@ -73,6 +79,20 @@ class State(object):
 
 class RunState(State):
   ''' =  AlphaBatch + NumericBatch + StarsBatch'''
+  overloaded = ['FIBS_BAD_Board', 'FIBS_AcceptRejectDouble', 'FIBS_Doubles',
+                'FIBS_YouStopWatching', 'FIBS_OpponentLogsOut',
+                'FIBS_FirstRoll', 'FIBS_MakesFirstMove',
+                'FIBS_PlayerWantsToResign', 'FIBS_WatchResign',
+                'FIBS_ResignRefused', 'FIBS_PlayerStartsWatching',
+                'FIBS_PlayerStopsWatching', 'FIBS_PlayerIsWatching',
+                'FIBS_YouAcceptDouble', 'FIBS_PlayerAcceptsDouble',
+                'FIBS_ResumeMatchAck0', 'FIBS_WatchGameWins',
+                'FIBS_PlayersStartingUnlimitedMatch',
+                'FIBS_ReportUnlimitedMatch', 'FIBS_ShowMovesOther',
+                'FIBS_Waves', 'FIBS_RatingCalcInfo', 'FIBS_IsPlayingWith',
+                'FIBS_Stat', 'FIBS_Username', 'FIBS_PlayerLeftGame',
+                'FIBS_NoUser', 'FIBS_AlreadyPlaying', 'FIBS_Why',
+               ]
   def __init__(self):
     self.last_match = ['CLIP_WHO_INFO']
   def next_state(self, name):
-- 
2.43.0


From e1b7f8788cd0358e51fae82954dc7b5b68148f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:46 +0000
Subject: [PATCH 55/59] fix: FIBS messages starting with a name were not
 recognised

---
 bglib/protocol/fibs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 0b93518..c62b400 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -60,7 +60,7 @@ class State(object):
   def make_cookie(self, message):
     for name, regexp in self.candidates():
       try:
-        if regexp.match(message):
+        if regexp.search(message):
           self.bring_to_top(name)
           return name
       except re.error:
@@ -104,7 +104,7 @@ class RunState(State):
       return 'FIBS_Empty'
     for name, regexp in self.candidates():
       try:
-        if re.match(regexp, message):
+        if regexp.search(message):
           self.bring_to_top(name)
           return name
       except re.error:
@@ -181,7 +181,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign += ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["wants to resign\\.$"]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -323,7 +323,7 @@ class RunState(State):
   # ANSI clear screen sequence
 
   FIBS_Timeout = ["^Connection timed out\\."]
-  FIBS_Goodbye = ["           Goodbye\\."]
+  FIBS_Goodbye = ["^           Goodbye\\."]
   FIBS_LastLogin = ["^  Last login:"]
   FIBS_NoInfo = ["^No information found on user"]
 
-- 
2.43.0


From 8c9fd239e3cde57fda5d58396bafcb113a70ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 56/59] fix: where packets ended decided what was taken for a
 login prompt

---
 bglib/protocol/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..97ec8e3 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -97,8 +97,8 @@ class Session(Transport):
       while True:
         if not self.is_active():
           break
-        nth, matchobj, s = self.expect([CRLF, 'login: '])
-        if not nth:
+        nth, matchobj, s = self.expect(['^login: ', CRLF])
+        if nth == 1:
           s = s[:-2] # remove CRLF
         self._dispatch(self.monster.make_cookie(s), s)
     except socket.error, e:
-- 
2.43.0


From de1c63cf8c6692a1cb33cb83862c01eb07df7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 57/59] fix: a subscriber missed a message when another
 unregistered handling it

---
 bglib/protocol/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 97ec8e3..5e99715 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -116,7 +116,7 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in list(self.subscribers):
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From 27b811e9abc256b3fb907c4aa5cb1ca34be110f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 58/59] fix: a handler of one session waiting for another
 session blocked both

---
 bglib/protocol/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 5e99715..7693254 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -35,10 +35,10 @@ def synchronized_with(accessor):
 
 
 class Transport(telnetlib.Telnet):
-  _lock = threading.RLock()
   lock = lambda self, *args, **kw : self._lock
   
   def __init__(self, timeout=None, debug=None):
+    self._lock = threading.RLock()
     telnetlib.Telnet.__init__(self)
     if timeout:
       self.timeout = timeout
-- 
2.43.0


From 602f2e014d50b61b01170b45efee0530a17d634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:54 +0000
Subject: [PATCH 59/59] fix: a step could be suggested for taking back from a
 point left since

---
 bglib/model/move.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 238c0c4..b757687 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -407,7 +407,15 @@ class MoveFactory(object):
     assert isinstance(dest, int)
     assert(src < dest)
 
+    if b.on_action == YOU:
+      to_move, to_hit = b.position
+    else:
+      to_hit, to_move = b.position
+
     for pm in self.move.find(src):
+      if not mv and src > OFF and to_move[src] == 0:
+        # what came here has gone further since
+        break
       inverse = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
       mv.append(inverse)
       if inverse.dest == dest:
-- 
2.43.0

