# -*- coding: us-ascii -*-
# Combinatorics as bglib's tests expect them of tonic.combination.


def fact(n):
  r = 1
  for i in range(2, n + 1):
    r *= i
  return r


def C(n, r):
  if r < 0 or r > n:
    return 0
  return fact(n) // (fact(r) * fact(n - r))


def C_Hash(xs, r):
  """Rank of a 0/1 sequence with r ones among all such sequences (the first element weighs most)."""
  n = len(xs)
  rank = 0
  for i, x in enumerate(xs):
    if x:
      rank += C(n - 1 - i, r)
      r -= 1
  return rank


def C_RHash(rank, n, r):
  """The 0/1 sequence of length n with r ones that has the rank."""
  out = []
  for i in range(n):
    c = C(n - 1 - i, r)
    if r > 0 and rank >= c:
      out.append(1)
      rank -= c
      r -= 1
    else:
      out.append(0)
  return out
