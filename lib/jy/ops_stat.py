# -*- coding: us-ascii -*-
import random
from bglib.stat import rating, tourney


def chances(high, low, length):
  return [rating.upset_chance(high, low, length), rating.winning_chance(high, low, length)]


def many(cases):
  return [chances(*c) for c in cases]


def gains(a, b, length):
  return [rating.gain_on_win(a, b, length), rating.gain_on_win(b, a, length)]


def tchance(player, average, rounds, length):
  return tourney.tourney_chance(player, average, rounds, length)


def handicaps(player, average, rounds, length, winner, runnerup, fee):
  return [tourney.prize_handicap(player, average, rounds, length, winner, runnerup),
          tourney.entryfee_handicap(player, average, rounds, length, fee),
          tourney.tourney_chance(player, average, rounds, length),
          tourney.tourney_chance(average, average, rounds, length)]


def look(t):
  return [sorted([(k, p.lives, p.rating, bool(p.isdead())) for k, p in d.items()]) for d in (t.alive, t.dead)]


def run(players, n, seed, rounds, length):
  """players: list of (name, lives, rating) or None for n default players."""
  random.seed(seed)
  entries = {}
  if players is None:
    t = tourney.Tourney(n)
  else:
    entries = dict([(k, tourney.Player(l, r)) for k, l, r in players])
    t = tourney.Tourney(n, entries)
  if length:
    t.matchlength = length
  out = [look(t)]
  for i in range(rounds):
    if i > 2 and len(out[-1][0]) < 2 and len(out[-2][0]) < 2:
      break
    t.round()
    out.append(look(t))
  return out, entries.keys()


def duels(gap, n, seed, length):
  """How often the favourite of two players survives."""
  random.seed(seed)
  w = 0
  for i in range(n):
    t = tourney.Tourney(2, {'a': tourney.Player(1, 1000 + gap), 'b': tourney.Player(1, 1000)})
    t.matchlength = length
    t.round()
    w += t.alive.keys() == ['a']
  return w
