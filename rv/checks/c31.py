"""The wall of unseen tiles: drawing without replacement, fairly."""
import random
from collections import Counter

from rv import lib, ref
from mahjong.container.distribution import StaticWall, TileDistribution

ID = "C31"
RULE = ("walls of 1..136 tiles (full, thin, one-sided, with red fives); weights, single draws and sequences of draws, several samplers "
        "over one wall stepped alternately, draws to the last tile and beyond; drawn tiles never exceed the wall, the wall never "
        "changes, and over many seeded draws every position of the sequence follows the composition of what was left (6 sigma); "
        "distributions of one's own: scripted ones that leave one choice at a time, and loaded ones with broken weights, with and without replacement; "
        "distinct = (wall, draws)")
FLOORS = {"walls": 300, "picks": 2000, "exhausted": 100, "interleaved": 200, "draws": 20000, "statistics": 300, "pair_statistics": 50, "scripted": 200, "loaded": 8}
ASSUMPTIONS = ["the standard pseudo-random generator is fair"]


def plan(tier):
    q = tier == "quick"
    return [("walls", 24 if q else 400), ("fair", 16 if q else 200), ("own", 8 if q else 100)]


def wall(rng):
    r = rng.random()
    if r < .3:
        kinds = lib.wall_kinds()
        rng.shuffle(kinds)
        kinds = kinds[:rng.choice([136, 122, 70, 14, 3, 1])]
    elif r < .6:
        kinds = [k for k in rng.sample(range(34), rng.randrange(1, 8)) for _ in range(rng.randrange(1, 5))]
    else:
        kinds = [k for k in range(34) for _ in range(rng.choice([0, 0, 1, 4]))] or [0]
    rng.shuffle(kinds)
    return kinds, lib.given(rng, kinds)


def weights(w):
    got = [0] * 34
    for t, x in zip(TileDistribution.ALL_TILES, w.weights()):
        got[lib.tile_kind(t)] += x
    return got


def case(kind, index, rng, mon):
    random.seed(rng.random())
    if kind == "own":
        return own(rng, mon)
    if kind == "fair":
        return fair(rng, mon)
    mon.eq(sorted(lib.tile_kind(t) for t in TileDistribution.ALL_TILES), list(range(34)), "the tiles of a wall are not the 34 tiles")
    for _ in range(20):
        kinds, ts = wall(rng)
        counts = ref.counts_of(kinds)
        w = StaticWall(ts)
        mon.ctx(wall=lib.names(kinds))
        mon.distinct((tuple(counts),))
        mon.ev("walls")
        mon.eq(weights(w), counts, "the weights are not the tiles left")
        mine = w.weights()
        for i in range(len(mine)):
            mine[i] = rng.randrange(3)      # the caller's own
        mon.eq(weights(w), counts, "changing the weights given out changed the wall")
        for k in range(34):
            mon.eq(w.weight_of(lib.tile(k)), counts[k], "the weight of a tile is not how many are left", tile=ref.kind_name(k))
        cur, left = w, list(counts)
        trail = [(w, list(left))]
        for _ in range(min(len(kinds), rng.randrange(1, 12))):
            k = rng.choice([x for x in range(34) if left[x]])
            cur = cur.pick(lib.tile(k))
            left[k] -= 1
            trail.append((cur, list(left)))
            mon.ev("picks")
        for w2, l2 in trail:
            mon.eq(weights(w2), l2, "drawing a tile does not leave the wall without it, or changed an earlier wall")
        n = len(kinds)
        for count in {0, 1, rng.randrange(n + 1), n}:
            got = ref.counts_of(lib.kinds_of(w.sample(count)))
            mon.eq(sum(got), count, "another number of tiles is drawn")
            mon.check(all(g <= c for g, c in zip(got, counts)), "tiles are drawn that the wall does not hold", got=got)
            if count == n:
                mon.eq(got, counts, "drawing all tiles does not give the wall")
                mon.ev("exhausted")
            mon.ev("draws", count)
        over = []
        try:
            for t in w.sample(n + rng.randrange(1, 4)):
                over.append(lib.tile_kind(t))
                mon.check(len(over) <= n, "a tile is drawn from an empty wall", got=over[-1])
        except (ValueError, IndexError, KeyError, ZeroDivisionError):
            pass
        mon.check(ref.counts_of(over) == counts, "drawing beyond the end does not give the wall first", got=over)
        its = [iter(w.sample(n)) for _ in range(rng.randrange(2, 4))]
        outs = [[] for _ in its]
        live = list(range(len(its)))
        while live:
            i = rng.choice(live)
            try:
                outs[i].append(lib.tile_kind(next(its[i])))
            except StopIteration:
                live.remove(i)
            if rng.random() < .02 and live:
                live.remove(rng.choice(live))       # abandoned
        for o in outs:
            c = ref.counts_of(o)
            mon.check(all(a <= b for a, b in zip(c, counts)), "samplers over one wall disturb each other", got=c)
        mon.ev("interleaved")
        mon.eq(weights(w), counts, "sampling changed the wall")
        mon.eq(lib.set_counts(ts), counts, "sampling changed the tiles the wall was made from")
    mon.sample({"walls": 20})


class Scripted(TileDistribution):
    """Leaves one tile to draw at a time."""
    def __init__(self, chain, weight, picked):
        self.chain, self.weight, self.picked = chain, weight, picked

    def weight_of(self, tile):
        return self.weight if self.chain and lib.tile_kind(tile) == self.chain[0] else 0

    def pick(self, tile):
        self.picked.append(lib.tile_kind(tile))
        return Scripted(self.chain[1:] if lib.tile_kind(tile) == self.chain[0] else (), self.weight, self.picked)


class Loaded(TileDistribution):
    """Draws with replacement by weights of any size."""
    def __init__(self, shares):
        self.shares = shares

    def weight_of(self, tile):
        return self.shares[lib.tile_kind(tile)]

    def pick(self, tile):
        return self


def own(rng, mon):
    for _ in range(40):
        chain = tuple(rng.randrange(34) for _ in range(rng.choice([1, 2, 5, 30])))
        d = Scripted(chain, rng.choice([1, 4, .001, 1e9]), [])
        n = rng.randrange(1, len(chain) + 1)
        got = tuple(lib.tile_kind(t) for t in d.sample(n))
        mon.eq(got, chain[:n], "a sequence of draws does not follow what each draw leaves")
        mon.check(tuple(d.picked) in (chain[:n], chain[:n - 1]), "other tiles are taken than those drawn", drawn=got, taken=d.picked)
        mon.eq(d.chain, chain, "sampling changed the distribution")
        mon.ev("scripted")
    shares = [0] * 34
    for k in rng.sample(range(34), rng.randrange(2, 9)):
        shares[k] = rng.choice([.25, .5, 1, 3, 7.5, 1e-3])
    d, total, n = Loaded(shares), sum(shares), 4000
    seen = Counter(lib.tile_kind(t) for t in d.sample(n))
    for k in range(34):
        if shares[k]:
            near(mon, seen[k], n, shares[k] / total, "loaded distribution", tile=ref.kind_name(k), shares=shares)
        else:
            mon.eq(seen[k], 0, "a tile without weight was drawn")
    mon.ev("loaded")
    mon.ev("draws", n)
    mon.distinct(("own", tuple(shares)))


def near(mon, seen, n, p, what, **w):
    mon.check(abs(seen - n * p) <= 6 * (n * p * (1 - p)) ** .5 + 4, "draws are not fair: " + what, seen=seen, expected=n * p, of=n, **w)


def fair(rng, mon):
    kinds, ts = wall(rng)
    while len(set(kinds)) < 2:
        kinds, ts = wall(rng)
    counts = ref.counts_of(kinds)
    w, N = StaticWall(ts), len(kinds)
    depth = min(N, rng.choice([2, 3, 5]))
    n = 1500
    at = [Counter() for _ in range(depth)]
    twice = Counter()
    mon.ctx(wall=lib.names(kinds))
    for _ in range(n):
        s = [lib.tile_kind(t) for t in w.sample(depth)]
        for i, k in enumerate(s):
            at[i][k] += 1
        if s[0] == s[1]:
            twice[s[0]] += 1
    mon.ev("draws", n * depth)
    for i in range(depth):
        for k in range(34):
            if counts[k]:
                near(mon, at[i][k], n, counts[k] / N, "position %d" % i, tile=ref.kind_name(k))
                mon.ev("statistics")
            else:
                mon.eq(at[i][k], 0, "a tile not in the wall was drawn")
    for k in range(34):
        if counts[k]:
            near(mon, twice[k], n, counts[k] * (counts[k] - 1) / (N * (N - 1)), "the same tile twice", tile=ref.kind_name(k))
    near(mon, sum(twice.values()), n, sum(c * (c - 1) for c in counts) / (N * (N - 1)), "any tile twice")
    mon.ev("pair_statistics", sum(1 for c in counts if c))
    mon.distinct(("fair", tuple(counts), depth))
