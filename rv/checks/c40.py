"""Forms of one's own, described as win patterns, are judged like the library's."""
from itertools import combinations_with_replacement as multisets

from rv import lib, ref
from mahjong.container.pattern.reasoning import BruteForceWaiting, HeuristicPatternMatchWaiting, PatternMatchWaiting
from mahjong.container.pattern.win import WinPattern
from mahjong.container.set import TileSet

ID = "C40"
RULE = ("forms described by subclasses of the abstract win pattern (only triplets, only runs, one suit, no ends, gapped runs, runs of winds, one "
        "number in three suits, groups of four, mixtures of random groups; 0..4 groups and 0..5 pairs), with hands near and far; win tests, readings, steps, useful tiles "
        "and discards of every analyser are compared with an enumeration of all ways to make the form; distinct = (form, hand)")
FLOORS = {"won": 60, "lost": 200, "readings": 60, "steps": 300, "useful": 300, "batch": 80, "few_tiles": 60, "limit_off": 60, "form_fours": 20, "form_triplets": 20, "form_three_suits": 20, "form_mixture": 20, "brute": 15, "pattern": 60}


def plan(tier):
    return [("own", 120 if tier == "quick" else 1200)]


class Own(WinPattern):
    """Groups by the first tile they hold."""
    def __init__(self, groups, pairs_of, melds, pairs, size=3, none=None):
        super().__init__()
        self.none = none
        self.groups, self.pairs_of, self.melds, self.pairs, self.size = groups, pairs_of, melds, pairs, size

    def has_win(self):
        return not self.melds and not self.pairs

    def next_states(self, tile):
        found = list(self.states_of(lib.tile_kind(tile)))
        return found or self.none       # nothing may be told as nothing

    def states_of(self, k):
        if self.pairs and k in self.pairs_of:
            yield TileSet({lib.tile(k): 2}), Own(self.groups, self.pairs_of, self.melds, self.pairs - 1, self.size, self.none)
        if self.melds:
            for g in self.groups.get(k, ()):
                yield TileSet([lib.tile(x) for x in g]), Own(self.groups, self.pairs_of, self.melds - 1, self.pairs, self.size, self.none)

    def need_count(self):
        return self.melds * self.size + self.pairs * 2

    def need_units(self):
        return self.melds + self.pairs

    def max_unit_length(self):
        return self.size if self.melds else 2


RUNS = [(9 * s + n, 9 * s + n + 1, 9 * s + n + 2) for s in range(3) for n in range(7)]
TRIPLETS = [(k, k, k) for k in range(34)]


def form(rng):
    """Name, groups, kinds a pair may be of."""
    name = rng.choice(["triplets", "runs", "one suit", "no ends", "gapped", "winds", "three suits", "fours", "mixture"])
    pairs = rng.sample(range(34), rng.choice([4, 10]))
    if name == "triplets":
        g = rng.sample(TRIPLETS, 16)
    elif name == "runs":
        g = rng.sample(RUNS, 14)
    elif name == "one suit":
        s = rng.randrange(3)
        g = [x for x in RUNS + TRIPLETS if all(9 * s <= k < 9 * s + 9 for k in x)]
        pairs = list(range(9 * s, 9 * s + 9))
    elif name == "no ends":
        mid = [k for k in range(27) if 0 < k % 9 < 8]
        g = rng.sample([x for x in RUNS + TRIPLETS if all(k in mid for k in x)], 16)
        pairs = rng.sample(mid, 8)
    elif name == "gapped":
        g = [(9 * s + n, 9 * s + n + 2, 9 * s + n + 4) for s in range(3) for n in range(5)]
    elif name == "winds":
        g = [(27, 28, 29), (28, 29, 30), (27, 29, 30), (27, 28, 30), (31, 32, 33)] + rng.sample(TRIPLETS, 6)
        pairs = list(range(27, 34))
    elif name == "three suits":
        g = [(n, 9 + n, 18 + n) for n in range(9)]
    elif name == "fours":
        g = [(k,) * 4 for k in rng.sample(range(34), 6)] + [tuple(9 * s + n + i for i in range(4)) for s in range(3) for n in range(6)]
    else:
        g = list({tuple(sorted(rng.choice([rng.sample(range(34), 3), [rng.randrange(34)] * 3, rng.choice(RUNS)]))) for _ in range(14)})
    return name, sorted(g), sorted(pairs)


def ways(groups, pairs, m, p, cap):
    """Every multiset of units that makes the form, with what it takes of each kind."""
    for gs in multisets(groups, m):
        for ps in multisets(pairs, p):
            need = {}
            for u in gs + tuple((k, k) for k in ps):
                for k in u:
                    need[k] = need.get(k, 0) + 1
            if max(need.values(), default=0) <= cap:
                yield gs + tuple((k, k) for k in ps), need


def case(kind, index, rng, mon):
    for _ in range(6):
        name, groups, pairs = form(rng)
        m, p = rng.choice([(0, 1), (0, 2), (1, 0), (1, 1), (1, 1), (2, 0), (2, 1), (2, 1), (1, 2), (3, 1), (4, 1), (0, 5)])
        if m > 2:
            groups, pairs = sorted(rng.sample(groups, min(len(groups), 9 if m == 3 else 6))), pairs[:5]
        elif p > 2:
            pairs = pairs[:6]
        by = {}
        for g in groups:
            by.setdefault(min(g), []).append(g)
        cap = 4 if rng.random() < .7 else 99
        every = [(u, n) for u, n in ways(groups, pairs, m, p, 99)]
        fits = [(u, n) for u, n in every if cap == 99 or max(n.values()) <= cap]
        if not fits:
            continue
        mon.ev("form_" + name.replace(" ", "_"))
        size = len(groups[0])
        need = size * m + 2 * p
        for _ in range(3):
            hand(rng, mon, name, by, pairs, m, p, cap, every, fits, need, size)


def hand(rng, mon, name, by, pairs, m, p, cap, every, fits, need, size):
    u, n = rng.choice(fits)
    h = [k for x in u for k in x]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        h.pop(rng.randrange(len(h)))
        h.append(rng.randrange(34))
    more = rng.choice([0, 0, -1, -1, 1])
    h = h + [rng.randrange(34)] if more == 1 else h[1:] if more else h
    if rng.random() < .25:
        # few tiles, of which some group has none.
        h = [rng.randrange(34) for _ in range(rng.randrange(4))] + rng.sample(h, min(len(h), rng.choice([0, 2, 4])))
        mon.ev("few_tiles")
    counts = ref.counts_of(h)
    if max(counts) > 4:
        return
    pat = Own(by, set(pairs), m, p, size, rng.choice([None, (), []]))
    mon.ctx(form=name, groups=by, pairs=pairs, melds=m, heads=p, hand=lib.names(h), limit=cap)
    won = any(all(counts[k] >= c for k, c in n.items()) for _, n in every)
    mon.check(bool(pat.match(lib.given(rng, h))) == won, "a win test is wrong for a form of one's own", expected=won)
    mon.ev("won" if won else "lost")
    mon.distinct((name, str(by), m, p, cap, tuple(counts)))
    if won:
        got = sorted(sorted(tuple(sorted(lib.kinds_of(x.tiles()))) for x in sel) for sel in pat.unique_win_selections(lib.given(rng, h)))
        want = sorted(sorted(us) for us, n in every if all(counts[k] >= c for k, c in n.items()))
        mon.check(got == want, "the readings are wrong for a form of one's own", got=got[:6], expected=want[:6])
        mon.ev("readings")
    costs = [(sum(max(0, c - counts[k]) for k, c in n.items()), n) for _, n in fits]
    least = min(c for c, _ in costs)
    best = [n for c, n in costs if c == least]
    useful = {k for n in best for k, c in n.items() if c > counts[k]}
    kw = {} if cap == 4 else {"ignore_4counts": False}
    if cap != 4:
        mon.ev("limit_off")
    engines = [("heuristic", HeuristicPatternMatchWaiting)]
    if least <= 2 and m <= 2:
        engines.append(("pattern", PatternMatchWaiting))
        mon.ev("pattern")
    if least <= 1 and rng.random() < .3 or least == 0:
        engines.append(("brute", BruteForceWaiting))
        mon.ev("brute")
    for e, cls in engines:
        eng = cls(pat)
        step = eng.before_waiting_step(lib.given(rng, h), **kw)
        mon.check(step == least - 1, "the step is wrong for a form of one's own", analyser=e, got=step, expected=least - 1)
        mon.ev("steps")
        if least:
            got = set(lib.kinds_of(eng.useful_tiles(lib.given(rng, h), **kw)))
            mon.check(got == useful, "the useful tiles are wrong for a form of one's own", analyser=e, got=lib.names(got), expected=lib.names(useful))
            mon.ev("useful")
    if least and len(h) == need:
        want = {}
        for n in best:
            for k in range(34):
                if counts[k] > n.get(k, 0):
                    want.setdefault(k, set()).update(x for x, c in n.items() if c > counts[x])
        got = {lib.tile_kind(t): (s, set(lib.kinds_of(u))) for t, s, u in
               HeuristicPatternMatchWaiting(pat).batch_waiting_and_useful_tiles(lib.given(rng, h), **kw)}
        mon.check(got == {k: (least - 1, u) for k, u in want.items()}, "the best discards are wrong for a form of one's own", got=got, expected=want)
        mon.ev("batch")
    mon.sample({"form": name, "melds": m, "pairs": p, "hand": lib.names(h), "step": least - 1})
