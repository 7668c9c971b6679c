"""The win rate tool reports what happened in its experiments."""
import os
import random
import re
from collections import Counter

from rv import lib, ref
from mahjong import win_rate_demo
from mahjong.container.distribution import TileDistribution

ID = "C32"
RULE = ("runs of the tool on complete, waiting and hopeless hands of 14 tiles (red fives, wrong numbers of tiles first), 0 to all "
        "remaining draws, 1 to 1000 experiments; every wall drawn is recorded, checked against the tiles left and judged by the "
        "reference for every discard; the printed counts, rates, order and pick rates are compared with that; distinct = runs")
FLOORS = {"runs": 60, "walls": 3000, "wins": 500, "never_won": 3, "always_won": 3, "reprompts": 10, "lines": 400, "no_draws": 3,
          "all_draws": 1, "seven_pairs_only": 3, "default_times": 1, "single_winner": 1, "slow_machine": 15, "progress": 50}


def plan(tier):
    q = tier == "quick"
    return [("runs", 96 if q else 1600), ("thousand", 1 if q else 12)]


LINE = re.compile(r"discard (\d[mpsz]): (-?[\d.]+)% win rate \((\d+)/(\d+)\), (-?[\d.]+)% rough pick rate, (-?[\d.]+)% accurate pick rate\Z")


class Walls:
    """Records what every sampler gave."""

    def __enter__(self):
        self.seen, self.old, walls = [], TileDistribution.sample, self

        def sample(wall, count):
            out = list(walls.old(wall, count))
            walls.seen.append([lib.tile_kind(t) for t in out])
            return iter(out)

        TileDistribution.sample = sample
        return self

    def __exit__(self, *exc):
        TileDistribution.sample = self.old


def wins(counts):
    """Does this many tiles hold four groups and a pair, or seven pairs?"""
    if ref.missing(("pairs", 7), counts) == 0:
        return "pairs" if ref.missing(("normal", 4, 1), counts) else "both"
    return "normal" if ref.missing(("normal", 4, 1), counts) == 0 else None


def text_of(rng, kinds):
    return rng.choice(["", "", " "]) + lib.notation(rng, kinds) + rng.choice(["", "", " ", "\t"])


def clock_of(rng):
    """A clock that says that the experiments take long, or None."""
    if rng.random() < .6:
        return None
    step = rng.choice([.4, 2, 30, 900, 40000])
    now = [rng.random() * 1000]

    def clock():
        now[0] += step
        return now[0]
    return clock


def case(kind, index, rng, mon):
    random.seed(rng.random())
    r = rng.random()
    if r < .35:
        h = lib.complete_hand(rng, 4, rng.randrange(3) if rng.random() < .5 else None)
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.randrange(14)
            k = rng.randrange(34)
            if h.count(k) < 4:
                h[i] = k
    elif r < .5:
        h = lib.seven_pairs_hand(rng)
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(34)
            if h.count(k) < 4:
                h[rng.randrange(14)] = k
    elif r < .6:
        h = [k for k in range(34) if k % 9 % 4 == 0 or k >= 27] + [3]
        h = rng.sample(h, 14) if len(h) >= 14 else lib.hand(rng, 4, 14)[0]
    else:
        h = lib.hand(rng, 4, 14)[0]
    while len(h) < 14:
        h.append(rng.choice([k for k in range(34) if h.count(k) < 4]))
    counts = ref.counts_of(h)
    draws = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 12, 18])
    times = rng.choice([1, 2, 5, 20, 60])
    if kind == "thousand":
        draws, times = 1, 1000
    elif index % 32 == 0:
        draws, times = 122, 1
    if kind == "runs" and index % 12 == 5:
        # one tile away with a single useful tile: the discard that waits is the only one that can win
        draws, times = 1, 60
        h = lib.complete_hand(rng, 4)
        i = rng.randrange(14)
        k = rng.choice([x for x in range(34) if x not in h])
        h[i] = k
        counts = ref.counts_of(h)
    lines = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        n = rng.choice([0, 1, 13, 15, 18])
        lines.append(lib.notation(rng, lib.hand(rng, 4, n)[0][:n]) if n else rng.choice(["", "hello", "z"]))
    bad = len(lines)
    # generated hands may come short; only wrong sizes belong here
    lines = [x for x in lines if len(lib.parse(x)) != 14]
    bad = len(lines)
    blank = kind == "thousand"
    lines += [text_of(rng, h), str(draws), rng.choice(["", " "]) if blank else str(times)]
    mon.ctx(hand=lib.names(h), draws=draws, times=times, typed=lines)
    paused = []
    old_system = os.system
    os.system = lambda cmd: paused.append(cmd) or 0
    clock = clock_of(rng)
    real = getattr(win_rate_demo, "perf_counter", None)
    try:
        if clock and real:
            win_rate_demo.perf_counter = clock
        with Walls() as walls, lib.stdio("\n".join(lines) + "\n") as out:
            win_rate_demo.main()
    finally:
        os.system = old_system
        if real:
            win_rate_demo.perf_counter = real
    text = out.getvalue()
    mon.check(not [c for c in paused if c != "pause"], "another command was run", got=paused)
    mon.eq(text.count("Input hand:"), bad + 1, "a hand of another size than 14 was not asked for again", out=text[:500])
    for x in lines[:bad]:
        mon.check("You have input %d legal tiles" % len(lib.parse(x)) in text, "the number of tiles typed is reported wrong", out=text[:500])
    mon.ev("reprompts", bad)
    for done, of in re.findall(r"^Experiments (\d+)/(\d+) with", text, re.M):
        mon.check(int(of) == times and 1 <= int(done) <= times, "the progress reported is wrong", got=(done, of))
        mon.ev("progress")
    if clock and real:
        mon.ev("slow_machine")
    left = [4 - c for c in counts]
    seen = walls.seen
    if not seen:
        # walls are drawn some other way: judge by fair experiments of our own
        pool = [k for k in range(34) for _ in range(left[k])]
        seen = [rng.sample(pool, draws) for _ in range(1500)]
        mon.ev("unseen_walls")
    else:
        mon.eq(len(seen), times, "another number of experiments was made")
    won = Counter()
    ways = Counter()
    for w in seen:
        c = ref.counts_of(w)
        mon.eq(len(w), draws, "another number of tiles was drawn in an experiment")
        mon.check(all(a <= b for a, b in zip(c, left)), "tiles were drawn that are not left", got=lib.names(w))
        for k in range(34):
            if counts[k]:
                full = [a + b - (x == k) for x, (a, b) in enumerate(zip(counts, c))]
                how = wins(full)
                if how:
                    won[k] += 1
                    ways[how] += 1
        mon.ev("walls")
    head = re.search(r"for input hand <(.*)>, remain (\d+) draws:", text)
    mon.check(head is not None and int(head.group(2)) == draws, "the number of draws is reported wrong", out=text[-800:])
    mon.eq(lib.set_counts(lib.parse(head.group(1))), counts, "the hand is reported wrong", out=head.group(0))
    rows = []
    for l in text[head.end():].split("\n"):
        if l.strip():
            m = LINE.match(l.strip())
            mon.check(m is not None, "a line of the report is broken", line=l)
            rows.append((ref.name_kind(m.group(1)), float(m.group(2)), int(m.group(3)), int(m.group(4)), float(m.group(5)), float(m.group(6))))
    mon.eq(sorted(r[0] for r in rows), sorted(k for k in range(34) if counts[k]), "not every discard is reported once")
    for k, pct, n, of, rough, final in rows:
        mon.check(0 <= n <= of == times, "the wins of a discard are impossible", got=(n, of), discard=ref.kind_name(k))
        if not walls.seen:
            p = won[k] / len(seen)
            mon.check(abs(n - times * p) <= 6 * (times * p * (1 - p)) ** .5 * (1 + times / len(seen)) ** .5 + 6 + times * .01,
                      "the wins of a discard are not those of fair experiments", got=n, expected=times * p, discard=ref.kind_name(k))
            won[k] = n
        mon.eq((n, of), (won[k], times), "the wins of a discard are wrong", discard=ref.kind_name(k), walls=[lib.names(w) for w in seen][:60])
        mon.check(abs(pct - 100 * won[k] / times) < .0051, "the win rate of a discard is wrong", got=pct, discard=ref.kind_name(k))
        mon.check(-.0051 <= rough <= 100.0051 and -.0051 <= final <= 100.0051, "a pick rate is no rate", got=(rough, final))
        mon.ev("lines")
    won = +won
    finals = [r[5] for r in rows]
    mon.check(all(a >= b - .0101 for a, b in zip(finals, finals[1:])), "discards are not listed best first", got=finals)
    mon.check(abs(sum(finals) - 100) < .006 * len(rows) + .01, "the pick rates do not add up", got=finals)
    mon.check(sum(r[4] for r in rows) < 100 + .006 * len(rows), "the rough pick rates are more than everything", got=[r[4] for r in rows])
    if sum(won.values()) == max(list(won.values()) or [0]) > 0:
        mon.check(rows[0][0] in won and abs(finals[0] - 100) < .01 if len(won) == 1 else True, "the only discard that ever won is not the pick",
                  rows=rows)
        mon.ev("single_winner")
    mon.ev("wins", sum(won.values()))
    if not won:
        mon.ev("never_won")
    if won and all(won[k] == times for k, *_ in rows):
        mon.ev("always_won")
    if not draws:
        mon.ev("no_draws")
    if draws == 122:
        mon.ev("all_draws")
    if ways["pairs"]:
        mon.ev("seven_pairs_only")
    if blank:
        mon.ev("default_times")
    mon.ev("runs")
    mon.distinct((tuple(counts), draws, times, index))
    mon.sample({"hand": lib.names(h), "draws": draws, "times": times, "won": {ref.kind_name(k): v for k, v in won.items()}})
