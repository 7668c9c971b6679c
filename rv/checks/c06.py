from rv import lib, ref

ID = "C06"
RULE = ("complete and larger hands with one or many readings (runs against triplets, shared pairs, repeated runs); every "
        "reading listed must be valid and the set listed must equal the reference enumeration, the unique listing without "
        "repeats; distinct = (form, hand)")
FLOORS = {"readings_1": 30, "readings_many": 100, "no_reading": 30, "readings_over_64": 60, "five_or_more": 60}
ASSUMPTIONS = ["reference enumeration rv/ref.py decompositions()"]


def plan(tier):
    return [("hands", 80 if tier == "quick" else 1000), ("large", 16 if tier == "quick" else 200)]


def units_of(selection):
    out = []
    for unit in selection:
        tiles = []
        for t, n in unit.items():
            tiles += [lib.tile_kind(t)] * n
        out.append(tuple(sorted(tiles)))
    return tuple(sorted(out))


def case(kind, index, rng, mon):
    for _ in range(25 if kind == "hands" else 6):
        if kind == "large":     # sets far larger than a hand (a wall, several hands together, more than four of a tile)
            form = rng.choice([("normal", 2, 1), ("normal", 3, 0), ("normal", 2, 0), ("normal", 2, 2), ("pairs", 2), ("pairs", 3), ("normal", 0, 3), ("normal", 1, 1)])
            a = 9 * rng.randrange(3)
            h = [rng.choice([a + rng.randrange(9), a + rng.randrange(4), rng.randrange(34)]) for _ in range(rng.randrange(18, 30))]
        elif rng.random() < .25:
            form = ("pairs", rng.choice([2, 3, 7, 7]))
            h = [k for k in rng.sample(range(34), form[1]) for _ in range(2)]
            for _ in range(rng.randrange(0, 4)):
                k = rng.randrange(34)
                if h.count(k) < 4:
                    h.append(k)
        else:
            form = ("normal", rng.choice([1, 2, 3, 4, 4, 4]), rng.choice([1, 1, 1, 0]))
            s = 9 * rng.randrange(3)
            while True:
                if rng.random() < .6:       # dense in one suit: many readings
                    a = s + rng.randrange(4)
                    h = []
                    for _ in range(form[1]):
                        x = a + rng.randrange(4)
                        h += rng.choice([[x, x + 1, x + 2] if x % 9 <= 6 else [x] * 3, [x] * 3])
                    if form[2]:
                        x = a + rng.randrange(5)
                        h += [x, x]
                else:
                    h = lib.complete_hand(rng, form[1], rng.randrange(3) if rng.random() < .5 else None)
                    if not form[2]:
                        h = h[:-2]
                if max(ref.counts_of(h)) <= 4:
                    break
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                k = rng.choice(h)
                if h.count(k) < 4:
                    h.append(k)
            if rng.random() < .15:
                h.pop()
            if rng.random() < .1:
                k = rng.choice(h)
                h += [k] * (rng.randrange(5, 8) - h.count(k))
        rng.shuffle(h)
        counts = ref.counts_of(h)
        if max(counts) > 4:
            mon.ev("five_or_more")
        want = ref.decompositions(form, counts)
        mon.ctx(form=form, hand=lib.names(h))
        got = [units_of(sel) for sel in lib.pattern(form).win_selections(lib.given(rng, h))]
        mon.check(set(got) == want, "the readings of a hand are wrong", extra=sorted(set(got) - want)[:5],
                  lost=sorted(want - set(got))[:5])
        uniq = [units_of(sel) for sel in lib.pattern(form).unique_win_selections(lib.given(rng, h))]
        mon.check(set(uniq) == want, "the unique readings of a hand are wrong", extra=sorted(set(uniq) - want)[:5],
                  lost=sorted(want - set(uniq))[:5])
        mon.check(len(uniq) == len(set(uniq)), "a reading is listed twice", got=uniq[:8])
        mon.ev("no_reading" if not want else "readings_1" if len(want) == 1 else "readings_many")
        if len(want) > 64:
            mon.ev("readings_over_64")
        mon.ev("readings", len(want))
        mon.distinct((form, tuple(counts)))
        mon.sample({"form": form, "hand": lib.names(h), "readings": len(want)})
