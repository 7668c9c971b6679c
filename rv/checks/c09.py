"""Multisets of tiles against collections.Counter over kinds."""
from collections import Counter

from rv import lib, ref
from mahjong.container.set import TileSet
from mahjong.container.utils import tile_set_from_string

ID = "C09"
RULE = ("random pairs and triples of tile multisets in any insertion order, with red and plain fives, built by every "
        "constructor; sum, difference, intersection, union, containment, exclusion, length, listing and equality are compared "
        "with plain counters, and the operands are checked to be unchanged; distinct = (multiset, multiset)")
FLOORS = {"contains_true": 200, "contains_false": 200, "overdrawn": 100, "reds": 200, "result_changed": 4000}


def plan(tier):
    return [("ops", 60 if tier == "quick" else 900)]


def build(rng, kinds):
    how = rng.randrange(5)
    tiles = [lib.tile(k) for k in kinds]
    if how == 0:
        return TileSet(tiles)
    if how == 1:
        return TileSet(Counter(tiles))
    if how == 2:
        t = TileSet()
        for x in tiles:
            t[x] += 1
        return t
    if how == 3:
        t = TileSet()
        t.update(tiles)
        return t
    return tile_set_from_string(lib.notation(rng, kinds))


def view(ts):
    return Counter({k: n for k, n in enumerate(lib.set_counts(ts)) if n})


def case(kind, index, rng, mon):
    for _ in range(60):
        pool = rng.sample(range(34), rng.randrange(2, 8)) + [4, 13, 22]
        a = [rng.choice(pool) for _ in range(rng.randrange(0, 15))]
        if rng.random() < .5:
            b = rng.sample(a, rng.randrange(len(a) + 1))
            if rng.random() < .3 and b:
                b[0] = rng.choice(pool)
        else:
            b = [rng.choice(pool) for _ in range(rng.randrange(0, 8))]
        rng.shuffle(a)
        A, B = Counter(a), Counter(b)
        ta, tb = build(rng, a), build(rng, b)
        mon.ctx(a=lib.names(a), b=lib.names(b))

        def unchanged(op):
            mon.check(view(ta) == A and view(tb) == B, "an operation changed its operands", operation=op, a_now=str(view(ta)),
                      b_now=str(view(tb)))
        for op, got, want in [("+", ta + tb, A + B), ("-", ta - tb, A - B), ("&", ta & tb, A & B), ("|", ta | tb, A | B)]:
            mon.check(isinstance(got, TileSet), "an operation does not give a tile multiset", operation=op)
            mon.check(view(got) == want and all(n > 0 for n in got.values()), "an operation on tile multisets is wrong",
                      operation=op, got=view(got), expected=want)
            mon.eq(len(got), sum(want.values()), "the size of a result is wrong", operation=op)
            unchanged(op)
            if op == "+":
                order = [lib.tile_kind(t) for t in got]
                mon.eq(order, sorted(order), "a sum does not list its tiles in order")
            for k in range(34):
                got[lib.tile(k)] += 1
            unchanged(op + ", and its result changed in place")
            grown = ta.copy()
            if op == "+":
                grown += tb
            elif op == "-":
                grown -= tb
            elif op == "&":
                grown &= tb
            else:
                grown |= tb
            mon.check(view(grown) == want, "an operation in place is wrong", operation=op, got=view(grown), expected=want)
            unchanged(op + "= on a copy")
            mon.ev("result_changed")
        mon.eq(view(ta - Counter([lib.tile(k) for k in b])), A - B, "difference with a plain counter is wrong")
        sub = not (B - A)
        mon.eq(bool(ta.contains(tb)), sub, "containment is wrong")
        unchanged("contains")
        mon.ev("contains_true" if sub else "contains_false")
        ex = ta.exclude(tb)
        if sub:
            mon.check(ex is not None and view(ex) == A - B, "exclusion is wrong", got=ex and view(ex))
        else:
            mon.check(ex is None, "excluding tiles that are not there gives a result", got=ex and view(ex))
            mon.ev("overdrawn")
        unchanged("exclude")
        if ex is not None:
            ex[lib.tile(3)] += 1
            unchanged("exclude, and its result changed in place")
        mon.eq(len(ta), len(a), "the size of a tile multiset is not the number of its tiles")
        mon.eq(bool(len(ta)), bool(a), "emptiness is wrong")
        listed = [lib.tile_kind(t) for t in ta.tiles()]
        mon.eq(Counter(listed), A, "listing the tiles loses or repeats some")
        unchanged("tiles")
        other = build(rng, rng.sample(a, len(a)))
        mon.check(ta == other and not (ta != other), "equal contents in another order are unequal")
        mon.eq(ta == tb, A == B, "equality is wrong")
        ka, kb = sorted(A.items()), sorted(B.items())
        first = (ta < tb, ta > tb, ta <= tb, ta >= tb)
        mon.eq(first, (ka < kb, ka > kb, ka <= kb, ka >= kb), "order of multisets is wrong")
        mon.check(not ta < other and not other < ta, "equal contents in another order come one before the other")
        unchanged("<")
        str(ta)
        unchanged("str")
        ta.re_sort()
        unchanged("re_sort")
        keys = [lib.tile_kind(t) for t in ta]
        mon.eq(keys, sorted(keys), "sorting leaves tiles out of order")
        if rng.random() < .5:
            tb.re_sort()
        mon.eq((ta < tb, ta > tb, ta <= tb, ta >= tb), (ka < kb, ka > kb, ka <= kb, ka >= kb), "order of multisets is wrong")
        if {4, 13, 22} & set(a):
            mon.ev("reds")
        c = ta.copy()
        mon.check(isinstance(c, TileSet) and view(c) == A, "a copy differs")
        c[lib.tile(0)] += 1
        unchanged("copy")
        mon.distinct((tuple(sorted(a)), tuple(sorted(b))))
        mon.sample({"a": lib.names(a), "b": lib.names(b)})
