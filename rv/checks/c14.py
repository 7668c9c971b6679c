"""Index <-> category tuples."""
import itertools
import math

from mahjong.record.category import MixedCategory, SubCategory

ID = "C14"
RULE = ("random category systems (one to four digits, bounded or open-ended head; mixed systems of one to five unequal parts, "
        "nested, with and without names); every index up to a bound is converted to a tuple and back and compared with plain "
        "positional arithmetic, and every tuple is reached exactly once; distinct = (shape, index)")
FLOORS = {"flat": 200, "mixed": 200, "open_ended": 50, "named": 30, "uneven": 50, "nested": 10, "huge": 200, "open_mixed": 50, "list_used_again": 100, "named_nested": 100}


def plan(tier):
    return [("flat", 16 if tier == "quick" else 200), ("mixed", 24 if tier == "quick" else 400)]


def expect_flat(shape, i):
    out = []
    for d in reversed(shape[1:]):
        i, r = divmod(i, d)
        out.append(r)
    out.append(i)
    return tuple(reversed(out))


def case(kind, index, rng, mon):
    for _ in range(20):
        if kind == "flat":
            shape = [rng.randrange(1, 10) for _ in range(rng.randrange(1, 5))]
            size = math.prod(shape)
            opened = rng.random() < .3
            names = None
            kw = {}
            if rng.random() < .4:
                names = ["f%d" % i for i in range(len(shape))]
                kw = dict(caption="cap", names=names)
            c = SubCategory(*([-1] + shape[1:] if opened else shape), **kw)
            mon.ctx(shape=shape, opened=opened)
            if not opened:
                mon.eq(len(c), size, "the size of a category system is wrong")
            seen = set()
            # far beyond what a float or a machine word can hold
            huge = [rng.randrange(10 ** rng.choice([12, 17, 18, 20, 25, 40])) + size + 10 ** 4 for _ in range(4)] if opened else []
            mon.ev("huge", len(huge))
            for i in list(range(min(size, 400))) + ([size + rng.randrange(10 ** 4)] if opened else []) + huge:
                t = c.category(i)
                mon.eq(tuple(t), expect_flat(shape, i), "an index has the wrong category", index=i)
                mon.eq(c.index(t), i, "converting an index and back changes it", index=i, category=tuple(t))
                mon.eq(c.index(tuple(t)), i, "converting an index and back changes it", index=i)
                if names:
                    mon.eq(t._asdict(), dict(zip(names, expect_flat(shape, i))), "named fields are wrong", index=i)
                seen.add(tuple(t))
                mon.distinct((tuple(shape), i))
            mon.check(len(seen) == min(size, 400) + opened + len(huge), "two indices share a category")
            if not opened:
                try:
                    t = c.category(size + rng.randrange(50))
                except Exception:
                    mon.ev("out_of_range_rejected")
                else:
                    mon.check(False, "an index out of range is accepted", got=tuple(t))
            mon.ev("flat")
            mon.ev("open_ended", int(opened))
            mon.ev("named", int(bool(names)))
            mon.sample({"shape": shape, "open": opened})
        else:
            named = rng.random() < .3
            parts, flat, deep = [], [], set()
            for _ in range(rng.randrange(1, 6)):
                if rng.random() < .2 and named:
                    # a part that is itself mixed and named
                    inner = [[rng.randrange(1, 5) for _ in range(rng.randrange(1, 3))] for _ in range(rng.randrange(1, 4))]
                    parts.append(MixedCategory([SubCategory(*x, caption="q%d" % j, names=["b%d" % i for i in range(len(x))])
                                                for j, x in enumerate(inner)], caption="m%d" % len(parts), field_name="sub"))
                    flat.append([(j,) + t for j, x in enumerate(inner) for t in itertools.product(*map(range, x))])
                    deep.add(len(parts) - 1)
                    mon.ev("named_nested")
                    continue
                if rng.random() < .2 and not named:
                    a, b = [rng.randrange(1, 5)], [rng.randrange(1, 4), rng.randrange(1, 4)]
                    parts.append(MixedCategory([SubCategory(*a), SubCategory(*b)]))
                    flat.append([(0,) + t for t in itertools.product(range(a[0]))] +
                                [(1,) + t for t in itertools.product(range(b[0]), range(b[1]))])
                    mon.ev("nested")
                    continue
                shape = [rng.randrange(1, 7) for _ in range(rng.randrange(1, 4))]
                kw = dict(caption="p%d" % len(parts), names=["a%d" % j for j in range(len(shape))]) if named else {}
                parts.append(SubCategory(*shape, **kw))
                flat.append(list(itertools.product(*[range(x) for x in shape])))
            kw = dict(caption="mixed", field_name="part") if named else {}
            tail = None
            if rng.random() < .4:
                # an open-ended last part, perhaps inside a part of its own
                tail = [rng.randrange(1, 7) for _ in range(rng.randrange(3))]
                kt = dict(caption="rest", names=["a%d" % j for j in range(len(tail) + 1)]) if named else {}
                last = SubCategory(-1, *tail, **kt)
                lead = (len(parts),)
                if rng.random() < .3 and not named:
                    a = [rng.randrange(1, 5)]
                    last = MixedCategory([SubCategory(*a), last])
                    flat.append([(0,) + t for t in itertools.product(range(a[0]))])
                    lead += (1,)
                parts.append(last)
            c = MixedCategory(iter(parts) if rng.random() < .3 else parts, **kw)
            if rng.random() < .4:
                # the list belongs to the caller, who goes on to use it for another system
                parts.insert(rng.randrange(len(parts) + 1), SubCategory(rng.randrange(1, 9)))
                if rng.random() < .5:
                    parts.reverse()
                mon.ev("list_used_again")
            want = [(p,) + t for p, ts in enumerate(flat) for t in ts]
            sizes = [len(ts) for ts in flat]
            mon.ctx(sizes=sizes)
            if tail is None:
                mon.eq(len(c), len(want), "the size of a mixed system is wrong")
            else:
                for j in list(range(30)) + [rng.randrange(10 ** e) for e in (3, 9, 17, 20, 40)]:
                    w, i = lead + expect_flat([0] + tail, j), len(want) + j
                    t = c.category(i)
                    mon.eq(tuple(t), w, "an index has the wrong category", index=i)
                    mon.eq(c.index(w), i, "a category has the wrong index", category=w)
                mon.ev("open_mixed")
            for i, w in enumerate(want):
                t = c.category(i)
                mon.eq(tuple(t), w, "an index has the wrong category", index=i)
                mon.eq(c.index(w), i, "a category has the wrong index", category=w)
                mon.distinct((tuple(sizes), i))
                if named:
                    mon.eq(tuple(t._asdict().items()), tuple(zip(("part",) + (("sub",) + tuple("b%d" % j for j in range(len(w) - 2)) if w[0] in deep
                                                  else tuple("a%d" % j for j in range(len(w) - 1))), w)),
                           "named fields are wrong", index=i)
            mon.ev("mixed")
            mon.ev("named", int(named))
            mon.ev("uneven", int(len(set(sizes)) > 1))
            mon.sample({"sizes": sizes})
