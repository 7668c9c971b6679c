"""The harness, before it judges anything: reference models against slower or independent ones, monitors against planted faults."""
import itertools
import random
import sys

from rv import core, model, ref, sim


def naive_contains(form, counts):
    if form[0] == "pairs":
        return sum(1 for c in counts if c >= 2) >= form[1]
    m, p = form[1], form[2]
    if m == p == 0:
        return True
    for k in range(34):
        if counts[k] >= 3 and m:
            c = list(counts)
            c[k] -= 3
            if naive_contains(("normal", m - 1, p), c):
                return True
        if m and k < 27 and k % 9 <= 6 and counts[k] and counts[k + 1] and counts[k + 2]:
            c = list(counts)
            for i in range(3):
                c[k + i] -= 1
            if naive_contains(("normal", m - 1, p), c):
                return True
        if counts[k] >= 2 and p:
            c = list(counts)
            c[k] -= 2
            if naive_contains(("normal", m, p - 1), c):
                return True
    return False


def naive_missing(form, counts, limit=3):
    kinds = [k for k in range(34) if k < 10 or k in (27, 28)]
    for n in range(limit + 1):
        for add in itertools.combinations_with_replacement(kinds, n):
            c = list(counts)
            for k in add:
                c[k] += 1
            if max(c) <= 4 and naive_contains(form, c):
                return n
    return None


def main():
    rng = random.Random(5)
    n = 0
    while n < 60:
        form = rng.choice([("normal", 1, 1), ("normal", 2, 0), ("normal", 0, 2), ("normal", 2, 1)])
        size = 3 * form[1] + 2 * form[2] - rng.randrange(0, 2)
        pool = [k for k in list(range(9)) + [27] for _ in range(4)]
        counts = ref.counts_of(rng.sample(pool, max(1, size)))
        want = naive_missing(form, counts, 2)
        got = ref.missing(form, counts)
        if want is None:
            assert got > 2, (form, counts, got)
        else:
            assert got == want, (form, counts, got, want)
        n += 1
    for _ in range(40):
        s = sim.make(rng)
        els = list(s.root)
        assert len(list(model.states(s.root))) == len(els)
    # a monitor must see a fault, keep quiet without one, and report an exception as a violation
    class Fake:
        ID = "X"

        @staticmethod
        def case(kind, index, rng, mon):
            if kind == "raise":
                raise KeyError("x")
            mon.eq(index, 0, "differs")
    mon = core.Mon("X")
    assert core.run_case(Fake, mon, 1, "a", 0) is None
    assert core.run_case(Fake, mon, 1, "a", 1)[0] == "differs"
    assert core.run_case(Fake, mon, 1, "raise", 0)[0].startswith("unexpected KeyError")
    print("harness self-test passed")
    return 0


sys.exit(main())
