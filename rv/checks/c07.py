"""Histories of analyses sharing hands, engines, patterns and the pooled tile units."""
import random
import sys
import threading

from rv import lib, ref
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs

ID = "C07"
RULE = ("histories of 12..40 analyses over shared hands, shared analysers and shared patterns: step, useful tiles, discard "
        "listings (abandoned half-way or interleaved with each other), readings, win tests, with hands built anew or like another (same kinds, numbers or suits) in any insertion "
        "order and red or plain fives, and changed in place between analyses; after every operation the answer equals the reference for the hand's contents and no "
        "hand or tile unit has changed; threads run the same mix with own analysers, and another on the very same hands, forms and analysers; distinct = operation histories")
FLOORS = {"abandoned": 50, "interleaved": 30, "reused_engine": 300, "hand_unchanged": 800, "units_checked": 100, "threads": 8,
          "changed_in_place": 200, "related_hand": 50, "shared_hand": 5000, "shared_engine": 200, "shared_form": 50000}


def plan(tier):
    q = tier == "quick"
    return [("history", 48 if q else 700), ("threads", 8 if q else 60), ("shared", 8 if q else 100)]


def units_ok(mon):
    for k in range(34):
        t = lib.tile(k)
        mon.check(dict(t.pair()) == {t: 2} and dict(t.triplet()) == {t: 3}, "a tile's pair or triplet changed", tile=str(t))
        f = t.flush()
        if k < 27 and k % 9 <= 6:
            mon.check(dict(f) == {lib.tile(k + i): 1 for i in range(3)}, "a tile's run changed", tile=str(t), got=str(f))
        else:
            mon.check(not f, "a run exists where none can start", tile=str(t))
    mon.ev("units_checked")


def make_hand(rng, melds, like=None):
    h = lib.hand(rng, melds, 3 * melds + 1 + rng.randrange(2))[0] if like is None else like
    while like is not None:
        h = lib.relative(rng, like)
        if 3 * melds < len(h) < 3 * melds + 3:
            break
    rng.shuffle(h)
    return h, lib.given(rng, h)


def batch_expected(form, counts):
    best = ref.step(form, counts)
    return {k: (s, frozenset(u)) for k, (s, u) in ref.discards(form, counts).items() if s == best}


def pull(mon, it, n, form, counts, hand_txt):
    want = batch_expected(form, counts)
    seen = []
    for _ in range(n):
        try:
            t, s, u = next(it)
        except StopIteration:
            mon.check({lib.tile_kind(x) for x in seen} == set(want) or ref.step(form, counts) == -1,
                      "a listing of discards is incomplete", hand=hand_txt)
            return None
        k = lib.tile_kind(t)
        mon.check(k in want and want[k] == (s, frozenset(lib.kinds_of(u))), "a listing of discards is wrong",
                  hand=hand_txt, discard=str(t), step=s)
        seen.append(t)
    return it


class Listing:
    """A lazily consumed discard listing together with what it should still produce."""

    def __init__(self, eng, form, h, hand):
        self.form, self.h, self.hand = form, h, hand
        counts = ref.counts_of(h)
        self.best = ref.step(form, counts)
        self.want = batch_expected(form, counts) if self.best >= 0 else {}
        self.it = iter(eng.batch_waiting_and_useful_tiles(hand))
        self.seen = set()

    def pull(self, mon, n):
        for _ in range(n):
            try:
                t, s, u = next(self.it)
            except StopIteration:
                mon.check(self.seen == set(self.want) or self.best == -1, "a listing of discards is incomplete",
                          hand=lib.names(self.h), got=lib.names(self.seen), expected=lib.names(self.want))
                return False
            if self.best == -1:
                continue
            k = lib.tile_kind(t)
            mon.check(k not in self.seen and self.want.get(k) == (s, frozenset(lib.kinds_of(u))),
                      "a listing of discards is wrong", hand=lib.names(self.h), discard=str(t), step=s,
                      got=lib.names(lib.kinds_of(u)))
            self.seen.add(k)
        return True


def spoil(rng, answer):
    """The caller does what it likes with an answer it got."""
    if rng.random() < .3 and isinstance(answer, (set, list)):
        answer.clear()


def history(rng, mon, length, own_units=True):
    pool = []
    patterns = {f: lib.pattern(f) for f in [("normal", m, 1) for m in range(5)] + [("pairs", 7)]}
    engines = {f: HeuristicPatternMatchWaiting(p) for f, p in patterns.items()}
    trace, listings = [], []
    for _ in range(length):
        if not pool or rng.random() < .4:
            m = rng.choice([1, 2, 3, 4, 4])
            if pool and rng.random() < .4:
                m, h, _ = rng.choice(pool)
                h, hand = make_hand(rng, m, h)
                mon.ev("related_hand")
            else:
                h, hand = make_hand(rng, m)
            pool.append((m, h, hand))
        m, h, hand = rng.choice(pool[-3:] if rng.random() < .5 else pool)
        form = ("pairs", 7) if m == 4 and rng.random() < .3 else ("normal", m, 1)
        counts = ref.counts_of(h)
        eng = engines[form]
        if rng.random() < .2:
            eng = HeuristicPatternMatchWaiting(patterns[form])
        else:
            mon.ev("reused_engine")
        op = rng.choice(["step", "useful", "both", "both", "batch", "batch", "lazy", "lazy", "pull", "match", "readings", "change",
                         "change"])
        if op == "change":
            # a draw and a discard on the same hand object, unless a listing of it is in progress
            if any(lz.hand is hand for lz in listings):
                continue
            for _ in range(rng.choice([1, 1, 2, 6])):
                k = rng.choice([k for k in range(34) if counts[k] < 4])
                d = rng.choice(h)
                h[h.index(d)] = k
                counts[k] += 1
                counts[d] -= 1
                hand[lib.tile(k)] += 1
                hand[lib.tile(d)] -= 1
                if hand[lib.tile(d)] == 0:
                    del hand[lib.tile(d)]
            mon.ev("changed_in_place")
            op = rng.choice(["step", "useful", "both", "batch", "match"])
            trace.append(("change", form, tuple(sorted(h))))
        trace.append((op, form, tuple(sorted(h))))
        mon.ctx(history=trace[-8:])
        if op == "step":
            mon.eq(eng.before_waiting_step(hand), ref.step(form, counts), "waiting step depends on history", hand=lib.names(h))
        elif op == "useful":
            u = eng.useful_tiles(hand)
            mon.eq(set(lib.kinds_of(u)), ref.useful(form, counts), "useful tiles depend on history")
            spoil(rng, u)
        elif op == "both":
            s, u = eng.waiting_and_useful_tiles(hand)
            mon.eq((s, set(lib.kinds_of(u))), (ref.step(form, counts), ref.useful(form, counts)),
                   "analysis depends on history", hand=lib.names(h))
            spoil(rng, u)
        elif op == "batch" and len(h) % 3 == 2:
            Listing(eng, form, h, hand).pull(mon, 99)
        elif op == "lazy" and len(h) % 3 == 2:
            # a listing in progress keeps an analyser of its own
            lz = Listing(HeuristicPatternMatchWaiting(patterns[form]), form, h, hand)
            if lz.pull(mon, rng.randrange(1, 4)):
                mon.ev("abandoned")
                listings.append(lz)
        elif op == "pull" and listings:
            lz = rng.choice(listings)
            mon.ev("interleaved")
            if not lz.pull(mon, rng.randrange(1, 4)):
                listings.remove(lz)
        elif op == "match":
            mon.eq(bool(patterns[form].match(hand)), ref.missing(form, counts, 99) == 0, "win recognition depends on history",
                   hand=lib.names(h))
        elif op == "readings":
            it = patterns[form].win_selections(hand)
            for _ in range(rng.randrange(3)):
                if next(it, None) is None:
                    break
        for m2, h2, hand2 in pool:
            mon.check(lib.set_counts(hand2) == ref.counts_of(h2) and len(hand2) == len(h2),
                      "analysing hands changed a hand", hand=lib.names(h2), got=dict((str(k), v) for k, v in hand2.items()),
                      last=trace[-1])
            mon.check(all(v > 0 for v in hand2.values()), "analysing hands left empty entries in a hand", hand=lib.names(h2))
            mon.ev("hand_unchanged")
    for p in patterns.values():
        mon.check(p.need_count() == (14 if isinstance(p, UniquePairs) else p.need_count()) and not p.has_win()
                  or isinstance(p, NormalTypeWin), "a pattern changed")
    if own_units:
        units_ok(mon)
    mon.distinct(tuple(trace))
    mon.sample({"history": [t[0] for t in trace]})


def shared(rng, mon):
    """Threads that all use the same hands, forms and analysers."""
    jobs = []
    patterns = {f: lib.pattern(f) for f in [("normal", m, 1) for m in range(5)] + [("pairs", 7)]}
    for _ in range(6):
        m = rng.choice([1, 2, 3, 4])
        h, _ = lib.hand(rng, m, 3 * m + 1 + rng.randrange(2), rng.choice(["near", "suit", "pairs"]))
        rng.shuffle(h)
        form = ("pairs", 7) if m == 4 and rng.random() < .3 else ("normal", m, 1)
        c = ref.counts_of(h)
        jobs.append((h, lib.tileset(h), form, ref.missing(form, c, 99) == 0, ref.step(form, c), ref.useful(form, c),
                     batch_expected(form, c) if ref.step(form, c) >= 0 and len(h) % 3 == 2 else None))
    wrong, done, shared_engine = [], [], []
    engines = {f: HeuristicPatternMatchWaiting(p) for f, p in patterns.items()}
    tiles = [lib.tile(k) for k in range(34)]

    def units(p, t):
        return [dict(u) for u, _ in p.next_states(t)]

    alone = {(f, k): units(p, t) for f, p in patterns.items() for k, t in enumerate(tiles)}
    unit_calls = []

    def run(seed):
        r = random.Random(seed)
        try:
            for i in range(700):
                h, hand, form, won, step, useful, batch = r.choice(jobs)
                op = r.choice(["match", "print", "size", "units"] if i % 25 else ["step", "useful", "batch"] if batch else ["step", "useful"])
                if op == "match":
                    ok = bool(patterns[form].match(hand)) == won
                elif op == "units":
                    ks = r.sample(range(34), 3)
                    ok = all(units(patterns[form], tiles[k]) == alone[form, k] for k in ks * 20)
                    unit_calls.append(60)
                elif op == "print":
                    ok = lib.set_counts(lib.parse(str(hand))) == ref.counts_of(h)
                elif op == "size":
                    ok = len(hand) == len(h) and lib.set_counts(hand) == ref.counts_of(h)
                else:
                    own = r.random() < .4
                    eng = HeuristicPatternMatchWaiting(patterns[form]) if own else engines[form]
                    if op == "step":
                        ok = eng.before_waiting_step(hand) == step
                    elif op == "useful":
                        ok = set(lib.kinds_of(eng.useful_tiles(hand))) == useful
                    else:
                        ok = {lib.tile_kind(t): (s, frozenset(lib.kinds_of(u))) for t, s, u in eng.batch_waiting_and_useful_tiles(hand)} == batch
                    if not own:
                        shared_engine.append(op)
                if not ok:
                    wrong.append((op, form, lib.names(h)))
                done.append(op)
        except BaseException as e:
            wrong.append(repr(e))

    in_threads(run, [rng.random() for _ in range(4)])
    mon.check(not wrong, "uses of the same hand in several threads disturb each other", got=wrong[:3])
    mon.ev("shared_hand", len(done))
    mon.ev("shared_form", sum(unit_calls))
    mon.ev("shared_engine", len(shared_engine))


def in_threads(run, args):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(x,)) for x in args]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)


def case(kind, index, rng, mon):
    if kind == "history":
        for _ in range(4):
            history(rng, mon, rng.randrange(12, 40))
        return
    errors, done = [], []
    if kind == "shared":
        return shared(rng, mon)

    class Quiet:
        def __init__(self):
            self.n = 0

        def ev(self, *a):
            pass
        distinct = sample = ev

        def ctx(self, **kw):
            pass

        def check(self, cond, msg, **kw):
            self.n += 1
            if not cond:
                raise AssertionError("%s %s" % (msg, kw))

        def eq(self, got, want, msg, **kw):
            self.check(got == want, msg, got=got, expected=want, **kw)

    def run(seed):
        try:
            q = Quiet()
            history(random.Random(seed), q, 15, own_units=False)
            done.append(q.n)
        except BaseException as e:
            errors.append(repr(e))

    in_threads(run, [rng.random() for _ in range(4)])
    mon.check(not errors, "analyses in several threads disturb each other", errors=errors[:2])
    mon.ev("threads", len(done))
    units_ok(mon)
