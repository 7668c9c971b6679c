"""Splitting a stream into staged groups loses and repeats nothing."""
from rv import lib
from mahjong.record.stage import StageGroupby

ID = "C34"
RULE = ("random streams over small alphabets with zero to four stages (some of them named twice) and key functions, over lists and one-pass iterators, the groups "
        "read fully, partly, not at all, late or after the next group was taken; keys and contents of the groups are compared with an "
        "independent splitter, read in full they concatenate to the stream, a group left behind gives nothing more, and the source is "
        "never read further than needed; distinct = (stream, stages, reading)")
FLOORS = {"streams": 3000, "groups": 10000, "partial": 500, "stale": 2000, "staged": 3000, "empty": 50, "lookahead": 3000, "spoiled_keys": 300, "fresh_keys": 1000, "bare_keys": 200, "stage_twice": 300}


def plan(tier):
    return [("streams", 48 if tier == "quick" else 900)]


def split(items, stages, key):
    """(key or list of stages, items) of every group."""
    out, i = [], 0
    while i < len(items):
        k = key(items[i])
        if k in stages:
            j = stages.index(k)
            group = []
            shown = list(stages[j:])
            while i < len(items):
                k = key(items[i])
                if k not in stages[j:]:
                    break
                j += stages[j:].index(k)
                group.append(items[i])
                i += 1
            out.append((shown, group))
        else:
            group = []
            while i < len(items) and key(items[i]) == k:
                group.append(items[i])
                i += 1
            out.append((k, group))
    return out


class Source:
    """A one-pass source that counts what was taken."""

    def __init__(self, items):
        self.items, self.taken = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.items):
            raise StopIteration
        self.taken += 1
        return self.items[self.taken - 1]


BARE = {"A": None, "B": 0, "C": "", "D": (), "E": frozenset(), "Z": 0.5, True: None, False: 0}


def bare(k):
    """Keys that are nothing, or next to it."""
    return BARE[k]


def case(kind, index, rng, mon):
    for n in range(100):
        alphabet = rng.choice(["AB", "ABC", "ABCDE"])
        size = rng.choice([0, 1, 2, 5, 12, 30])
        text = []
        while len(text) < size:
            text += [rng.choice(alphabet)] * rng.choice([1, 1, 2, 4])
        items = list(enumerate(text[:size])) if rng.random() < .5 else text[:size]
        stages = rng.sample(alphabet + "Z", rng.randrange(0, min(4, len(alphabet)) + 1))
        key = (lambda x: x) if not items or isinstance(items[0], str) else (lambda x: x[1])
        if rng.random() < .3:
            base = key
            key = lambda x: base(x) == "A"
            stages = rng.sample([True, False], rng.randrange(0, 3))
        if stages and rng.random() < .2:        # a stage that comes again
            for _ in range(rng.choice([1, 1, 2])):
                stages.insert(rng.randrange(len(stages) + 1), rng.choice(stages))
            mon.ev("stage_twice")
        fresh = rng.choice([None, None, lambda k: (k, "key"), lambda k: "key %s" % k, lambda k: 10 ** 40 + (ord(k) if isinstance(k, str) else k), bare])
        if fresh:       # equal keys that are not one object
            plain = key
            key = lambda x, fresh=fresh, plain=plain: fresh(plain(x))
            stages = [fresh(k) for k in stages]
            mon.ev("bare_keys" if fresh is bare else "fresh_keys")
        want = split(items, stages, key)
        src = rng.choice([list, tuple, iter, Source, Source])(items)
        if fresh or rng.random() < .5 or items and not isinstance(items[0], str) or stages and not isinstance(stages[0], str) or key("A") != "A":
            g = StageGroupby(src, *stages, key=key)
        else:
            g = StageGroupby(src, *stages)
        mode = rng.choice(["full", "full", "mixed", "keys", "late"])
        mon.ctx(items=items, stages=stages, mode=mode)
        got, held, at = [], [], 0
        keys, spoil = [], rng.random() < .3
        for k, grp in g:
            for old, was in keys:
                mon.check(old == was, "the key of a group changed later", got=old, was=was)
            mon.check(len(got) < len(want), "there are more groups than the stream holds", got=k)
            wk, wg = want[len(got)]
            mon.check(k == wk and type(k) is type(wk), "a group is announced under another key", got=k, expected=wk)
            k0 = list(k) if isinstance(k, list) else k
            if spoil and isinstance(k, list):
                k.clear()       # the caller's own
                mon.ev("spoiled_keys")
            else:
                keys.append((k, k0))
            r = rng.random()
            if mode == "full" or mode == "mixed" and r < .3:
                part = list(grp)
                mon.eq(part, wg, "a group holds other items")
                mon.eq(list(grp), [], "a finished group goes on")
            elif mode == "mixed" and r < .8:
                part = []
                for x in grp:
                    part.append(x)
                    if rng.random() < .4:
                        break
                mon.eq(part, wg[:len(part)], "a group read in part holds other items")
                mon.ev("partial")
            at += len(wg)
            if isinstance(src, Source):
                mon.check(src.taken <= at + 1, "the source is read further than the group", taken=src.taken, needed=at)
                mon.ev("lookahead")
            held.append((grp, len(got)))
            for old, i in held[:-1]:
                if rng.random() < .3:
                    mon.eq(list(old), [], "a group left behind gives items of a later one", group=i)
                    mon.ev("stale")
            got.append(k0)
        mon.eq(len(got), len(want), "groups of the stream are missing", got_keys=got)
        for old, was in keys:
            mon.check(old == was, "the key of a group changed later", got=old, was=was)
        for old, i in held[:-1]:
            mon.eq(list(old), [], "a group left behind gives items of a later one", group=i)
        if mode == "late" and held:
            # the last group alone may still be current
            tail = list(held[-1][0])
            mon.check(tail in ([], want[-1][1], want[-1][1][-1:]), "the last group, read late, gives other items", got=tail)
        mon.ev("streams")
        mon.ev("groups", len(want))
        if stages:
            mon.ev("staged")
        if not items:
            mon.ev("empty")
        mon.distinct((tuple(items), tuple(stages), mode))
    mon.sample({"items": items[:20], "stages": stages, "groups": want[:4]})
