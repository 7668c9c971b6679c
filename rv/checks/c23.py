"""State snapshots never change."""
import copy
import json

from rv import lib, sim
from rv.checks import c21
from mahjong.record.universe.executor import GameExecutor, TransferDict
from mahjong.record.universe.tenhou import to_commands

ID = "C23"
RULE = ("random trees of states under long random sequences of set, drop and setdefault at every depth, through old and new "
        "versions alike, against nested plain dictionaries; every version ever made is compared again at the end; direct changes "
        "(assignment, deletion, pop, popitem, update, clear) must be refused and have no effect; and every snapshot of a replayed "
        "log is compared, after the replay, with what it was when produced; distinct = (tree, sequence) and logs")
FLOORS = {"sets": 2000, "drops": 300, "old_versions": 1000, "refused": 1000, "snapshots": 5000, "deep": 300, "lookalikes": 200, "flattened": 2000, "default_there": 200, "default_there_empty": 50}


def plan(tier):
    q = tier == "quick"
    return [("tree", 160 if q else 3000), ("log", 24 if q else 300)]


def tree(rng, depth):
    out = {}
    for k in rng.sample("abcdefgh", rng.randrange(1, 5)):
        if depth and rng.random() < .55:
            out[k] = tree(rng, depth - 1)
        else:
            out[k] = rng.choice([rng.randrange(9), "x", [1, 2], (3,), None])
    return out


def plain(t):
    return {k: plain(v) if isinstance(v, TransferDict) else v for k, v in t.nested_dict.items()} if isinstance(t, TransferDict) else t


def view(t):
    """What a reader sees, through item access and iteration."""
    return {k: view(t[k]) if isinstance(t[k], TransferDict) else t[k] for k in t.keys()}


def exact(x):
    """Tells 1 from True and 1.0."""
    if isinstance(x, dict):
        return {k: exact(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x), [exact(v) for v in x]
    return type(x), x


def lookalike(rng, v):
    """Another value that compares equal."""
    if isinstance(v, bool):
        return rng.choice([int(v), float(v)])
    if isinstance(v, int):
        return rng.choice([bool(v)] * (v in (0, 1)) + [float(v)])
    if isinstance(v, list):
        return [lookalike(rng, x) for x in v]
    if isinstance(v, tuple):
        return tuple(lookalike(rng, x) for x in v)
    return v


def paths(d, at=()):
    yield at
    for k, v in d.items():
        if isinstance(v, dict):
            yield from paths(v, at + (k,))


def dig(t, path):
    for k in path:
        t = t[k]
    return t


def changed(d, path, f):
    d = dict(d)
    if path:
        d[path[0]] = changed(d[path[0]], path[1:], f)
    else:
        f(d)
    return d


ATTACKS = [lambda t, k: t.__setitem__(k, 99), lambda t, k: exec("t[k] = 99", {"t": t, "k": k}), lambda t, k: exec("del t[k]", {"t": t, "k": k}),
           lambda t, k: t.pop(k), lambda t, k: t.popitem(), lambda t, k: t.update({k: 99}), lambda t, k: t.update(zz=1), lambda t, k: t.clear()]


def flat_of(d, at=()):
    """What flattening a state shows: the path of every value, and its text."""
    out = {}
    for k, v in d.items():
        out.update(flat_of(v, at + (k,)) if isinstance(v, dict) else {at + (k,): json.dumps(v)})
    return out


def case(kind, index, rng, mon):
    if kind == "log":
        return log(index, rng, mon)
    start = tree(rng, 3)
    versions = [(TransferDict(copy.deepcopy(start)), start)]
    steps = []
    for _ in range(40):
        t, d = versions[-1] if rng.random() < .6 else rng.choice(versions)
        if t is not versions[-1][0]:
            mon.ev("old_versions")
        path = rng.choice(list(paths(d)))
        if len(path) > 1:
            mon.ev("deep")
        node, nd = dig(t, path), dig(d, path)
        op = rng.random()
        if op < .7:
            k = rng.choice("abcdefgh") if rng.random() < .6 or not nd else rng.choice(sorted(nd))
            v = tree(rng, 1) if rng.random() < .2 else rng.choice([rng.randrange(100), "y", [4], None, 0, 1, True, False])
            if k in nd and not isinstance(nd[k], dict) and rng.random() < .4:
                v = lookalike(rng, nd[k])
                mon.ev("lookalikes")
            steps.append(("set", path, k, v))
            new = node.set(k, copy.deepcopy(v))
            want = changed(d, path, lambda x: x.__setitem__(k, v))
            mon.ev("sets")
        elif op < .85 and nd:
            k = rng.choice(sorted(nd))
            steps.append(("drop", path, k))
            new = node.drop(k)
            want = changed(d, path, lambda x: x.__delitem__(k))
            mon.ev("drops")
        else:
            k = rng.choice([c for c in "abcdefghi" if c not in nd] + ["k%d" % len(versions)])
            here = [c for c in nd if not isinstance(nd[c], dict)]
            if here and rng.random() < .5:
                # what is there stays, whatever it is
                k = rng.choice([c for c in here if not nd[c]] * 3 + here)
                mon.ev("default_there")
                mon.ev("default_there_empty", int(not nd[k]))
            v = rng.choice([7, None, 0, "", [], {}])
            steps.append(("setdefault", path, k, v))
            new = node.setdefault(k, copy.deepcopy(v))
            want = nd if k in nd else changed(d, path, lambda x: x.__setitem__(k, v))
            if k in nd:
                # said of the part that was asked, or of the whole state
                mon.ctx(start=start, steps=steps)
                mon.check(exact(view(new)) in (exact(nd), exact(d)), "a default replaced what was there", key=k, got=view(new), expected=nd)
                mon.check(exact(view(t)) == exact(d), "a default shows in an earlier state", got=view(t), expected=d)
                continue
        mon.ctx(start=start, steps=steps)
        mon.check(exact(view(new)) == exact(want), "a change gives the wrong state", got=view(new), expected=want)
        mon.check(exact(view(t)) == exact(d), "a change shows in an earlier state", got=view(t), expected=d)
        for k2 in list("abcdefghi") + ["k5", "k9"]:
            mon.check((k2 in new) == (k2 in want), "membership in a state is wrong", key=k2)
        versions.append((new, want))
        for _ in range(rng.choice([0, 1, 1, 2])):
            # states are shown in any order, some of them many times.
            t, d = versions[-1] if rng.random() < .6 else rng.choice(versions)
            path = rng.choice(list(paths(d))) if rng.random() < .3 else ()
            got = dict(dig(t, path).flatten())
            mon.check(got == flat_of(dig(d, path)), "flattening a state is wrong", got=got, expected=flat_of(dig(d, path)))
            mon.ev("flattened")
            if rng.random() < .5:
                dig(t, path).flatten().clear()
        if rng.random() < .3:
            t, d = rng.choice(versions)
            path = rng.choice(list(paths(d)))
            node, nd = dig(t, path), dig(d, path)
            if nd:
                attack = rng.choice(ATTACKS)
                refused = False
                try:
                    attack(node, rng.choice(sorted(nd)))
                except Exception:
                    refused = True
                mon.check(exact(view(t)) == exact(d), "a state was changed in place", attack=ATTACKS.index(attack), got=view(t), expected=d)
                mon.check(refused, "changing a state in place is not refused", attack=ATTACKS.index(attack))
                mon.ev("refused")
    for i, (t, d) in enumerate(versions):
        mon.check(exact(view(t)) == exact(d), "a state changed after it was made", version=i, got=view(t), expected=d)
        flat = {}

        def walk(x, at):
            for k, v in x.items():
                if isinstance(v, dict):
                    walk(v, at + (k,))
                else:
                    flat[at + (k,)] = v
        walk(d, ())
        mon.check(dict(t.flatten_iter()) == flat, "flattening a state is wrong", version=i)
    for i in rng.sample(range(len(versions)), len(versions)):
        t, d = versions[i]
        mon.check(dict(t.flatten()) == flat_of(d), "flattening a state is wrong", version=i, got=t.flatten(), expected=flat_of(d))
    mon.distinct((repr(start), repr(steps)))
    mon.sample({"start": start, "steps": len(steps)})


def log(index, rng, mon):
    root = c21.make(rng, games=rng.choice([1, 2]), max_turns=30).root
    cmds = to_commands(lib.record_of(root))
    before = [copy.deepcopy((c.value, c.state)) for c in cmds]
    ex = GameExecutor(strict_mode=rng.random() < .5)
    initial = copy.deepcopy(view(ex.states))
    seen = []
    for s in ex.execute(cmds):
        seen.append((s, repr(view(s)), dict(s.flatten())))
    for i in rng.sample(range(len(seen)), len(seen)):
        s, then, flat = seen[i]
        mon.check(repr(view(s)) == then and dict(s.flatten()) == flat, "a snapshot changed while the replay went on", at=i)
    mon.check(view(ex.states) == initial, "a replay changed the initial state")
    mon.check([(c.value, c.state) for c in cmds] == before, "a replay changed its commands")
    again = [repr(view(s)) for s in ex.execute(cmds)]
    mon.check(again == [t for _, t, _ in seen], "replaying again with the same executor gives other states")
    mon.ev("snapshots", len(seen))
    mon.distinct(lib.log_sig(root))
