"""Replaying commands gives the recorded states."""
import copy

from rv import lib, uni
from rv.checks import c21
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import EventType, GameView, PlayerId, PlayerView, RecordView, Update, ViewScope
from mahjong.record.universe.interpreter import GameInterpreter
from mahjong.record.universe.tenhou import to_commands

ID = "C24"
RULE = ("command lists from logs and random command lists over every property and update method; the executor, the interpreter and "
        "an independent fold are run side by side and after every command the touched property must have the value all agree on, "
        "every other property must be as before, and the snapshot must carry the command's timestamp; distinct = command lists")
FLOORS = {"commands": 20000, "synthetic": 5000, "properties": 25, "replace": 300, "add": 300, "remove": 300, "reset": 100, "assert": 300, "changed": 200, "used_before": 1000}

TILES = ["%d%s" % (n, c) for c in "mps" for n in range(10)] + ["%dz" % n for n in range(1, 8)]
TEXTS = ["NA", "null", "x", "東", "1", "1.0", "a,b", "nan", "True", " a", "{b}", "{}", "{0.a}", "%s", "<red>"]


def plan(tier):
    q = tier == "quick"
    return [("log", 48 if q else 700), ("synthetic", 160 if q else 3000), ("real", len(lib.real_logs()))]


def scope_view(s, c):
    who = c.sub_scope_id
    node = s[c.prop.scope]
    return node[PlayerId(who)] if c.prop.scope == ViewScope.player else node["single"]


def props():
    for cls in (RecordView, GameView, PlayerView):
        for p in cls.all_properties():
            yield p


def typ(p):
    return p.type.name


def value(rng, t):
    if t in ("index",):
        return rng.randrange(8)
    if t in ("score", "int"):
        return rng.randrange(-300, 900) * 100
    if t == "float":
        return rng.choice([round(rng.uniform(-90, 90), 1), float(rng.randrange(-50, 50)), rng.uniform(-1, 1)])
    if t == "bool":
        return rng.random() < .5
    if t == "str":
        return rng.choice(TEXTS)
    if t == "tiles":
        return [rng.choice(TILES) for _ in range(rng.choice([0, 1, 1, 2, 3, 13]))]
    if t == "melds":
        return [[rng.choice(TILES) for _ in range(rng.choice([1, 3, 4]))] for _ in range(rng.choice([0, 1, 1, 2]))]
    if t == "list":
        return [rng.choice([rng.random() < .5, "立直", "2m"]) for _ in range(rng.randrange(4))]
    raise ValueError(t)


def synthetic(rng, length):
    """Commands that make sense one after the other."""
    state, out = {}, []
    pool = list(props())
    chosen = rng.sample(pool, rng.choice([3, 8, len(pool)]))
    t = 0
    while len(out) < length:
        p = rng.choice(chosen)
        ty = typ(p)
        listy = ty in ("tiles", "melds", "list")
        who = rng.randrange(4) if p.scope == ViewScope.player else "all"
        k = (p.scope.name, who, p.name)
        ops = ["REPLACE", "ASSERT_EQUAL_OR_SET"]
        if listy or ty == "index":
            ops.append("RESET_DEFAULT")
        if k in state and ty not in ("bool", "str"):
            ops += ["ADD", "ADD", "REMOVE", "REMOVE"]
        op = rng.choice(ops)
        v = None
        if op == "REMOVE" and listy:
            if not state[k]:
                continue
            v = rng.sample(state[k], rng.randrange(1, min(3, len(state[k])) + 1))
        elif op == "ASSERT_EQUAL_OR_SET" and k in state and rng.random() < .5:
            v = state[k]
            if ty == "tiles":
                v = rng.sample(v, len(v))
        elif op != "RESET_DEFAULT":
            v = value(rng, ty)
        t += rng.randrange(3)
        c = GameCommand(prop=p, update=Update[op], sub_scope=who, value=v, timestamp=t, event=rng.choice([None] + list(EventType)))
        c.state = uni.fold(state, c)
        out.append(c)
    return out


OPS = {"REPLACE": "replace", "ADD": "add", "REMOVE": "remove", "RESET_DEFAULT": "reset", "ASSERT_EQUAL_OR_SET": "assert"}


def snapshot(s):
    return {k: v for k, v in s.flatten_iter()}


def case(kind, index, rng, mon):
    if kind == "synthetic":
        cmds = synthetic(rng, rng.choice([5, 40, 80]))
        mon.ev("synthetic", len(cmds))
    else:
        cmds = to_commands(lib.record_of(c21.root_of(kind, index, rng, **({} if kind == "real" else {"max_turns": 40}))))
    mon.ctx(commands=[str(c) for c in cmds[:60]])
    pristine = copy.deepcopy(cmds) if kind == "synthetic" else None
    interp = GameInterpreter()
    state = {}
    mine = {}
    total = 0
    watch = kind == "synthetic" or rng.random() < .3
    executor = GameExecutor()
    if rng.random() < .4:
        # an executor used before begins with nothing all the same
        before = cmds[:rng.randrange(len(cmds) + 1)]
        mon.ev("used_before", len(list(executor.execute(before))))
    for c, s in zip(cmds, executor.execute(iter(cmds) if rng.random() < .5 else cmds)):
        k = uni.key_of(c)
        want = uni.fold(state, c)
        who = PlayerId(c.sub_scope_id) if c.prop.scope == ViewScope.player else "single"
        mine[c.prop.scope, who, c.property] = want
        got = scope_view(s, c)[c.property]
        mon.check(got == want and type(got) == type(want), "replaying a command gives a wrong value", command=str(c), got=got, expected=want)
        mon.check(c.state == want, "the state recorded with a command is not what replaying gives", command=str(c), got=c.state, expected=want)
        mon.eq(interp.interpret(c), want, "interpreting a command gives another value than replaying it", command=str(c))
        mon.eq(s["global"]["time"]["timestamp"], c.timestamp, "a snapshot has another timestamp than its command", command=str(c))
        if watch or total % 50 == 0:
            snap = snapshot(s)
            snap.pop(("global", "time", "timestamp"))
            mon.check(snap == mine, "a snapshot holds more, less or other properties than the commands so far set", command=str(c),
                      wrong=[(str(k), snap.get(k), mine.get(k)) for k in set(snap) | set(mine) if snap.get(k) != mine.get(k)][:4])
        mon.ev(OPS[c.update_method.name])
        total += 1
    if kind == "synthetic" and rng.random() < .5:
        # what a replay gave belongs to who asked for it, and the next one knows nothing of that
        wants = [GameInterpreter().interpret(copy.deepcopy(c)) for c in cmds if c.update_method is not Update.REMOVE and
                 c.update_method is not Update.ADD]
        wants = [copy.deepcopy(w) for w in wants]
        for s in [s] + [interp.state]:
            for v in (s.values() if s is interp.state else [v for _, v in s.flatten_iter()]):
                if isinstance(v, list):
                    v.extend(["0z", "0z"])
                    mon.ev("changed")
        again = GameInterpreter
        at = 0
        for c in pristine:
            if c.update_method is not Update.REMOVE and c.update_method is not Update.ADD:
                mon.eq(again().interpret(copy.deepcopy(c)), wants[at], "a command gives another value after earlier results were changed",
                       command=str(c))
                at += 1
    mon.eq(total, len(cmds), "replay does not give one state per command")
    for p in {c.property for c in cmds}:
        mon.distinct(("property", str(p)))
        mon.ev("prop_" + p.name)
    mon.ev("commands", total)
    mon.ev("properties", len({c.property for c in cmds}))
    mon.distinct(tuple(str(c) for c in cmds[:200]))
    mon.sample({"first": [str(c) for c in cmds[:2]], "commands": total})
