"""State tables survive being written to and read from CSV."""
import math
import os

from rv import lib, sim
from rv.checks import c21, c24
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import GameView, PlayerId, PlayerView, RecordView, Update, View
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.util_functions import parse_dataframe_from_tenhou_record

ID = "C26"
RULE = ("state tables of generated logs (ordinary and hostile names, integer-looking ratings, three and four players) and of random "
        "command lists over every property; written to CSV and read back, every cell must be the state the replay had then, with "
        "unset cells missing, columns and timestamps the same, also when other cells read were changed; distinct = tables")
FLOORS = {"tables": 60, "cells": 100000, "odd_names": 10, "missing": 1000, "names_read": 1000, "set_to_nothing": 10, "changed": 20}


def plan(tier):
    q = tier == "quick"
    return [("log", 40 if q else 500), ("synthetic", 56 if q else 1000), ("real", len(lib.real_logs()))]


def missing(x):
    return x is None or isinstance(x, float) and math.isnan(x)


def case(kind, index, rng, mon):
    if kind == "synthetic":
        cmds = c24.synthetic(rng, rng.choice([1, 4, 30, 60]))
    else:
        kw = {} if kind == "real" else dict(max_turns=30, games=rng.choice([1, 2]), odd_names=rng.random() < .7)
        root = c21.root_of(kind, index, rng, **kw)
        rec = lib.record_of(root)
        cmds = to_commands(rec)
        if kw.get("odd_names"):
            mon.ev("odd_names")
        mon.ctx(names=[p.name for p in rec.players])
    if kind == "synthetic" and rng.random() < .4:
        # a text that is set, but to nothing
        p, who = rng.choice([(GameView.extra_reason, "all"), (PlayerView.name, rng.randrange(4)), (RecordView.seed, "all")])
        cmds = [c for c in cmds if c.property is not p]
        cmds.insert(rng.randrange(len(cmds) + 1), GameCommand(prop=p, sub_scope=who, update=Update.REPLACE, value=None,
                                                              timestamp=cmds[0].timestamp if cmds else 0))
        mon.ev("set_to_nothing")
    mon.ctx(first=[str(c) for c in cmds[:30]])
    ex = GameExecutor()
    snaps = [dict(s.flatten_iter()) for s in ex.execute(cmds)]
    if kind == "synthetic" or rng.random() < .5:
        df = ex.execute_as_dataframe(cmds)
    else:
        _, df = parse_dataframe_from_tenhou_record(rec)
    with lib.scratch(rng):
        df.to_csv("s.csv", index=rng.random() < .8)
        back = GameExecutor.read_clean_csv("s.csv")
        spoilt = judge(mon, back, cmds, snaps)
        lists = [(c, i) for c, vs in spoilt.items() for i, v in enumerate(vs) if isinstance(v, list)]
        if lists:
            # what was read belongs to the reader: the other cells keep theirs, and the file is read the same again
            few = rng.sample(lists, min(len(lists), 5))
            for c, i in few:
                spoilt[c][i].append("9z") if rng.random() < .7 else spoilt[c][i].clear()
            judge(mon, back, cmds, snaps, set(few))
            judge(mon, GameExecutor.read_clean_csv("s.csv"), cmds, snaps)
            mon.ev("changed")
    mon.ev("tables")
    mon.distinct(tuple(str(c) for c in cmds[:300]))
    mon.sample({"rows": len(cmds), "columns": len(spoilt)})


def judge(mon, back, cmds, snaps, but=()):
    """Every cell of a table read, but those that were changed, is the state of then."""
    mon.eq(len(back), len(cmds), "a state table loses or invents rows")
    cols = {}
    for c in back.columns:
        c = tuple(c)
        if c[0] == "global" or isinstance(c[2], View):
            cols[c] = list(back[c])
    want_cols = set().union(*[set(s) for s in snaps])
    mon.check(set(cols) == want_cols, "a state table has other columns than the states", extra=[str(c) for c in set(cols) - want_cols][:4],
              missing=[str(c) for c in want_cols - set(cols)][:4])
    for key, values in cols.items():
        for i, (snap, got) in enumerate(zip(snaps, values)):
            if (key, i) in but:
                continue
            if key not in snap or snap[key] is None:
                mon.check(missing(got), "a property that was never set has a value", row=i, column=str(key), got=got)
                mon.ev("missing")
                continue
            want = snap[key]
            if key[0] != "global" and key[2].type.name == "str":
                want = str(want)
            ok = got == want and isinstance(got, str) == isinstance(want, str) and isinstance(got, bool) == isinstance(want, bool)
            mon.check(ok, "a state read back is not the state written", row=i, column=str(key), got=got, expected=want)
            if len(key) == 3 and key[2] == PlayerView.name:
                mon.ev("names_read")
        mon.ev("cells", len(values))
    return cols

