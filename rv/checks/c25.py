"""Commands survive being written to and read from CSV."""
import os

from rv import lib, sim
from rv.checks import c20, c21, c24
from mahjong import universe_paifu_convert
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.tenhou import to_command_records, to_commands
from mahjong.record.util_functions import command_to_raw_dataframe, parse_dataframe_from_tenhou_record

ID = "C25"
RULE = ("command lists of generated logs with ordinary and hostile player names (numbers, NA, null, quotes, commas, spaces, "
        "backslashes) and random command lists over every property, as long lists and as single commands; written to CSV in several "
        "ways and read back, as raw and as serialised records, each command must come back equal, also when others read were changed; the workflow of the README must give the state after every command; and the convert tool's file must "
        "hold the log's commands; distinct = command lists")
FLOORS = {"commands": 14000, "odd_names": 16, "files": 90, "tool": 4, "short": 10, "serialised_again": 20000, "readme": 4, "changed": 20}


def plan(tier):
    q = tier == "quick"
    return [("log", 40 if q else 500), ("synthetic", 80 if q else 1500), ("tool", 8 if q else 60), ("real", len(lib.real_logs()))]


def same_value(a, b):
    """Equal values; a text property may hold a number when its command was made."""
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def as_text(c, v):
    return str(v) if v is not None and c.property.type.name == "str" else v


def compare(mon, cmds, back, what):
    mon.eq(len(back), len(cmds), "reading commands back loses or invents some", how=what)
    for a, b in zip(cmds, back):
        w = dict(how=what, command=str(a), read=str(b))
        mon.check(b.property is a.property or b.property == a.property, "a property changed", **w)
        mon.check(b.update_method == a.update_method, "an update method changed", **w)
        mon.check(b.event == a.event, "an event type changed", **w)
        mon.check(b.sub_scope_id == a.sub_scope_id and isinstance(b.sub_scope_id, str) == isinstance(a.sub_scope_id, str),
                  "a command is about somebody else", **w)
        mon.check(b.timestamp == a.timestamp, "a timestamp changed", **w)
        for f in ("value", "state"):
            x, y = as_text(a, getattr(a, f)), getattr(b, f)
            mon.check(same_value(x, y), "a %s changed" % f, got=y, expected=x, **w)
        if type(a.value) is type(b.value) and type(a.state) is type(b.state):    # a table of nothing but numbers makes them floats
            mon.check(list(b.to_record()) == list(a.to_record()), "a command serialises differently after being read", **w)
            mon.ev("serialised_again")


def spoil(rng, back):
    """Changes the values of some commands in place."""
    n = 0
    for c in rng.sample(back, min(len(back), 40)):
        for f in ("value", "state"):
            v = getattr(c, f)
            if isinstance(v, list):
                v.append("9z") if rng.random() < .7 else v.clear()
                c.spoilt = True
                n += 1
    return n


def roundtrip(mon, rng, cmds):
    import pandas
    how = rng.choice(["to_dataframe", "records", "no_index"])
    if how == "records":
        df = pandas.DataFrame(c.to_record() for c in cmds)
    else:
        df = GameCommand.to_dataframe(cmds)
    df.to_csv("c.csv", index=how != "no_index")
    clean = GameCommand.read_clean_csv("c.csv")
    mon.check(list(clean["timestamp"]) == [c.timestamp for c in cmds], "the rows are not in order")
    back = [GameCommand.from_raw_record(r) for r in clean.itertuples()]
    compare(mon, cmds, back, how)
    if rng.random() < .5 and spoil(rng, back):
        # what was read belongs to the reader: the other commands keep theirs, and the file is read the same again
        rest = [(a, b) for a, b in zip(cmds, back) if not hasattr(b, "spoilt")]
        compare(mon, [a for a, _ in rest], [b for _, b in rest], how + ", others changed")
        clean = GameCommand.read_clean_csv("c.csv")
        compare(mon, cmds, [GameCommand.from_raw_record(r) for r in clean.itertuples()], how + ", read again")
        mon.ev("changed")
    # without a file in between
    compare(mon, cmds, [GameCommand.from_record(c.to_record()) for c in cmds], "records")
    compare(mon, cmds, [GameCommand.from_raw_record(c.to_raw_record()) for c in [GameCommand.from_record(c.to_record()) for c in cmds]], "raw records")
    os.unlink("c.csv")
    mon.ev("files")


def readme(mon, cmds):
    """The example of the README: every state after every command, from the file alone."""
    import pandas
    GameCommand.to_dataframe(cmds).to_csv("readme.csv")
    df = pandas.read_csv("readme.csv").apply(GameCommand.pandas_columns_clean, axis="columns")
    keys = ["sub_scope_id", "property"]
    states = df[keys + ["state"]].set_index(keys, append=True).unstack(level=keys).ffill()
    mon.eq(len(states), len(cmds), "the table of states has another length than its commands")
    cols = {(str(k[1]), str(k[2])): states[k].tolist() for k in states.columns}
    now = {}
    for i, c in enumerate(cmds):
        key = str(c.sub_scope_id), str(c.property)
        if c.state is not None:
            now[key] = as_text(c, c.state)
        else:
            now.setdefault(key)
        mon.check(key in cols, "a property is missing from the table of states", key=key)
        for k, want in now.items():
            got = cols[k][i]
            mon.check(got == want or want is None and got != got, "the table of states has another state", row=i, key=k, got=got, expected=want)
    os.unlink("readme.csv")
    mon.ev("readme")


def case(kind, index, rng, mon):
    with lib.scratch(rng):
        if kind == "tool":
            return tool(rng, mon)
        if kind == "synthetic":
            n = rng.choice([1, 1, 3, 20, 60])
            cmds = c24.synthetic(rng, n)
            if rng.random() < .3:
                for c in cmds:
                    c.state = None
            if n <= 3:
                mon.ev("short")
        else:
            kw = {} if kind == "real" else dict(max_turns=40, odd_names=rng.random() < .7)
            root = c21.root_of(kind, index, rng, **kw)
            rec = lib.record_of(root)
            if kw.get("odd_names"):
                mon.ev("odd_names")
            mon.ctx(names=[p.name for p in rec.players])
            cmds = to_commands(rec)
        mon.ctx(first=[str(c) for c in cmds[:20]])
        roundtrip(mon, rng, cmds)
        if kind == "real" or kind == "log" and not kw["odd_names"] and rng.random() < .4:
            readme(mon, cmds)
        if kind != "synthetic" and rng.random() < .5:
            df = parse_dataframe_from_tenhou_record(rec, return_state=False)
            compare(mon, cmds, [GameCommand.from_record(r) for r in df.itertuples()], "parse_dataframe")
            raw = rng.choice([lambda: parse_dataframe_from_tenhou_record(rec, return_state=False, for_serialize=False),
                              lambda: parse_dataframe_from_tenhou_record(rec, for_serialize=False)[0],
                              lambda: command_to_raw_dataframe(cmds), lambda: GameCommand.to_dataframe(cmds, raw=True)])()
            mon.eq(len(raw), len(cmds), "a raw table loses or invents commands")
            mon.eq([str(GameCommand.from_raw_record(r).to_raw_record()[:6]) for r in raw.itertuples()], [str(c.to_raw_record()[:6]) for c in cmds],
                   "a raw table differs from its commands")
            mon.eq([str(x) for x in raw["property"]], [str(c.property) for c in cmds], "a raw table differs from its commands")
            mon.check(all(same_value(x, c.value) or (x != x and c.value is None) for x, c in zip(raw["value"], cmds)),
                      "a raw table has other values than its commands")
    mon.ev("commands", len(cmds))
    mon.distinct(tuple(str(c) for c in cmds[:300]))
    mon.sample({"commands": len(cmds), "one": str(cmds[0])})


def tool(rng, mon):
    names = rng.sample(sim.ODD_NAMES if rng.random() < .6 else sim.NAME_POOL, 4)
    root = sim.make(rng, games=1, max_turns=20, names=names, players=rng.choice([3, 4])).root
    lid = c20.log_id(rng)
    link = c20.links(rng, lid)
    cmds = to_commands(lib.record_of(lib.clone(root)))
    system = os.system
    mon.ctx(names=names, link=link)
    try:
        os.system = lambda *a: 0            # the tool waits for a key
        with lib.Net({"http://e.mjv.jp/0/log/?" + lid: lib.xml_text(root)}), lib.stdio(link + "\n"):
            universe_paifu_convert.main()
    finally:
        os.system = system
    mon.eq(os.listdir("."), [lid + "_command.csv"], "the tool wrote other files")
    clean = GameCommand.read_clean_csv(lid + "_command.csv")
    compare(mon, cmds, [GameCommand.from_raw_record(r) for r in clean.itertuples()], "tool")
    mon.ev("tool")
    mon.ev("commands", len(cmds))
