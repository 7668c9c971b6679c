"""The command stream reconstructs the game."""
from rv import lib, model, sim, uni
from mahjong.record.universe.tenhou import to_command_records, to_commands

ID = "C21"
RULE = ("generated logs (all calls, riichi, aborts, several winners, disconnections, three and four players, limit hands, odd "
        "names) and recorded ones; the commands are folded by an independent interpreter and, after every event, every property "
        "the log determines is compared with a replay of the log; each command must belong to the event it is stamped with; "
        "distinct = logs")
FLOORS = {"logs": 60, "commands": 20000, "facts": 100000, "call_kakan": 10, "call_minkan": 5, "call_ankan": 5, "call_kita": 5, "agari": 30, "bye": 3,
          "reach_2": 20, "draw_exhausted": 5, "multi_win": 2, "players_3": 10, "players_4": 10, "records_finished": 60}


def plan(tier):
    return [("sim", 160 if tier == "quick" else 3000), ("real", len(lib.real_logs()))]


def make(rng, **kw):
    kw.setdefault("odd_names", rng.random() < .3)
    r = rng.random()
    if r < .4:
        kw.update(lib.busy(rng))
    elif r < .6:
        kw.update(p_ron=rng.choice([.03, .08]), p_net=.02)
    return sim.make(rng, **kw)


def root_of(kind, index, rng, **kw):
    import xml.etree.ElementTree as ET
    if kind == "real":
        return ET.parse(lib.real_logs()[index]).getroot()
    return make(rng, **kw).root


def case(kind, index, rng, mon):
    root = root_of(kind, index, rng)
    rec = lib.record_of(root)
    cmds = to_commands(rec)
    els = list(root)
    mon.ctx(log=lib.xml_text(root)[:400])
    by = {}
    last = -1
    for c in cmds:
        mon.check(isinstance(c.timestamp, int) and 0 <= c.timestamp < len(els), "a command has no event", got=c.timestamp)
        mon.check(c.timestamp >= last, "commands are out of order", got=c.timestamp, after=last)
        last = c.timestamp
        by.setdefault(c.timestamp, []).append(c)
    facts, state = uni.Facts(els), {}
    for t, e in enumerate(els):
        mine = by.get(t, [])
        mon.check(mine, "an event left no command", event=t, tag=e.tag, attrs=dict(e.attrib))
        allowed = uni.event_types(e.tag)
        touched = set()
        for c in mine:
            mon.check(c.event is not None and c.event.name in allowed, "a command is filed under another kind of event", event=t, tag=e.tag,
                      got=str(c.event), expected=sorted(allowed))
            k = uni.key_of(c)
            mon.check(k[1] == "all" if k[0] != "player" else k[1] in range(facts.n), "a command is about nobody", event=t, got=k)
            new = uni.fold(state, c)
            mon.check(c.state == new, "the state recorded with a command is wrong", event=t, tag=e.tag, property=k, got=c.state,
                      expected=new)
            touched.add(k)
        want = facts.step(e)
        for k, (how, v) in want.items():
            mon.check(k in state and uni.agrees(how, state[k], v), "after an event a property is wrong", event=t, tag=e.tag,
                      attrs=dict(e.attrib), property=k, got=state.get(k), expected=v)
        mon.ev("facts", len(want))
        known = set(want) | {("record", "all", "has_aka_dora")}
        mon.check(touched <= known, "a command sets a property the log says nothing about", event=t, tag=e.tag, got=sorted(touched - known))
        if "owari" in e.attrib:
            mon.ev("records_finished")
    for a, b in zip(els, els[1:]):
        if a.tag == b.tag == "AGARI":
            mon.ev("multi_win")
    strict = to_commands(rec, strict=True)
    mon.eq([c.to_raw_record() for c in strict], [c.to_raw_record() for c in cmds], "strict conversion of an ordinary log differs")
    mon.eq([r for r in to_command_records(rec, raw=True)], [c.to_raw_record() for c in cmds], "raw records differ from the commands")
    mon.eq([r for r in to_command_records(rec)], [c.to_record() for c in cmds], "records differ from the commands")
    lib.log_events(mon, els)
    mon.ev("logs")
    mon.ev("commands", len(cmds))
    mon.ev("players_%d" % facts.n)
    mon.distinct(lib.log_sig(root))
    mon.sample({"events": len(els), "commands": len(cmds)})
