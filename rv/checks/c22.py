"""Strict checking: contradictions and unknown events are caught exactly where they are; lenient reading never fails."""
import xml.etree.ElementTree as ET
from collections import Counter

from rv import core, lib, model, ops, ref, sim, uni
from rv.checks import c21, c24, c38
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import Update, ViewScope
from mahjong.record.universe.tenhou import to_command_iter, to_command_records, to_commands

ID = "C22"
RULE = ("consistent logs, and the same logs with one contradiction planted (a score carried over, paid out or shown wrongly, a "
        "winning hand that was not held, a player coming back under another name), or command lists over every property restating values, zeros and empty ones too, rightly or wrongly, or with unknown events inserted anywhere; strict "
        "replay must stop at exactly the contradicting command and nowhere else, strict conversion must refuse unknown events, and "
        "lenient reading must give every state and skip only the unknown; the same in optimised processes; distinct = (log, damage)")
FLOORS = {"clean": 30, "carried_score": 8, "paid_score": 8, "winning_hand": 8, "name": 4, "unknown": 20, "stopped": 30, "stated": 60, "stated_empty": 5, "optimised": 10, "ways": 80, "rewritten_right": 20, "rewritten_wrong": 5, "reordered": 15, "nothing": 8}
DAMAGE = ["carried_score", "paid_score", "winning_hand", "name"]


def plan(tier):
    q = tier == "quick"
    return [("clean", 40 if q else 600), ("damaged", 96 if q else 1600), ("unknown", 30 if q else 400), ("optimised", 2 if q else 30), ("stated", 80 if q else 1500), ("real", len(lib.real_logs()))]


def damage(rng, root, what):
    """Plants one contradiction; False when the log offers no place for it."""
    els = list(root)
    n = model.players_of(els)
    if what == "carried_score":
        inits = [e for e in els if e.tag == "INIT"][1:]
        if not inits:
            return False
        e = rng.choice(inits)
        ten = model.ints(e.attrib["ten"])
        ten[rng.randrange(n)] += rng.choice([1, -1, 10, 1000])
        e.attrib["ten"] = ",".join(map(str, ten))
    elif what == "paid_score":
        ends = [e for e in els if e.tag in ("AGARI", "RYUUKYOKU") and "sc" in e.attrib]
        e = rng.choice(ends)
        sc = model.ints(e.attrib["sc"])
        sc[2 * rng.randrange(n)] += rng.choice([1, -1, 10, 320])
        e.attrib["sc"] = ",".join(map(str, sc))
    elif what == "winning_hand":
        ends = [e for e in els if e.tag == "AGARI"]
        if not ends:
            return False
        e = rng.choice(ends)
        hai, machi = model.ints(e.attrib["hai"]), int(e.attrib["machi"])
        i = rng.choice([i for i, t in enumerate(hai) if t != machi])
        face = ref.id_name(hai[i])
        hai[i] = rng.choice([t for t in range(136) if t not in hai and ref.id_name(t) != face])
        e.attrib["hai"] = ",".join(map(str, hai))
    else:
        late = [e for i, e in enumerate(els) if e.tag == "UN" and any(x.tag == "UN" for x in els[:i])]
        if not late:
            return False
        e = rng.choice(late)
        k = rng.choice([k for k in e.attrib if k[0] == "n" and e.attrib[k]])
        e.attrib[k] = e.attrib[k] + "%21"
    return True


TILES = {"hand", "discard_tiles", "meld_public_tiles", "bonus_tiles", "dora_indicators"}


def first_contradiction(cmds):
    state = {}
    for i, c in enumerate(cmds):
        k = uni.key_of(c)
        if c.update_method.name == "ASSERT_EQUAL_OR_SET" and k in state:
            same = Counter(c.value) == Counter(state[k]) if k[2] in TILES and k[0] != "record" else c.value == state[k]
            if not same:
                return i, k, state[k], c.value
        uni.fold(state, c)
    return None


def case(kind, index, rng, mon):
    if kind == "unknown":
        return unknown(rng, mon)
    if kind == "stated":
        return stated(rng, mon)
    if kind == "optimised":
        return optimised(rng, mon)
    what = None
    if kind == "damaged":
        what = DAMAGE[index % len(DAMAGE)]
        for _ in range(60):
            root = c21.make(rng, games=rng.choice([2, 3]), p_net=.03 if what == "name" else 0.0, max_turns=rng.choice([10, 30, 60]),
                            p_ron=.08 if what == "winning_hand" else .02).root
            if damage(rng, root, what):
                break
    else:
        root = c21.root_of(kind, index, rng)
    cmds = to_commands(lib.record_of(root))
    at = first_contradiction(cmds)
    mon.ctx(damage=what, contradiction=repr(at))
    if kind != "damaged":
        # the commands of a clean log never contradict each other
        mon.check(at is None, "a consistent log gives contradicting commands", got=at)
    seen, error = 0, None
    try:
        for _ in GameExecutor(strict_mode=True).execute(iter(cmds)):
            seen += 1
    except AssertionError as e:
        error = e
    if at is None:
        mon.check(kind != "damaged", "a contradiction in the log left no contradicting command")
        mon.check(error is None and seen == len(cmds), "strict replay stops on a consistent log", at=seen, error=str(error)[:500])
        mon.ev("clean")
    else:
        mon.check(error is not None, "strict replay accepts a contradiction", command=str(cmds[at[0]]), states=seen)
        mon.eq(seen, at[0], "strict replay stops somewhere else than at the contradiction", command=str(cmds[at[0]]), error=str(error)[:500])
        mon.ev("stopped")
        mon.ev(what)
    for mode in (False, None):
        ex = GameExecutor() if mode is None else GameExecutor(strict_mode=False)
        states = list(ex.execute(cmds))
        mon.eq(len(states), len(cmds), "lenient replay does not give every state")
    if at is not None:
        c = cmds[at[0]]
        after = GameExecutor.state_value(states[at[0]], c)
        mon.check(after[c.property] == c.value, "lenient replay does not take over the stated value", command=str(c))
    mon.distinct((lib.log_sig(root), what))
    mon.sample({"damage": what, "commands": len(cmds), "stopped_at": at and at[0]})


def optimised(rng, mon):
    """Strictness is no matter of how the interpreter was started."""
    jobs = [("strict", rng.randrange(10 ** 9)) for _ in range(6)]
    got = c38.child(jobs, {"PYTHONOPTIMIZE": rng.choice(["1", "2"])}, core.VERIF)
    mon.check(isinstance(got, list), "strict checking fails in an optimised process", error=got)
    for job, g in zip(jobs, got):
        mon.ctx(job=job)
        mon.eq(g, ops.run(job), "strict checking finds something else in an optimised process")
        mon.ev("optimised")
        mon.distinct(job)


def rewrite(rng, cmds, mon):
    """Values restated in another writing, or as something else that reads the same."""
    state, out = {}, []
    for c in cmds:
        k, v = uni.key_of(c), c.value
        if c.update_method.name == "ASSERT_EQUAL_OR_SET" and k in state and k[2] not in TILES and rng.random() < .5:
            old = state[k]
            same = {bool: [int(old), float(old)] if isinstance(old, bool) else [], int: [float(old)] if isinstance(old, int) else [],
                    float: [int(old)] if isinstance(old, float) and old.is_integer() else []}.get(type(old), [])
            v = rng.choice(same * 3 + ([str(old)] if isinstance(old, (int, float)) else []) + [old])
            c = GameCommand(prop=c.property, update=c.update_method, sub_scope=c.sub_scope_id, value=v, timestamp=c.timestamp, event=c.event)
            mon.ev("rewritten_right" if v == old else "rewritten_wrong", int(type(v) is not type(old)))
            if v != old:
                out.append(c)       # what follows a contradiction is never reached
                return out
        out.append(c)
        uni.fold(state, c)
    return out


def reorder(rng, mon):
    """A list restated with its entries in another order: another list, unless it is a heap of tiles."""
    p = rng.choice([p for p in c24.props() if c24.typ(p) in ("list", "melds", "tiles")])
    who = rng.randrange(4) if p.scope == ViewScope.player else "all"
    while True:
        v = c24.value(rng, c24.typ(p))
        if len(v) > 1:
            break
    mixed = rng.sample(v, len(v))
    mon.ev("reordered", int(mixed != v))
    ways = [("REPLACE", v)] + [("ASSERT_EQUAL_OR_SET", rng.choice([v, list(v)]))] * rng.randrange(2) + [("ASSERT_EQUAL_OR_SET", mixed)]
    return [GameCommand(prop=p, update=Update[how], sub_scope=who, value=x, timestamp=0) for how, x in ways]


def nothing(rng, mon):
    """A value that is known to be nothing is a value: stating another contradicts it."""
    p = rng.choice([p for p in c24.props() if c24.typ(p) not in ("list", "melds", "tiles")])
    who = rng.randrange(4) if p.scope == ViewScope.player else "all"
    v = c24.value(rng, c24.typ(p))
    first, then = rng.choice([(None, v), (None, v), (v, None), (None, None)])
    mon.ev("nothing", int(first is None and then is not None))
    ways = [(rng.choice(["REPLACE", "ASSERT_EQUAL_OR_SET"]), first), ("ASSERT_EQUAL_OR_SET", then)]
    return [GameCommand(prop=p, update=Update[how], sub_scope=who, value=x, timestamp=0) for how, x in ways]


def stated(rng, mon):
    """Values restated rightly and wrongly, whatever they are."""
    cmds = []
    for _ in range(40):
        cmds = c24.synthetic(rng, rng.choice([3, 6, 12, 30]))
        at = first_contradiction(cmds)
        if at and rng.random() < (.2 if at[2] else .9) or not at and rng.random() < .3:
            break
    way = rng.random()
    if way < .3:
        cmds = (reorder if way < .15 else nothing)(rng, mon) + cmds
        at = first_contradiction(cmds)
    elif rng.random() < .6:
        cmds = rewrite(rng, cmds, mon)
        at = first_contradiction(cmds)
    mon.ctx(commands=[str(c) for c in cmds], contradiction=repr(at))
    seen, error = 0, None
    try:
        for _ in GameExecutor(strict_mode=True).execute(iter(cmds)):
            seen += 1
    except AssertionError as e:
        error = e
    if at is None:
        mon.check(error is None and seen == len(cmds), "strict replay stops on consistent commands", at=seen, error=str(error)[:500])
    else:
        mon.check(error is not None, "strict replay accepts a contradiction", command=str(cmds[at[0]]), states=seen)
        mon.eq(seen, at[0], "strict replay stops somewhere else than at the contradiction", command=str(cmds[at[0]]), error=str(error)[:500])
        mon.ev("stated_empty", int(not at[2]))
    mon.eq(len(list(GameExecutor().execute(cmds))), len(cmds), "lenient replay does not give every state")
    mon.ev("stated")
    mon.distinct(tuple(map(str, cmds)))


ODD_TAGS = ["FOO", "CHAT", "HELO", "X12", "T", "D", "NN", "T12x", "DORA2", "AGARI_", "init", "REACHED", "D-1", "BYEBYE"]


def unknown(rng, mon):
    root = c21.make(rng, games=1, max_turns=rng.choice([5, 20]), odd_names=False).root
    base = to_commands(lib.record_of(lib.clone(root)))
    els = list(root)
    first = next(i for i, e in enumerate(els) if e.tag == "INIT")
    many = ET.Element(root.tag, root.attrib)
    keep = []
    spots = sorted(rng.sample(range(1, len(els)), min(len(els) - 1, rng.choice([1, 1, 3]))))
    tags = []
    for i, e in enumerate(els):
        if i in spots:
            tag = rng.choice(ODD_TAGS)
            tags.append((i, tag))
            ET.SubElement(many, tag, rng.choice([{}, {"who": "1"}, {"m": "17", "odd": "x"}]))
        keep.append(len(many))
        many.append(e)
    mon.ctx(inserted=tags)
    rec = lib.record_of(many)
    got = to_commands(rec)
    new_at = {old: new for old, new in enumerate(keep)}
    mon.eq([(c.to_raw_record()._replace(timestamp=0)) for c in got], [c.to_raw_record()._replace(timestamp=0) for c in base],
           "an unknown event changed other commands")
    mon.eq([c.timestamp for c in got], [new_at[c.timestamp] for c in base], "timestamps are wrong after an unknown event")
    lenient = to_commands(rec, strict=False)
    mon.eq(len(lenient), len(base), "lenient conversion loses commands")
    ways = {"commands": lambda r, s: to_commands(r, strict=s), "one by one": lambda r, s: list(to_command_iter(r, s)),
            "records": lambda r, s: list(to_command_records(r, strict=s)), "raw records": lambda r, s: list(to_command_records(r, raw=True, strict=s))}
    for name, way in ways.items():
        mon.eq(len(way(rec, False)), len(base), "lenient conversion loses commands", way=name)
        refused = False
        try:
            way(rec, True)
        except Exception:
            refused = True
        mon.check(refused, "strict conversion accepts an unknown event", way=name)
        try:
            way(lib.record_of(root), True)
        except Exception as e:
            mon.check(False, "strict conversion refuses an ordinary log", error=repr(e), way=name)
        mon.ev("ways")
    mon.ev("unknown")
    mon.distinct((lib.log_sig(root), tuple(tags)))
