"""Translation rules: which rule answers, what it sees, what is made of its answer."""
import xml.etree.ElementTree as ET

from rv import lib, uni
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import EventType, GameView, PlayerView, RecordView, Update
from mahjong.record.universe.tenhou.xml_macher import TenhouCommandTranslator
from mahjong.record.universe.translator import default_event_type
from mahjong.record.utils.event import TenhouEvent

ID = "C36"
RULE = ("translators with random sets of rules (for a name, an attribute, both, several names, any event; answering always, "
        "sometimes, never, failing) fed random event streams, strict and lenient, with events made ready first (read as another, at another time), with clearing, copies and several translators "
        "at once, giving new commands or the same again, with or without a time of their own; the rule that answers, the state it is shown and the stamped commands are compared with an independent "
        "dispatcher; distinct = (rules, streams)")
FLOORS = {"events": 5000, "by_both": 300, "by_name": 500, "by_attr": 300, "by_default": 200, "unanswered": 200, "strict_refused": 100,
          "fell_through": 500, "rule_failed": 100, "cleared": 30, "fresh": 30, "event_filled": 500, "event_kept": 200, "own_time": 500, "same_commands": 300, "prepared": 500}


def plan(tier):
    return [("rules", 64 if tier == "quick" else 1200)]


NAMES, ATTRS = ["A", "B", "C", "D"], ["p", "q", "r"]
PROPS = [(GameView.round, "all"), (GameView.wind, "all"), (PlayerView.score, 0), (PlayerView.score, 2), (RecordView.seed, "all"),
         (PlayerView.hand, 1), (PlayerView.discard_from_hand, 3)]
TYPES = list(EventType)
GIVEN = TYPES + [EventType(0), EventType.draw | EventType.discard]      # no kind at all is a kind, too


class Boom(Exception):
    pass


class Rule:
    """Answers as a function of itself and the event, so that the answer can be foretold."""

    def __init__(self, rng, n, mon):
        self.n, self.mon = n, mon
        self.mood = rng.choice(["always", "always", "some", "never", "none", "fails"] if rng.random() < .3 else ["always", "some", "some", "never"])
        self.typ = rng.choice(TYPES) if rng.random() < .6 else None
        self.seen = []
        self.time = rng.choice([None, None, 0, -1, 7, 10 ** 6])     # a time of its own, which is not kept
        self.keeps = rng.random() < .2
        self.kept = {}

    def mode(self, tag, attrib):
        if self.mood == "some":
            return "always" if (len(tag) + len(attrib) + self.n + sum(map(len, attrib.values()))) % 2 else "never"
        return self.mood

    def answer(self, tag, attrib):
        out = []
        h = self.n * 7 + sum(ord(c) for c in tag) + len(attrib)
        for i in range(1 + h % 3):
            prop, who = PROPS[(h + i) % len(PROPS)]
            if prop in (PlayerView.hand, PlayerView.discard_from_hand):
                out.append((prop, who, Update.RESET_DEFAULT if i == 0 else Update.REPLACE, None if i == 0 else ["%dm" % (h % 9 + 1)],
                            GIVEN[(h + 1) % len(GIVEN)] if i % 2 else None))
            elif prop is RecordView.seed:
                out.append((prop, who, Update.ASSERT_EQUAL_OR_SET, "s%d" % h, None))
            else:
                out.append((prop, who, Update.REPLACE, h + i, GIVEN[h % len(GIVEN)] if i == 1 else None))
        return out

    def func(self):
        def f(event, ctx):
            self.seen.append(dict(ctx))
            mode = self.mode(event.tag, event.attrib)
            if mode == "fails":
                raise Boom()
            if mode == "always":
                cmds = self.kept.get((event.tag, len(event.attrib)))
                if cmds is None:
                    cmds = [GameCommand(prop=prop, update=update, sub_scope=who, value=value, event=typ, timestamp=self.time)
                            for prop, who, update, value, typ in self.answer(event.tag, event.attrib)]
                else:
                    self.mon.ev("same_commands")
                if self.keeps:
                    # made once, and given again whenever the rule answers the same
                    self.kept[event.tag, len(event.attrib)] = cmds
                if self.time is not None:
                    self.mon.ev("own_time")
                yield from cmds
        return f if self.typ is None else default_event_type(self.typ)(f)


class Prepared(TenhouCommandTranslator):
    """Events are made ready first: read as another and at another time."""
    def preprocess(self, event):
        tag, shift = self.read_as[event.tag]
        return TenhouEvent(ET.Element(tag, event.attrib), context=None, timestamp=event.timestamp + shift)


def make(rng, mon):
    t = TenhouCommandTranslator()
    table = {"both": {}, "name": {}, "attr": {}, "default": [], "read_as": None}
    if rng.random() < .25:
        t = Prepared()
        t.read_as = table["read_as"] = {n: (rng.choice(NAMES + ["Z"]), rng.choice([0, 1000])) for n in NAMES + ["Z"]}
    for n in range(rng.randrange(1, 12)):
        rule = Rule(rng, n, mon)
        f = rule.func()
        where = rng.choice(["both", "both", "name", "name", "names", "attr", "attr", "default"])
        if where == "both":
            k = rng.choice(NAMES), rng.choice(ATTRS)
            back = t.match_both(name=k[0], attr=k[1])(f)
            table["both"].setdefault(k, []).append(rule)
        elif where == "name":
            k = rng.choice(NAMES)
            back = t.match_name(k)(f)
            table["name"].setdefault(k, []).append(rule)
        elif where == "names":
            ks = rng.sample(NAMES, 2)
            back = t.match_names(ks)(f)
            for k in ks:
                table["name"].setdefault(k, []).append(rule)
        elif where == "attr":
            k = rng.choice(ATTRS)
            back = t.match_attr(k)(f)
            table["attr"].setdefault(k, []).append(rule)
        else:
            back = t.default_event(f)
            table["default"].append(rule)
        assert back is f
    return t, table


def dispatch(table, tag, attrib):
    """(rule answering or None or 'fails', how, how many were asked before)"""
    lists = [("by_both", table["both"].get((tag, a), [])) for a in attrib]
    lists += [("by_name", table["name"].get(tag, []))]
    lists += [("by_attr", table["attr"].get(a, [])) for a in attrib]
    lists += [("by_default", table["default"])]
    asked = 0
    for how, rules in lists:
        for r in rules:
            m = r.mode(tag, attrib)
            if m == "always":
                return r, how, asked
            if m == "fails":
                return "fails", how, asked
            asked += 1
    return None, None, asked


class Follow:
    """A translator and what its state must be."""

    def __init__(self, t, table):
        self.t, self.table, self.state = t, table, {}


def apply(state, c):
    prop, who, update, value, typ = c
    new = [] if update is Update.RESET_DEFAULT else value
    state[who, prop] = new
    return new


def step(mon, f, rng, stamp):
    tag = rng.choice(NAMES + ["Z"])
    attrib = {a: "x" * rng.randrange(3) for a in rng.sample(ATTRS, rng.randrange(0, 4))}
    ev = TenhouEvent(ET.Element(tag, attrib), context=None, timestamp=stamp)
    if f.table["read_as"]:
        tag, shift = f.table["read_as"][tag]
        stamp += shift
        mon.ev("prepared")
    rule, how, asked = dispatch(f.table, tag, attrib)
    strict = rng.random() < .4
    for rules in list(f.table["both"].values()) + list(f.table["name"].values()) + list(f.table["attr"].values()) + [f.table["default"]]:
        for r in rules:
            r.seen.clear()
    w = dict(tag=tag, attrib=attrib, strict=strict)
    mon.ev("events")
    try:
        got = f.t(ev, strict) if strict or rng.random() < .5 else f.t(ev)
    except Boom:
        mon.check(rule == "fails", "a failing rule was asked though another answers", **w)
        mon.ev("rule_failed")
        return
    except ValueError as e:
        mon.check(rule is None and strict, "an event is refused", error=str(e), **w)
        mon.ev("strict_refused")
        return
    mon.check(rule != "fails", "the failure of a rule is swallowed", **w)
    if rule is None:
        mon.check(not strict and list(got) == [], "an event no rule answers gives commands or passes strict translation", got=str(got), **w)
        mon.ev("unanswered")
        return
    want = rule.answer(tag, attrib)
    mon.check(len(rule.seen) >= 1 and {k: v for k, v in rule.seen[-1].items() if isinstance(k, tuple)} == f.state,
              "a rule is shown another state than the commands so far make", got=rule.seen[-1:], expected=f.state, **w)
    mon.eq([(c.property, c.sub_scope_id, c.update_method, c.value) for c in got], [x[:4] for x in want], "another rule answers an event",
           rule=rule.n, how=how, **w)
    for c, x in zip(got, want):
        new = apply(f.state, x)
        mon.eq(c.state, new, "the state stamped on a command is wrong", **w)
        mon.eq(c.timestamp, stamp, "a command is stamped with another time", **w)
        mon.eq(c.event, x[4] if x[4] is not None else rule.typ, "a command is filed under another kind of event", **w)
        if rule.typ is not None:
            mon.ev("event_filled" if x[4] is None else "event_kept")
    mon.ev(how)
    if asked:
        mon.ev("fell_through")


def case(kind, index, rng, mon):
    follows = [Follow(*make(rng, mon)) for _ in range(rng.choice([1, 2, 3]))]
    for stamp in range(120):
        f = rng.choice(follows)
        step(mon, f, rng, stamp)
        r = rng.random()
        if r < .01:
            f.t.clear()
            f.state = {}
            mon.ev("cleared")
        elif r < .02:
            follows.append(Follow(f.t.fresh(), f.table) if hasattr(f.t, "fresh") else Follow(*make(rng, mon)))
            mon.ev("fresh")
    mon.distinct((index,))
    mon.sample({"translators": len(follows), "state": {str(k): v for k, v in follows[0].state.items()}})
