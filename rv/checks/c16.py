"""Replayed player states follow the game."""
from rv import lib, model, ref, sim
from mahjong.record.state import DiscardTiles, DoraIndicators, GameState, GameStateCollection, PlayerHand, PlayerMeld

ID = "C16"
RULE = ("generated and recorded logs, and logs of hands made of little but calls of one suit or number; after every event each player's hand, melds (with added quads merged into their triplet), "
        "discards and the dora indicators from scan() are compared with an independent replay (and for generated logs with the "
        "dealer's own books), earlier states must not change, and the folding entry points must agree, for each state and for collections of any of them; distinct = logs")
FLOORS = {"logs": 40, "states": 10000, "call_kakan": 100, "call_minkan": 20, "call_ankan": 5, "call_chi": 20, "call_pon": 20,
          "call_kita": 10, "folds": 50, "earlier_collections": 1000, "collections_folded": 40, "collections_of_many": 20}


def plan(tier):
    return [("sim", 200 if tier == "quick" else 1500), ("calls", 300 if tier == "quick" else 6000), ("real", len(lib.real_logs()))]


def meld_view(m):
    return frozenset(m.self_tiles), frozenset(m.borrowed_tiles), m.from_who if m.is_opened() else None


def want_melds(ms, who):
    return [(m.own, m.called, (who + m.rel) % 4 if m.called else None) for m in ms]


def dedup(seq):
    out = []
    for x in seq:
        if not out or out[-1] != x:
            out.append(x)
    return out


class Tags(GameState):
    """A state of one's own: how many events of some tags there were."""
    def __init__(self, tags, count=0):
        super().__init__()
        self.tags, self.count = tags, count

    def scan(self, event):
        return type(self)(self.tags, self.count + (event.tag in self.tags))

    @property
    def value(self):
        return self.count


class EqualTags(Tags):
    def __eq__(self, other):
        return self.count == other.count

    def __hash__(self):
        return self.count


def collection(rng, mon, rec, makers, trails):
    """Some states followed together, in any order, are each as if followed alone."""
    tags = rng.sample(["INIT", "DORA", "N", "REACH", "AGARI", "RYUUKYOKU", "BYE", "UN"], 3)
    own = rng.choice([Tags, EqualTags])(tags)
    makers = dict(makers, own=(own, None, lambda v: v))
    trail = []
    for e in rec.events:
        trail.append((trail[-1] if trail else 0) + (e.tag in tags))
    trails = dict(trails, own=trail)
    mon.eq([x.value for x in own.with_events(rec.events)], trail, "a state of one's own is not what scanning makes of it")
    mon.eq(own.passed_events(rec.events).value, trail[-1], "folding a state of one's own differs from scanning")
    keyed = [x.value for x in own.with_key_events(iter(rec.events))]
    mon.eq(dedup([0] + keyed), dedup([0] + trail), "key events of a state of one's own are missed")
    if type(own) is EqualTags:
        mon.eq([0] + keyed, dedup([0] + trail), "an event that changes nothing is taken for a key event")
    keys = rng.sample(list(makers), rng.randrange(1, 6))
    named = {"s%d" % i: k for i, k in enumerate(keys)}
    col = GameStateCollection(**{name: makers[k][0] for name, k in named.items()})

    def shown(c):
        return {name: makers[k][2](getattr(c.value, name).value) for name, k in named.items()}

    def want(i):
        return {name: trails[k][i - 1] if i else makers[k][2](makers[k][0].value) for name, k in named.items()}
    a = rng.choice([0, rng.randrange(len(rec.events))])
    b = min(len(rec.events), a + rng.choice([1, 5, 40, 200]))
    mon.ctx(collection=[str(k) for k in keys], part=(a, b))
    at = col.passed_events(rec.events[:a])
    mon.eq(shown(at), want(a), "folding a collection of states differs from following each")
    mon.eq(shown(at.passed_events(iter(rec.events[a:b]))), want(b), "folding a collection in two parts differs")
    steps = [want(i) for i in range(a + 1, b + 1)]
    mon.eq([shown(x) for x in at.with_events(rec.events[a:b])], steps, "a collection of states differs from each of them")
    keyed = [shown(x) for x in at.with_key_events(rec.events[a:b])]
    mon.eq(dedup([want(a)] + keyed), dedup([want(a)] + steps), "a collection misses or invents a change of a state")
    mon.ev("collections_folded")
    mon.ev("collections_of_many", int(len(keys) > 2))


def case(kind, index, rng, mon):
    import xml.etree.ElementTree as ET
    s = None
    if kind == "real":
        root = ET.parse(lib.real_logs()[index]).getroot()
    elif kind == "calls":
        root = sim.calls_log(rng)
    else:
        s = sim.make(rng, **(lib.busy(rng) if rng.random() < .6 else {}))
        root = s.root
    rec = lib.record_of(root)
    states = [st for _, st in model.states(root)]
    n = len(rec.players)
    makers = {}
    for p, pl in enumerate(rec.players):
        makers["hand", p] = (PlayerHand(pl), lambda st, p=p: st.hand[p], lambda v: frozenset(v))
        makers["melds", p] = (PlayerMeld(pl), lambda st, p=p: want_melds(st.melds[p], p), lambda v: [meld_view(m) for m in v])
        makers["river", p] = (DiscardTiles(pl), lambda st, p=p: list(st.river[p]), lambda v: list(v))
    makers["doras", None] = (DoraIndicators(), lambda st: list(st.doras), lambda v: list(v))
    first = {key: m[0] for key, m in makers.items()}
    trails = {}
    mon.ctx(log_type=root.attrib, players=n)
    for key, (start, want, view) in makers.items():
        cur, prev, prev_val, trail = start, None, None, []
        for e, st, snap in zip(rec.events, states, s.snaps if s else [None] * len(states)):
            nxt = cur.scan(e)
            val = view(nxt.value)
            if st.started:
                mon.check(val == want(st), "a replayed state is wrong", state=key, event=str(e.timestamp), tag=e.tag, got=val,
                          expected=want(st))
            if snap is not None and key[0] != "melds":
                truth = {"hand": lambda: snap["hand"][key[1]], "river": lambda: list(snap["river"][key[1]]),
                         "doras": lambda: list(snap["doras"])}[key[0]]()
                mon.check(val == truth, "a replayed state differs from the table", state=key, event=e.timestamp, tag=e.tag,
                          got=val, expected=truth)
            mon.check(prev is None or view(prev.value) == prev_val, "scanning an event changed an earlier state", state=key,
                      event=e.timestamp)
            prev, prev_val = cur, view(cur.value)
            trail.append(val)
            cur = nxt
            mon.ev("states")
        trails[key] = trail
        mon.check(view(start.value) == view(first[key].value), "scanning changed the initial state")
        # folding over chunks gives the same as one event at a time
        a = rng.randrange(len(rec.events))
        b = rng.randrange(a, len(rec.events) + 1)
        at_a = start.passed_events(rec.events[:a])
        mon.eq(view(at_a.value), trail[a - 1] if a else view(start.value), "folding events differs from scanning them",
               state=key, upto=a)
        at_b = at_a.passed_events(iter(rec.events[a:b]))
        mon.eq(view(at_b.value), trail[b - 1] if b else view(start.value), "folding events in two parts differs", state=key,
               upto=b)
        mon.eq([view(x.value) for x in at_a.with_events(rec.events[a:b])], trail[a:b], "with_events differs from scan", state=key)
        keyed = [view(x.value) for x in at_a.with_key_events(rec.events[a:b])]
        base = trail[a - 1] if a else view(start.value)
        mon.eq(dedup([base] + keyed), dedup([base] + trail[a:b]), "key events miss or invent a change of state", state=key)
        mon.ev("folds")
    if rng.random() < .4:
        collection(rng, mon, rec, makers, trails)
    both = GameStateCollection(hand=PlayerHand(rec.players[0]), doras=DoraIndicators())
    kept = []       # collections of earlier moments, some looked at already, with what they showed
    for e, st in zip(rec.events, states):
        both = both.scan(e)
        if st.started:
            if rng.random() < .7:
                v = both.value
                mon.check(frozenset(v.hand.value) == st.hand[0] and list(v.doras.value) == list(st.doras),
                          "a collection of states is wrong", event=e.timestamp)
            kept.append((both, st.hand[0], list(st.doras)))
    for old, hand, doras in kept:
        mon.check(frozenset(old.value.hand.value) == hand and list(old.value.doras.value) == doras,
                  "scanning events changed an earlier collection of states")
        mon.ev("earlier_collections")
    if kind == "real":
        for m in [PlayerMeld(pl).passed_events(rec.events) for pl in rec.players]:
            mon.ev("real_melds", len(m.value))
    lib.log_events(mon, root)
    mon.ev("logs")
    mon.distinct(lib.log_sig(root))
    mon.sample({"players": n, "events": len(states)})
