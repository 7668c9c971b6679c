"""Unseen tiles."""
from rv import lib, model, sim
from mahjong.record.state import DiscardTiles, DoraIndicators, InvisibleTiles, PlayerHand, PlayerMeld

ID = "C17"
RULE = ("the same log workloads, both player counts, with tile number 0 and every other tile discarded, called or shown; after "
        "every event the unseen tiles must be all tiles of the game except the dora indicators, discards and the callers' own "
        "meld tiles so far, disjoint from what is on the table and a superset of every other hand; distinct = logs")
FLOORS = {"logs": 40, "states": 10000, "players_3": 5, "players_4": 5, "tile0_shown": 10, "hands_restarted": 20}


def plan(tier):
    return [("sim", 240 if tier == "quick" else 2500), ("real", len(lib.real_logs()))]


def case(kind, index, rng, mon):
    import xml.etree.ElementTree as ET
    if kind == "real":
        root = ET.parse(lib.real_logs()[index]).getroot()
    else:
        root = sim.make(rng, **(lib.busy(rng) if rng.random() < .6 else {})).root
    rec = lib.record_of(root)
    n = len(rec.players)
    full = model.all_ids(n)
    cur = start = InvisibleTiles(n)
    mon.ctx(players=n)
    mon.eq(set(start.value), set(full), "the tiles unseen before play are wrong")
    trail, prev, prev_val = [], None, None
    seen0 = False
    for e, (el, st) in zip(rec.events, model.states(root)):
        nxt = cur.scan(e)
        val = frozenset(nxt.value)
        want = full - st.visible
        mon.check(val == want, "the unseen tiles are wrong", event=e.timestamp, tag=e.tag, extra=sorted(val - want),
                  missing=sorted(want - val))
        for h in st.hand:
            mon.check(not st.started or h <= val, "a tile in a hand counts as seen by everybody", event=e.timestamp,
                      tiles=sorted(h - val))
        if prev is not None:
            mon.check(frozenset(prev.value) == prev_val, "scanning changed an earlier state", event=e.timestamp)
        prev, prev_val = cur, frozenset(cur.value)
        trail.append(val)
        if 0 in st.visible:
            mon.ev("tile0_shown")
        if e.tag == "INIT":
            mon.ev("hands_restarted")
        cur = nxt
        mon.ev("states")
    a = rng.randrange(len(trail))
    b = rng.randrange(a, len(trail))
    mid = start.passed_events(rec.events[:a + 1])
    mon.eq(frozenset(mid.value), trail[a], "folding events differs from scanning them")
    mon.eq(frozenset(mid.passed_events(rec.events[a + 1:b + 1]).value), trail[b], "folding events in two parts differs")
    mon.eq([frozenset(x.value) for x in mid.with_events(rec.events[a + 1:b + 1])], trail[a + 1:b + 1], "with_events differs")
    mon.ev("logs")
    lib.log_events(mon, root)
    mon.ev("players_%d" % n)
    mon.distinct(lib.log_sig(root))
    mon.sample({"players": n, "events": len(trail), "unseen_at_end": len(trail[-1])})
