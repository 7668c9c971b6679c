"""The paifu export tells the log, row by row."""
import re
import xml.etree.ElementTree as ET
from collections import Counter

from rv import lib, model, ref
from rv.checks import c21

ID = "C28"
RULE = ("generated logs (all calls, riichi, aborts, several winners, disconnections, three and four players, red fives) and "
        "recorded ones; the rows exported for every event, hand and record are compared with rows derived independently from the "
        "log, in order, rows that read like the one before them included, and the exported rows alone must give back every player's hand, also when rows exported before were changed; distinct = logs")
FLOORS = {"logs": 60, "rows": 20000, "call_kakan": 10, "call_minkan": 5, "call_ankan": 5, "call_kita": 5, "agari": 30, "bye": 3,
          "reach_2": 20, "multi_win": 2, "players_3": 10, "players_4": 10, "hands_followed": 60, "reach_without_scores": 3, "exported_again": 60, "final_below_zero": 5, "same_again": 30}


def plan(tier):
    return [("sim", 160 if tier == "quick" else 3000), ("real", len(lib.real_logs()))]


TILE = re.compile(r"([0-9])([mpsz])")


def tiles(text):
    """Multiset of tiles shown as text, nothing else allowed."""
    text = str(text)
    found = TILE.findall(text)
    return None if "".join(n + c for n, c in found) != text else Counter(n + c for n, c in found)


def bag(ids):
    return Counter(ref.id_name(i) for i in ids)


def expect(e, n):
    """Rows of one event: dicts of field -> value; tile fields as multisets."""
    a, te = e.attrib, model.tile_event(e.tag)
    if te:
        what, who, tile = te
        return [{"event_type": what.upper(), "player": str(who), "player_see" if what == "draw" else "player_show": bag([tile])}]
    if e.tag == "INIT":
        seed, ten = model.ints(a["seed"]), a["ten"].split(",")
        rows = [{"event_type": "INIT%d" % (p + 1), "player": str(p), "player_see": bag(model.ints(a["hai%d" % p])), "score": int(ten[p]) * 100}
                for p in range(n)]
        return rows + [{"event_type": "DORA", "player_see": bag([seed[5]]), "player_show": bag([seed[5]])},
                       {"event_type": "ROUND", "score": seed[2] * 1000}]
    if e.tag == "N":
        who = int(a["who"])
        m = ref.decode_meld(int(a["m"]))
        kind = {"chi": "CHI", "pon": "PENG", "kakan": "GANG", "ankan": "ANGANG", "minkan": "MINGGANG", "kita": "KITA"}[m.kind]
        row = {"event_type": kind, "player": str(who), "player_show": bag(m.own), "player_open": bag(m.own | m.called)}
        if m.kind != "kita":    # a closed quad comes from the caller himself
            row["origin"] = str((who + m.rel) % 4)
        return [row]
    if e.tag == "REACH":
        if a["step"] == "1":
            return [{"event_type": "CALLRICHI", "player": a["who"]}]
        return [{"event_type": "RICHI", "player": a["who"]}, {"event_type": "SCORE", "player": a["who"], "score": -1000}]
    if e.tag == "DORA":
        return [{"event_type": "DORA", "player_see": bag([int(a["hai"])]), "player_show": bag([int(a["hai"])])}]
    if e.tag == "AGARI":
        return [{"event_type": "WIN", "player": a["who"], "origin": a["fromWho"]}]
    if e.tag == "RYUUKYOKU":
        return [{"event_type": "EVEN", "origin": ref.DRAWS[a["type"]] if "type" in a else ""}]
    return []


def view(row, want):
    out = {}
    for k in want:
        v = row.get(k)
        if k in ("player_see", "player_show", "player_open"):
            v = tiles(v)
        elif k == "score":
            v = int(v)
        elif k == "event_type":
            v = v.strip()
        out[k] = v
    return out


def same(mon, rows, want, where, **w):
    mon.eq([str(r.get("event_type")).strip() for r in rows], [x["event_type"] for x in want], "the exported rows are not those of the log",
           where=where, **w)
    for r, x in zip(rows, want):
        mon.eq(view(r, x), x, "an exported row is wrong", where=where, row=r, **w)
        if x["event_type"].startswith("INIT"):
            order = [ref.name_kind(n + c) for n, c in TILE.findall(str(r["player_see"]))]
            mon.eq(order, sorted(order), "a dealt hand is exported out of order", where=where, row=r, **w)
    mon.ev("rows", len(rows))


def follow(mon, rows, root, span):
    """The hands, rebuilt from the rows alone, are those of the log after every discard."""
    n = model.players_of(root)
    hands = {}
    states = [st for _, st in model.states(root)][span[0]:span[1]]
    discards = [st for e, st in zip(list(root)[span[0]:span[1]], states) if (model.tile_event(e.tag) or "?")[0] == "discard"]
    i = 0
    for r in rows:
        t = r["event_type"].strip()
        if t.startswith("INIT"):
            hands[int(r["player"])] = tiles(r["player_see"])
        elif t == "DRAW":
            hands[int(r["player"])] += tiles(r["player_see"])
        elif t in ("CHI", "PENG", "GANG", "ANGANG", "MINGGANG", "KITA"):
            hands[int(r["player"])] -= tiles(r["player_show"])
        elif t == "DISCARD":
            hands[int(r["player"])] -= tiles(r["player_show"])
            st = discards[i]
            i += 1
            mon.eq([hands[p] for p in range(n)], [bag(st.hand[p]) for p in range(n)], "the hands told by the exported rows are not those of the log",
                   row=r)
    mon.ev("hands_followed")


def repeat(rng, root, mon):
    """Indicators turned up one right after another, of one face: a row each."""
    for i in sorted((i for i, e in enumerate(root) if model.tile_event(e.tag)), reverse=True):
        if rng.random() < .03:
            four = rng.randrange(34) * 4
            for t in rng.sample(range(four, four + 4), rng.choice([2, 2, 3])):
                root.insert(i + 1, ET.Element("DORA", {"hai": str(t)}))
            mon.ev("same_again")


def case(kind, index, rng, mon):
    root = c21.root_of(kind, index, rng)
    if rng.random() < .3:
        repeat(rng, root, mon)
    els = list(root)
    n = model.players_of(els)
    text = lib.xml_text(root)
    mon.ctx(log=text[:300], players=n)
    rec = lib.record_of(root)
    total = []
    for e, ev in zip(els, rec.events):
        if e.tag in ("UN", "GO", "SHUFFLE", "TAIKYOKU", "BYE"):
            mon.eq(ev.to_paifu(), [], "an event that is no play is exported", tag=e.tag)
        else:
            same(mon, ev.to_paifu(), expect(e, n), "event", event=e.tag, attrs=dict(e.attrib))
    for g, (a, b) in zip(rec.game_list, model.games(els)):
        seed = model.ints(els[a].attrib["seed"])
        want = [r for e in els[a:b] for r in expect(e, n)]
        rows = g.to_paifu()
        same(mon, rows, want, "hand", hand_at=a)
        name = "%s-%d-%d" % ("ESWN"[seed[0] // 4], seed[0] % 4 + 1, seed[1])
        mon.check(all(r["game_str"] == name for r in rows), "a row is filed under another hand", expected=name, got=sorted({r["game_str"] for r in rows}))
        follow(mon, rows, root, (a, b))
        total += want
    rows = rec.to_paifu()
    own = next(e for e in reversed(els) if "owari" in e.attrib).attrib["owari"].split(",")
    fin = [{"event_type": "FIN%d" % (p + 1), "player": str(p), "score": round(float(own[2 * p]) * 100)} for p in range(n)]
    for p, r in enumerate(rows[len(total):]):
        mon.check(not float(own[2 * p]).is_integer() or re.fullmatch("-?[0-9]+", str(r["score"])), "a final score in whole points is told as none", row=r)
        mon.ev("final_below_zero", int(float(own[2 * p]) < 0))
        mon.check(float(r["score"]) == int(float(r["score"])), "a final score is no whole number", row=r)
        r["score"] = int(float(r["score"]))
    same(mon, rows, total + fin, "record")
    # the rows are the caller's own: whatever becomes of them, exporting again gives the same
    for e, ev in rng.sample(list(zip(els, rec.events)), min(len(els), 40)):
        mine = ev.to_paifu()
        for r in mine:
            r["event_type"] = r["player"] = r["game_str"] = r["player_see"] = "spoilt"
        if rng.random() < .5 and isinstance(mine, list):
            mine.append({"event_type": "spoilt"})
    for g in rec.game_list:
        for r in g.to_paifu():
            r.update(event_type="spoilt", player_show="spoilt")
    if len(els) < 900:
        rows2 = rec.to_paifu()
        same(mon, rows2[:len(total)], total, "record exported again after the rows were changed")
        mon.check(not any("spoilt" in map(str, r.values()) for r in rows2), "what became of exported rows shows in a new export")
        for e, ev in rng.sample(list(zip(els, rec.events)), min(len(els), 60)):
            for r in ev.to_paifu():
                mon.check("game_str" not in r and "spoilt" not in map(str, r.values()), "the rows of an event show what became of them elsewhere", row=r)
        mon.ev("exported_again")
    mon.check(lib.xml_text(root) == text, "exporting a log changed it")
    for a, b in zip(els, els[1:]):
        if a.tag == b.tag == "AGARI":
            mon.ev("multi_win")
        mon.ev("reach_without_scores", int(a.tag == "REACH" and a.attrib["step"] == "2" and "ten" not in a.attrib))
    lib.log_events(mon, els)
    mon.ev("logs")
    mon.ev("players_%d" % n)
    mon.distinct(text)
    mon.sample({"players": n, "rows": len(rows), "first": {k: str(v) for k, v in rows[0].items()}})
