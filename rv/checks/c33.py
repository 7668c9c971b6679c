"""What records, hands, players, events and calls say about themselves."""
from urllib.parse import unquote

from rv import lib, model, ref
from rv.checks import c21

ID = "C33"
RULE = ("generated logs (all calls, riichi, aborts, several winners, disconnections, limit hands, ties, odd names, three and four "
        "players) and recorded ones; the text of the record, of every hand, player, event and call is parsed and compared with the "
        "log; distinct = logs")
FLOORS = {"logs": 60, "events": 10000, "melds": 500, "multi_win": 2, "ron": 30, "tsumo": 10, "ranked": 60, "draw_abort": 5,
          "players_3": 10, "players_4": 10}


def plan(tier):
    return [("sim", 160 if tier == "quick" else 3000), ("real", len(lib.real_logs()))]


CLASS = {"chi": "Flush", "pon": "Triplet", "kakan": "TenhouAddedKan", "ankan": "TenhouKan", "minkan": "TenhouKan", "kita": "Kita"}


def hand_line(e, names):
    a = e.attrib
    if e.tag == "AGARI":
        who, frm, score = int(a["who"]), int(a["fromWho"]), model.ints(a["ten"])[1]
        return "%s:ツモ(%d)" % (names[who], score) if who == frm else "%s<-%s:ロン(%d)" % (names[who], names[frm], score)
    return "流局" + (" " + ref.DRAWS[a["type"]] if "type" in a else "")


def bag(text):
    return lib.set_counts(lib.parse(text))


def meld_text(mon, text, who, m, e):
    import re
    g = re.match(r"'(\w+)' using '(.*)' to get '(.*)' from player (\d)\Z", text)
    mon.check(g is not None, "a call does not say what it is", text=text)
    mon.eq(g.group(1), CLASS[m.kind], "a call calls itself another kind", text=text, code=e.attrib["m"])
    mon.eq(bag(g.group(2)), ref.counts_of(i // 4 for i in m.own), "a call names other tiles of the caller", text=text, code=e.attrib["m"])
    mon.eq(bag(g.group(3)), ref.counts_of(i // 4 for i in m.called), "a call names other called tiles", text=text, code=e.attrib["m"])
    if m.called:
        mon.eq(int(g.group(4)), (who + m.rel) % 4, "a call names another source", text=text, code=e.attrib["m"])


def base(mon, text, e):
    """The short text of an event."""
    a, te = e.attrib, model.tile_event(e.tag)
    if te:
        mon.eq(text, "player %d %s %s" % (te[1], te[0], ref.id_name(te[2])), "an event says something else", tag=e.tag)
    elif e.tag == "N":
        who = int(a["who"])
        head = "player %d claimed " % who
        mon.check(text.startswith(head), "a call is told of another player", text=text, attrs=dict(a))
        meld_text(mon, text[len(head):], who, ref.decode_meld(int(a["m"])), e)
        mon.ev("melds")
    elif e.tag == "REACH":
        mon.eq(text, "player %s richii" % a["who"], "an event says something else", tag=e.tag)
    elif e.tag == "DORA":
        mon.eq(text, "new dora indicator " + ref.id_name(int(a["hai"])), "an event says something else", tag=e.tag)
    elif e.tag == "AGARI":
        mon.eq(text, "player %s win %d from player %s" % (a["who"], model.ints(a["ten"])[1], a["fromWho"]), "an event says something else", tag=e.tag)
    elif e.tag == "RYUUKYOKU":
        mon.eq(text.strip(), "no body win " + ref.DRAWS[a["type"]] if "type" in a else "no body win", "an event says something else", tag=e.tag)
    else:
        mon.eq(text, "UNPARSED", "an event says something else", tag=e.tag)


def case(kind, index, rng, mon):
    import xml.etree.ElementTree as ET
    root = c21.root_of(kind, index, rng)
    els = list(root)
    n = model.players_of(els)
    un = next(e for e in els if e.tag == "UN").attrib
    go = next(e for e in els if e.tag == "GO").attrib
    names = [unquote(un["n%d" % p]) for p in range(n)]
    text = lib.xml_text(root)
    mon.ctx(log=text[:300], names=names)
    rec = lib.record_of(root)
    for p, pl in enumerate(rec.players):
        mon.eq(str(pl), "%s %s R%.2f" % (names[p], ref.RANKS[int(un["dan"].split(",")[p])], float(un["rate"].split(",")[p])), "a player says something else")
    for g, (a, b) in zip(rec.game_list, model.games(els)):
        seed = model.ints(els[a].attrib["seed"])
        ends = [e for e in els[a:b] if e.tag in ("AGARI", "RYUUKYOKU")]
        want = "%s%d局%d本 %s" % ("東南西北"[seed[0] // 4], seed[0] % 4 + 1, seed[1], ",".join(hand_line(e, names) for e in ends))
        mon.eq(str(g).strip(), want.strip(), "a hand says something else", hand_at=a)
        mon.eq(repr(g), "<%s>" % g, "the debug text of a hand is another")
        if len(ends) > 1:
            mon.ev("multi_win")
        for e in ends:
            mon.ev("draw_abort" if e.tag == "RYUUKYOKU" and "type" in e.attrib else "draw_exhausted" if e.tag == "RYUUKYOKU"
                   else "tsumo" if e.attrib["who"] == e.attrib["fromWho"] else "ron")
    own = [float(x) for x in els[-1].attrib["owari"].split(",")]
    order = sorted(range(n), key=lambda p: -own[2 * p])         # level scores: the earlier seat first
    want = "%s %s" % (ref.GT(int(go["type"])).text(), ",".join("%d位:%s(%.1f)" % (i + 1, names[p], own[2 * p + 1]) for i, p in enumerate(order)))
    mon.eq(str(rec), want, "a record says something else")
    mon.eq(repr(rec), "<%s>" % want, "the debug text of a record is another")
    mon.ev("ranked")
    for e, ev in zip(els, rec.events):
        t = ev.base_str()
        base(mon, t, e)
        s = str(ev)
        mon.check(s.startswith(t + ":"), "the text of an event does not start with what happened", text=s)
        back = ET.fromstring(s[len(t) + 1:])
        mon.eq((back.tag, dict(back.attrib)), (e.tag, dict(e.attrib)), "the text of an event does not quote it")
        mon.check(s in repr(ev), "the debug text of an event does not hold its text", got=repr(ev))
        mon.ev("events")
    mon.check(lib.xml_text(root) == text, "describing a log changed it")
    mon.ev("logs")
    mon.ev("players_%d" % n)
    mon.distinct(text)
    mon.sample({"record": want, "first_hand": str(rec.game_list[0])})
