"""A parsed log holds exactly the log."""
import codecs
import io
import pathlib
import re
import shutil
import tempfile
from urllib.parse import unquote

from rv import lib, model, ref, sim
from mahjong.record.reader import TenhouRecord, from_file

ID = "C15"
RULE = ("generated logs (3 and 4 players, 1..4 hands, calls, aborts, several winners, disconnections) and recorded ones, as elements, streams and files in several encodings; the "
        "parsed events, hands, round numbers, players, outcomes and totals are compared with an independent reading of the "
        "XML; distinct = logs")
FLOORS = {"logs": 60, "init": 100, "agari": 30, "multi_win": 2, "players_3": 10, "players_4": 10, "bye": 3, "files": 40, "file_utf16": 10, "file_utf8": 10, "file_usascii": 3}


def plan(tier):
    return [("sim", 240 if tier == "quick" else 2500), ("real", len(lib.real_logs()))]


def close(a, b):
    return float(a) == float(b)


CODES = ["utf-8", "utf-8-sig", "utf-16", "utf-16-be", "utf-16-le", "ascii", "latin-1"]


def from_disk(rng, text, mon):
    """The log as a file, in any encoding an XML file may name."""
    code = rng.choice(CODES)
    name = "utf-16" if code.startswith("utf-16") else "utf-8" if code.startswith("utf-8") else {"ascii": "us-ascii", "latin-1": "iso-8859-1"}[code]
    head = "" if name.startswith("utf") and rng.random() < .5 else '<?xml version="1.0" encoding="%s"?>\n' % name
    body = re.sub(r"^<\?xml.*?\?>\s*", "", text)
    data = (head + body).encode(code, "xmlcharrefreplace")
    if code in ("utf-16-be", "utf-16-le"):
        data = {"utf-16-be": codecs.BOM_UTF16_BE, "utf-16-le": codecs.BOM_UTF16_LE}[code] + data
    if rng.random() < .3:
        data = data.replace(b"\n", b"\r\n") if not name.startswith("utf-16") else data
    folder = tempfile.mkdtemp(prefix="rv-c15-")
    try:
        path = pathlib.Path(folder, rng.choice(["log.xml", "log", "記録 1.mjlog", "a&b.xml"]))
        path.write_bytes(data)
        mon.ctx(encoding=code, declared=bool(head))
        mon.ev("files")
        mon.ev("file_" + name.replace("-", ""))
        way = rng.randrange(4)
        if way == 0:
            return from_file(str(path))
        if way == 1:
            return from_file(path)
        if way == 2:
            return from_file(io.BytesIO(data))
        with open(str(path), "rb") as f:
            return from_file(f)
    finally:
        shutil.rmtree(folder)


def case(kind, index, rng, mon):
    import xml.etree.ElementTree as ET
    if kind == "real":
        root = ET.parse(lib.real_logs()[index]).getroot()
    else:
        root = sim.make(rng, **(lib.busy(rng) if rng.random() < .3 else {"p_ron": rng.choice([.01, .03, .08])})).root
    text = lib.xml_text(root)
    how = rng.randrange(4)
    if how == 3:
        rec = from_disk(rng, text, mon)
    elif how == 0:
        rec = TenhouRecord(root)
    elif how == 1:
        rec = from_file(io.StringIO(text))
    else:
        rec = TenhouRecord(ET.fromstring(text))
    els = list(ET.fromstring(text))
    n = model.players_of(els)
    mon.ctx(log=text[:300])

    def same(events, elements, what):
        mon.check([(e.tag, dict(e.attrib)) for e in events] == [(e.tag, dict(e.attrib)) for e in elements],
                  "events were lost, repeated or reordered", where=what, got=len(events), expected=len(elements))
    same(rec.events, els, "record")
    mon.eq([e.timestamp for e in rec.events], list(range(len(els))), "timestamps do not follow the log")
    un = next(e for e in els if e.tag == "UN").attrib
    go = next(e for e in els if e.tag == "GO").attrib
    mon.eq(str(rec.game_type), ref.GT(int(go["type"])).text(), "the rules of the game are wrong")
    mon.eq(len(rec.players), n, "the number of players is wrong")
    for p, pl in enumerate(rec.players):
        mon.eq((pl.index, pl.name, pl.sex), (p, unquote(un["n%d" % p]), un["sx"].split(",")[p]), "a player is wrong")
        mon.eq(pl.level_str(), ref.RANKS[int(un["dan"].split(",")[p])], "a player's rank is wrong")
        mon.check(close(pl.rate, un["rate"].split(",")[p]), "a player's rating is wrong", got=pl.rate)
    spans = model.games(els)
    mon.eq(len(rec.game_list), len(spans), "the number of hands is wrong")
    for g, (a, b) in zip(rec.game_list, spans):
        mon.ctx(hand_at=a)
        same(g.events, els[a:b], "hand")
        same(g.playing, els[a + 1:b], "playing")
        mon.eq([e.timestamp for e in g.events], list(range(a, b)), "timestamps in a hand do not follow the log")
        mon.check(all(e.context_ is g for e in g.events), "an event does not know its hand")
        ends = [e for e in els[a:b] if e.tag in ("AGARI", "RYUUKYOKU")]
        same(g.end_events, ends, "results")
        if len(ends) > 1:
            mon.ev("multi_win")
        seed = model.ints(els[a].attrib["seed"])
        gi = g.game_index()
        mon.eq((tuple(gi), gi.prevailing, gi.game_index), (divmod(seed[0], 4), seed[0] // 4, seed[0] % 4),
               "the round of a hand is wrong")
        mon.eq((g.sub_game_index(), g.richii_counts(), g.initial_dora()), (seed[1], seed[2], seed[5]),
               "counters, deposits or the first indicator of a hand are wrong")
        mon.eq(g.east_index, int(els[a].attrib["oya"]), "the dealer of a hand is wrong")
        mon.check(g.players == rec.players and str(g.game_type) == str(rec.game_type), "a hand has other players or rules")
    end = [float(x) for x in els[-1].attrib["owari"].split(",")]
    mon.check([float(x) for x in rec.end_score] == end[::2] and [float(x) for x in rec.end_point] == end[1::2],
              "the final scores are wrong", score=rec.end_score, points=rec.end_point, expected=end)
    mon.check(lib.xml_text(root) == text, "reading a log changed it")
    for e in rec.events[:spans[0][0]]:
        mon.check(e.context_ is rec, "an event before the first hand does not know its record")
    # the numbers of this record are the caller's own, other records keep theirs
    for g in rec.game_list:
        if isinstance(g.seeds, list):
            g.seeds[:] = [x + 1 for x in g.seeds]
    for x in (rec.end_score, rec.end_point):
        if isinstance(x, list):
            x[:] = [-1] * n
    lib.log_events(mon, els)
    mon.ev("logs")
    mon.ev("players_%d" % n)
    mon.distinct(text)
    mon.sample({"players": n, "hands": len(spans), "events": len(els)})
