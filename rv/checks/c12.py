"""Meld codes."""
import itertools

from rv import lib, ref
from mahjong.record.utils.event import TenhouEvent
from mahjong.record.utils.value.meld import (Flush, KanFromTriplet, Kita, TenhouAddedKan, TenhouKan, Triplet, is_triplet_of_added_kan,
                                             meld_from, meld_type)
import xml.etree.ElementTree as ET

ID = "C12"
RULE = ("every code of every legal call: runs (all starts, copies, called tile), triplets, added quads, open and concealed "
        "quads and north removals, for every caller and every source seat; class, own and called tiles, source player and "
        "openness are compared with an independent decoder and with the tiles the code was encoded from; distinct = "
        "(code, caller)")
FLOORS = {"chi": 4 * 4032, "pon": 4 * 34 * 4 * 3 * 3, "kakan": 4 * 34 * 4 * 3 * 3, "ankan": 4 * 136, "minkan": 4 * 136 * 3,
          "kita": 4 * 4, "belonging": 4 * 34 * 4 * 3 * 3}
EXHAUSTIVE = True
CLASSES = {"chi": Flush, "pon": Triplet, "kakan": TenhouAddedKan, "ankan": TenhouKan, "minkan": TenhouKan, "kita": Kita}
TYPES = {"chi": "flush", "pon": "triplet", "kakan": "add_kan", "ankan": "kan", "minkan": "kan", "kita": "kita"}


def plan(tier):
    return [("chi", 21), ("pon", 34), ("kan", 34), ("kita", 1)]


def element(who, m):
    return ET.Element("N", {"who": str(who), "m": str(m)})


def judge(mon, kind, who, m, own, called, source, wrap):
    e = element(who, m)
    if wrap:
        e = TenhouEvent(e, context=None)
    meld = meld_from(e)
    w = dict(kind=kind, code=m, caller=who)
    mon.check(isinstance(meld, CLASSES[kind]), "the kind of a call is wrong", got=type(meld).__name__, **w)
    mon.eq(meld_type(str(m)).name, TYPES[kind], "meld_type of a call is wrong", **w)
    mon.eq(set(meld.self_tiles), set(own), "the caller's own tiles of a call are wrong", **w)
    mon.eq(set(meld.borrowed_tiles), set(called), "the called tile of a call is wrong", **w)
    mon.eq(bool(meld.is_opened()), bool(called), "openness of a call is wrong", **w)
    # where nothing is called from another, the caller himself
    mon.eq(meld.from_who, source, "the player called from is wrong", **w)
    if kind in ("ankan", "minkan"):
        mon.eq(bool(meld.is_opened_kan), kind == "minkan", "openness of a quad is wrong", **w)
    d = ref.decode_meld(m)
    assert (d.own, d.called) == (frozenset(own), frozenset(called)), (m, d, own, called)
    text = "'%s' using '%s' to get '%s' from player %s"
    mon.ev(kind)
    mon.distinct((m, who))
    return meld


def case(kind, index, rng, mon):
    wrap = 0
    if kind == "chi":
        suit, num = divmod(index, 7)
        base = 4 * (9 * suit + num)
        for copies in itertools.product(range(4), repeat=3):
            ids = [base + 4 * i + c for i, c in enumerate(copies)]
            for called in ids:
                for who in range(4):
                    wrap += 1
                    # a run is always called from the player to the left
                    judge(mon, "chi", who, ref.encode_chi(ids, called), set(ids) - {called}, {called}, (who + 3) % 4, wrap % 2)
        mon.sample({"kind": "chi", "code": ref.encode_chi(ids, called), "tiles": ids, "called": called})
    elif kind == "pon":
        for unused in range(4):
            ids = [4 * index + i for i in range(4) if i != unused]
            for called in ids:
                for rel in (1, 2, 3):
                    for who in range(4):
                        wrap += 1
                        pon = judge(mon, "pon", who, ref.encode_pon(ids, called, rel), set(ids) - {called}, {called},
                                    (who + rel) % 4, wrap % 2)
                        add = judge(mon, "kakan", who, ref.encode_kakan(ids, called, 4 * index + unused, rel),
                                    {4 * index + unused}, set(), (who + rel) % 4, wrap % 2)
                        mon.check(is_triplet_of_added_kan(pon, add), "an added quad does not belong to the triplet it extends",
                                  tiles=ids, called=called, rel=rel, caller=who)
                        other = (index + rng.randrange(1, 34)) % 34
                        far = meld_from(element(who, ref.encode_kakan([4 * other + i for i in range(4) if i != unused],
                                                                      4 * other + (unused + 1) % 4, 4 * other + unused, rel)))
                        mon.check(not is_triplet_of_added_kan(pon, far), "an added quad belongs to a triplet of another tile",
                                  tiles=ids, other=other)
                        mon.ev("belonging")
                        kan = KanFromTriplet(pon, add)
                        mon.check(set(kan.self_tiles) == (set(ids) - {called}) | {4 * index + unused}
                                  and set(kan.borrowed_tiles) == {called} and kan.from_who == (who + rel) % 4
                                  and kan.is_opened_kan and kan.is_opened(),
                                  "a quad made from a triplet is wrong", tiles=ids, called=called, rel=rel, caller=who)
                        mon.ev("quad_from_triplet")
        mon.sample({"kind": "pon", "code": ref.encode_pon(ids, called, rel), "tiles": ids, "called": called})
    elif kind == "kan":
        four = {4 * index + i for i in range(4)}
        for t in four:
            for who in range(4):
                wrap += 1
                judge(mon, "ankan", who, ref.encode_kan(t, 0), four, set(), who, wrap % 2)
                for rel in (1, 2, 3):
                    judge(mon, "minkan", who, ref.encode_kan(t, rel), four - {t}, {t}, (who + rel) % 4, wrap % 2)
    else:
        for t in range(120, 124):
            for who in range(4):
                judge(mon, "kita", who, ref.encode_kita(t), {t}, set(), who, who % 2)
