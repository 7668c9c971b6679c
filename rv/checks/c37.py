"""Every move of a log belongs to exactly one player."""
from rv import lib, model, ref
from rv.checks import c21

ID = "C37"
RULE = ("generated and recorded logs; every event is shown to every player of the record and to every hand's players, as an event of "
        "the record, of a hand or as the bare element, in any order; draws, discards, calls, riichi, wins, choices, tiles and called "
        "melds a player recognises are compared with an independent reading; distinct = logs")
FLOORS = {"logs": 40, "draw": 3000, "discard": 3000, "call": 200, "reach": 50, "win": 20, "nobody": 300, "players_3": 10, "players_4": 10,
          "tile_0": 20}


def plan(tier):
    return [("sim", 72 if tier == "quick" else 1200), ("real", len(lib.real_logs()))]


def moves(e):
    """What each player does in the event: {player: (what, tile)}."""
    te = model.tile_event(e.tag)
    if te:
        return {te[1]: (te[0], te[2])}
    if e.tag in ("N", "REACH", "AGARI"):
        return {int(e.attrib["who"]): ({"N": "call", "REACH": "reach", "AGARI": "win"}[e.tag], None)}
    return {}


def case(kind, index, rng, mon):
    root = c21.root_of(kind, index, rng, **({} if kind == "real" else lib.busy(rng) if rng.random() < .5 else {}))
    text = lib.xml_text(root)
    els = list(root)
    rec = lib.record_of(root)
    n = model.players_of(els)
    spans = model.games(els)
    mon.ctx(log=text[:300])
    views = list(enumerate(zip(els, rec.events)))
    rng.shuffle(views)
    where = {t: g for g, (a, b) in zip(rec.game_list, spans) for t in range(a, b)}
    for t, (e, ev) in views:
        want = moves(e)
        game = where.get(t)
        players = rec.players if game is None or rng.random() < .5 else game.players
        shown = rng.choice([ev, ev, e])
        mon.ctx(event=e.tag, attrs=dict(e.attrib), at=t)
        for p, pl in rng.sample(list(enumerate(players)), n):
            what, tile = want.get(p, (None, None))
            got = [name for name, f in (("draw", pl.is_draw), ("discard", pl.is_discard), ("call", pl.is_open_hand), ("reach", pl.is_reach),
                                        ("win", pl.is_win)) if f(shown)]
            mon.eq(got, [what] if what else [], "a player's move is taken for another", player=p)
            mon.eq(bool(pl.is_player_choice(shown)), what in ("discard", "call", "win"), "a player's choice is not seen as one", player=p)
            if what == "draw":
                mon.eq(pl.draw_tile_index(shown), tile, "a player draws another tile", player=p)
            elif what == "discard":
                mon.eq(pl.discard_tile_index(shown), tile, "a player discards another tile", player=p)
            elif what == "call":
                m, x = ref.decode_meld(int(e.attrib["m"])), pl.opened_hand_type(shown)
                mon.eq((set(x.self_tiles), set(x.borrowed_tiles)), (set(m.own), set(m.called)), "a player's call has other tiles", player=p)
        if not want:
            mon.ev("nobody")
        for p, (what, tile) in want.items():
            mon.ev(what)
            mon.ev("tile_0", int(tile == 0))
            if tile is not None:
                mon.eq(ev.player_index_, p, "an event belongs to another player")
                tiles = ev.see_tiles_ if what == "draw" else ev.show_tiles_
                mon.eq([str(x) for x in tiles], [ref.id_name(tile)], "an event shows other tiles")
        mon.eq((ev.tag, dict(ev.attrib), dict(ev.meta_attribute)), (e.tag, dict(e.attrib), dict(e.attrib)), "an event is not that of the log")
    mon.check(lib.xml_text(root) == text, "looking at a log changed it")
    mon.ev("logs")
    mon.ev("players_%d" % n)
    mon.distinct(text)
    mon.sample({"players": n, "events": len(els)})
