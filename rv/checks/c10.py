"""Hand notation."""
from collections import Counter

from rv import lib, ref
from mahjong.container.set import TileSet
from mahjong.container.utils import tile_set_from_string, tiles_from_string
from mahjong.tile.definition import AkaTile, Tile

ID = "C10"
RULE = ("texts made of digit groups in any order and splitting, with zeros for red fives, separators and foreign text (also digits and "
        "letters of other scripts) between groups; the parsed tiles are compared with an independent scanner, in order; printing a hand and parsing the text "
        "gives the hand back, and a text read again gives the same hand whatever was done to the hand read first; distinct = texts")
FLOORS = {"red_fives": 300, "noise": 200, "odd_digits": 100, "roundtrip": 1000, "changed": 500, "empty": 5}


def plan(tier):
    return [("texts", 60 if tier == "quick" else 900)]


def scan(text):
    """Tiles of a text as (number, colour): a run of digits followed by m, p or s; a run of 1-7 followed by z."""
    out, run = [], ""
    for ch in text:
        if ch in "0123456789":
            run += ch
            continue
        if run and ch in "mps":
            out += [(int(d), ch) for d in run]
        elif run and ch == "z":
            tail = ""
            for d in reversed(run):
                if d not in "1234567":
                    break
                tail = d + tail
            out += [(int(d), ch) for d in tail]
        run = ""
    return out


def case(kind, index, rng, mon):
    for _ in range(60):
        r = rng.random()
        if r < .6:
            kinds, _ = lib.hand(rng, 4, rng.choice([13, 14, 14, 5, 20]), rng.choice(["uniform", "suit", "pairs", "quads"]))
            text = lib.notation(rng, kinds)
        elif r < .9:
            text = ""
            for _ in range(rng.randrange(0, 5)):
                c = rng.choice("mpsz")
                pool = "1234567" if c == "z" else "01234567890"
                text += "".join(rng.choice(pool) for _ in range(rng.randrange(1, 9))) + c
                if rng.random() < .5:
                    text += rng.choice([" ", ",", "-", "x", "|", "\n", "m", "手"])
            mon.ev("noise")
        else:
            text = "".join(rng.choice("0123456789mpsz xz,") for _ in range(rng.randrange(0, 12)))
        if rng.random() < .15:
            # no digits and letters of the notation, though they look like it, or are digits to some
            for _ in range(rng.randrange(1, 4)):
                k = rng.randrange(len(text) + 1)
                text = text[:k] + "".join(rng.choice("１２５０９٣٠۵५²³①⑤𝟙𝟓ⅤＭｍｐｓｚмсМPSZMₘ五") for _ in range(rng.randrange(1, 3))) + text[k:]
            mon.ev("odd_digits")
        want = scan(text)
        mon.ctx(text=text)
        got = list(tiles_from_string(text))
        mon.eq([(t.number, t.color) for t in got], want, "a hand text is parsed wrongly")
        for t in got:
            mon.check(isinstance(t, Tile) and (isinstance(t, AkaTile) == (t.number == 0)), "a red five is not a red five")
        mon.ev("red_fives", sum(1 for n, c in want if n == 0))
        ts = tile_set_from_string(text)
        norm = Counter("mpsz".index(c) * 9 + (5 if n == 0 else n) - 1 for n, c in want)
        mon.check(isinstance(ts, TileSet), "parsing does not give a tile multiset")
        mon.eq(Counter({k: n for k, n in enumerate(lib.set_counts(ts)) if n}), norm, "a parsed hand has the wrong tiles")
        mon.eq(len(ts), len(want), "a parsed hand has the wrong size")
        order = [lib.tile_kind(t) for t in ts]
        mon.eq(order, sorted(order), "a parsed hand is not sorted")
        printed = str(ts)
        if want:
            again = tile_set_from_string(printed)
            mon.check(again == ts and lib.set_counts(again) == lib.set_counts(ts), "printing and parsing a hand changes it",
                      printed=printed)
            mon.eq([("mpsz".index(c), 5 if n == 0 else n) for n, c in scan(printed)],
                   sorted(("mpsz".index(c), 5 if n == 0 else n) for n, c in want), "a printed hand is not the sorted hand",
                   printed=printed)
            shuffled = [Tile(5 if n == 0 else n, c) for n, c in want]
            rng.shuffle(shuffled)
            loose = TileSet(shuffled)
            mon.eq(tile_set_from_string(str(loose)), ts, "printing an unsorted hand loses tiles", printed=str(loose))
            mon.eq(repr(loose), str(loose), "repr and str of a hand differ")
            mon.ev("roundtrip")
        else:
            mon.ev("empty")
        if rng.random() < .5:
            # what was read belongs to the reader
            for _ in range(rng.randrange(1, 4)):
                if want and rng.random() < .3:
                    ts.clear()
                else:
                    ts[lib.tile(rng.randrange(34))] += rng.randrange(1, 3)
            again = tile_set_from_string(text)
            mon.eq(Counter({k: n for k, n in enumerate(lib.set_counts(again)) if n}), norm, "a text read again gives other tiles after the "
                   "hand first read was changed")
            mon.ev("changed")
        mon.distinct(text)
        mon.sample({"text": text, "tiles": " ".join("%d%s" % t for t in want)})
