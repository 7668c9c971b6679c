"""Tile numbering of the logs, composition of the wall, dora."""
from collections import Counter

from rv import lib, ref
from mahjong.record import doras, initial_tiles
from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
from mahjong.record.utils.constant import TENHOU_TILE_CATEGORY
from mahjong.tile.definition import AkaTile, Tile

ID = "C11"
RULE = ("all 136 log numbers, all 37 faces, both player counts with and without red fives, every dora indicator and random "
        "lists of them; compared with the rules; distinct = inputs")
FLOORS = {"ids": 136, "ranges": 37, "walls": 4, "indicators": 37, "lists": 100}
EXHAUSTIVE = True


def plan(tier):
    return [("ids", 1), ("ranges", 1), ("walls", 1), ("doras", 1), ("lists", 20 if tier == "quick" else 200)]


def want_doras(name):
    k = ref.DORA_NEXT[ref.name_kind(name)]
    out = [ref.kind_name(k)]
    if k < 27 and k % 9 == 4:
        out.append("0" + "mps"[k // 9])
    return out


def case(kind, index, rng, mon):
    if kind == "ids":
        mon.eq(len(TENHOU_TILE_CATEGORY), 136, "the number of tiles is wrong")
        for i in range(136):
            t = tile_from_tenhou(i)
            mon.eq(str(t), ref.id_name(i), "the tile behind a log number is wrong", id=i)
            mon.eq(isinstance(t, AkaTile), i in ref.RED_IDS, "redness of a log number is wrong", id=i)
            mon.check(i in tile_to_tenhou_range(t), "a log number is not among the numbers of its tile", id=i)
            mon.distinct(("id", i))
            mon.ev("ids")
        seen = Counter(tile_from_tenhou(i) for i in range(136))
        mon.eq(set(seen.values()), {4}, "the log numbers do not give four tiles of each kind")
    elif kind == "ranges":
        for k in range(34):
            faces = [Tile(k % 9 + 1, "mpsz"[k // 9])] + ([AkaTile(0, "mps"[k // 9])] if k < 27 and k % 9 == 4 else [])
            for t in faces:
                mon.eq(list(tile_to_tenhou_range(t)), [4 * k + i for i in range(4)], "the log numbers of a tile are wrong",
                       tile=str(t))
                mon.distinct(("range", str(t)))
                mon.ev("ranges")
    elif kind == "walls":
        for _ in range(2):
            for n in (3, 4):
                for aka in (False, True):
                    want = Counter(ref.id_name(i, aka) for i in range(136) if n == 4 or not 4 <= i < 32)
                    if n == 3 and aka:
                        assert "0m" not in want
                    got = initial_tiles(n, aka)
                    mon.eq(Counter(got), want, "the tiles of a game are wrong", players=n, aka=aka)
                    mon.check(isinstance(got, list) and len(got) == (136 if n == 4 else 108), "the wall has the wrong size",
                              players=n, aka=aka, got=len(got))
                    got.clear()
                    mon.distinct(("wall", n, aka))
                    mon.ev("walls")
    elif kind == "doras":
        for name in [ref.kind_name(k) for k in range(34)] + ["0m", "0p", "0s"]:
            got = doras([name])
            mon.eq(sorted(got), sorted(want_doras(name)), "the dora of an indicator is wrong", indicator=name)
            mon.distinct(("dora", name))
            mon.ev("indicators")
    else:
        names = [ref.kind_name(k) for k in range(34)] + ["0m", "0p", "0s"]
        for _ in range(20):
            ind = [rng.choice(names) for _ in range(rng.randrange(0, 11))]
            want = [d for i in ind for d in sorted(want_doras(i), reverse=True)]
            got = doras(list(ind))
            mon.eq(Counter(got), Counter(want), "the doras of several indicators are wrong", indicators=ind)
            mon.sample({"indicators": ind, "doras": got})
            mon.distinct(tuple(ind))
            mon.ev("lists")
