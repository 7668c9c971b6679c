"""Pure uses of the library: each gives a digest of its whole answer for a seed. Used by C38.

    python -m rv.ops < jobs.json > digests.json      runs jobs in the order given, in this process
"""
import hashlib
import io
import json
import os
import random
import sys
import threading

from rv import core


LOCAL = threading.local()


def own(x):
    """Notes a result as the caller's own, which is free to change it once used."""
    LOCAL.__dict__.setdefault("owned", []).append(x)
    return x


def spoil(x):
    if isinstance(x, list):
        x[:] = x[::-1] + x[:1] + [-1]
    elif isinstance(x, dict) and x:
        k = next(iter(x))
        if isinstance(x[k], int):
            x[k] += 7
        else:
            x.clear()
    elif isinstance(x, set):
        x.clear()


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def small_log(rng, **kw):
    from rv import sim
    return sim.make(rng, **dict(dict(games=1, max_turns=rng.choice([3, 8, 14]), odd_names=rng.random() < .3), **kw)).root


def waiting(rng):
    from rv import lib
    from mahjong.container.pattern.reasoning import BruteForceWaiting, HeuristicPatternMatchWaiting, PatternMatchWaiting
    out = []
    for _ in range(3):
        form = lib.any_form(rng) if rng.random() < .5 else rng.choice([("normal", 4, 1), ("pairs", 7)])
        h = lib.form_hand(rng, form, 1)
        ts = lib.given(rng, h)
        e = HeuristicPatternMatchWaiting(lib.pattern(form))
        s, u = e.waiting_and_useful_tiles(ts)
        own(u)
        out += [s, lib.kinds_of(u), sorted((lib.tile_kind(t), s, lib.kinds_of(own(u))) for t, s, u in e.batch_waiting_and_useful_tiles(ts))]
    form = rng.choice([("normal", 1, 1), ("pairs", 2)])
    h = lib.hand(rng, 1, lib.form_size(form) - 1)[0]
    for cls in (PatternMatchWaiting, BruteForceWaiting):
        s, u = cls(lib.pattern(form)).waiting_and_useful_tiles(lib.given(rng, h))
        out += [s, lib.kinds_of(u)]
    return out


def winning(rng):
    from rv import lib
    out = []
    for _ in range(6):
        form = lib.any_form(rng)
        h = lib.form_hand(rng, form, 1) if rng.random() < .5 else lib.complete_hand(rng, 4)
        p = lib.pattern(form)
        out.append((p.match(lib.given(rng, h)), sorted(sorted(map(lib.kinds_of, (u.tiles() for u in sel)))
                                                       for sel in p.unique_win_selections(lib.given(rng, h)))))
    return out


def notation(rng):
    from rv import lib
    from mahjong.container.utils import tile_set_from_string, tiles_from_string
    text = lib.notation(rng, lib.hand(rng, 4, 14)[0])
    ts = tile_set_from_string(text)
    return [str(t) for t in tiles_from_string(text)], sorted(str(own(ts))), len(ts), lib.set_counts(own(ts + ts)), lib.set_counts(own(ts - ts))


def melds(rng):
    from rv import lib
    return [e for e in texts(rng, dict(p_call=.6)) if "claimed" in e]


def texts(rng, kw=None):
    from rv import lib
    rec = lib.record_of(small_log(rng, **(kw or {})))
    for g in rec.game_list:
        own(g.seeds)
    own(rec.end_score)
    own(rec.end_point)
    return [str(rec)] + [str(g) for g in rec.game_list] + [str(p) for p in rec.players] + [str(e) for e in rec.events]


def paifu(rng):
    from rv import lib
    return [sorted((k, str(v)) for k, v in own(r).items()) for r in lib.record_of(small_log(rng)).to_paifu()]


def commands(rng):
    from rv import lib
    from mahjong.record.universe.tenhou import to_commands
    cmds = own(to_commands(lib.record_of(small_log(rng))))
    out = [str(c) for c in cmds]
    for c in cmds:
        own(c.value)
        own(c.state)
    return out


def tables(rng):
    from rv import lib
    from mahjong.record.util_functions import parse_dataframe_from_tenhou_record
    c, s = parse_dataframe_from_tenhou_record(lib.record_of(small_log(rng)))
    s = s[sorted(s.columns, key=str)]
    return c.to_csv(), s.to_csv()


def read_back(rng):
    """Commands and states written to files and read, together with what the files are not: the caller's."""
    import shutil
    import tempfile
    from rv import lib
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.tenhou import to_commands
    cmds = to_commands(lib.record_of(small_log(rng)))[:rng.choice([30, 80])]
    d = tempfile.mkdtemp(prefix="rv-scratch-")
    try:
        path = os.path.join(d, "t.csv")
        GameCommand.to_dataframe(cmds).to_csv(path)
        back = [GameCommand.from_raw_record(r) for r in GameCommand.read_clean_csv(path).itertuples()]
        GameExecutor().execute_as_dataframe(cmds).to_csv(path)
        states = GameExecutor.read_clean_csv(path)
    finally:
        shutil.rmtree(d)
    states = states[sorted(states.columns, key=str)]
    out = [str(c) for c in back], [str(list(states[c])) for c in states.columns]
    for c in back:
        own(c.value)
        own(c.state)
    for c in states.columns:
        for v in states[c]:
            own(v)
    return out


def strict(rng):
    """Where strict replay of a damaged log stops, and what is said; what strict conversion refuses."""
    from rv import lib
    from rv.checks import c22
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.tenhou import to_command_iter, to_commands
    for _ in range(20):
        root = small_log(rng, games=2, p_ron=.1)
        if c22.damage(rng, root, rng.choice(["carried_score", "paid_score", "winning_hand"])):
            break
    out = []
    it = GameExecutor(strict_mode=True).execute(to_commands(lib.record_of(root)))
    try:
        for _ in it:
            out.append(1)
        out.append("nothing found")
    except Exception as e:
        out += [type(e).__name__, str(e)]
    root.insert(len(root) // 2, root.makeelement("X9Y", {"a": "1"}))
    n = 0
    try:
        for _ in to_command_iter(lib.record_of(root), True):
            n += 1
        out.append("nothing unknown")
    except Exception as e:
        out += [type(e).__name__, n]
    return out


def states(rng):
    from rv import lib, model
    from mahjong.record.state import DoraIndicators, InvisibleTiles, PlayerHand, PlayerMeld
    rec = lib.record_of(small_log(rng))
    out = []
    tracked = [DoraIndicators(), InvisibleTiles(len(rec.players))] + [cls(p) for p in rec.players for cls in (PlayerHand, PlayerMeld)]
    for e in rec.events:
        tracked = [t.scan(e) for t in tracked]
        for t in tracked:
            v = t.value
            out.append(sorted(v) if isinstance(v, set) else [str(x) for x in v])
    return out


def report(rng):
    from rv import lib
    from mahjong.record.checker import TenhouChecker
    rec = lib.record_of(small_log(rng, max_turns=3, p_net=0.0))
    return TenhouChecker().parse(rec, rng.randrange(len(rec.players)))


def light(rng):
    import tempfile
    import xml.etree.ElementTree as ET
    from mahjong.record import light_dataframe_from_file
    root = small_log(rng)
    fd, path = tempfile.mkstemp(prefix="rv-scratch-", suffix=".xml")
    os.close(fd)
    try:
        ET.ElementTree(root).write(path, encoding="utf-8")
        df = light_dataframe_from_file(path, abstract=rng.random() < .5)
    finally:
        os.remove(path)
    return df.drop("log_id", axis="columns").to_csv()


def units(rng):
    from rv import lib
    from mahjong.tile.definition import AkaTile, Tile
    from mahjong.record.const import doras, initial_tiles
    from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
    from mahjong.record.utils.value.general import number_list
    out = []
    for _ in range(6):
        t = tile_from_tenhou(rng.randrange(136))
        same = own(t.repeat(rng.randrange(1, 5)))
        out.append((str(t), str(same), list(tile_to_tenhou_range(t)), str(t.next()), own(doras([str(t)]))[:], own(doras([str(t)] * 2 + ["1z"]))[:]))
    out.append(own(initial_tiles(rng.choice([3, 4]), rng.random() < .5))[:])
    out.append(own(number_list(rng.choice(["1,2,3", "250,250,250,250", "1.5,-3", "0"])))[:])
    return out


def rules(rng):
    from mahjong.record.utils.value.gametype import GameType
    out = []
    for _ in range(8):
        g = GameType(rng.randrange(2048))
        out.append((str(g), g.player_count(), g.tips_count(), g.origin, g.main_game_count(), g == GameType(g.origin)))
    return out


def draws(rng):
    from rv import lib
    from mahjong.container.distribution import StaticWall
    w = StaticWall(lib.given(rng, lib.hand(rng, 4, 14)[0]))
    return own(w.weights())[:], len(list(w.sample(5)))


def stages(rng):
    from mahjong.record.stage import StageGroupby
    items = [rng.choice("ABC") for _ in range(30)]
    return [(k, list(g)) for k, g in StageGroupby(items, *rng.sample("ABC", 2))]


def categories(rng):
    from mahjong.record.category import MixedCategory, SubCategory
    c = MixedCategory([SubCategory(3, 4), SubCategory(5), SubCategory(2, 2, 2)])
    return [c.category(i) for i in range(len(c))]


OPS = {f.__name__: f for f in (waiting, winning, notation, melds, texts, paifu, commands, tables, states, report, light, stages, categories, units, rules, draws, read_back, strict)}
QUICK = ["waiting", "winning", "notation", "texts", "paifu", "commands", "states", "stages", "categories", "light", "melds", "tables", "report"]


def run(job):
    name, seed = job
    LOCAL.owned = []
    got = digest(OPS[name](random.Random("ops|%s|%s" % (name, seed))))
    for x in LOCAL.owned:
        spoil(x)
    LOCAL.owned = []
    return got


def main():
    core.import_repo()
    jobs = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = io.StringIO()
    if sys.argv[1:] == ["threads"]:
        # the first uses of the process happen in several threads at once
        import threading
        import mahjong.record
        import mahjong.record.checker
        from rv import lib, sim
        sys.setswitchinterval(1e-6)
        res = [None] * len(jobs)
        lanes = min(6, len(jobs))
        start = threading.Barrier(lanes)

        def lane(k):
            start.wait()
            for i in range(k, len(jobs), lanes):
                try:
                    res[i] = run(jobs[i])
                except BaseException as e:
                    res[i] = "%s: %s" % (type(e).__name__, e)

        threads = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    else:
        res = [run(j) for j in jobs]
    json.dump(res, out)


if __name__ == "__main__":
    main()
