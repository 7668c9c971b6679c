"""Tiles: identity, order, red fives, units, display."""
import itertools
import json
import subprocess
import sys
import threading

from rv import core, lib, ref
from mahjong.tile.definition import AkaTile, Tile, tile_flush, tile_hash_num, tile_pair, tile_triplet
from mahjong.record.utils.value.tile import tile_from_tenhou
from mahjong.tenhou_record_check import to_plain_tile, to_unicode_tile

ID = "C08"
RULE = ("all 37 tile faces and all pairs of them, created in any order, repeatedly, from threads, and from threads that are the first of a process to use tiles; equality, order and hash "
        "are compared with the face table (a red five is a five of its suit), units and successors with the rules, display "
        "with the notation and the Unicode mahjong block; distinct = (face, face) pairs seen")
FLOORS = {"pairs_compared": 1369, "unit_checks": 37, "threads": 4, "first_use": 1}
EXHAUSTIVE = True

FACES = [(k % 9 + 1, "mpsz"[k // 9]) for k in range(34)] + [(0, c) for c in "mps"]
UNICODE = {}
for _i, _n in enumerate([1, 2, 3, 4, 7, 6, 5]):
    UNICODE[(_n, "z")] = 0x1F000 + _i
for _j, _c in enumerate("msp"):
    for _n in range(1, 10):
        UNICODE[(_n, _c)] = 0x1F007 + 9 * _j + _n - 1
    UNICODE[(0, _c)] = UNICODE[(5, _c)]


# run in a process of its own, where nothing has used a tile yet
FIRST_USE = """
import json, sys, threading
faces = json.load(sys.stdin)
from mahjong.tile.definition import AkaTile, Tile
sys.setswitchinterval(1e-6)
bad, start = [], threading.Barrier(8)

def run():
    start.wait()
    for n, c in faces:
        m = n or 5
        try:
            t = AkaTile(n, c) if n == 0 else Tile(n, c)
            got = [str(t), str(t.pair()), str(t.triplet()), str(t.flush() or ""), t == Tile(m, c), hash(t) == hash(Tile(m, c))]
            run = "".join(str(m + i) for i in range(3)) + c if c != "z" and m <= 7 else ""
            want = ["%d%s" % (n, c), str(m) * 2 + c, str(m) * 3 + c, run, True, True]
            if got != want:
                bad.append([n, c, repr(got)])
        except Exception as e:
            bad.append([n, c, repr(e)])

ts = [threading.Thread(target=run) for _ in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
json.dump(bad, sys.stdout)
"""


def make(face):
    n, c = face
    return AkaTile(n, c) if n == 0 else Tile(n, c)


def plan(tier):
    return [("faces", 1), ("pairs", 37), ("order", 6 if tier == "quick" else 60), ("threads", 2 if tier == "quick" else 20),
            ("first_use", 4 if tier == "quick" else 40)]


def norm(face):
    n, c = face
    return c, (5 if n == 0 else n)


def check_face(mon, face):
    n, c = face
    t = make(face)
    p = norm(face)
    mon.ctx(face=face)
    mon.eq((t.number, t.color), face, "a tile's number or colour is wrong")
    mon.eq((str(t), repr(t), to_plain_tile(t)), ("%d%s" % face, "<%d%s>" % face, "%d%s" % face), "a tile's text is wrong")
    mon.check(make(face) == t and hash(make(face)) == hash(t), "making a tile twice gives different tiles")
    mon.eq(bool(t.is_suit()), c != "z", "is_suit is wrong")
    want_next = Tile(p[1] + 1, c) if c != "z" and p[1] < 9 else None
    mon.eq(t.next() if t.next() is not None else None, want_next, "the next tile is wrong")
    same = Tile(p[1], c)
    mon.check(dict(t.pair()) == {same: 2} and dict(tile_pair(t)) == {same: 2} and len(t.pair()) == 2, "the pair is wrong",
              got=str(t.pair()))
    mon.check(dict(t.triplet()) == {same: 3} and dict(tile_triplet(t)) == {same: 3} and len(t.triplet()) == 3,
              "the triplet is wrong", got=str(t.triplet()))
    for r in range(5):
        got = t.repeat(r)
        mon.check(dict(got) == ({same: r} if r else {}), "repeat is wrong", count=r)
        got[same] += 1      # the caller's own
        got[Tile(1, "z")] += 2
    f = t.flush()
    if c != "z" and p[1] <= 7:
        mon.check(f and dict(f) == {Tile(p[1] + i, c): 1 for i in range(3)} and dict(tile_flush(t)) == dict(f),
                  "the run starting at a tile is wrong", got=str(f))
    else:
        mon.check(not f and not tile_flush(t), "a run exists where none can start", got=str(f))
    mon.eq(ord(to_unicode_tile(t)), UNICODE[face], "the Unicode character of a tile is wrong")
    mon.check(t == t and not (t != t) and not (t < t) and t <= t and t >= t and not (t > t), "a tile differs from itself")
    mon.ev("unit_checks")


def compare(mon, a, b):
    ta, tb = make(a), make(b)
    ka, kb = norm(a), norm(b)
    mon.ctx(a=a, b=b)
    mon.eq(ta == tb, ka == kb, "equality of tiles is wrong")
    mon.eq(ta != tb, ka != kb, "inequality of tiles is wrong")
    mon.eq(ta < tb, ka < kb, "order of tiles is wrong (<)")
    mon.eq(ta <= tb, ka <= kb, "order of tiles is wrong (<=)")
    mon.eq(ta > tb, ka > kb, "order of tiles is wrong (>)")
    mon.eq(ta >= tb, ka >= kb, "order of tiles is wrong (>=)")
    if ka == kb:
        mon.eq(hash(ta), hash(tb), "equal tiles have different hashes")
        mon.eq(len({ta, tb}), 1, "equal tiles are two members of a set")
    else:
        mon.eq(len({ta, tb}), 2, "different tiles collapse in a set")
        mon.check({ta: 1, tb: 2}[ta] == 1, "different tiles collide as keys")
    mon.ev("pairs_compared")
    mon.distinct((a, b))


def case(kind, index, rng, mon):
    if kind == "faces":
        for f in FACES:
            check_face(mon, f)
        for i in range(136):
            t = tile_from_tenhou(i)
            mon.check(t == make((t.number, t.color)), "a tile from a log differs from the same tile made by hand", id=i)
        mon.eq(len({make(f) for f in FACES}), 34, "there are not 34 kinds of tiles")
        for c in "mpsz":
            mon.eq(sorted(tile_hash_num(c, n) for n in range(1, 10)), [tile_hash_num(c, n) for n in range(1, 10)],
                   "hash numbers do not follow the order")
    elif kind == "pairs":
        for b in FACES:
            compare(mon, FACES[index], b)
            mon.sample({"a": "%d%s" % FACES[index], "b": "%d%s" % b})
    elif kind == "order":
        some = [rng.choice(FACES) for _ in range(60)]
        got = sorted(make(f) for f in some)
        mon.eq([(t.color, 5 if t.number == 0 else t.number) for t in got], sorted(norm(f) for f in some),
               "sorting tiles is wrong")
        for f in some:
            check_face(mon, f)
    elif kind == "first_use":
        faces = list(FACES)
        rng.shuffle(faces)
        r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", FIRST_USE], input=json.dumps(faces).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=core.child_env(), cwd="/", timeout=300)
        mon.check(r.returncode == 0, "using tiles in a fresh process fails", error=r.stderr.decode("utf-8", "replace")[-800:])
        bad = json.loads(r.stdout)
        mon.check(not bad, "a tile is not complete when several threads use it for the first time", got=bad[:3])
        mon.ev("first_use")
    else:
        got = []

        def run(seed):
            import random
            r = random.Random(seed)
            fs = FACES * 3
            r.shuffle(fs)
            got.append({f: make(f) for f in fs})
        ts = [threading.Thread(target=run, args=(rng.random(),)) for _ in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        mon.eq(len(got), 4, "making tiles in threads failed")
        for a, b in itertools.combinations(got, 2):
            for f in FACES:
                mon.check(a[f] == b[f] and hash(a[f]) == hash(b[f]) and str(a[f]) == "%d%s" % f, "tiles made in threads differ", face=f)
        mon.ev("threads", 4)
