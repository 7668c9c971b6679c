"""Independent replay of a tenhou log: what is true after every event."""
import re
from urllib.parse import unquote

from rv import ref

TILE_EVENT = re.compile(r"([TUVWDEFG])(\d+)\Z")


class State:
    """Truth after one event. Immutable by convention: step() makes a new one."""
    __slots__ = ("n", "hand", "river", "from_hand", "melds", "doras", "score", "riichi", "last_draw", "started",
                 "visible", "names", "offline", "round", "wind", "kyoku", "honba", "sticks", "oya")

    def copy(self):
        s = State.__new__(State)
        for k in State.__slots__:
            v = getattr(self, k, None)
            setattr(s, k, list(v) if isinstance(v, list) else v)
        return s


def ints(s):
    return [int(x) for x in s.split(",")] if s else []


def tile_event(tag):
    m = TILE_EVENT.match(tag)
    if not m:
        return None
    i = "TUVWDEFG".index(m.group(1))
    return ("draw" if i < 4 else "discard"), i % 4, int(m.group(2))


def initial(n):
    s = State.__new__(State)
    s.n = n
    s.hand = [frozenset()] * n
    s.river = [()] * n
    s.from_hand = [()] * n
    s.melds = [()] * n
    s.doras = ()
    s.score = [None] * n
    s.riichi = [None] * n
    s.last_draw = [None] * n
    s.started = False
    s.visible = frozenset()
    s.names = [None] * n
    s.offline = [None] * n
    s.round = [0] * n
    s.wind = s.kyoku = s.honba = s.sticks = None
    s.oya = None
    return s


def step(s, tag, a):
    """The state after one event."""
    s = s.copy()
    te = tile_event(tag)
    if te:
        what, p, t = te
        if what == "draw":
            s.hand[p] = s.hand[p] | {t}
            s.last_draw[p] = t
        else:
            s.hand[p] = s.hand[p] - {t}
            s.river[p] = s.river[p] + (t,)
            s.from_hand[p] = s.from_hand[p] + (s.last_draw[p] != t,)
            s.last_draw[p] = None
            s.round[p] += 1
            s.visible = s.visible | {t}
    elif tag == "INIT":
        seed = ints(a["seed"])
        s.started = True
        s.wind, s.kyoku = divmod(seed[0], 4)
        s.honba, s.sticks = seed[1], seed[2]
        s.doras = (seed[5],)
        s.oya = int(a["oya"])
        ten = ints(a["ten"])
        for p in range(s.n):
            s.hand[p] = frozenset(ints(a["hai%d" % p]))
            s.river[p] = s.from_hand[p] = s.melds[p] = ()
            s.score[p] = ten[p] * 100
            s.riichi[p] = False
            s.last_draw[p] = None
            s.round[p] = 0
        s.visible = frozenset(s.doras)
    elif tag == "N":
        p = int(a["who"])
        m = ref.decode_meld(int(a["m"]))
        s.hand[p] = s.hand[p] - m.own
        s.visible = s.visible | m.own
        s.last_draw[p] = None
        if m.kind == "kakan":
            new = []
            k = next(iter(m.own)) // 4
            for x in s.melds[p]:
                if x.kind == "pon" and next(iter(x.own)) // 4 == k:
                    x = ref.Meld("kakan", x.own | m.own, x.called, x.rel)
                new.append(x)
            s.melds[p] = tuple(new)
        else:
            s.melds[p] = s.melds[p] + (m,)
    elif tag == "DORA":
        s.doras = s.doras + (int(a["hai"]),)
        s.visible = s.visible | {int(a["hai"])}
    elif tag == "REACH":
        p = int(a["who"])
        if a["step"] == "1":
            s.riichi[p] = True
        else:
            s.score[p] -= 1000
    elif tag in ("AGARI", "RYUUKYOKU"):
        if "sc" in a:
            sc = ints(a["sc"])
            for p in range(s.n):
                s.score[p] = (sc[2 * p] + sc[2 * p + 1]) * 100
    elif tag == "UN":
        for p in range(s.n):
            if a.get("n%d" % p):
                s.names[p] = unquote(a["n%d" % p])
                s.offline[p] = False
    elif tag == "BYE":
        s.offline[int(a["who"])] = True
    elif tag == "TAIKYOKU":
        s.oya = int(a["oya"])
    return s


def players_of(root):
    go = next(e for e in root if e.tag == "GO")
    return 3 if int(go.attrib["type"]) >> 4 & 1 else 4


def states(root, n=None):
    """[(element, state after it)]"""
    s = initial(n or players_of(root))
    out = []
    for e in root:
        s = step(s, e.tag, e.attrib)
        out.append((e, s))
    return out


def all_ids(n):
    return frozenset(i for i in range(136) if n == 4 or not 4 <= i < 32)


def games(root):
    """Event index ranges of the hands: [(start, stop)], stop exclusive."""
    starts = [i for i, e in enumerate(root) if e.tag == "INIT"]
    return list(zip(starts, starts[1:] + [len(root)]))
