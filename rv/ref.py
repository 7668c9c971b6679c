"""Reference models, written from the rules of the game and the tenhou log format,
sharing no code with the library under observation.

Tile kinds are 0..33: 1m..9m = 0..8, 1p..9p = 9..17, 1s..9s = 18..26, 1z..7z = 27..33.
Tenhou tile ids are 0..135, kind = id // 4; ids 16, 52 and 88 are the red fives.
"""
from functools import lru_cache

KINDS = 34
RED_IDS = {16: "0m", 52: "0p", 88: "0s"}
INF = 10 ** 6
SUITS = "mpsz"


def kind_name(k):
    return "%d%s" % (k % 9 + 1, SUITS[k // 9])


def name_kind(name):
    n, c = int(name[0]), name[1]
    if n == 0:
        n = 5
    return SUITS.index(c) * 9 + n - 1


def id_name(i, aka=True):
    """Display of a tenhou id in the usual notation."""
    if aka and i in RED_IDS:
        return RED_IDS[i]
    return kind_name(i // 4)


def counts_of(kinds):
    c = [0] * KINDS
    for k in kinds:
        c[k] += 1
    return c


# ---------------------------------------------------------------- standard hands

@lru_cache(maxsize=None)
def _suit_table(vec, is_suit, M, P, cap):
    """cost[m][p]: fewest tiles to add to `vec` so that it contains m melds and p pairs,
    never using more than `cap` copies of one kind."""
    n = len(vec)
    states = {(0, 0, 0, 0): 0}          # (runs started 2 before, runs started 1 before, m, p)
    for t in range(n):
        have = vec[t]
        nxt = {}
        for (a, b, m, p), cost in states.items():
            max_run = M - m if is_suit and t <= n - 3 else 0
            for r in range(max_run + 1):
                if a + b + r > cap:
                    break
                for tri in range(M - m - r + 1):
                    used1 = a + b + r + 3 * tri
                    if used1 > cap:
                        break
                    for pr in range(P - p + 1):
                        used = used1 + 2 * pr
                        if used > cap:
                            break
                        key = (b, r, m + r + tri, p + pr)
                        c = cost + (used - have if used > have else 0)
                        if c < nxt.get(key, INF):
                            nxt[key] = c
        states = nxt
    table = [[INF] * (P + 1) for _ in range(M + 1)]
    for (a, b, m, p), cost in states.items():
        # runs started at the last two positions are impossible (max_run = 0 there)
        if cost < table[m][p]:
            table[m][p] = cost
    return table


def _combine(x, y, M, P):
    out = [[INF] * (P + 1) for _ in range(M + 1)]
    for m1 in range(M + 1):
        for p1 in range(P + 1):
            c1 = x[m1][p1]
            if c1 >= INF:
                continue
            for m2 in range(M + 1 - m1):
                row = y[m2]
                for p2 in range(P + 1 - p1):
                    c = c1 + row[p2]
                    if c < out[m1 + m2][p1 + p2]:
                        out[m1 + m2][p1 + p2] = c
    return out


@lru_cache(maxsize=200000)
def _normal_missing(counts, M, P, cap):
    tabs = [_suit_table(counts[0:9], True, M, P, cap), _suit_table(counts[9:18], True, M, P, cap),
            _suit_table(counts[18:27], True, M, P, cap), _suit_table(counts[27:34], False, M, P, cap)]
    acc = tabs[0]
    for t in tabs[1:]:
        acc = _combine(acc, t, M, P)
    return acc[M][P]


def normal_missing(counts, melds=4, pairs=1, cap=4):
    """Fewest tiles to add so that the hand contains `melds` melds and `pairs` pairs."""
    return _normal_missing(tuple(counts), melds, pairs, cap)


# ---------------------------------------------------------------- n distinct pairs

def pairs_missing(counts, pairs=7, used=()):
    costs = sorted(max(0, 2 - c) for k, c in enumerate(counts) if k not in used)
    return sum(costs[:pairs])


def missing(form, counts, cap=4):
    """form: ("normal", melds, pairs) or ("pairs", n)"""
    if form[0] == "normal":
        return normal_missing(counts, form[1], form[2], cap)
    return pairs_missing(counts, form[1])


def step(form, counts, cap=4):
    """Waiting step (shanten): -1 complete, 0 one tile from completion..."""
    return missing(form, counts, cap) - 1


def useful(form, counts, cap=4):
    """Kinds whose draw lowers the waiting step (a 5th copy cannot be drawn when cap == 4)."""
    base = missing(form, counts, cap)
    counts = list(counts)
    out = set()
    if base == 0:
        return out
    for k in range(KINDS):
        if counts[k] >= cap:
            continue
        counts[k] += 1
        if missing(form, counts, cap) < base:
            out.add(k)
        counts[k] -= 1
    return out


def discards(form, counts, cap=4):
    """{kind: (step, useful)} for every discard of the hand."""
    counts = list(counts)
    res = {}
    for k in range(KINDS):
        if counts[k]:
            counts[k] -= 1
            res[k] = (step(form, counts, cap), useful(form, counts, cap))
            counts[k] += 1
    return res


# ---------------------------------------------------------------- decompositions

def all_units():
    units = []
    for k in range(KINDS):
        units.append(("pair", (k, k)))
        units.append(("meld", (k, k, k)))
        if k < 27 and k % 9 <= 6:
            units.append(("meld", (k, k + 1, k + 2)))
    return units


_UNITS = all_units()


def decompositions(form, counts):
    """Every multiset of units completing `form` and contained in the hand, as a set of sorted tuples."""
    counts = list(counts)
    if form[0] == "normal":
        need = {"meld": form[1], "pair": form[2]}
        repeat = True
    else:
        need = {"meld": 0, "pair": form[1]}
        repeat = False
    usable = [u for u in _UNITS if all(counts[k] >= u[1].count(k) for k in set(u[1]))]
    out = set()
    chosen = []

    def rec(i):
        if need["meld"] == 0 and need["pair"] == 0:
            out.add(tuple(sorted(chosen)))
            return
        for j in range(i, len(usable)):
            typ, tiles = usable[j]
            if need[typ] == 0:
                continue
            if any(counts[k] < tiles.count(k) for k in tiles):
                continue
            for k in tiles:
                counts[k] -= 1
            need[typ] -= 1
            chosen.append(tiles)
            rec(j if repeat else j + 1)
            chosen.pop()
            need[typ] += 1
            for k in tiles:
                counts[k] += 1

    rec(0)
    return out


# ---------------------------------------------------------------- tenhou meld codes

class Meld:
    """kind: chi, pon, kakan, ankan, minkan, kita. called: borrowed ids, own: ids from the hand."""
    __slots__ = ("kind", "called", "own", "rel")

    def __init__(self, kind, own, called, rel):
        self.kind, self.own, self.called, self.rel = kind, frozenset(own), frozenset(called), rel

    def tup(self):
        return self.kind, tuple(sorted(self.own)), tuple(sorted(self.called)), self.rel

    def __eq__(self, o):
        return self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())

    def __repr__(self):
        return repr(self.tup())


def encode_chi(tiles, called, rel=3):
    ids = sorted(tiles)
    start = ids[0] // 4
    suit, num = divmod(start, 9)
    which = ids.index(called)
    pattern = (suit * 7 + num) * 3 + which
    return pattern << 10 | (ids[2] % 4) << 7 | (ids[1] % 4) << 5 | (ids[0] % 4) << 3 | 4 | rel


def encode_pon(tiles, called, rel):
    ids = sorted(tiles)
    k = ids[0] // 4
    unused = ({0, 1, 2, 3} - {i % 4 for i in ids}).pop()
    return (k * 3 + ids.index(called)) << 9 | unused << 5 | 8 | rel


def encode_kakan(pon_tiles, called, added, rel):
    ids = sorted(pon_tiles)
    k = ids[0] // 4
    return (k * 3 + ids.index(called)) << 9 | (added % 4) << 5 | 16 | rel


def encode_kan(tile, rel):
    return tile << 8 | rel


def encode_kita(tile):
    return tile << 8 | 32


def decode_meld(m):
    rel = m & 3
    if m & 4:
        pattern, which = divmod(m >> 10, 3)
        suit, num = divmod(pattern, 7)
        ids = [4 * (suit * 9 + num + i) + (m >> (3 + 2 * i) & 3) for i in range(3)]
        called = ids[which]
        return Meld("chi", set(ids) - {called}, {called}, rel)
    if m & 8 or m & 16:
        k, which = divmod(m >> 9, 3)
        extra = 4 * k + (m >> 5 & 3)
        ids = [4 * k + i for i in range(4) if 4 * k + i != extra]
        if m & 8:
            return Meld("pon", set(ids) - {ids[which]}, {ids[which]}, rel)
        return Meld("kakan", {extra}, set(), rel)
    if m & 32:
        return Meld("kita", {m >> 8}, set(), rel)
    t = m >> 8
    four = {t // 4 * 4 + i for i in range(4)}
    if rel == 0:
        return Meld("ankan", four, set(), 0)
    return Meld("minkan", four - {t}, {t}, rel)


# ---------------------------------------------------------------- game type

class GT:
    def __init__(self, code):
        bit = lambda n: bool(code >> n & 1)
        self.aka = not bit(1)
        self.tanyao = not bit(2)
        self.winds = 2 if bit(3) else 1
        self.players = 3 if bit(4) else 4
        self.level = 2 * bit(5) + bit(7)
        self.fast = bit(6)
        self.shadow = bit(8)
        self.tips_on = bit(9)
        self.tips = (5 if bit(10) else 2) if self.tips_on else 0
        self.rules = code >> 1 & 0x3ff      # the bits that distinguish two rule sets

    def text(self):
        return "".join([
            "?一二三四"[self.players],
            ("若銀琥孔" if self.tips_on else "般上特鳳")[self.level],
            "?東南"[self.winds],
            "喰" if self.tanyao else "",
            "赤" if self.aka else "",
            "速" if self.fast else "",
            "暗" if self.shadow else "",
            "祝%d" % self.tips if self.tips_on else "",
        ])


RANKS = ['新人', '9級', '8級', '7級', '6級', '5級', '4級', '3級', '2級', '1級', '初段', '二段', '三段', '四段',
         '五段', '六段', '七段', '八段', '九段', '十段', '天鳳位']

DRAWS = {"yao9": "九種九牌", "kaze4": "四風連打", "reach4": "四家立直", "ron3": "三家和了",
         "kan4": "四槓散了", "nm": "流局滿貫"}

YAKU = [
    "門前清自摸和", "立直", "一発", "槍槓", "嶺上開花", "海底摸月", "河底撈魚", "平和", "断幺九", "一盃口",
    "自風 東", "自風 南", "自風 西", "自風 北", "場風 東", "場風 南", "場風 西", "場風 北", "役牌 白", "役牌 發", "役牌 中",
    "両立直", "七対子", "混全帯幺九", "一気通貫", "三色同順", "三色同刻", "三槓子", "対々和", "三暗刻", "小三元", "混老頭",
    "二盃口", "純全帯幺九", "混一色", "清一色", "人和",
    "天和", "地和", "大三元", "四暗刻", "四暗刻単騎", "字一色", "緑一色", "清老頭", "九蓮宝燈", "純正九蓮宝燈",
    "国士無双", "国士無双１３面", "大四喜", "小四喜", "四槓子",
    "ドラ", "裏ドラ", "赤ドラ"]

DORA_NEXT = {}
for _s in range(3):
    for _n in range(9):
        DORA_NEXT[_s * 9 + _n] = _s * 9 + (_n + 1) % 9
for _n in range(4):
    DORA_NEXT[27 + _n] = 27 + (_n + 1) % 4
for _n in range(3):
    DORA_NEXT[31 + _n] = 31 + (_n + 1) % 3
