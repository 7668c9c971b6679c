"""Plays mahjong and writes tenhou logs, so that there is an unlimited supply of realistic games whose
true history is known. Nothing here uses the library under observation."""
import xml.etree.ElementTree as ET

from rv import ref

DRAW = "TUVW"
DISC = "DEFG"

NAME_POOL = ["トバゾ", "一歩", "神速★.com", "QooPee", "NoName", "みっぺー", "留チョロ", "sakai67", "♪モノクロ", "a_b-c", "ＡＢＣ",
             "♣️♦", "x" * 8, "日本 太郎", "é+%41", "p&q", "A B", "1+1=2", "C++", "{x}y", "50%d"]
ODD_NAMES = ["NA", "null", "nan", "None", "N/A", "007", "1e5", "True", "false", "0", "-1", "1.50", " lead", "trail ",
             "a,b", 'q"uote', "it's", "<b>x", "[1]", "{}", "a;b", "\\n", "NULL", "inf", "1_000", "#N/A", "true", "0x10", "'", '"']


def quote(name, rng=None):
    """One of the spellings of a name in a log: escaped all through, only where needed, or anything between."""
    raw = rng.choice([0.0, 0.0, 0.5, 1.0]) if rng is not None else 0.0
    fmt = rng.choice(["%%%02X", "%%%02X", "%%%02x"]) if raw else "%%%02X"
    return "".join(c if c not in "%\t\r\n" and raw and rng.random() < raw else "".join(fmt % b for b in c.encode("utf-8"))
                   for c in name)


class Opts:
    """Knobs of one log."""

    def __init__(self, rng, **kw):
        self.players = 4 if rng.random() < 0.6 else 3
        self.aka = rng.random() < 0.75
        self.tanyao = rng.random() < 0.8
        self.hanchan = rng.random() < 0.6
        self.fast = rng.random() < 0.3
        self.level = rng.randrange(4)
        self.games = rng.choice([1, 1, 2, 2, 3, 4])
        self.start = 0 if rng.random() < 0.5 else None      # first kyoku
        self.p_call = rng.choice([0.05, 0.15, 0.35, 0.6])
        self.p_kan = rng.choice([0.3, 0.8, 1.0])
        self.p_riichi = rng.choice([0.01, 0.03, 0.06])
        self.p_ron = rng.choice([0.003, 0.01, 0.02])
        self.p_tsumo = rng.choice([0.003, 0.01])
        self.p_abort = rng.choice([0.0, 0.003, 0.01])
        self.p_net = rng.choice([0.0, 0.004, 0.02])
        self.p_tsumogiri = rng.choice([0.1, 0.4, 0.8])
        self.rig = rng.random() < 0.5
        self.p_fourth = rng.choice([0.0, 0.3, 0.8])     # the fourth tile of a triplet called comes to its owner
        self.alike = 0.5                                # how often the sets dealt are of one suit or number
        self.sets = (0, 3)
        self.smart = 0.0
        self.near = False
        self.decline = 0.5
        self.names = None
        self.odd_names = False
        self.guests = .25
        self.old_style = rng.random() < 0.3
        self.bare_reach = rng.random() < 0.15       # without the scores, as some logs have it
        self.seed_attr = True
        self.max_turns = None
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)

    def code(self):
        c = 1
        c |= (not self.aka) << 1
        c |= (not self.tanyao) << 2
        c |= self.hanchan << 3
        c |= (self.players == 3) << 4
        c |= (self.level >> 1 & 1) << 5
        c |= self.fast << 6
        c |= (self.level & 1) << 7
        return c


class Game:
    """One hand (kyoku) in play."""

    def __init__(self, sim, kyoku, honba, sticks, oya):
        self.s, self.o, self.rng = sim, sim.o, sim.rng
        self.n = sim.o.players
        self.kyoku, self.honba, self.sticks, self.oya = kyoku, honba, sticks, oya
        wall = [i for i in range(136) if self.n == 4 or not 4 <= i < 32]
        self.rng.shuffle(wall)
        if self.o.rig:
            self.rig_wall(wall)
        if self.o.near:
            self.near_wall(wall)
        self.hand = [set(wall[13 * p:13 * p + 13]) for p in range(self.n)]
        self.wall = wall[13 * self.n:-14]
        self.dead = wall[-14:]
        self.rinshan = self.dead[:8]
        self.ind = self.dead[8:14]
        self.melds = [[] for _ in range(self.n)]         # (kind, ids in order, called, rel)
        self.river = [[] for _ in range(self.n)]
        self.reached = [False] * self.n
        self.kans = 0
        self.doras = [self.ind[0]]
        self.turn = oya
        self.pending_dora = 0

    def near_wall(self, wall):
        """Deal ready hands whose winning tiles come early."""
        from rv import lib
        left = set(wall)
        first, early = [], []
        for p in range(self.n):
            for _ in range(50):
                kinds = lib.seven_pairs_hand(self.rng) if self.rng.random() < .3 else lib.complete_hand(self.rng, 4)
                ids = []
                for k in kinds:
                    c = [i for i in range(4 * k, 4 * k + 4) if i in left and i not in ids]
                    if not c:
                        break
                    ids.append(self.rng.choice(c))
                else:
                    break
            else:
                ids = self.rng.sample(sorted(left), 14)
            self.rng.shuffle(ids)
            left -= set(ids)
            first += ids[:13]
            early.append(ids[13])
        head = self.rng.sample(sorted(left), self.rng.randrange(3 * self.n)) + early
        self.rng.shuffle(head)
        rest = sorted(left - set(head))
        self.rng.shuffle(rest)
        wall[:] = first + head + rest

    def rig_wall(self, wall):
        """Give players sets of equal or special tiles, so that calls and kans are frequent."""
        kinds = sorted({i // 4 for i in wall})
        pos = {t: i for i, t in enumerate(wall)}

        def put(tile, at):
            i = pos[tile]
            other = wall[at]
            wall[i], wall[at] = other, tile
            pos[tile], pos[other] = at, i

        theme = self.rng.choice(["suit", "number"]) if self.rng.random() < self.o.alike else None
        if theme:
            # the sets are alike: of one suit, or of one number
            one = self.rng.choice(kinds)
            kinds = [k for k in kinds if (k // 9 == one // 9 if theme == "suit" else k % 9 == one % 9)]
        for p in range(self.n):
            slot = 13 * p
            for _ in range(self.rng.randint(*self.o.sets)):
                k = self.rng.choice(kinds) if theme or self.rng.random() < .6 else \
                    self.rng.choice([k for k in (0, 4, 13, 22, 30, 8, 33) if k in kinds])
                ids = [4 * k + j for j in range(4)]
                self.rng.shuffle(ids)
                take = self.rng.choice([2, 2, 2, 3] if self.o.sets[0] else [2, 3, 3, 4])
                for t in ids[:take]:
                    if slot < 13 * p + 13 and pos[t] >= slot:
                        put(t, slot)
                        slot += 1
                for t in ids[take:]:            # the others come early from the wall
                    if pos[t] >= 13 * self.n:
                        put(t, 13 * self.n + self.rng.randrange(8 * self.n))

    # -- output

    def emit(self, tag, **attrs):
        self.s.emit(tag, attrs, self)

    def snapshot(self):
        return {"hand": [frozenset(h) for h in self.hand], "river": [tuple(r) for r in self.river],
                "doras": tuple(self.doras), "scores": tuple(self.s.score[:self.n])}

    # -- play

    def start(self):
        a = {"seed": "%d,%d,%d,%d,%d,%d" % (self.kyoku, self.honba, self.sticks, self.rng.randrange(6),
                                           self.rng.randrange(6), self.doras[0]),
             "ten": ",".join(str(x // 100) for x in self.s.score), "oya": str(self.oya)}
        for p in range(4):
            ids = list(self.hand[p]) if p < self.n else []
            self.rng.shuffle(ids)
            a["hai%d" % p] = ",".join(map(str, ids))
        self.emit("INIT", **a)

    def draw(self, rinshan=False):
        if rinshan:
            t = self.rinshan.pop()
        else:
            t = self.wall.pop(0)
        self.hand[self.turn].add(t)
        self.emit(DRAW[self.turn] + str(t))
        return t

    def flip(self):
        if len(self.doras) < 5:
            self.doras.append(self.ind[len(self.doras)])
            self.emit("DORA", hai=str(self.doras[-1]))

    def flush_pending(self):
        while self.pending_dora:
            self.pending_dora -= 1
            self.flip()

    def play(self):
        """Returns (dealer stays, sticks left)."""
        self.start()
        drawn = self.draw()
        turns = 0
        while True:
            self.s.network(self)
            p = self.turn
            r = self.rng.random
            turns += 1
            if drawn is not None:
                if self.complete_own(p, drawn):
                    return self.win(p, p, drawn)
                if turns <= self.n and r() < 4 * self.o.p_abort:
                    return self.abort("yao9", who=p)
                k = self.own_kan(p, drawn)
                if k == "ron":
                    return self.result
                if k is not None:
                    drawn = k
                    continue
                if self.n == 3:
                    norths = [t for t in self.hand[p] if t // 4 == 30]
                    if norths and self.rinshan and r() < 0.7:
                        t = self.rng.choice(norths)
                        self.hand[p].discard(t)
                        self.melds[p].append(["kita", (t,), None, 0])
                        self.emit("N", who=str(p), m=str(ref.encode_kita(t)))
                        drawn = self.draw(rinshan=True)
                        continue
            reach = (not self.reached[p] and drawn is not None and self.menzen(p) and self.s.score[p] >= 1000
                     and len(self.wall) >= 4 and r() < self.o.p_riichi * (8 if self.s.brains else 1))
            if reach:
                self.emit("REACH", who=str(p), step="1")
            t = self.choose_discard(p, drawn)
            self.hand[p].discard(t)
            self.river[p].append(t)
            self.emit(DISC[p] + str(t))
            if self.rng.random() < .5:
                self.flush_pending()
            if reach:
                self.reached[p] = True
            rons = self.rons(p, t)
            if rons:
                if len(rons) >= 3 and self.n == 4:
                    return self.abort("ron3")
                return self.win_many(rons, p, t)
            if reach:
                self.s.score[p] -= 1000
                self.sticks += 1
                if self.o.bare_reach:
                    self.emit("REACH", who=str(p), step="2")
                else:
                    self.emit("REACH", who=str(p), ten=",".join(str(x // 100) for x in self.s.score), step="2")
                if all(self.reached) and self.n == 4:
                    return self.abort("reach4")
            self.flush_pending()
            if self.kans >= 4 and self.n == 4 and len({q for q in range(self.n) for m in self.melds[q]
                                                       if m[0].endswith("kan")}) > 1:
                return self.abort("kan4")
            if turns <= 4 and self.n == 4 and r() < self.o.p_abort:
                return self.abort("kaze4")
            called = self.calls(p, t) if self.wall else None
            if called:
                who, kind = called
                self.turn = who
                if kind == "minkan":
                    drawn = self.draw(rinshan=True)
                else:
                    drawn = None
                continue
            if not self.wall or (self.o.max_turns and turns > self.o.max_turns):
                return self.exhausted()
            self.turn = (p + 1) % self.n
            drawn = self.draw()

    def menzen(self, p):
        return all(m[0] in ("ankan", "kita") for m in self.melds[p])

    def open_count(self, p):
        return sum(1 for m in self.melds[p] if m[0] != "kita")

    def complete_own(self, p, drawn):
        if self.s.brains:
            if self.hand_done(p, self.hand[p]):
                return self.rng.random() >= self.o.decline         # winning draws are sometimes declined
            return False
        return self.rng.random() < self.o.p_tsumo

    def hand_done(self, p, ids):
        c = ref.counts_of(i // 4 for i in ids)
        k = self.open_count(p)
        if ref.normal_missing(c, 4 - k, 1) == 0:
            return True
        return k == 0 and ref.pairs_missing(c) == 0

    def choose_discard(self, p, drawn):
        hand = sorted(self.hand[p])
        if self.reached[p] and drawn is not None:
            return drawn
        if drawn is not None and self.rng.random() < self.o.p_tsumogiri and not self.s.brains:
            return drawn
        if self.s.brains and self.rng.random() < self.o.smart:
            c = ref.counts_of(i // 4 for i in hand)
            k = self.open_count(p)
            best, pick = None, []
            for kind in sorted({i // 4 for i in hand}):
                c[kind] -= 1
                st = ref.normal_missing(c, 4 - k, 1)
                if k == 0:
                    st = min(st, ref.pairs_missing(c))
                c[kind] += 1
                if best is None or st < best:
                    best, pick = st, []
                if st == best:
                    pick.append(kind)
            kind = self.rng.choice(pick)
            return self.rng.choice([i for i in hand if i // 4 == kind])
        return self.rng.choice(hand)

    def own_kan(self, p, drawn):
        if not self.rinshan or not self.wall or self.rng.random() > self.o.p_kan:
            return None
        by = {}
        for t in self.hand[p]:
            by.setdefault(t // 4, []).append(t)
        quads = [k for k, v in by.items() if len(v) == 4 and (not self.reached[p] or drawn // 4 == k)]
        pons = [m for m in self.melds[p] if m[0] == "pon" and m[1][0] // 4 in by]
        if self.kans >= 4:
            return None
        if quads and self.rng.random() < 0.8:
            k = self.rng.choice(quads)
            ids = [4 * k + j for j in range(4)]
            for t in ids:
                self.hand[p].discard(t)
            self.melds[p].append(["ankan", tuple(ids), None, 0])
            self.emit("N", who=str(p), m=str(ref.encode_kan(self.rng.choice(ids), 0)))
            self.kans += 1
            if self.rng.random() < .7:
                self.flip()
                return self.after_kan(p)
            d = self.after_kan(p)
            self.flip()
            return d
        if pons and not self.reached[p]:
            m = self.rng.choice(pons)
            added = by[m[1][0] // 4][0]
            self.hand[p].discard(added)
            m[0] = "kakan"
            code = ref.encode_kakan(m[1], m[2], added, m[3])
            m[1] = tuple(m[1]) + (added,)
            self.emit("N", who=str(p), m=str(code))
            self.kans += 1
            rons = self.rons(p, added, chankan=True)
            if rons:
                self.result = self.win_many(rons[:2], p, added)
                return "ron"
            d = self.after_kan(p)
            if self.rng.random() < .5:
                self.flip()
            else:
                self.pending_dora += 1
            return d
        return None

    def after_kan(self, p):
        return self.draw(rinshan=True)

    def rons(self, p, t, chankan=False):
        out = []
        for q in range(self.n):
            if q == p:
                continue
            if self.s.brains:
                if self.hand_done(q, self.hand[q] | {t}) and self.rng.random() >= self.o.decline:
                    out.append(q)
            elif self.rng.random() < self.o.p_ron:
                out.append(q)
                if self.rng.random() < .25:
                    out.extend(x for x in range(self.n) if x not in (p, q))
                    break
        order = sorted(set(out), key=lambda q: (q - p) % self.n)
        return order

    def calls(self, p, t):
        k = t // 4
        order = [q for q in range(self.n) if q != p]
        self.rng.shuffle(order)
        for q in order:
            if self.reached[q]:
                continue
            same = [x for x in self.hand[q] if x // 4 == k]
            rel = (p - q) % 4
            if len(same) == 3 and self.rinshan and self.kans < 4 and self.rng.random() < self.o.p_call * self.o.p_kan:
                for x in same:
                    self.hand[q].discard(x)
                self.melds[q].append(["minkan", tuple(same) + (t,), t, rel])
                self.emit("N", who=str(q), m=str(ref.encode_kan(t, rel)))
                self.kans += 1
                self.pending_dora += 1
                return q, "minkan"
            if len(same) >= 2 and self.rng.random() < self.o.p_call:
                use = self.rng.sample(sorted(same), 2)
                for x in use:
                    self.hand[q].discard(x)
                ids = tuple(use) + (t,)
                self.melds[q].append(["pon", ids, t, rel])
                self.emit("N", who=str(q), m=str(ref.encode_pon(ids, t, rel)))
                if self.o.rig and self.rng.random() < self.o.p_fourth:
                    fourth = sum(range(4 * k, 4 * k + 4)) - sum(ids)
                    if fourth in self.wall and len(self.wall) >= self.n:
                        i = self.wall.index(fourth)
                        self.wall[i], self.wall[self.n - 1] = self.wall[self.n - 1], fourth
                return q, "pon"
            if self.n == 4 and (q - p) % 4 == 1 and k < 27 and self.rng.random() < self.o.p_call:
                options = []
                for d in (-2, -1, 0):
                    need = [k + d + j for j in range(3)]
                    if need[0] < 0 or need[0] // 9 != need[2] // 9 or need[0] // 9 != k // 9:
                        continue
                    need.remove(k)
                    have = [[x for x in self.hand[q] if x // 4 == w] for w in need]
                    if all(have):
                        options.append(have)
                if options:
                    have = self.rng.choice(options)
                    use = [self.rng.choice(sorted(h)) for h in have]
                    for x in use:
                        self.hand[q].discard(x)
                    ids = tuple(use) + (t,)
                    self.melds[q].append(["chi", ids, t, 3])
                    self.emit("N", who=str(q), m=str(ref.encode_chi(ids, t)))
                    return q, "chi"
        return None

    # -- endings

    def meld_codes(self, p):
        out = []
        for kind, ids, called, rel in self.melds[p]:
            if kind == "chi":
                out.append(ref.encode_chi(ids, called))
            elif kind == "pon":
                out.append(ref.encode_pon(ids, called, rel))
            elif kind == "kakan":
                out.append(ref.encode_kakan(ids[:3], called, ids[3], rel))
            elif kind in ("ankan", "minkan"):
                out.append(ref.encode_kan(ids[-1], rel))
            else:
                out.append(ref.encode_kita(ids[0]))
        out.reverse()
        return ",".join(map(str, out))

    def settle(self, delta):
        before = list(self.s.score)
        for p in range(self.n):
            self.s.score[p] += delta[p]
        sc = []
        for p in range(4):
            sc += [before[p] // 100, (delta[p] if p < self.n else 0) // 100]
        return ",".join(map(str, sc))

    def win_one(self, who, frm, tile, sticks, honba):
        rng = self.rng
        tsumo = who == frm
        base = rng.choice([1000, 1300, 2000, 2600, 3900, 5200, 7700, 8000, 12000, 16000, 24000, 32000, 48000, 144000])
        delta = [0] * self.n
        if tsumo:
            others = [q for q in range(self.n) if q != who]
            for q in others:
                pay = (base // len(others) + 99) // 100 * 100 + 100 * honba
                if who != self.oya and q == self.oya:
                    pay += 100 * rng.randrange(20)
                delta[q] -= pay
                delta[who] += pay
            total = sum(-delta[q] for q in others)
        else:
            pay = base + 300 * honba
            delta[frm] -= pay
            delta[who] += pay
            total = base
        delta[who] += 1000 * sticks
        hai = sorted(self.hand[who] | {tile})
        a = {"ba": "%d,%d" % (honba, sticks), "hai": ",".join(map(str, hai))}
        if self.melds[who]:
            a["m"] = self.meld_codes(who)
        a["machi"] = str(tile)
        limit = 0 if base < 8000 else rng.randrange(1, 6)
        a["ten"] = "%d,%d,%d" % (rng.choice([20, 25, 30, 40, 50, 110]), total, limit)
        if rng.random() < .15:
            a["yakuman"] = ",".join(str(x) for x in rng.sample(range(37, 52), rng.choice([1, 1, 2])))
        else:
            ids = rng.sample(range(0, 36), rng.randrange(1, 6))
            han = [rng.choice([1, 1, 1, 2, 3, 6]) for _ in ids]
            dora = rng.sample([52, 53, 54], rng.randrange(0, 4))
            pairs = list(zip(ids, han)) + [(d, rng.randrange(0, 9)) for d in dora]
            a["yaku"] = ",".join("%d,%d" % y for y in pairs)
        a["doraHai"] = ",".join(map(str, self.doras))
        if self.reached[who]:
            a["doraHaiUra"] = ",".join(str(rng.randrange(136)) for _ in self.doras)
        a["who"], a["fromWho"] = str(who), str(frm)
        if rng.random() < .03 and not tsumo:
            a["paoWho"] = str(frm)
        a["sc"] = self.settle(delta)
        return a

    def win(self, who, frm, tile):
        a = self.win_one(who, frm, tile, self.sticks, self.honba)
        self.s.finish("AGARI", a, self)
        return who == self.oya, 0

    def win_many(self, rons, frm, tile):
        sticks, honba = self.sticks, self.honba
        stays = False
        for n, who in enumerate(rons):
            a = self.win_one(who, frm, tile, sticks, honba)
            sticks = honba = 0
            stays = stays or who == self.oya
            if n == len(rons) - 1:
                self.s.finish("AGARI", a, self)
            else:
                self.emit("AGARI", **a)
                self.s.network(self, .25)       # somebody leaves while the results are shown
        return stays, 0

    def abort(self, typ, who=None):
        a = {"type": typ, "ba": "%d,%d" % (self.honba, self.sticks), "sc": self.settle([0] * self.n)}
        shown = [who] if who is not None else (range(self.n) if typ in ("reach4", "ron3") else [])
        for p in shown:
            a["hai%d" % p] = ",".join(map(str, sorted(self.hand[p])))
        self.s.finish("RYUUKYOKU", a, self)
        return True, self.sticks

    def exhausted(self):
        rng = self.rng
        tenpai = [p for p in range(self.n) if rng.random() < 0.4]
        delta = [0] * self.n
        if 0 < len(tenpai) < self.n:
            noten = [p for p in range(self.n) if p not in tenpai]
            pot = 3000 if self.n == 4 else 2000
            for p in tenpai:
                delta[p] += pot // len(tenpai) // 100 * 100
            for p in noten:
                delta[p] -= pot // len(noten) // 100 * 100
        a = {}
        if rng.random() < .1:
            a["type"] = "nm"
        a["ba"] = "%d,%d" % (self.honba, self.sticks)
        a["sc"] = self.settle(delta)
        for p in tenpai:
            a["hai%d" % p] = ",".join(map(str, sorted(self.hand[p])))
        self.s.finish("RYUUKYOKU", a, self)
        return self.oya in tenpai, self.sticks


class Sim:
    def __init__(self, rng, **kw):
        self.rng = rng
        self.o = Opts(rng, **kw)
        self.brains = self.o.smart > 0
        self.root = ET.Element("mjloggm", {"ver": "2.3"})
        self.snaps = []                  # per emitted event: snapshot of the running hand, or None
        self.last = False
        self.offline = set()
        start = 25000 if self.o.players == 4 else 35000
        self.score = [start] * self.o.players + [0] * (4 - self.o.players)
        if rng.random() < .15:
            self.score = [x + 100 * rng.randrange(-300, rng.choice([300, 300, 1100])) if i < self.o.players else 0
                          for i, x in enumerate(self.score)]

    def emit(self, tag, attrs, game=None):
        ET.SubElement(self.root, tag, {k: v for k, v in attrs.items()})
        self.snaps.append(game.snapshot() if game else None)

    def network(self, game, p=0.0):
        """Disconnections and reconnections between events."""
        if self.rng.random() >= (max(p, self.o.p_net) if self.o.p_net else 0.0):
            return
        p = self.rng.randrange(self.o.players)
        if p in self.offline:
            self.offline.discard(p)
            self.emit("UN", {"n%d" % p: quote(self.names[p], self.rng)}, game)
        else:
            self.offline.add(p)
            self.emit("BYE", {"who": str(p)}, game)

    def finish(self, tag, attrs, game):
        if self.last:
            n = self.o.players
            raw = [self.score[p] // 100 for p in range(n)]
            pts = []
            for p in range(4):
                if p >= n:
                    pts += ["0", "0" if self.o.old_style else "0.0"]
                    continue
                v = (raw[p] - 300) / 10 + self.rng.choice([50, 10, -10, -30, 0])
                pts += [str(raw[p]), str(int(round(v))) if self.o.old_style else "%.1f" % v]
            attrs["owari"] = ",".join(pts)
        self.emit(tag, attrs, game)

    def head(self):
        o, rng = self.o, self.rng
        if not o.old_style or rng.random() < .5:
            self.emit("SHUFFLE", {"seed": "mt19937ar-sha512-n288-base64,%s" % "".join(
                rng.choice("ABCDEFabcdef0123456789+/") for _ in range(40)), "ref": ""})
        a = {"type": str(o.code())}
        if not o.old_style:
            a["lobby"] = "0"
        self.emit("GO", a)
        pool = list(NAME_POOL)
        if o.odd_names:
            pool = list(ODD_NAMES)
        rng.shuffle(pool)
        self.names = list(o.names or pool[:o.players])
        un = {"n%d" % p: quote(self.names[p], self.rng) if p < o.players else "" for p in range(4)}
        self.dan = [rng.randrange(21) for _ in range(o.players)]
        self.rate = [rng.choice(["%.2f" % rng.uniform(1000, 2500), "%d" % rng.randrange(1000, 2400), "1500.00"])
                     for _ in range(o.players)]
        self.sex = [rng.choice("MF") for _ in range(o.players)]
        if not o.names and rng.random() < o.guests:
            # guests share name, rank, rate and all, others only the name
            only = rng.random() < .4
            a = rng.randrange(o.players)
            for b in rng.sample(range(o.players), rng.randrange(2, o.players + 1)):
                self.names[b] = self.names[a]
                un["n%d" % b] = un["n%d" % a]
                if not only:
                    self.dan[b], self.rate[b], self.sex[b] = self.dan[a], self.rate[a], self.sex[a]
        pad = 4 - o.players
        un["dan"] = ",".join([str(d) for d in self.dan] + ["0"] * pad)
        un["rate"] = ",".join(self.rate + ["1500.00"] * pad)
        un["sx"] = ",".join(self.sex + ["C"] * pad)
        self.emit("UN", un)
        self.first_oya = rng.randrange(o.players) if rng.random() < .2 else 0
        self.emit("TAIKYOKU", {"oya": str(self.first_oya)})
        if o.p_net and rng.random() < .3:
            p = rng.randrange(o.players)
            self.emit("BYE", {"who": str(p)})
            if rng.random() < .7:
                self.emit("UN", {"n%d" % p: quote(self.names[p], self.rng)})
            else:
                self.offline.add(p)

    def run(self):
        o, rng = self.o, self.rng
        self.head()
        winds = 2 if o.hanchan else 1
        rounds = [(w, i) for w in range(winds + 1) for i in range(o.players)]
        at = 0 if o.start == 0 else rng.randrange(len(rounds))
        honba = rng.choice([0, 0, 0, 1, 2, 5, 14]) if at else 0
        sticks = rng.choice([0, 0, 1, 3, 12]) if at else 0
        for g in range(o.games):
            self.last = g == o.games - 1 or at == len(rounds) - 1 and rng.random() < .8
            w, i = rounds[at]
            game = Game(self, w * 4 + i, honba, sticks, i)
            stays, sticks = game.play()
            if self.last:
                break
            self.network(game, .1)          # between two hands
            if stays:
                honba += 1
            else:
                honba = 0
                at = min(at + 1, len(rounds) - 1)
        return self.root


def make(rng, **kw):
    s = Sim(rng, **kw)
    s.run()
    return s


def calls_log(rng):
    """A log of hands that are nothing but calls: several of each player, of one suit or number, triplets made quads in any order."""
    s = make(rng, games=rng.choice([1, 2]), max_turns=1, p_call=0.0, p_kan=0.0, p_net=0.0, p_ron=0.0, p_tsumo=0.0, p_abort=0.0, rig=False)
    old = list(s.root)
    root = ET.Element(s.root.tag, s.root.attrib)
    n = s.o.players
    skip = False
    for e in old:
        if e.tag == "INIT":
            root.append(e)
            for tag, a in hand_of_calls(rng, n, e):
                ET.SubElement(root, tag, a)
            skip = True
        elif e.tag in ("AGARI", "RYUUKYOKU"):
            skip = False
            for k in [k for k in e.attrib if k.startswith("hai")]:
                del e.attrib[k]
            root.append(e)
        elif not skip:
            root.append(e)
    return root


def hand_of_calls(rng, n, init):
    free = {i for i in range(136) if n == 4 or not 4 <= i < 32} - {int(init.get("seed").split(",")[-1])}
    kinds = sorted({i // 4 for i in free})
    theme = rng.choice(["suit", "number", "any", "runs", "runs"] if n == 4 else ["suit", "number", "any"])
    one = rng.choice([k for k in kinds if k < 27] if theme == "runs" else kinds)
    near = [k for k in kinds if theme == "any" or (k // 9 == one // 9 if theme in ("suit", "runs") else k % 9 == one % 9)]
    hands = [[] for _ in range(n)]
    todo = []
    for p in rng.sample(range(n), n):
        for _ in range(rng.randrange(5)):
            k = rng.choice(near)
            ids = [4 * k + j for j in range(4)]
            what = rng.choice(["pon", "pon", "pon", "minkan", "ankan", "chi", "kita"] + ["chi"] * (20 if theme == "runs" else 0))
            if what == "chi":
                if n == 3 or k > 24 or k % 9 > 6:
                    continue
                ids = [rng.choice(range(4 * (k + j), 4 * (k + j) + 4)) for j in range(3)]
                mine = [x for q, w, x in todo if q == p and w == "chi"]
                if mine and rng.random() < .7:      # the same run once more, also with the same tile called
                    ids = [rng.choice([i for i in free if i // 4 == t // 4] or [t]) for t in sorted(mine[0])]
                    if len(set(ids)) < 3:
                        continue
            if what == "kita":
                if n == 4:
                    continue
                ids = [120 + rng.randrange(4)]
            if not set(ids) <= free:
                continue
            rng.shuffle(ids)
            if what == "chi" and mine and rng.random() < .7 and {i // 4 for i in ids} == {t // 4 for t in mine[0]}:
                ids.sort(key=lambda i: [t // 4 for t in mine[0]].index(i // 4))
            own = {"pon": 2, "minkan": 3, "ankan": 4, "chi": 2, "kita": 1}[what]
            if len(hands[p]) + own > 13:
                continue
            free -= set(ids)
            hands[p] += ids[:own]
            todo.append([p, what, ids])
    spare = rng.sample(sorted(free), len(free))
    for p in range(n):
        filler = [spare.pop() for _ in range(13 - len(hands[p]))]
        init.set("hai%d" % p, ",".join(map(str, rng.sample(hands[p] + filler, 13))))
        hands[p] = filler
    todo += [[p, "kakan", ids] for p, what, ids in todo if what == "pon" and rng.random() < .7]
    rng.shuffle(todo)
    out = []

    def act(tag, **a):
        out.append((tag, a))

    def turn(p, t):
        act(DRAW[p] + str(t))
        return t

    def drop(p, t):
        act(DISC[p] + str(t))

    done = {}
    while todo:
        p, what, ids = todo.pop(0)
        if what == "kakan" and tuple(ids) not in done:
            todo.append([p, what, ids])
            continue
        if len(spare) < 4:
            break
        if what in ("pon", "minkan", "chi"):
            q = (p - 1) % 4 if what == "chi" else rng.choice([x for x in range(n) if x != p])
            rel = (q - p) % 4
            own = 3 if what == "minkan" else 2
            t = turn(q, ids[own])
            drop(q, t)
            if what == "pon":
                done[tuple(ids)] = rel
            code = {"pon": lambda: ref.encode_pon(ids[:3], t, rel), "chi": lambda: ref.encode_chi(ids, t),
                    "minkan": lambda: ref.encode_kan(t, rel)}[what]()
            act("N", who=str(p), m=str(code))
            if what == "minkan":
                drop(p, turn(p, spare.pop()))
            elif hands[p]:
                drop(p, hands[p].pop())
        else:
            x = turn(p, ids[3] if what == "kakan" else spare.pop())
            code = {"kakan": lambda: ref.encode_kakan(ids[:3], ids[2], ids[3], done[tuple(ids)]),
                    "ankan": lambda: ref.encode_kan(rng.choice(ids), 0), "kita": lambda: ref.encode_kita(ids[0])}[what]()
            act("N", who=str(p), m=str(code))
            y = turn(p, spare.pop())
            drop(p, rng.choice([y, x]) if what != "kakan" else y)
        if rng.random() < .1:
            act("DORA", hai=str(spare.pop()))
    for p in rng.sample(range(n), n) * rng.randrange(3):
        if len(spare) > 14:
            hands[p].append(turn(p, spare.pop()))
            drop(p, hands[p].pop(rng.randrange(len(hands[p]))))
    return out
