"""The command stream, folded independently, and what it must amount to."""
from collections import Counter
from urllib.parse import unquote

from rv import model, ref

DRAWN = {"kaze4": "四風連打", "yao9": "九種九牌", "ron3": "三家和了", "reach4": "四家立直", "kan4": "四槓散了", "nm": "流局滿貫"}
YAKU = ("門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風_東 自風_南 自風_西 自風_北 場風_東 場風_南 場風_西 場風_北 "
        "役牌_白 役牌_發 役牌_中 両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 三槓子 対々和 三暗刻 小三元 混老頭 二盃口 純全帯幺九 混一色 "
        "清一色 人和 天和 地和 大三元 四暗刻 四暗刻単騎 字一色 緑一色 清老頭 九蓮宝燈 純正九蓮宝燈 国士無双 国士無双１３面 大四喜 小四喜 四槓子 "
        "ドラ 裏ドラ 赤ドラ").replace("_", "\u00a0").split(" ")
YAKU = [y.replace("\u00a0", " ") for y in YAKU]
LEVELS = ("般上特鳳", "若銀琥孔")
LISTS = {"using_tiles", "dora_indicators", "hand", "discard_tiles", "discard_from_hand", "fixed_meld", "meld_public_tiles",
         "bonus_tiles", "faans"}


def name(prop):
    return prop.name


def key_of(c):
    """(scope, who or 'all', property) of a command."""
    return c.prop.scope.name, c.sub_scope_id, c.property.name


def fold(state, c):
    """Applies one command to {key: value}; gives the new value."""
    k = key_of(c)
    old = state.get(k)
    m = c.update_method.name
    if m in ("REPLACE", "ASSERT_EQUAL_OR_SET"):
        new = c.value
    elif m == "RESET_DEFAULT":
        new = [] if k[2] in LISTS else 0
    elif m == "ADD":
        new = old + c.value
    elif m == "REMOVE":
        if k[2] in LISTS:
            new = list(old)
            for x in c.value:
                new.remove(x)
        else:
            new = old - c.value
    else:
        raise ValueError(m)
    state[k] = list(new) if isinstance(new, list) else new
    return state[k]


def faces(ids):
    return [ref.id_name(i) for i in ids]


def bag(x):
    return Counter(map(str, x)) if not isinstance(x, Counter) else x


class Facts:
    """Follows a log and says which properties must have which values."""

    def __init__(self, root):
        self.n = model.players_of(root)
        self.melds = [[] for _ in range(self.n)]       # announced groups, an added tile on its own
        self.public = [Counter() for _ in range(self.n)]
        self.bonus = [Counter() for _ in range(self.n)]
        self.state = model.initial(self.n)
        self.static = {}

    def step(self, e):
        """Truth after this event: {key: (how, value)}; how is 'is', 'bag' or 'bags'."""
        a, n = e.attrib, self.n
        self.state = st = model.step(self.state, e.tag, a)
        want = {}
        if e.tag == "GO":
            g = ref.GT(int(a["type"]))
            self.static.update({
                ("record", "all", "player_count"): ("is", g.players),
                ("record", "all", "play_level"): ("is", LEVELS[bool(g.tips_on)][g.level]),
                ("record", "all", "show_discard_shadow"): ("is", g.shadow),
                ("record", "all", "play_wind_count"): ("is", g.winds),
                ("record", "all", "allow_tanyao_open"): ("is", g.tanyao),
                ("record", "all", "speed_up"): ("is", g.fast),
                ("record", "all", "using_tiles"): ("bag", self.using(g))})
        elif e.tag == "SHUFFLE":
            self.static["record", "all", "seed"] = ("is", a["seed"])
        elif e.tag == "UN":
            for p in range(n):
                if a.get("n%d" % p):
                    if "dan" in a:
                        self.static["player", p, "level"] = ("is", ref.RANKS[int(a["dan"].split(",")[p])])
                    if "rate" in a:
                        self.static["player", p, "extra_level"] = ("num", float(a["rate"].split(",")[p]))
        elif e.tag == "INIT":
            for p in range(n):
                self.melds[p], self.public[p], self.bonus[p] = [], Counter(), Counter()
        elif e.tag == "N":
            p = int(a["who"])
            m = ref.decode_meld(int(a["m"]))
            self.public[p] = self.public[p] + Counter(faces(m.own))
            if m.kind == "kita":
                self.bonus[p] = self.bonus[p] + Counter(faces(m.own))
            else:
                self.melds[p] = self.melds[p] + [Counter(faces(m.own | m.called))]
        elif e.tag == "AGARI":
            who, frm = int(a["who"]), int(a["fromWho"])
            ids = model.ints(a["yaku"])[::2] if "yaku" in a else model.ints(a["yakuman"])
            self.static["game", "all", "nobody_win"] = ("is", False)
            for p in range(n):
                self.static["player", p, "is_win"] = ("is", p == who)
                self.static["player", p, "is_self_win"] = ("is", who == frm)
                self.static["player", p, "is_discard_lose_game"] = ("is", who != frm and p == frm)
                took_part = who == frm or p in (who, frm)
                self.static["player", p, "faans"] = ("is", [YAKU[i] for i in ids] if took_part else [])
        elif e.tag == "RYUUKYOKU":
            self.static["game", "all", "nobody_win"] = ("is", True)
            self.static["game", "all", "extra_reason"] = ("is", DRAWN[a["type"]] if "type" in a else "EXHAUSTED")
            for p in range(n):
                self.static["player", p, "is_win"] = ("is", False)
                self.static["player", p, "is_self_win"] = ("is", False)
                self.static["player", p, "is_discard_lose_game"] = ("is", False)
                self.static["player", p, "faans"] = ("is", [])
        if "owari" in a:
            x = [float(v) for v in a["owari"].split(",")]
            order = sorted(range(n), key=lambda p: (-x[2 * p], p))
            for p in range(n):
                self.static["player", p, "final_score"] = ("is" if x[2 * p].is_integer() else "num", round(x[2 * p]) * 100 if x[2 * p].is_integer() else x[2 * p] * 100)
                self.static["player", p, "final_point"] = ("num", x[2 * p + 1])
                self.static["player", p, "rank"] = ("is", order.index(p) + 1)
        want.update(self.static)
        for p in range(n):
            if st.oya is not None:
                want["player", p, "is_dealer"] = ("is", st.oya == p)
            if st.names[p] is not None:
                want["player", p, "name"] = ("is", st.names[p])
                want["player", p, "disconnected"] = ("is", st.offline[p])
        if st.started:
            want.update({("game", "all", "wind"): ("is", st.wind), ("game", "all", "round"): ("is", st.kyoku),
                         ("game", "all", "sub_round"): ("is", st.honba), ("game", "all", "richii_remain_scores"): ("is", st.sticks * 1000),
                         ("game", "all", "dora_indicators"): ("is", faces(st.doras))})
            for p in range(n):
                want["player", p, "hand"] = ("bag", Counter(faces(st.hand[p])))
                want["player", p, "discard_tiles"] = ("is", faces(st.river[p]))
                want["player", p, "discard_from_hand"] = ("is", list(st.from_hand[p]))
                want["player", p, "round"] = ("is", st.round[p])
                want["player", p, "fixed_meld"] = ("bags", self.melds[p])
                want["player", p, "meld_public_tiles"] = ("bag", self.public[p])
                want["player", p, "bonus_tiles"] = ("bag", self.bonus[p])
                want["player", p, "score"] = ("is", st.score[p])
                want["player", p, "in_richii"] = ("is", st.riichi[p])
        return want

    @staticmethod
    def using(g):
        c = Counter()
        for i in model.all_ids(g.players):
            c[ref.id_name(i) if g.aka else ref.kind_name(i // 4)] += 1
        return c


def agrees(how, got, want):
    if how == "is":
        return got == want and isinstance(got, bool) == isinstance(want, bool) and (not isinstance(want, int) or isinstance(got, int))
    if how == "num":
        return float(got) == want
    if how == "bag":
        return Counter(got) == want
    return [Counter(x) for x in got] == want


EVENTS = {"GO": {"record_init"}, "SHUFFLE": {"record_init"}, "UN": {"record_init", "connect_change"}, "TAIKYOKU": {"game_init"},
          "INIT": {"game_init", "new_dora"}, "N": {"open_hand"}, "DORA": {"new_dora"}, "REACH": {"richii"},
          "AGARI": {"game_finish", "record_finish"}, "RYUUKYOKU": {"game_finish", "record_finish"}, "BYE": {"connect_change"}}


def event_types(tag):
    te = model.tile_event(tag)
    if te:
        return {te[0]}
    return EVENTS[tag]
