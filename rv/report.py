"""What a report must say, worked out from the log alone, and what a report does say, read from the
analysis objects or from the HTML."""
import re

from rv import model, ref


class Choice:
    """One analysed discard, in kinds."""
    __slots__ = ("kind", "step", "useful", "count", "face")

    def __init__(self, kind, step, useful, count, face=None):
        self.kind, self.step, self.useful, self.count, self.face = kind, step, frozenset(useful), count, face

    def tup(self):
        return self.kind, self.step, tuple(sorted(self.useful)), self.count

    def __repr__(self):
        return "%s step %d count %d useful %s" % (ref.kind_name(self.kind), self.step, self.count,
                                                  " ".join(map(ref.kind_name, sorted(self.useful))))


class Row:
    """Truth about one discard of the player."""

    def __init__(self, st, p, tile, riichi, event):
        self.event = event
        self.hand = sorted(st.hand[p])
        self.melds = [sorted(m.own | m.called) for m in st.melds[p]]
        self.tile = tile
        self.riichi = riichi
        self.unseen = model.all_ids(st.n) - st.visible - st.hand[p]
        k = sum(1 for m in st.melds[p] if m.kind != "kita")
        self.forms = [("normal", 4 - k, 1)] + ([("pairs", 7)] if k == 0 else [])
        counts = ref.counts_of(i // 4 for i in self.hand)
        self.complete = [ref.step(f, counts) == -1 for f in self.forms]
        self.by_form, self.best_form_step = [], []
        for f in self.forms:
            d = ref.discards(f, counts)
            self.by_form.append({kd: Choice(kd, s, u, self.left(u)) for kd, (s, u) in d.items()})
            self.best_form_step.append(min(s for s, _ in d.values()))
        self.merged = {}
        for kd in self.by_form[0]:
            opts = [d[kd] for d in self.by_form]
            s = min(o.step for o in opts)
            u = frozenset().union(*[o.useful for o in opts if o.step == s])
            self.merged[kd] = Choice(kd, s, u, self.left(u))
        self.best = min((c.step, -c.count) for c in self.merged.values())
        self.recommended = {kd for kd, c in self.merged.items() if (c.step, -c.count) == self.best}
        self.yours = self.merged[tile // 4]

    def left(self, useful):
        return sum(1 for i in self.unseen if i // 4 in useful)

    def wrong_rate(self):
        """0 for a recommended choice; otherwise the fraction of drawing chances given up."""
        if self.tile // 4 in self.recommended:
            return 0.0
        base = -self.best[1] * len(self.unseen) ** (self.yours.step - self.best[0])
        if base == 0:
            return 0.0
        return 1 - self.yours.count / base


def rows(root, p):
    """[[Row, ...] per hand] for the discards of player p."""
    out = []
    prev = None
    for i, (e, st) in enumerate(model.states(root)):
        if e.tag == "INIT":
            out.append([])
            riichi = False
        elif e.tag == "REACH":
            riichi = True
        te = model.tile_event(e.tag)
        if te and te[0] == "discard" and te[1] == p:
            out[-1].append(Row(prev, p, te[2], riichi, i))
        prev = st
    return out


class Seen:
    """One row of a report as it came out."""
    __slots__ = ("hand", "melds", "yours", "your_step", "your_count", "expected", "exp_step", "exp_count", "merged",
                 "normal", "pairs", "rate", "riichi", "your_useful", "number")


def item_api(it):
    (face,) = it.discard_tile
    return Choice(ref.name_kind(face), it.waiting_step, [ref.name_kind(x) for x in it.useful_tiles], it.useful_tiles_count, face)


def from_api(rounds):
    out = []
    for n, r in enumerate(rounds):
        s = Seen()
        s.number = n + 1
        s.hand, s.melds = list(r.hand), [list(m) for m in r.melds]
        y = item_api(r.your_choice_reasoning)
        s.yours, s.your_step, s.your_count, s.your_useful = y.face, y.step, y.count, y.useful
        ex = [item_api(x) for x in r.expected_reasonings]
        s.expected = [x.kind for x in ex]
        s.exp_step, s.exp_count = ex[0].step, ex[0].count
        s.merged = [item_api(x) for x in r.merged_reasoning]
        s.normal = [item_api(x) for x in r.normal_reasonings]
        pairs = getattr(r, "seven_pair_reasonings", None)
        s.pairs = None if pairs is None else [item_api(x) for x in pairs]
        s.rate, s.riichi = r.wrong_rate, bool(r.somebody_richii)
        out.append(s)
    return out


STYLE = re.compile(r"background-color:\s*rgba\(\s*(\d+),\s*(\d+),\s*(\d+),\s*([-+0-9.eE]+|nan|inf)\s*\)")
STEPS = re.compile(r"Steps\s+(-?\d+)\s+Tiles\s+(-?\d+)")


def pics(node):
    out = []
    for d in node.find_all("div"):
        for c in d.get("class") or []:
            if c.startswith("pic"):
                out.append(c[3:])
    return out


def html_items(node):
    out = []
    for d in node.find_all("div", class_="reasoning-tile", recursive=False):
        first, second = d.find_all("div", recursive=False)[:2]
        (face,) = pics(first)
        st, n = map(int, STEPS.search(first.get_text()).groups())
        out.append(Choice(ref.name_kind(face), st, [ref.name_kind(x) for x in pics(second)], n, face))
    return out


def from_html(html):
    """[(caption, [Seen])] per hand."""
    from bs4 import BeautifulSoup
    cut = html.index("</style>")
    soup = BeautifulSoup(html[:html.index("<style")] + html[cut + 8:], "html.parser")
    out = []
    for det in soup.find_all("details", open=True):
        caption = det.find("span", class_="game-caption").get_text()
        body = []
        for tr in det.find("table").find_all("tr", recursive=False)[1:]:
            s = Seen()
            tds = tr.find_all("td", recursive=False)
            s.number = int(tds[0].get_text())
            m = STYLE.search(tr["style"])
            rgb, s.rate = tuple(map(int, m.group(1, 2, 3))), float(m.group(4))
            s.riichi = {(0, 0, 255): True, (255, 0, 0): False}[rgb]
            groups, cur = [], []
            for ch in tds[1].children:
                if isinstance(ch, str):
                    if "\xa0" in ch:
                        groups.append(cur)
                        cur = []
                else:
                    cur += [c[3:] for c in ch.get("class") or [] if c.startswith("pic")]
            s.melds, s.hand = groups, cur
            (s.yours,) = pics(tds[2])
            s.expected = [ref.name_kind(x) for x in pics(tds[3])]
            top = tds[4].find("details")
            nums = [tuple(map(int, STEPS.search(x.get_text()).groups())) for x in top.find("summary").find_all("tr")]
            (s.exp_step, s.exp_count), (s.your_step, s.your_count) = nums
            s.your_useful = None
            s.merged = html_items(top)
            inner = top.find_all("details", recursive=False)
            s.normal, s.pairs = [html_items(x) for x in inner]
            s.pairs = s.pairs or None
            body.append(s)
        out.append((caption, body))
    return out
