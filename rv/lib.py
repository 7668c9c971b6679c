"""Shared workload pieces: hand generators, conversions to the library's values, logs."""
import contextlib
import glob
import io
import os
import sys
import tempfile
import xml.etree.ElementTree as ET

from rv import ref
from rv.core import REPO


# ---------------------------------------------------------------- hands (lists of kinds 0..33)

def wall_kinds():
    return [k for k in range(34) for _ in range(4)]


def random_unit(rng, counts, suit_bias=None):
    """A meld that still fits under four copies, or None."""
    for _ in range(20):
        if rng.random() < 0.55:
            s = suit_bias if suit_bias is not None and rng.random() < .8 else rng.randrange(3)
            k = 9 * s + rng.randrange(7)
            u = [k, k + 1, k + 2]
        else:
            k = rng.randrange(34) if suit_bias is None or rng.random() < .2 else 9 * suit_bias + rng.randrange(9)
            u = [k] * 3
        if all(counts[x] + u.count(x) <= 4 for x in u):
            return u
    return None


def complete_hand(rng, melds, suit=None):
    while True:
        counts = [0] * 34
        out = []
        for _ in range(melds):
            u = random_unit(rng, counts, suit)
            if u is None:
                break
            for x in u:
                counts[x] += 1
            out += u
        else:
            for _ in range(30):
                k = rng.randrange(34) if suit is None or rng.random() < .2 else 9 * suit + rng.randrange(9)
                if counts[k] <= 2:
                    return out + [k, k]


def seven_pairs_hand(rng, quads=0):
    kinds = rng.sample(range(34), 7 - quads)
    out = [k for k in kinds for _ in range(2)]
    for k in rng.sample(kinds, quads):
        out += [k, k]
    return out


def hand(rng, melds, size, style=None):
    """`size` kinds, at most four of each, in one of many styles."""
    style = style or rng.choice(STYLES)
    if style == "uniform":
        w = wall_kinds()
        return rng.sample(w, size), style
    if style == "suit":
        s = rng.randrange(3)
        w = [9 * s + i for i in range(9) for _ in range(4)]
        if rng.random() < .4:
            w += [27 + i for i in range(7) for _ in range(rng.choice([1, 3]))]
        return rng.sample(w, min(size, len(w))), style
    if style == "quads":
        w = []
        kinds = rng.sample(range(34), rng.randrange(4, 9))
        if rng.random() < .5:
            a = rng.randrange(3) * 9 + rng.randrange(0, 4)
            kinds = [a + i for i in range(6)]
        for k in kinds:
            w += [k] * 4
        return rng.sample(w, min(size, len(w))), style
    if style == "pairs":
        kinds = rng.sample(range(34), 10)
        w = [k for k in kinds for _ in range(rng.choice([2, 2, 2, 3, 4]))]
        w += [k for k in range(34) if k not in kinds]
        h = w[:size]
        if rng.random() < .5:
            h = h[:size - 2] + rng.sample(w[size:], 2) if len(w) >= size + 2 else h
        return h, style
    if style == "scattered":
        w = [k for k in range(34) if k % 9 % 3 == rng.randrange(3) or k >= 27]
        w = w + rng.sample([x for x in wall_kinds() if x not in w], 10)
        return rng.sample(w, min(size, len(w))), style
    # near: a complete hand with a few tiles exchanged
    suit = rng.randrange(3) if rng.random() < .3 else None
    h = complete_hand(rng, melds, suit)
    counts = ref.counts_of(h)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        i = rng.randrange(len(h))
        k = rng.randrange(34)
        if counts[k] < 4:
            counts[h[i]] -= 1
            counts[k] += 1
            h[i] = k
    while len(h) > size:
        h.pop(rng.randrange(len(h)))
    while len(h) < size:
        k = rng.randrange(34)
        if h.count(k) < 4:
            h.append(k)
    return h, style


STYLES = ["uniform", "suit", "suit", "quads", "pairs", "near", "near", "near", "scattered"]


def notation(rng, kinds, aka=True):
    """The hand in notation, groups and digits in any order, some fives shown red."""
    by = {}
    for k in kinds:
        by.setdefault(k // 9, []).append(k % 9 + 1)
    colors = list(by)
    rng.shuffle(colors)
    out = ""
    for c in colors:
        ds = by[c]
        rng.shuffle(ds)
        if aka and c < 3 and 5 in ds and rng.random() < .5:
            ds[ds.index(5)] = 0
        cut = rng.randrange(len(ds)) if rng.random() < .2 else 0
        for part in (ds[:cut], ds[cut:]):
            if part:
                out += "".join(map(str, part)) + "mpsz"[c]
    return out


def any_form(rng):
    """A win form of any shape."""
    if rng.random() < .25:
        return ("pairs", rng.randrange(1, 9))
    m = rng.randrange(5)
    return ("normal", m, rng.choice([0, 1, 2, 2, 3] if m else [1, 2, 3]))


def form_size(form):
    return form[1] * 3 + form[2] * 2 if form[0] == "normal" else 2 * form[1]


def form_hand(rng, form, small=0):
    """A hand near in size to the form: up to `small` tiles fewer than one short, up to four more."""
    need = form_size(form)
    size = max(0, need + rng.choice([0, 0, -1, -1, -1, 1, 2, 4, -1 - rng.randrange(small + 1)]))
    if rng.random() < .5 and form[0] == "normal":
        h = complete_hand(rng, form[1], rng.randrange(3) if rng.random() < .5 else None)[:-2]
        for _ in range(form[2]):
            h += [rng.randrange(34)] * 2
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if h:
                h[rng.randrange(len(h))] = rng.randrange(34)
        h = [k for i, k in enumerate(h) if h[:i].count(k) < 4]
    else:
        h = hand(rng, 4, min(size, 14))[0]
    rng.shuffle(h)
    h = h[:size]
    near = rng.random() < .5
    while len(h) < size:
        k = min(33, max(0, rng.choice(h) + rng.randrange(-2, 3))) if near and h else rng.randrange(34)
        if h.count(k) < 4:
            h.append(k)
        elif near:
            near = rng.random() < .9
    return h


def tiny_hand(rng):
    """A short form and a few tiles close together, of which whole units are missing."""
    form = rng.choice([("normal", 2, 0), ("normal", 1, 1), ("normal", 2, 0), ("normal", 2, 1), ("normal", 1, 2), ("pairs", 2), ("pairs", 3)])
    at, wide = rng.randrange(34), rng.choice([1, 1, 2, 3])
    pool = [k for k in range(at, min(34, at + wide)) for _ in range(4)]
    return form, rng.sample(pool, min(len(pool), rng.randrange(form_size(form) + 1)))


def relative(rng, h):
    """Another hand much like `h`: the same kinds, numbers, suits or size, whatever a careless memory may take for the same."""
    h = list(h)
    counts = ref.counts_of(h)
    how = rng.choice(["counts", "counts", "shuffle", "suits", "mirror", "shift", "one", "more", "less", "kinds"])
    if how == "counts":
        # the same kinds in other numbers
        ks = sorted(set(h))
        new = list(ks)
        while len(new) < len(h):
            new.append(rng.choice([k for k in ks if new.count(k) < 4]))
        return new
    if how == "shuffle":
        # the same numbers over the same kinds, dealt another way
        ks, ns = sorted(set(h)), [counts[k] for k in sorted(set(h))]
        rng.shuffle(ns)
        return [k for k, n in zip(ks, ns) for _ in range(n)]
    if how == "kinds":
        ks = dict(zip(sorted(set(h)), rng.sample(range(34), len(set(h)))))
        return [ks[k] for k in h]
    if how == "suits":
        p = rng.sample(range(3), 3)
        return [k if k >= 27 else p[k // 9] * 9 + k % 9 for k in h]
    if how == "mirror":
        return [k if k >= 27 else k // 9 * 9 + 8 - k % 9 for k in h]
    if how == "shift":
        p = rng.randrange(1, 9)
        return [k if k >= 27 else k // 9 * 9 + (k + p) % 9 for k in h]
    free = [k for k in range(34) if counts[k] < 4]
    if how == "one" and h:
        h[rng.randrange(len(h))] = rng.choice(free)
    elif how == "more":
        h.append(rng.choice(free))
    elif h:
        h.pop(rng.randrange(len(h)))
    return h


def given(rng, kinds):
    """The tiles as a set, made in one of the ways a user makes one."""
    kinds = list(kinds)
    rng.shuffle(kinds)
    r = rng.random()
    if kinds and r < .4:
        return parse(notation(rng, kinds))
    if kinds and r < .6:
        return played(rng, kinds)
    return tileset(kinds)


def played(rng, kinds):
    """The tiles as a set that was another hand before: looked at, then changed in place, tile by tile."""
    from mahjong.container.set import TileSet
    other = list(kinds)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice([k for k in range(34) if other.count(k) < 4] or [other.pop()])
        r = rng.random()
        if other and r < .6:
            other[rng.randrange(len(other))] = k
        elif other and r < .8:
            other.pop(rng.randrange(len(other)))
        else:
            other.append(k)
    ts = parse(notation(rng, other)) if rng.random() < .5 else tileset(other)
    for look in rng.sample([lambda: str(ts), lambda: len(ts), lambda: pattern(("normal", 4, 1)).match(ts), lambda: pattern(("pairs", 7)).match(ts),
                            lambda: list(pattern(("normal", 1, 1)).win_selections(ts)), lambda: ts < tileset(kinds), lambda: ts + ts,
                            lambda: ts - ts, ts.re_sort], rng.randrange(1, 4)):
        look()
    want, have = ref.counts_of(kinds), set_counts(ts)
    steps = [(k, 1 if want[k] > have[k] else -1) for k in range(34) for _ in range(abs(want[k] - have[k]))]
    rng.shuffle(steps)
    for k, d in steps:
        faces = [t for t in ts if tile_kind(t) == k]
        if d > 0:
            if rng.random() < .5:
                ts[rng.choice(faces or [tile(k)])] += 1
            else:
                ts.update([tile(k)])
        else:
            t = rng.choice(faces)
            if ts[t] == 1:
                del ts[t]
            elif rng.random() < .5:
                ts[t] -= 1
            else:
                ts -= TileSet([t])
    return ts


# ---------------------------------------------------------------- library values

def tile(k):
    from mahjong.tile.definition import Tile
    return Tile(k % 9 + 1, "mpsz"[k // 9])


def tile_kind(t):
    """Kind of a library tile from its public face."""
    n = t.number
    return "mpsz".index(t.color) * 9 + (5 if n == 0 else n) - 1


def tileset(kinds):
    from mahjong.container.set import TileSet
    return TileSet(tile(k) for k in kinds)


def parse(text):
    from mahjong.container.utils import tile_set_from_string
    return tile_set_from_string(text)


def set_counts(ts):
    c = [0] * 34
    for t, n in ts.items():
        c[tile_kind(t)] += n
    return c


def kinds_of(tiles):
    return sorted(tile_kind(t) for t in tiles)


def names(kinds):
    return " ".join(ref.kind_name(k) for k in sorted(kinds))


def pattern(form):
    from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
    if form[0] == "normal":
        return NormalTypeWin(pairs=form[2], melds=form[1])
    return UniquePairs(form[1])


# ---------------------------------------------------------------- logs

def real_logs():
    return sorted(glob.glob(os.path.join(REPO, "tests", "*gm-*.xml")))


def record_of(root):
    from mahjong.record.reader import TenhouRecord
    return TenhouRecord(root)


def xml_text(root):
    return ET.tostring(root, encoding="unicode")


def clone(root):
    return ET.fromstring(xml_text(root))


@contextlib.contextmanager
def scratch(rng=None):
    """A scratch directory as working directory; everything in it is removed. Given `rng`, files opened without naming an
    encoding are in one of those that Western, Japanese and Chinese systems use."""
    import _bootlocale
    import shutil
    default = _bootlocale.getpreferredencoding
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="rv-scratch-")
    enc = rng.choice([None, None, "cp1252", "cp932", "gbk", "ascii"]) if rng is not None else None
    try:
        if enc:
            _bootlocale.getpreferredencoding = lambda *a, **kw: enc
        os.chdir(d)
        yield d
    finally:
        _bootlocale.getpreferredencoding = default
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


DECOYS = {"mahjong", "templates", "record_checker_template.html"}


def decoys(rng, where="."):
    """Files with the names of the library's own resources, which are none of its business."""
    for sub in ("mahjong/templates", "templates", "."):
        os.makedirs(os.path.join(where, sub, "mjpic"), exist_ok=True) if sub != "." else None
        with open(os.path.join(where, sub, "record_checker_template.html"), "w") as f:
            f.write("somebody else's {{ player }}")
        if sub != ".":
            for face in ("1m", "0p", "7z"):
                with open(os.path.join(where, sub, "mjpic", face + ".png"), "wb") as f:
                    f.write(b"somebody else's")


@contextlib.contextmanager
def stdio(text):
    """Feeds `text` to input() and yields what is printed."""
    out = io.StringIO()
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = io.StringIO(text), out
    try:
        yield out
    finally:
        sys.stdin, sys.stdout = old


class Net:
    """Stands in for the network at the transport of `requests`; records every request."""

    def __init__(self, pages=None, fail=None):
        self.pages, self.fail, self.seen = pages or {}, fail, []

    def __enter__(self):
        import requests
        from requests.adapters import HTTPAdapter
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            net.seen.append({"url": request.url, "timeout": timeout, "headers": dict(request.headers),
                             "method": request.method})
            if net.fail is not None:
                raise net.fail
            body = net.pages.get(request.url)
            r = requests.Response()
            r.request, r.url = request, request.url
            r.status_code = 200 if body is not None else 404
            r.encoding = "utf-8"
            r.raw = io.BytesIO((body or "not found").encode("utf-8"))
            return r

        self.cls, self.old = HTTPAdapter, HTTPAdapter.send
        HTTPAdapter.send = send
        return self

    def __exit__(self, *exc):
        self.cls.send = self.old


def any_log(rng, real=0.1, **kw):
    """(root element, simulator or None): a generated log, now and then a recorded one."""
    from rv import sim
    if rng.random() < real:
        return ET.parse(rng.choice(real_logs())).getroot(), None
    s = sim.make(rng, **kw)
    return s.root, s


def busy(rng):
    """Options of a log with long hands and many calls."""
    more = dict(p_call=.95, p_fourth=.95, alike=.9, sets=(3, 5), players=rng.choice([3, 4]), p_tsumogiri=.8) if rng.random() < .4 else {}
    return dict(dict(p_call=rng.choice([.3, .6, .8]), p_kan=1.0, rig=True, p_ron=.002, p_tsumo=.002, p_abort=0.0,
                     p_riichi=rng.choice([.01, .03])), **more)


def log_events(mon, root):
    """Counts what a log contains."""
    for e in root:
        t = e.tag
        if t == "N":
            mon.ev("call_" + ref.decode_meld(int(e.attrib["m"])).kind)
        elif t == "RYUUKYOKU":
            mon.ev("draw_" + e.attrib.get("type", "exhausted"))
        elif t == "REACH":
            mon.ev("reach_" + e.attrib["step"])
        elif t in ("AGARI", "BYE", "UN", "DORA", "INIT"):
            mon.ev(t.lower())
        else:
            mon.ev("turn_event" if t[1:].isdigit() else "other_event")


def log_sig(root):
    return xml_text(root)
