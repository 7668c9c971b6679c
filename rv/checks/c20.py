"""Report files: complete, named per player, nothing in them can be mistaken for markup."""
import contextlib
import os
import re
import sys
import tempfile

from rv import lib, model, ref, report, sim
from rv.core import REPO
from mahjong import tenhou_record_check
from mahjong.record.checker import TenhouChecker

ID = "C20"
RULE = ("the report tool run on short generated games with ordinary and hostile player names (markup, quotes, path separators, "
        "dots), every way of choosing players and several spellings of the link, in a scratch directory (sometimes holding files named like the library's own) with the network "
        "replaced, installed and as the pre-built program; what it writes, where, under which names, and what a browser would read in it are compared with the log; "
        "distinct = (log, choice)")
FLOORS = {"runs": 12, "files": 30, "one_player": 3, "all_players": 3, "odd_names": 8, "separator_names": 3, "clean_names": 8, "again": 5, "prebuilt": 3, "decoys": 3, "odd_links": 8}
ODD = ["<b>x", '<script>a', 'q"uote', "it's", "&amp;", "a&b", "a/b", "../x", "a\\b", "{{ 1 }}", "{% x %}", "x:y", "*?", "..", "%41", "</p>",
       "a b", "<!--", "x|y", "-->", "/etc", "ｎ♪"]
TAGS = {"html", "head", "meta", "title", "body", "div", "hr", "p", "a", "span", "br", "details", "summary", "table", "tr", "th",
        "td", "style"}
CLEAN = re.compile(r"[^\\/:*?\"<>|\x00-\x1f%{}.]*\Z")


def plan(tier):
    return [("tool", 24 if tier == "quick" else 260), ("api", 16 if tier == "quick" else 160)]


def flat(s):
    return " ".join(s.split())


def links(rng, log_id):
    base = "tenhou.net/0/?"
    extra = rng.choice(["", "&tw=%d" % rng.randrange(4), "&ts=0"])
    if rng.random() < .4:
        extra += "&x=" + rng.choice(['"><b>x</b>', "'><script>", "<!--", "&amp;", "&lt;", '" onclick="x', "{{ 1 }}", "%22", "a+b", "ｎ♪", "&copy=1"])
    pre = rng.choice(["", "tw=1&", ""])
    return rng.choice(["http://", "https://", "http://"]) + base + pre + "log=" + log_id + extra


def log_id(rng):
    return "%04d%02d%02d%02dgm-%04x-%04d-%08x" % (rng.randrange(2009, 2022), rng.randrange(1, 13), rng.randrange(1, 29),
                                                 rng.randrange(24), rng.choice([0x89, 0xa9, 0xe1, 0xb9]), rng.choice([0, 0, 7994]),
                                                 rng.randrange(1 << 32))


def expect_html(mon, html, root, p, names, link, record_text):
    """Everything but the analysis itself (C18, C19)."""
    from bs4 import BeautifulSoup
    mon.check(html.lstrip().startswith("<!DOCTYPE html>") and html.rstrip().endswith("</html>"), "a report is incomplete")
    cut = html.index("</style>")
    style = html[:cut]
    soup = BeautifulSoup(html[:html.index("<style")] + html[cut + 8:], "html.parser")
    tags = {t.name for t in soup.find_all(True)}
    mon.check(tags <= TAGS, "a name turned into markup", tags=sorted(tags - TAGS))
    from bs4 import Comment
    comments = soup.find_all(string=lambda t: isinstance(t, Comment))
    mon.check(not comments, "a name turned into a comment", comments=list(map(str, comments)))
    un = next(e for e in root if e.tag == "UN").attrib
    rank = ref.RANKS[int(un["dan"].split(",")[p])]
    rate = float(un["rate"].split(",")[p])
    paras = [flat(x.get_text()) for x in soup.find_all("p")]
    want = flat("Player: %s %s R%.2f" % (names[p], rank, rate))
    mon.check(paras[0] == want, "the report names another player", got=paras[0], expected=want)
    mon.check(flat(paras[1]).startswith(flat(record_text)), "the report describes another record", got=paras[1], expected=record_text)
    a = soup.find_all("a")
    mon.check(len(a) == 1, "the report has %d links" % len(a))
    if link is not None:
        mon.eq(a[0]["href"], link, "the report links to another log")
        mon.check(set(a[0].attrs) == {"href"} and a[0].get_text() == "Link", "the link turned into markup", got=str(a[0])[:300])
        if "&x=" in link:
            mon.ev("odd_links")
    games = report.from_html(html)
    truth = report_counts(root, p)
    mon.eq([len(rows) for _, rows in games], truth, "the report has a wrong number of hands or rows")
    pics = set(re.findall(r'class="pic(\w+) ', html))
    rules = dict(re.findall(r'\.pic(\w+)\s*\{\s*background-image:\s*url\("data:image/png;base64,([^"]*)"\)', style))
    mon.check(pics <= set(rules), "a tile in the report has no picture", tiles=sorted(pics - set(rules)))
    all_faces = {"%d%s" % (n, c) for c in "mps" for n in range(10)} | {"%dz" % n for n in range(1, 8)}
    mon.eq(set(rules), all_faces, "the pictures of a report are not all the tiles")
    check_pictures(mon, rules)
    return [flat(c) for c, _ in games]


PNG = {}


def check_pictures(mon, rules):
    import base64
    for face, data in rules.items():
        if PNG.get(face) == data:
            continue
        raw = base64.b64decode(data, validate=True)
        mon.check(raw[:8] == b"\x89PNG\r\n\x1a\n", "a picture in the report is not a PNG image", tile=face)
        PNG[face] = data
    mon.check(len(set(rules.values())) == len(rules), "two tiles have the same picture")


@contextlib.contextmanager
def frozen(on):
    """As the pre-built binary runs: the resources lie unpacked in a folder, as pyinstaller_build.py puts them there."""
    if not on:
        yield
        return
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, "mahjong"))
        os.symlink(os.path.join(REPO, "mahjong", "templates"), os.path.join(d, "mahjong", "templates"))
        sys.frozen, sys._MEIPASS = True, d
        try:
            yield
        finally:
            del sys.frozen, sys._MEIPASS


def report_counts(root, p):
    out = []
    for e in root:
        if e.tag == "INIT":
            out.append(0)
        te = model.tile_event(e.tag)
        if te and te[0] == "discard" and te[1] == p:
            out[-1] += 1
    return out


def files_in(d):
    return sorted(set(os.listdir(d)) - lib.DECOYS)


def case(kind, index, rng, mon):
    n = rng.choice([3, 4])
    odd = rng.random() < .6
    names = rng.sample(ODD, n) if odd else rng.sample(sim.NAME_POOL, n)
    if rng.random() < .2:
        names[1] = names[0]
    s = sim.make(rng, players=n, games=rng.choice([1, 1, 2]), max_turns=rng.choice([4, 8, 12]), names=names, p_net=0.0)
    root = s.root
    text = lib.xml_text(root)
    lid = log_id(rng)
    link = links(rng, lid)
    api = "http://e.mjv.jp/0/log/?" + lid
    rec = lib.record_of(lib.clone(root))
    captions = [flat(str(g)) for g in rec.game_list]
    mon.ctx(names=names, link=link)
    with lib.scratch(rng) as d, lib.Net({api: text}) as net:
        os.mkdir("in")
        os.mkdir("in/work")
        if rng.random() < .3:
            # somebody else's files, named like the library's, and around the working directory
            lib.decoys(rng, rng.choice(["in", "in/work", "in/work"]))
            mon.ev("decoys")
        os.chdir("in/work")
        work = os.getcwd()
        if kind == "api":
            p = rng.randrange(n)
            html = TenhouChecker().parse(link, p)
            got = expect_html(mon, html, root, p, names, link, str(rec))
            mon.eq(got, captions, "the hands of a report are captioned wrongly")
            with frozen(rng.random() < .4):
                mon.check(TenhouChecker().parse(link, p) == html, "the pre-built program makes another report")
            html2 = TenhouChecker().parse(lib.record_of(root), p)
            expect_html(mon, html2, root, p, names, None, str(rec))
            name, html3 = TenhouChecker().parse(link, p, generate_filename=True)
            mon.check(html3 == html, "the same report differs when a file name is asked for")
            mon.check(os.path.basename(name) == name and name.endswith("_%d.html" % p), "a report file name is not a plain name", got=name)
            mon.check(files_in(work) == [], "making a report wrote files", files=files_in(work))
            mon.ev("api")
            mon.ev("files", 2)
        else:
            typed = rng.choice([str(i + 1) for i in range(n)] * 2 + ["", "0", str(n + 1), "all", "-1", "99", "²", "1.0", "一"])
            chosen = [int(typed) - 1] if typed.isdecimal() and 1 <= int(typed) <= n else list(range(n))
            mon.ctx(typed=typed)
            if rng.random() < .5:
                # reports made before, perhaps of another player, are there already
                with lib.stdio("%s\n%s\n" % (link, rng.choice([typed, typed, "1"]))):
                    tenhou_record_check.main()
                known = {f: 0 for f in files_in(work)}
                for f in rng.sample(sorted(known), len(known)):
                    if not any(f.endswith("_%d.html" % p) for p in chosen):
                        os.remove(f)
                    elif rng.random() < .5:
                        with open(f, "a", encoding="utf-8") as out:
                            out.write("<p>older and longer</p>" * 40)
                mon.ev("again")
            prebuilt = rng.random() < .3
            with frozen(prebuilt), lib.stdio("%s\n%s\n" % (rng.choice(["", " "]) + link, typed)) as out:
                tenhou_record_check.main()
            if prebuilt:
                mon.ev("prebuilt")
            printed = out.getvalue()
            for i in range(n):
                mon.check("[%d]: %s" % (i + 1, names[i]) in printed, "a player is not offered", player=names[i], printed=printed[:600])
            files = files_in(work)
            mon.eq(len(files), len(chosen), "a wrong number of reports was written", files=files)
            mon.check(sorted(os.listdir(d)) == ["in"] and files_in(os.path.join(d, "in")) == ["work"],
                      "a report was written outside the working directory")
            for p in chosen:
                mine = [f for f in files if f.endswith("_%d.html" % p) and f.startswith("tenhou_record_%s_" % lid)]
                mon.check(len(mine) == 1 and os.path.isfile(mine[0]), "the report of a player has no file of its own", player=p, files=files)
                if CLEAN.match(names[p]):
                    mon.eq(mine[0], "tenhou_record_%s_%s_%d.html" % (lid, names[p], p), "a report is not named after its player")
                    mon.ev("clean_names")
                if "/" in names[p]:
                    mon.ev("separator_names")
                with open(mine[0], encoding="utf-8") as f:
                    html = f.read()
                got = expect_html(mon, html, root, p, names, link, str(rec))
                mon.eq(got, captions, "the hands of a report are captioned wrongly")
                mon.check(mine[0] in printed, "the user is not told where the report is", file=mine[0], printed=printed[-600:])
                mon.ev("files")
            mon.ev("one_player" if len(chosen) == 1 else "all_players")
            mon.distinct((text, typed))
        mon.check([r["url"] for r in net.seen] == [api] * len(net.seen) and net.seen, "another address was fetched",
                  got=[r["url"] for r in net.seen], expected=api)
        if odd:
            mon.ev("odd_names")
        mon.ev("runs")
        mon.sample({"names": names, "link": link})
