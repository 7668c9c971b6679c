"""Links and the fetching of records."""
import xml.etree.ElementTree as ET
from urllib.parse import quote, urlencode

import requests

from rv import lib
from rv.checks import c20, c21
from mahjong.record import reader
from mahjong.record.checker import TenhouChecker
from mahjong.record import tenhou_download_url, tenhou_from_file, tenhou_from_url, tenhou_log_id_from_url, tenhou_log_id_to_url

ID = "C30"
RULE = ("links in many spellings (scheme, parameter order, viewing seat, escapes, fragments) and generated log ids; with the network "
        "replaced by a recorder at the transport, every fetch must be one GET of the log the link names, within the time asked for, "
        "and the record read must be that of the file; refusals, time-outs and garbage must surface as errors and leave later "
        "fetches right; distinct = (link, log)")
FLOORS = {"links": 2000, "fetches": 60, "failures": 60, "garbage": 20, "after_failure": 60, "timeouts_checked": 60, "reports": 10, "no_log": 100}


def plan(tier):
    q = tier == "quick"
    return [("links", 16 if q else 200), ("fetch", 64 if q else 700)]


def spelled(rng, lid):
    host = rng.choice(["tenhou.net/0/", "tenhou.net/0/", "tenhou.net/3/", "e.mjv.jp/0/", "tenhou.net:80/0/", "192.0.2.1/0/x"])
    params = [("log", lid)]
    for k in ("tw", "ts", "wg", "logs", "xlog"):
        if rng.random() < .3:
            params.insert(rng.randrange(len(params) + 1), (k, str(rng.randrange(10))))
    q = urlencode(params)
    if rng.random() < .3:
        q = q.replace("-", "%2D", rng.randrange(3))
    if rng.random() < .2:
        q += "&"
    return rng.choice(["http://", "https://", "http://", "HTTP://", "//", ""]) + host + "?" + q + rng.choice(["", "", "", "#top", "#log=1"])


def case(kind, index, rng, mon):
    if kind == "links":
        for _ in range(150):
            lid = c20.log_id(rng) if rng.random() < .8 else "".join(rng.choice("abcdef0123456789-_.~") for _ in range(rng.randrange(1, 40)))
            link = spelled(rng, lid)
            mon.eq(tenhou_log_id_from_url(link), lid, "a link names another log", link=link)
            mon.eq(tenhou_log_id_from_url(tenhou_log_id_to_url(lid)), lid, "the link made from a log names another", log=lid)
            mon.eq(tenhou_log_id_to_url(lid), "http://tenhou.net/0/?log=" + lid, "the link made from a log is wrong", log=lid)
            mon.eq(tenhou_download_url(link), "http://e.mjv.jp/0/log/?" + lid, "the download address of a link is wrong", link=link)
            mon.ev("links")
            mon.distinct((link,))
        for _ in range(10):
            link = rng.choice(["http://tenhou.net/0/", "http://tenhou.net/0/?tw=1", "http://tenhou.net/0/?LOG=1", "", "x", "http://a/?logs=2",
                               "http://tenhou.net/0/log/2019", "#log=1",
                               "http://tenhou.net/0/?log=", "http://tenhou.net/0/?log=&tw=2", "http://tenhou.net/0/?log", "http://tenhou.net/0/?tw=0&log=#x", "http://tenhou.net/0/?l%6Fg="])
            try:
                got = tenhou_log_id_from_url(link)
            except Exception:
                mon.ev("no_log")
            else:
                mon.check(False, "a link without a log names one", link=link, got=got)
        return
    root = c21.make(rng, games=1, max_turns=8).root
    text = lib.xml_text(root)
    lid = c20.log_id(rng)
    link = spelled(rng, lid)
    addr = "http://e.mjv.jp/0/log/?" + lid
    mon.ctx(link=link)
    other = lib.xml_text(c21.make(rng, games=1, max_turns=4).root)
    pages = {addr: text, "http://e.mjv.jp/0/log/?" + c20.log_id(rng): other}

    def fetch_ok():
        asked = rng.choice([None, 1, 3, 10, 0.5])
        with lib.Net(pages) as net:
            how = rng.choice([0, 1, 2, 3])
            if how == 3:
                rec = None
                page = TenhouChecker().parse(link, rng.randrange(3), **({} if asked is None else {"timeout": asked}))
                mon.check(isinstance(page, str) and "</html>" in page, "a report made from a link is none", got=repr(page)[:100])
                mon.ev("reports")
            elif how == 0:
                got = reader.fetch_record_content(link, **({} if asked is None else {"timeout": asked}))
                mon.check(got == text, "what was fetched is not the log", got=got[:200])
            else:
                rec = tenhou_from_url(link, **({} if asked is None else {"timeout": asked}))
        mon.eq([(s["method"], s["url"]) for s in net.seen], [("GET", addr)], "a fetch is not one request for the log the link names")
        t = net.seen[0]["timeout"]
        ts = t if isinstance(t, tuple) else (t,)
        mon.check(all(x is not None and 0 < x <= (asked or 60) for x in ts), "a fetch may wait longer than asked", got=t, asked=asked)
        if asked is not None:
            mon.check(all(x == asked for x in ts), "a fetch does not use the time asked for", got=t, asked=asked)
        mon.ev("timeouts_checked")
        mon.ev("fetches")
        if how in (1, 2):
            with lib.scratch(rng):
                with open("log.xml", "w", encoding="utf-8") as f:
                    f.write(text)
                disk = tenhou_from_file("log.xml")
            mon.eq([(e.tag, dict(e.attrib), e.timestamp) for e in rec.events], [(e.tag, dict(e.attrib), e.timestamp) for e in disk.events],
                   "the record fetched is not that of the file")
            mon.eq((str(rec), [str(g) for g in rec.game_list], [str(p) for p in rec.players]),
                   (str(disk), [str(g) for g in disk.game_list], [str(p) for p in disk.players]), "the record fetched reads otherwise than the file")
            mon.eq([(e.tag, dict(e.attrib)) for e in rec.events], [(e.tag, dict(e.attrib)) for e in root], "the record fetched is not the log")

    fetch_ok()
    for fail in rng.sample([requests.ConnectionError("refused"), requests.ReadTimeout("slow"), requests.ConnectTimeout("slow"),
                            requests.exceptions.SSLError("bad"), OSError("reset")], 2):
        with lib.Net(pages, fail=fail) as net:
            try:
                tenhou_from_url(link, timeout=2)
            except type(fail) as e:
                mon.check(e is fail or str(e) == str(fail), "a failed fetch reports something else", got=repr(e))
                mon.ev("failures")
            else:
                mon.check(False, "a failed fetch gives a record", fail=repr(fail))
            mon.eq([(s["method"], s["url"]) for s in net.seen], [("GET", addr)], "a failing fetch is not one request for the log the link names")
    cut = rng.randrange(1, len(text) - 1)
    for page in rng.sample(["", "not found", text[:cut], "<html><body>busy", text + text], 2):
        with lib.Net({addr: page}):
            try:
                tenhou_from_url(link)
            except Exception:
                mon.ev("garbage")
            else:
                mon.check(False, "a damaged page gives a record", page=page[:100], size=len(page))
    fetch_ok()
    mon.ev("after_failure")
    mon.distinct((link, text))
    mon.sample({"link": link, "asked": addr})
