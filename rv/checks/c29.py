"""The light table of a log file holds every attribute of every event."""
import math
import os
import pathlib
import re

from rv import lib
from rv.checks import c20, c21
from mahjong.record import light_dataframe_from_file

ID = "C29"
RULE = ("generated and recorded logs written to files under ordinary and odd names and folders, with the abstract option on and off; "
        "every row of the table is compared with an independent walk over the file's events, in order, and the abridged table must "
        "be the full one without the numbered events; distinct = (log, file name)")
FLOORS = {"files": 40, "rows": 10000, "numbered": 5000, "kept": 1000, "odd_paths": 10, "unsplit_tags": 10, "path_objects": 10, "small_letters": 5}


def plan(tier):
    return [("sim", 64 if tier == "quick" else 900), ("real", len(lib.real_logs()))]


NUMBERED = re.compile(r"([A-Za-z]+)([0-9]+)\Z")


def expect(els, abstract):
    rows = []
    for i, e in enumerate(els):
        m = NUMBERED.match(e.tag)
        tag = m.group(1) if m else e.tag
        if m and abstract:
            continue
        if m:
            rows.append((i, tag, "<tag_extra>", m.group(2)))
        rows.append((i, tag, "<tag>", tag))
        for k, v in e.attrib.items():
            rows.append((i, tag, k, v))
    return rows


def case(kind, index, rng, mon):
    import xml.etree.ElementTree as ET
    root = c21.root_of(kind, index, rng)
    if rng.random() < .5:
        odd = ET.Element(rng.choice(["X1Y", "A1B2", "ZZ09", "tag_7", "T-5", "N2", "fx1", "goTo20", "a007", "z"]),
                         rng.choice([{}, {"k": "1"}, {"<": "&", "9": ""}]))
        root.insert(rng.randrange(len(root)), odd)
        mon.ev("small_letters", int(odd.tag in ("fx1", "a007", "goTo20")))
    bad = [e for e in root if any(not re.match(r"[A-Za-z_]", k) for k in e.attrib)]
    for e in bad:
        e.attrib.clear()
    els = list(ET.fromstring(lib.xml_text(root)))
    mon.ev("unsplit_tags", sum(1 for e in els if re.search("[0-9]", e.tag) and not NUMBERED.match(e.tag)))
    lid = c20.log_id(rng)
    stem = rng.choice([lid, lid, lid + "&tw=1", "a.b.c", "log 1", "ａ"])
    folder = rng.choice(["", "sub", "x.y/z w"])
    with lib.scratch(rng):
        if folder:
            os.makedirs(folder)
        path = os.path.join(folder, stem + rng.choice([".xml", ".xml", ".mjlog", ""])) if stem == lid else os.path.join(folder, stem + ".xml")
        if folder or stem != lid:
            mon.ev("odd_paths")
        if rng.random() < .3:
            path = os.path.abspath(path)
        ET.ElementTree(root).write(path, encoding="utf-8")
        before = open(path, "rb").read()
        given = path
        if rng.random() < .4:
            given = pathlib.Path(path)
            mon.ev("path_objects")
        mon.ctx(path=path)
        full = light_dataframe_from_file(given, abstract=False)
        short = light_dataframe_from_file(given) if rng.random() < .5 else light_dataframe_from_file(given, abstract=True)
        mon.check(open(path, "rb").read() == before, "reading a log file changed it")
        mon.check(sorted(os.listdir(folder or ".")) == [os.path.basename(path)], "reading a log file left other files")
    for df, abstract in ((full, False), (short, True)):
        want = expect(els, abstract)
        got = list(zip(df["index"], df["tag"], df["attr"], df["value"]))
        # the order of attributes inside one event is of no interest
        mon.eq([g[0] for g in got], [w[0] for w in want], "rows of the table do not follow the events of the file", abstract=abstract)
        mon.check(sorted(map(repr, got)) == sorted(map(repr, want)), "the table does not hold the attributes of the file", abstract=abstract,
                  missing=[w for w in want if w not in got][:5], extra=[g for g in got if g not in want][:5])
        mon.check(set(df["log_id"]) == {stem}, "the table is filed under another log", got=sorted(set(df["log_id"])), expected=stem)
        mon.check(sorted(df.columns) == ["attr", "index", "log_id", "tag", "value"], "the table has other columns", got=list(df.columns))
        mon.ev("rows", len(got))
    mon.ev("kept", len(short))
    mon.ev("numbered", len(full) - len(short))
    mon.ev("files")
    mon.distinct((lib.log_sig(root), path))
    mon.sample({"path": stem, "rows": len(full), "abridged": len(short)})
