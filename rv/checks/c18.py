"""Report rows describe the game."""
from collections import Counter

from rv import lib, model, ref, report, sim
from mahjong.tenhou_record_check import game_reason_list
from mahjong.record.checker import TenhouChecker

ID = "C18"
RULE = ("generated games (sensible and random play, calls, three and four players, red fives, declined wins) analysed for every "
        "seat, through the analysis list and through the finished HTML; every row's hand, melds, choice, red or blue marking, "
        "steps, useful tiles and unseen counts, overall and per hand type, are compared with a reference computed from the log; "
        "distinct = rows")
FLOORS = {"rows": 400, "rows_with_meld": 60, "rows_riichi": 20, "rows_html": 50, "rows_complete": 3, "rows_red_five": 50,
          "rows_three_players": 40, "rows_after_kita": 5, "rows_run_twice": 10, "rows_four_melds": 3}
ASSUMPTIONS = ["rv/model.py replays the log correctly (cross-checked against the generator's own books)"]
DECLINED = dict(smart=1.0, decline=1.0, near=True, rig=False, p_call=0.02, max_turns=24, games=1)


def plan(tier):
    q = tier == "quick"
    return [("api", 32 if q else 900), ("html", 12 if q else 300), ("real", 4 if q else 24), ("declined", 16 if q else 300), ("calls", 60 if q else 600)]


def make(rng, **kw):
    style = rng.random()
    kw.setdefault("games", rng.choice([1, 2]))
    if style < .5:
        kw.update(smart=rng.choice([.6, .9, 1.0]), p_call=rng.choice([0, .02, .1]))
    elif style < .8:
        kw.update(lib.busy(rng))
    kw.setdefault("max_turns", rng.choice([20, 40, 70]))
    if rng.random() < .4:
        kw["players"] = 3
    return sim.make(rng, **kw)


def kinds(faces):
    return [ref.name_kind(x) for x in faces]


def judge_row(mon, row, s):
    """Everything a row states, except which discard it recommends."""
    w = dict(event=row.event, hand=" ".join(ref.id_name(i) for i in row.hand), melds=row.melds, discard=ref.id_name(row.tile))
    mon.check(sorted(s.hand) == sorted(ref.id_name(i) for i in row.hand), "the hand in a row is not the hand held", got=s.hand, **w)
    mon.check(kinds(s.hand) == sorted(kinds(s.hand)), "the hand in a row is not sorted", got=s.hand, **w)
    mon.check([sorted(m) for m in s.melds] == [sorted(ref.id_name(i) for i in m) for m in row.melds],
              "the melds in a row are not the melds held", got=s.melds, **w)
    mon.check(s.yours == ref.id_name(row.tile), "the choice in a row is not the tile discarded", got=s.yours, **w)
    y = row.yours
    mon.check((s.your_step, s.your_count) == (y.step, y.count), "the steps or tiles of the choice are wrong",
              got=(s.your_step, s.your_count), expected=repr(y), **w)
    if s.your_useful is not None:
        mon.check(s.your_useful == y.useful, "the useful tiles of the choice are wrong", got=lib.names(s.your_useful),
                  expected=lib.names(y.useful), **w)
    mon.check(s.riichi == row.riichi, "a row is marked wrongly as before or after a riichi", got=s.riichi, **w)
    mon.check(len({c.kind for c in s.merged}) == len(s.merged), "a discard is listed twice", got=s.merged, **w)
    for c in s.merged:
        mon.check(c.kind in row.merged and c.tup() == row.merged[c.kind].tup(), "a listed discard is described wrongly", got=repr(c),
                  expected=repr(row.merged.get(c.kind)), **w)
    keys = [(c.step, -c.count) for c in s.merged]
    mon.check(keys == sorted(keys), "the listed discards are not in order", got=s.merged, **w)
    for form, lst in zip((0, 1), (s.normal, s.pairs)):
        if form >= len(row.forms):
            mon.check(not lst, "seven pairs are considered with an open hand", got=lst, **w)
            continue
        lst = lst or []
        truth, best = row.by_form[form], row.best_form_step[form]
        for c in lst:
            mon.check(c.kind in truth and c.tup() == truth[c.kind].tup(), "a discard of one hand type is described wrongly",
                      hand_type=row.forms[form], got=repr(c), expected=repr(truth.get(c.kind)), **w)
        mon.check(len({c.kind for c in lst}) == len(lst), "a discard of one hand type is listed twice", got=lst, **w)
        want = {k for k, c in truth.items() if c.step == best}
        mon.check({c.kind for c in lst} >= want, "the best discards of one hand type are not all listed",
                  hand_type=row.forms[form], missing=lib.names(want - {c.kind for c in lst}), **w)
        keys = [(c.step, -c.count) for c in lst]
        mon.check(keys == sorted(keys), "the discards of one hand type are not in order", got=lst, **w)
    mon.ev("rows")
    if row.melds:
        mon.ev("rows_with_meld")
    if row.riichi:
        mon.ev("rows_riichi")
    if any(row.complete):
        mon.ev("rows_complete")
    if any(i in ref.RED_IDS for i in row.hand):
        mon.ev("rows_red_five")
    mon.distinct((tuple(row.hand), tuple(map(tuple, row.melds)), row.tile, row.unseen))


def seats(rng, n, k):
    return rng.sample(range(n), min(n, k))


def workload(kind, index, rng, mon, judge, html_share=1):
    """Calls judge(row, seen) for every row of the case's game."""
    import xml.etree.ElementTree as ET
    if kind == "real":
        logs = lib.real_logs()
        root = ET.parse(logs[index % len(logs)]).getroot()
        spans = model.games(root)
        mon.ctx(log=logs[index % len(logs)])
    else:
        root = sim.calls_log(rng) if kind == "calls" else make(rng, **(DECLINED if kind == "declined" else {})).root
    rec = lib.record_of(root)
    n = len(rec.players)
    for p in seats(rng, n, 1 if kind == "real" else 2):
        truth = report.rows(root, p)
        mon.ctx(seat=p)
        if kind == "html":
            got = [g for _, g in report.from_html(TenhouChecker().parse(rec, p))]
            mon.check(len(got) == len(truth), "the report has a wrong number of hands", got=len(got), expected=len(truth))
            pairs = list(zip(truth, got))
        else:
            games = list(range(len(truth)))
            if kind == "real":
                games = rng.sample(games, 1)
            pairs = [(truth[g], report.from_api(game_reason_list(rec.game_list[g], rec.players[p], rec))) for g in games]
        for want, got in pairs:
            mon.check(len(want) == len(got), "a hand has a wrong number of rows", got=len(got), expected=len(want))
            for i, (row, s) in enumerate(zip(want, got)):
                mon.check(s.number == i + 1, "rows are numbered wrongly", got=s.number, expected=i + 1)
                judge(mon, row, s)
                shapes = Counter(tuple(sorted(t // 4 for t in m)) for m in row.melds)
                mon.ev("rows_run_twice", int(any(c > 1 and len(m) == 3 for m, c in shapes.items())))
                mon.ev("rows_four_melds", int(sum(c for m, c in shapes.items() if len(m) > 1) == 4))
                if kind == "html":
                    mon.ev("rows_html")
                if n == 3:
                    mon.ev("rows_three_players")
                    if any(len(m) == 1 for m in row.melds):
                        mon.ev("rows_after_kita")
            if want:
                mon.sample({"hand": [ref.id_name(i) for i in want[-1].hand], "choice": ref.id_name(want[-1].tile),
                            "best": want[-1].best})


def case(kind, index, rng, mon):
    workload(kind, index, rng, mon, judge_row)
