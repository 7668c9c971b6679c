from rv import lib, ref
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting

ID = "C02"
RULE = ("hands as for C01, but at most four tiles short of the form unless it is short, some of them asked of the analyser of a hand like them; the set of useful tiles from both entry points is compared with the reference (tiles whose draw "
        "lowers the waiting step); distinct = (form, hand)")
FLOORS = {"useful_none": 5, "useful_many": 50, "fifth_copy_excluded": 5, "form_pairs": 200, "other_forms": 200, "related": 200, "red_fives": 100, "tiny": 60}
ASSUMPTIONS = ["at most four copies of a tile in the hand", "reference model rv/ref.py"]


def plan(tier):
    return [("hands", 52 if tier == "quick" else 900), ("forms", 12 if tier == "quick" else 300)]


def case(kind, index, rng, mon):
    eng = None
    for _ in range(40):
        # the same analyser may go on to a hand much like the last
        g = lib.relative(rng, h) if eng and rng.random() < .3 else None
        if g is not None and len(g) == len(h):
            h = g
            mon.ev("related")
        elif kind == "forms":
            form = lib.any_form(rng)
            h = lib.form_hand(rng, form, 3)
            if rng.random() < .2:
                form, h = lib.tiny_hand(rng)
                mon.ev("tiny")
            mon.ev("other_forms")
        else:
            form = rng.choice([("normal", 4, 1)] * 5 + [("normal", m, 1) for m in (0, 1, 2, 3)] * 2 + [("pairs", 7)] * 4)
            m = form[1] if form[0] == "normal" else 4
            size = 3 * m + (1 if rng.random() < .7 else 2)
            h, style = lib.hand(rng, m, size)
        if h is not g:
            eng = HeuristicPatternMatchWaiting(lib.pattern(form))
        counts = ref.counts_of(h)
        want = ref.useful(form, counts)
        ts = lib.given(rng, h)
        red = any(t.number == 0 for t in ts)
        mon.ev("red_fives", int(red))
        got = eng.useful_tiles(ts)
        mon.check(red or all(n.number != 0 for n in got), "useful tiles are plain tiles", got=[str(x) for x in got])
        ks = [lib.tile_kind(t) for t in got]
        mon.check(len(set(ks)) == len(ks) == len(got), "a useful tile is reported twice", hand=lib.names(h), got=ks)
        mon.check(set(ks) == want, "useful tiles of a hand are wrong", form=form, hand=lib.names(h), got=lib.names(ks),
                  expected=lib.names(want))
        pair = HeuristicPatternMatchWaiting(lib.pattern(form)).waiting_and_useful_tiles(lib.given(rng, h))
        mon.check(set(lib.kinds_of(pair[1])) == want, "useful tiles reported with the waiting step are wrong", form=form,
                  hand=lib.names(h), got=lib.names(lib.kinds_of(pair[1])), expected=lib.names(want))
        mon.ev("useful_none" if not want else "useful_many" if len(want) > 8 else "useful_some")
        mon.ev("form_" + (form[0] if form[0] == "pairs" else "melds%d" % form[1]))
        if 4 in counts and ref.useful(form, counts, cap=9) - want:
            mon.ev("fifth_copy_excluded")
        mon.distinct((form, tuple(counts)))
        mon.sample({"form": form, "hand": lib.names(h), "useful": lib.names(want)})
