from rv import lib, ref
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting

ID = "C01"
RULE = ("hands of 1..14 tiles in nine styles (uniform, one suit, quads, pairs, near-complete, scattered) for 0..4 melds left "
        "and seven pairs, and hands from none to four tiles too many for forms of 0..4 melds and 0..3 pairs or 1..13 pairs, written "
        "as tiles or as notation with red fives, some followed by hands like them on the same analyser; the reported waiting step is compared with a dynamic-programming reference; distinct = "
        "(form, sorted hand), non-trivial by construction since every hand is compared in full")
FLOORS = {"step_-1": 20, "step_0": 100, "step_1": 100, "step_3": 50, "form_pairs": 200, "quad_in_hand": 100,
          "copy_limit_matters": 3, "small_hand": 50, "half_hand": 10, "large_hand": 100, "red_fives": 100, "style_forms": 500, "style_related": 500, "thin_pairs": 10}
ASSUMPTIONS = ["at most four copies of a tile in the hand", "reference model rv/ref.py implements the rules of the game"]

ENGINES = {}


def plan(tier):
    n = 60 if tier == "quick" else 900
    return [("hands", n), ("exact_shapes", 8 if tier == "quick" else 60), ("forms", 24 if tier == "quick" else 400)]


def engine(form):
    return HeuristicPatternMatchWaiting(lib.pattern(form))


def observe(mon, rng, form, h, style, eng=None):
    counts = ref.counts_of(h)
    want = ref.step(form, counts)
    ts = lib.given(rng, h)
    got = (eng or engine(form)).before_waiting_step(ts)
    mon.check(got == want, "waiting step of a hand is wrong", form=form, hand=lib.names(h), got=got, expected=want)
    small = lib.form_size(form) - len(h)
    if small > 5:
        mon.ev("small_hand")        # all its useful tiles are too many plans to go through
        mon.ev("half_hand", int(len(h) <= want))
    else:
        pair = (eng or engine(form)).waiting_and_useful_tiles(rng.choice([ts, lib.given(rng, h)]))[0]
        mon.check(pair == want, "waiting step reported with the useful tiles is wrong", form=form, hand=lib.names(h), got=pair,
                  expected=want)
    if small < 0:
        mon.ev("large_hand")
    if any(t.number == 0 for t in ts):
        mon.ev("red_fives")
    mon.ev("step_%d" % want)
    mon.ev("form_" + (form[0] if form[0] == "pairs" else "melds%d" % form[1]))
    mon.ev("style_" + style)
    if 4 in counts:
        mon.ev("quad_in_hand")
    if form[0] == "normal" and want != ref.step(form, counts, cap=9):
        mon.ev("copy_limit_matters")
    mon.distinct((form, tuple(counts)))
    mon.sample({"form": form, "hand": lib.names(h), "step": want})


def case(kind, index, rng, mon):
    for _ in range(50):
        if kind == "forms":
            form = lib.any_form(rng)
            h, style = lib.form_hand(rng, form, 12), "forms"
            if rng.random() < .12:      # many pairs asked of next to nothing
                form = ("pairs", rng.randrange(4, 14))
                h = lib.hand(rng, 4, 14)[0][:rng.randrange(max(1, 2 * form[1] - 5))]
                mon.ev("thin_pairs", int(ref.missing(form, ref.counts_of(h)) > 14))
        elif kind == "hands":
            form = rng.choice([("normal", 4, 1)] * 6 + [("normal", m, 1) for m in (0, 1, 2, 3)] * 2 + [("pairs", 7)] * 4)
            m = form[1] if form[0] == "normal" else 4
            size = 3 * m + 2 - rng.randrange(2)
            style = None
            if form[0] == "pairs" and rng.random() < .5:
                h, style = lib.seven_pairs_hand(rng, rng.choice([0, 0, 1, 2, 3])), "pairs"
                for _ in range(rng.randrange(4)):
                    h[rng.randrange(14)] = rng.choice([k for k in range(34) if h.count(k) < 4])
                h = h[:size]
            else:
                h, style = lib.hand(rng, m, size)
        else:
            # honours and four-of-a-kind waits, where only the copy limit decides
            m = rng.randrange(1, 5)
            form = ("normal", m, 1)
            h, style = [], "shapes"
            while len(h) < 3 * m + 1:
                k = rng.choice(range(27, 34)) if rng.random() < .5 else rng.randrange(34)
                c = rng.choice([2, 3, 4, 4])
                if k not in h:
                    h += [k] * c
            h = h[:3 * m + rng.choice([1, 2])]
        if rng.random() < .3:
            # the same analyser goes on to hands much like this one
            eng = engine(form)
            observe(mon, rng, form, h, style, eng)
            for _ in range(2):
                g = lib.relative(rng, h)
                if len(g) == len(h):
                    observe(mon, rng, form, g, "related", eng)
        else:
            observe(mon, rng, form, h, style)
