from rv import lib, ref
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting

ID = "C03"
RULE = ("hands of 3m+2 tiles (m melds left 0..4, and seven pairs) and of other sizes for other forms, some of them asked of the analyser of a hand like them; the stream of (discard, step, useful) is compared with the "
        "reference: exactly the discards keeping the lowest reachable step, each once, each with its exact useful tiles, with the four-copy limit on or off, and "
        "each agreeing with a separate analysis of the hand without that tile; distinct = (form, hand)")
FLOORS = {"several_best": 50, "single_best": 5, "complete_hand": 3, "form_pairs": 100, "other_forms": 200, "related": 200, "red_fives": 100, "no_spare_tile": 20, "no_limit": 100, "no_limit_matters": 3}
ASSUMPTIONS = ["at most four copies of a tile in the hand", "reference model rv/ref.py"]


def plan(tier):
    return [("hands", 52 if tier == "quick" else 800), ("forms", 16 if tier == "quick" else 300)]


def case(kind, index, rng, mon):
    eng = None
    for _ in range(30):
        # the same analyser may go on to a hand much like the last
        g = lib.relative(rng, h) if eng and rng.random() < .3 else None
        if g is not None and len(g) == len(h):
            h = g
            mon.ev("related")
        elif kind == "forms":
            form = lib.any_form(rng)
            while True:
                h = lib.form_hand(rng, form, 3)
                if len(h) > 1:
                    break
            mon.ev("other_forms")
        else:
            form = rng.choice([("normal", 4, 1)] * 5 + [("normal", m, 1) for m in (0, 1, 2, 3)] * 2 + [("pairs", 7)] * 4)
            m = form[1] if form[0] == "normal" else 4
            h, style = lib.hand(rng, m, 3 * m + 2)
        if h is not g:
            eng = HeuristicPatternMatchWaiting(lib.pattern(form))
        ts = lib.given(rng, h)
        mon.ev("red_fives", int(any(t.number == 0 for t in ts)))
        counts = ref.counts_of(h)
        # now and then no limit on the copies of a tile
        limit = rng.random() < .75
        cap = 4 if limit else 20
        how = rng.choice([(), (True,)]) if limit else (False,)
        every = ref.discards(form, counts, cap)
        best = ref.step(form, counts, cap)
        if not limit:
            mon.ev("no_limit")
            mon.ev("no_limit_matters", int(every != ref.discards(form, counts)))
        got = [(lib.tile_kind(t), s, frozenset(lib.kinds_of(u))) for t, s, u in
               eng.batch_waiting_and_useful_tiles(ts, *how)]
        mon.distinct((form, tuple(counts)))
        mon.ev("form_" + (form[0] if form[0] == "pairs" else "melds%d" % form[1]))
        if all(s > best for s, _ in every.values()):
            # any discard breaks the hand, complete or short of spare tiles; what is reported, if anything, must still be true
            mon.ev("complete_hand" if best == -1 else "no_spare_tile")
            for k, s, u in got:
                mon.check(k in every and (s, set(u)) == every[k], "wrong discard analysis of a complete hand", form=form,
                          hand=lib.names(h), got=(ref.kind_name(k), s, lib.names(u)))
            continue
        want = {k: frozenset(u) for k, (s, u) in every.items() if s == best}
        mon.check(len({k for k, _, _ in got}) == len(got), "a discard is reported twice", form=form, hand=lib.names(h),
                  got=[ref.kind_name(k) for k, _, _ in got])
        mon.check({k for k, _, _ in got} == set(want), "the discards that keep the best step are wrong", form=form,
                  hand=lib.names(h), got=lib.names(k for k, _, _ in got), expected=lib.names(want))
        for k, s, u in got:
            mon.check(s == best, "wrong waiting step after a discard", form=form, hand=lib.names(h), discard=ref.kind_name(k),
                      got=s, expected=best)
            mon.check(u == want[k], "wrong useful tiles after a discard", form=form, hand=lib.names(h),
                      discard=ref.kind_name(k), got=lib.names(u), expected=lib.names(want[k]))
        if best == -1:
            mon.ev("complete_with_spares")
        k, s, u = rng.choice(got)
        left = list(h)
        left.remove(k)
        st, us = HeuristicPatternMatchWaiting(lib.pattern(form)).waiting_and_useful_tiles(lib.given(rng, left), *how)
        mon.check((st, frozenset(lib.kinds_of(us))) == (s, u), "analysing the hand after the discard gives another answer",
                  form=form, hand=lib.names(h), discard=ref.kind_name(k))
        mon.ev("several_best" if len(got) > 1 else "single_best")
        mon.sample({"form": form, "hand": lib.names(h), "step": best, "discards": lib.names(want)})
