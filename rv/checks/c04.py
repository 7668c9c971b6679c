from rv import lib, ref
from mahjong.container.pattern.reasoning import BruteForceWaiting, HeuristicPatternMatchWaiting, PatternMatchWaiting

ID = "C04"
RULE = ("short hands (0..2 melds and a pair left, 2 or 3 distinct pairs), the three analysers, the four-copy limit on and off; "
        "step and useful tiles of every analyser are compared with the reference, through every entry point; distinct = "
        "(analyser, form, limit, hand)")
FLOORS = {"brute": 10, "pattern": 60, "heuristic": 150, "limit_off": 60, "complete": 20, "used_up": 20, "limit_changes_answer": 5}
ASSUMPTIONS = ["hands of at most 8 tiles for the exhaustive analysers (their cost is exponential)"]

ENGINES = {"brute": BruteForceWaiting, "pattern": PatternMatchWaiting, "heuristic": HeuristicPatternMatchWaiting}


def plan(tier):
    q = tier == "quick"
    return [("brute", 40 if q else 400), ("pattern", 64 if q else 900), ("heuristic", 40 if q else 600)]


def entry(rng, mon, name, form, h, limit, how):
    eng = ENGINES[name](lib.pattern(form))
    hand = lib.given(rng, h)
    kw = {} if limit and how % 2 else {"ignore_4counts": limit}
    if how < 2:
        step, useful = eng.waiting_and_useful_tiles(hand, **kw)
    else:
        step, useful = eng.before_waiting_step(hand, **kw), None
        if how >= 3:
            useful = eng.useful_tiles(lib.given(rng, h), **kw)
    return step, useful


def case(kind, index, rng, mon):
    reps = {"brute": 2, "pattern": 3, "heuristic": 12}[kind]
    for _ in range(reps):
        if kind == "brute":
            form = rng.choice([("normal", 0, 1), ("normal", 1, 1), ("normal", 1, 1), ("normal", 1, 0), ("pairs", 2)])
        else:
            form = rng.choice([("normal", 0, 1), ("normal", 1, 1), ("normal", 2, 1), ("normal", 2, 1), ("normal", 1, 0),
                               ("normal", 2, 0), ("pairs", 2), ("pairs", 3)])
            if kind == "heuristic" and rng.random() < .4:
                form = rng.choice([("normal", 3, 1), ("normal", 4, 1), ("pairs", 7)])
        need = form[1] * 3 + form[2] * 2 if form[0] == "normal" else 2 * form[1]
        limit = rng.random() < .6
        for _ in range(500):
            size, used_up = need - rng.randrange(2), False
            if form[0] == "normal" and form[2] == 0:
                w = rng.sample(lib.wall_kinds(), size)
                h = w if rng.random() < .5 else [k for k in sorted(w)[:1] for _ in range(size)]
                if ref.counts_of(h)[h[0]] > 4:
                    h = w
            elif kind != "brute" and rng.random() < .2:
                # every tile is used by a group or pair already, a whole one is missing
                size = need - (3 if form[0] == "normal" and form[1] else 2)
                h = lib.complete_hand(rng, form[1], rng.choice([None, 0]))[:size] if form[0] == "normal" else [x for k in rng.sample(range(34), size // 2) for x in (k, k)]
                used_up = True
            elif rng.random() < .25:
                k = rng.randrange(34)
                h = [k] * min(4, size)
                while len(h) < size:
                    x = rng.randrange(34)
                    if h.count(x) < 4:
                        h.append(x)
            else:
                h, _ = lib.hand(rng, form[1] if form[0] == "normal" else 1, size,
                                rng.choice(["suit", "near", "quads", "pairs", "uniform"]))
                h = h[:size]
            counts = ref.counts_of(h)
            if len(h) == size and (kind != "brute" or ref.missing(form, counts, 4 if limit else 99) <= 2):
                break
        cap = 4 if limit else 99
        want_step, want_useful = ref.step(form, counts, cap), ref.useful(form, counts, cap)
        hows = [0, 1, 2, 3] if kind != "brute" else [rng.randrange(4)]
        for how in hows:
            mon.ctx(analyser=kind, form=form, hand=lib.names(h), limit=limit, entry=how)
            step, useful = entry(rng, mon, kind, form, h, limit, how)
            mon.check(step == want_step, "an analyser's waiting step is wrong", got=step, expected=want_step)
            if useful is not None:
                ks = set(lib.kinds_of(useful))
                mon.check(ks == want_useful, "an analyser's useful tiles are wrong", got=lib.names(ks),
                          expected=lib.names(want_useful))
        mon.ev(kind)
        if used_up:
            mon.ev("used_up")
        if not limit:
            mon.ev("limit_off")
        if want_step == -1:
            mon.ev("complete")
        if (ref.step(form, counts), ref.useful(form, counts)) != (ref.step(form, counts, 99), ref.useful(form, counts, 99)):
            mon.ev("limit_changes_answer")
        mon.distinct((kind, form, limit, tuple(counts)))
        mon.sample({"analyser": kind, "form": form, "limit": limit, "hand": lib.names(h), "step": want_step,
                    "useful": lib.names(want_useful)})
