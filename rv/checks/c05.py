from rv import lib, ref
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs

ID = "C05"
RULE = ("hands of 2..30 tiles, complete, one tile off, and arbitrary, for 0..4 melds, 0..2 pairs and n distinct pairs; "
        "match() is compared with the reference (does the hand contain the form); distinct = (form, hand)")
FLOORS = {"match": 300, "no_match": 300, "one_off": 100, "larger_than_needed": 50, "pairs_form": 200, "quad_not_two_pairs": 5, "other_forms": 2000, "five_or_more": 150}
ASSUMPTIONS = ["reference model rv/ref.py"]


EVERY = [("normal", m, p) for m in range(6) for p in range(5) if m or p] + [("pairs", n) for n in range(1, 8)]


def size(form):
    return form[1] * 3 + form[2] * 2 if form[0] == "normal" else 2 * form[1]


def plan(tier):
    return [("hands", 80 if tier == "quick" else 1500)]


def case(kind, index, rng, mon):
    for _ in range(60):
        r = rng.random()
        if r < .35:
            form = rng.choice([("pairs", 7)] * 3 + [("pairs", n) for n in (1, 2, 3, 5)])
            p = form[1]
            if p == 7 and rng.random() < .6:
                h = lib.seven_pairs_hand(rng, rng.choice([0, 0, 1, 1, 2]))
            else:
                h = [k for k in rng.sample(range(34), p) for _ in range(2)]
        else:
            form = rng.choice([("normal", 4, 1)] * 5 + [("normal", m, p) for m in range(5) for p in (0, 1, 2)][1:])
            while True:
                h = lib.complete_hand(rng, form[1], rng.randrange(3) if rng.random() < .4 else None)
                if form[2] == 0:
                    h = h[:-2]
                elif form[2] == 2:
                    k = rng.randrange(34)
                    h = h + [k, k]
                if max(ref.counts_of(h), default=0) <= 4:
                    break
        how = rng.choice(["complete", "one_off", "one_off", "larger", "random", "smaller", "crowded"])
        if how == "one_off" and h:
            k = rng.choice([k for k in range(34) if h.count(k) < 4])
            if rng.random() < .5:
                near = [x for x in (h[0] - 1, h[0] + 1, h[-1] - 1, h[-1] + 1) if 0 <= x < 34 and h.count(x) < 4]
                k = rng.choice(near or [k])
            h[rng.randrange(len(h))] = k
        elif how == "larger":
            for _ in range(rng.randrange(1, 12)):
                k = rng.randrange(34)
                if h.count(k) < 4:
                    h.append(k)
            if rng.random() < .5:
                h.pop(0)
        elif how == "random":
            h, _ = lib.hand(rng, 4, rng.choice([2, 5, 8, 11, 14, 14, 20]), rng.choice(["suit", "quads", "pairs", "uniform"]))
        elif how == "crowded":      # a pattern is asked about a multiset: nothing limits it to one real set of tiles
            few = rng.sample(range(34), 1) if rng.random() < .3 else [9 * rng.randrange(3) + x for x in rng.sample(range(7), 3)]
            h = [rng.choice(few + [k + 1 for k in few if k < 26]) for _ in range(rng.choice([5, 5, 8, 11, 14]))]
            form = rng.choice([f for f in EVERY if size(f) <= len(h)] + [f for f in EVERY if size(f) == len(h)] * 4)
        elif how == "smaller" and h:
            h.pop(rng.randrange(len(h)))
        counts = ref.counts_of(h)
        want = ref.missing(form, counts, 99) == 0
        rng.shuffle(h)
        text = lib.notation(rng, h)
        by_text = rng.random() < .5 and h
        hand = lib.parse(text) if by_text else lib.given(rng, h)
        pat = lib.pattern(form)
        if form == ("normal", 4, 1) and rng.random() < .5:
            pat = NormalTypeWin()
        if form == ("pairs", 7) and rng.random() < .5:
            pat = UniquePairs()
        got = pat.match(hand)
        mon.check(bool(got) == want, "win recognition is wrong", form=form, hand=text, got=got, expected=want)
        # the same hand asked about other forms, some needing as many tiles, and about the first one again
        forms = [f for f in EVERY if size(f) == size(form)] + rng.sample(EVERY, 3) + [form]
        for f in rng.sample(forms, len(forms)):
            w = ref.missing(f, counts, 99) == 0
            g = lib.pattern(f).match(rng.choice([hand, hand, lib.given(rng, h)]))
            mon.check(bool(g) == w, "win recognition is wrong after another form was asked about", form=f, first=form, hand=text, got=g, expected=w)
            mon.ev("other_forms")
        mon.eq(lib.set_counts(hand), counts, "asking whether a hand is complete changed it")
        mon.ev("match" if want else "no_match")
        if max(counts, default=0) > 4:
            mon.ev("five_or_more")
        need = size(form)
        if want and len(h) > need:
            mon.ev("larger_than_needed")
        if how == "one_off":
            mon.ev("one_off")
        if form[0] == "pairs":
            mon.ev("pairs_form")
            if sum(c // 2 for c in counts) >= form[1] and not want:
                mon.ev("quad_not_two_pairs")
        mon.distinct((form, tuple(counts)))
        mon.sample({"form": form, "hand": text, "complete": want})
