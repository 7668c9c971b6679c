"""Recommendations and ratings of a report."""
from rv import lib, ref, report
from rv.checks import c18

ID = "C19"
RULE = ("the games of C18 with more careful play and endgames (dead waits, complete hands); the recommended discards must be "
        "exactly those with the fewest steps left and then the most unseen useful tiles over all possible discards and hand "
        "types, and the error rating 0 for them, otherwise the share of drawing chances given up, always within [0,1]; "
        "distinct = rows")
FLOORS = {"rows": 400, "choice_best": 100, "choice_worse": 50, "choice_step_back": 20, "several_best": 50,
          "types_disagree": 20, "dead_wait": 1, "rows_complete": 3}


def plan(tier):
    q = tier == "quick"
    return [("api", 40 if q else 1200), ("html", 8 if q else 200), ("real", 4 if q else 24), ("declined", 32 if q else 400), ("calls", 48 if q else 400)]


def judge(mon, row, s):
    w = dict(event=row.event, hand=" ".join(ref.id_name(i) for i in row.hand), discard=ref.id_name(row.tile))
    mon.check(len(set(s.expected)) == len(s.expected) and set(s.expected) == row.recommended, "the recommended discards are wrong",
              got=lib.names(s.expected), expected=lib.names(row.recommended), **w)
    mon.check((s.exp_step, -s.exp_count) == row.best, "the steps or tiles of the recommendation are wrong",
              got=(s.exp_step, s.exp_count), expected=(row.best[0], -row.best[1]), **w)
    mon.check(set(s.expected) <= {c.kind for c in s.merged} and {c.kind for c in s.merged[:len(s.expected)]} == set(s.expected),
              "the recommended discards do not head the list", got=s.merged, **w)
    rate = row.wrong_rate()
    mon.check(0 <= s.rate <= 1, "a rating is outside [0,1]", got=s.rate, **w)
    mon.check(abs(s.rate - rate) < 1e-9, "a rating is wrong", got=s.rate, expected=rate, yours=repr(row.yours), best=row.best, **w)
    mon.ev("rows")
    if row.tile // 4 in row.recommended:
        mon.ev("choice_best")
    elif row.yours.step > row.best[0]:
        mon.ev("choice_step_back")
    else:
        mon.ev("choice_worse")
    if len(row.recommended) > 1:
        mon.ev("several_best")
    if row.best[1] == 0:
        mon.ev("dead_wait")
    if any(row.complete):
        mon.ev("rows_complete")
    if len(row.forms) == 2 and row.best_form_step[0] == row.best_form_step[1]:
        mon.ev("types_tie")
        a, b = [{k for k, c in d.items() if c.step == t} for d, t in zip(row.by_form, row.best_form_step)]
        if a != b:
            mon.ev("types_disagree")
    mon.distinct((tuple(row.hand), row.tile, row.unseen))


def case(kind, index, rng, mon):
    c18.workload(kind, index, rng, mon, judge)
