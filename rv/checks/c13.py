"""Rule-set codes."""
from rv import ref
from mahjong.record.utils.value.gametype import GameType

ID = "C13"
RULE = ("all 65536 rule-set codes, as text and as number; every reported rule and the one-line description are compared with an "
        "independent decoder, and equality with equality of the rule bits; distinct = codes")
FLOORS = {"codes": 65536, "equal": 100, "unequal": 1000}
EXHAUSTIVE = True


def plan(tier):
    return [("block", 64)]


def case(kind, index, rng, mon):
    for code in range(1024 * index, 1024 * index + 1024):
        g = GameType(str(code) if code % 2 else code)
        r = ref.GT(code)
        got = dict(players=g.player_count(), aka=bool(g.has_aka_dora()), level=int(g.play_level()), fast=bool(g.speed_up()),
                   tanyao=bool(g.allow_tanyao_open()), winds=g.play_wind_count(), games=g.main_game_count(),
                   tips_on=bool(g.with_tips()), tips=g.tips_count(), shadow=bool(g.show_discard_shadow()))
        want = dict(players=r.players, aka=r.aka, level=r.level, fast=r.fast, tanyao=r.tanyao, winds=r.winds,
                    games=r.winds * r.players, tips_on=r.tips_on, tips=r.tips, shadow=r.shadow)
        mon.check(got == want, "the rules read from a code are wrong", code=code,
                  got={k: v for k, v in got.items() if v != want[k]}, expected={k: want[k] for k in want if got[k] != want[k]})
        mon.eq(str(g), r.text(), "the description of a rule set is wrong", code=code)
        mon.eq(repr(g), "<%s>" % r.text(), "the repr of a rule set is wrong", code=code)
        for other in (code ^ 1, code ^ (rng.randrange(32) << 11), code ^ (1 << rng.randrange(16)), rng.randrange(65536)):
            same = ref.GT(other).rules == r.rules
            mon.check((g == GameType(other)) == same, "equality of rule sets is wrong", code=code, other=other, expected=same)
            mon.ev("equal" if same else "unequal")
        mon.ev("codes")
        mon.distinct(code)
    mon.sample({"code": code, "text": str(g)})
