"""Conversions of records do not influence each other, however they are interleaved, abandoned, repeated or run in parallel."""
import sys
import threading
import xml.etree.ElementTree as ET

from rv import lib, uni
from rv.checks import c21
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.tenhou import to_command_iter, to_command_records, to_commands

ID = "C27"
RULE = ("schedules of 2..4 logs (also the same one twice) whose conversions and replays are stepped alternately in random order, "
        "abandoned part-way, failed part-way by an unknown event, restarted and repeated, or run in threads switching every few "
        "microseconds; every stream is compared with the conversion of that log on its own and with an independent fold of the log; "
        "distinct = (logs, schedule)")
FLOORS = {"switches": 3000, "abandoned": 30, "failed": 5, "completed": 150, "same_log_twice": 10, "executors": 30, "threads": 16,
          "facts": 20000, "name_twice": 3, "one_executor": 30}


def plan(tier):
    q = tier == "quick"
    return [("steps", 48 if q else 900), ("threads", 8 if q else 120)]


def log(rng):
    return c21.make(rng, guests=.5, games=rng.choice([1, 1, 2]), max_turns=rng.choice([6, 15, 30]))


def rows(cmds):
    return [c.to_raw_record() for c in cmds]


def truth(mon, root, recs):
    """An independent replay of the log agrees with a stream of raw records."""
    facts, state, i = uni.Facts(list(root)), {}, 0
    for t, e in enumerate(root):
        while i < len(recs) and recs[i].timestamp == t:
            state[recs[i].scope.name, recs[i].sub_scope_id, recs[i].property.name] = recs[i].state
            i += 1
        want = facts.step(e)
        mon.ev("facts", len(want))
        for k, (how, v) in want.items():
            mon.check(k in state and uni.agrees(how, state[k], v), "a property is wrong in a conversion interleaved with others", event=t,
                      tag=e.tag, property=k, got=state.get(k), expected=v)
    mon.check(i == len(recs), "a conversion gives commands past the end of the log", got=len(recs) - i)


def broken(rng, root):
    """A copy of the log with an event nobody knows, and where."""
    r = ET.fromstring(lib.xml_text(root))
    at = rng.randrange(3, len(r))
    r.insert(at, ET.Element("UNKNOWNEVENT"))
    return r, at


def case(kind, index, rng, mon):
    sims = [log(rng) for _ in range(rng.choice([2, 3, 4]))]
    roots = [s.root for s in sims]
    if rng.random() < .5:
        roots.append(roots[0])
        mon.ev("same_log_twice")
    texts = [lib.xml_text(r) for r in roots]
    for s in sims:
        mon.ev("name_twice", int(len(set(s.names)) < len(s.names) and len(set(zip(s.names, s.dan, s.rate))) > len(set(s.names))))
    recs = [lib.record_of(r) for r in roots]
    base = [rows(to_commands(r)) for r in recs]
    for r, b in zip(roots, base):
        truth(mon, r, b)
    states = [[dict(s.flatten()) for s in GameExecutor().execute(to_commands(r))][-1] for r in recs]
    mon.distinct((texts, kind, index))
    mon.ctx(logs=[t[:150] for t in texts])
    if kind == "threads":
        return threads(rng, mon, recs, base, states)
    schedule = []
    one = GameExecutor()
    live = []
    budget = 4000
    done = 0
    while budget > 0 and (done < 6 or live):
        budget -= 1
        r = rng.random()
        if (len(live) < 2 and done < 6) or (r < .004 and len(live) < 5):
            i = rng.randrange(len(recs))
            how = rng.choice(["iter", "iter", "raw", "records", "executor", "failing"])
            if how == "iter":
                g = ((c.to_raw_record() for c in to_command_iter(recs[i], rng.random() < .3)))
            elif how == "raw":
                g = iter(to_command_records(recs[i], raw=True))
            elif how == "records":
                g = iter(to_command_records(recs[i]))
            elif how == "executor":
                # one executor may be used for many records, each replay begins with nothing
                shared = rng.random() < .5
                x = one if shared else GameExecutor()
                mon.ev("one_executor", int(shared))
                g = (dict(s.flatten()) for s in x.execute(to_command_iter(recs[i], False)))
            else:
                b, at = broken(rng, roots[i])
                g = (c.to_raw_record() for c in to_command_iter(lib.record_of(b), True))
                how = ("failing", at)
            live.append([i, how, g, []])
            schedule.append(("start", i, how))
            continue
        if r < .016 and live:
            x = live.pop(rng.randrange(len(live)))
            if rng.random() < .5 and hasattr(x[2], "close"):
                x[2].close()
            schedule.append(("abandon", x[0], len(x[3])))
            mon.ev("abandoned")
            continue
        if r < .018:
            i = rng.randrange(len(recs))
            mon.eq(rows(to_commands(recs[i])), base[i], "a conversion started while others run differs", log=i, schedule=schedule)
            mon.ev("completed")
            done += 1
            continue
        if not live:
            continue
        x = rng.choice(live)
        i, how, g, got = x
        mon.ev("switches")
        for _ in range(rng.choice([1, 1, 2, 7, 60])):
            try:
                got.append(next(g))
            except StopIteration:
                live.remove(x)
                finish(mon, i, how, got, base, states, recs, schedule)
                done += 1
                break
            except ValueError:
                mon.check(how[0] == "failing", "a conversion failed while others run", log=i, schedule=schedule)
                at = how[1]
                want = [c for c in base[i] if c.timestamp < at]
                mon.eq(got, want, "a strict conversion does not stop at the unknown event", log=i, at=at, schedule=schedule)
                live.remove(x)
                mon.ev("failed")
                done += 1
                break
    mon.check([lib.xml_text(r) for r in roots] == texts, "converting a record changed it")
    for i, r in enumerate(recs):
        mon.eq(rows(to_commands(r)), base[i], "a repeated conversion differs", log=i, schedule=schedule)
    mon.sample({"logs": len(roots), "schedule": schedule[:10]})


def finish(mon, i, how, got, base, states, recs, schedule):
    mon.check(how[0] != "failing", "strict conversion passed over an unknown event", log=i)
    if how == "executor":
        mon.eq(got[-1], states[i], "a replay interleaved with others ends in another state", log=i, schedule=schedule)
        mon.ev("executors")
    elif how == "records":
        mon.eq(got, [c.to_record() for c in to_commands(recs[i])], "records produced interleaved with others differ", log=i)
    else:
        mon.eq(got, base[i], "a conversion interleaved with others differs", log=i, schedule=schedule)
    mon.ev("completed")


def threads(rng, mon, recs, base, states):
    old = sys.getswitchinterval()
    out = {}
    one = GameExecutor()

    def run(n, i):
        try:
            res = []
            for _ in range(2):
                cmds = to_commands(recs[i])
                res.append(rows(cmds) == base[i])
                res.append([dict(s.flatten()) for s in (one if n % 2 else GameExecutor()).execute(cmds)][-1] == states[i])
            out[n] = res
        except Exception as e:
            out[n] = repr(e)

    ts = [threading.Thread(target=run, args=(n, n % len(recs))) for n in range(6)]
    try:
        sys.setswitchinterval(1e-5)
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for n in range(6):
        mon.eq(out.get(n), [True] * 4, "a conversion running beside others in threads differs", thread=n)
        mon.ev("threads")
