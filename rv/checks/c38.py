"""Every answer depends on its input alone."""
import json
import os
import subprocess
import sys
import threading

from rv import core, lib, ops

ID = "C38"
RULE = ("batches of uses of every part of the library (analysis, recognition, notation, texts, export, conversion, tables, state tracking, "
        "reports, grouping, categories), each use run alone in a fresh process first and then in shuffled order with repeats, in this long "
        "lived process, in threads switching every few microseconds, in threads that are the first in a process to use the library, and in fresh processes with another locale, time zone, hash seed, "
        "working directory (holding files named like the library's) and optimisation; results that belong to the caller are changed after each use; every answer is compared in full; distinct = (use, input)")
FLOORS = {"alone": 12, "in_order": 40, "threads": 40, "processes": 3, "kinds": 18, "first_threads": 10}

ENV = [{"LC_ALL": "C", "PYTHONIOENCODING": "utf-8", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"TZ": "Asia/Tokyo", "PYTHONHASHSEED": "77"},
       {"LC_ALL": "POSIX", "PYTHONIOENCODING": "utf-8", "PYTHONUTF8": "0", "PYTHONHASHSEED": "random", "COLUMNS": "20"}, {"PYTHONOPTIMIZE": "1"}]


def plan(tier):
    return [("batch", 8 if tier == "quick" else 120)]


def child(jobs, env, cwd, *how):
    e = core.child_env()
    e.update(env)
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "rv.ops"] + list(how), input=json.dumps(jobs).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=e, cwd=cwd, timeout=600)
    if r.returncode:
        return r.stderr.decode("utf-8", "replace")[-1500:]
    return json.loads(r.stdout)


def case(kind, index, rng, mon):
    names = list(ops.OPS)
    jobs = [(n, rng.randrange(10 ** 9)) for n in names] + [(rng.choice(names[:-1]), rng.randrange(10 ** 9)) for _ in range(3)]
    truth = {}

    def note(job, got, how):
        if job not in truth:
            truth[job] = got
        mon.check(got == truth[job], "the same use of the library gives another answer", use=job[0], how=how)

    with lib.scratch() as cwd:
        lib.decoys(rng)
        # alone: each use is the first thing a process does
        alone = rng.sample(jobs, 6)
        for j in alone:
            got = child([j], {}, core.VERIF)
            mon.check(isinstance(got, list), "a use of the library fails in a fresh process", use=j[0], error=got)
            note(j, got[0], "alone in a fresh process")
            mon.ev("alone")
        for env in rng.sample(ENV, 2):
            order = rng.sample(jobs, len(jobs)) + rng.sample(jobs, 3)
            got = child(order, env, cwd)
            mon.check(isinstance(got, list), "a use of the library fails in a fresh process", env=env, error=got, order=order)
            for j, g in zip(order, got):
                note(j, g, "in a fresh process after others, with %s" % env)
            mon.ev("processes")
        several = [j for j in rng.sample(jobs, 5) for _ in range(2)]
        got = child(several, {}, cwd, "threads")
        mon.check(isinstance(got, list), "a use of the library fails in a fresh process", error=got)
        for j, g in zip(several, got):
            note(j, g, "in threads that are the first to use the library")
            mon.ev("first_threads")
    for j in rng.sample(jobs, len(jobs)) + rng.sample(jobs, len(jobs)):
        note(j, ops.run(j), "in a long-lived process")
        mon.ev("in_order")
    lanes = [rng.sample(jobs, 7) for _ in range(3)]
    if rng.random() < .5:
        lanes.append(lanes[0])
    results, errors = [], []

    def lane(mine):
        try:
            for j in mine:
                results.append((j, ops.run(j)))
        except BaseException as e:
            errors.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=lane, args=(x,)) for x in lanes]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.check(not errors, "a use of the library fails while others run", errors=errors)
    for j, g in results:
        note(j, g, "in a thread among others")
        mon.ev("threads")
    for j in jobs:
        mon.distinct(j)
    mon.ev("kinds", len(names))
    mon.ev("batches")
    mon.sample({"batch": jobs[:4]})
