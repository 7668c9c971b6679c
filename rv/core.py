"""Runner: executes the real code under generated workloads while monitors judge what it does.

    python -m rv ID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed. Exit 1: a VIOLATION line was printed. Exit 3: inconclusive
(too little was observed, or the harness could not run), which is neither.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("RV_REPO", "/repo"))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")

SOFT = {"quick": 150.0, "thorough": 700.0}      # stop starting new cases after this many seconds
STRETCH = {"quick": 480.0, "thorough": 780.0}   # the same while too little was observed (a slow machine)
HARD = {"quick": 780.0, "thorough": 860.0}      # a worker still running then is inconclusive
CASE_CPU = 90.0                                 # CPU seconds one case may use
STUCK = 240.0                                   # seconds one case may wait without using the CPU


class Violation(Exception):
    def __init__(self, msg, key=None, **witness):
        super().__init__(msg)
        self.msg, self.key, self.witness = msg, key, witness


class Hang(BaseException):
    pass


class Stuck(BaseException):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:300]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:400]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, (set, frozenset)):
        return [jsonable(v, depth + 1) for v in sorted(x, key=repr)[:400]]
    return repr(x)[:2000]


def stable_hash(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Mon:
    """What one worker observed."""

    def __init__(self, cid):
        self.cid = cid
        self.checks = 0
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.context = {}

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def distinct(self, sig):
        if len(self.sigs) < 60000:
            self.sigs.add(stable_hash(sig))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    def ctx(self, **kw):
        """Facts about the running case, put into the witness should it fail."""
        self.context.update(kw)

    def check(self, cond, msg, key=None, **witness):
        self.checks += 1
        if not cond:
            raise Violation(msg, key=key, **witness)

    def eq(self, got, expected, msg, key=None, **witness):
        self.checks += 1
        if not (got == expected):
            raise Violation(msg, key=key, got=got, expected=expected, **witness)


def load_known(cid):
    try:
        with open(KNOWN_FILE, encoding="utf-8") as f:
            return {k["key"]: k for k in json.load(f)["known"] if k["property"] == cid}
    except FileNotFoundError:
        return {}


def rng_for(cid, seed, kind, index):
    return random.Random("%s|%s|%s|%s" % (cid, seed, kind, index))


def schedule(plan):
    """All (kind, index) pairs, kinds interleaved in proportion."""
    items = []
    for kind, count in plan:
        for i in range(count):
            items.append(((i + 0.5) / count, kind, i))
    items.sort(key=lambda t: (t[0], t[1]))
    return [(k, i) for _, k, i in items]


# How many times the quick counts of a check are run: the checks that cost little look further.
MORE = {"C07": 1, "C18": 1, "C19": 1, "C38": 1, "C01": 2, "C03": 2, "C20": 2, "C25": 2, "C27": 2,
        **{"C" + n: 12 for n in "06 09 10 11 14 15 16 29 30 31 34 35 36 37".split()}}


def plan_of(mod, tier):
    counts = mod.plan(tier)
    if tier != "quick":
        return counts
    most = dict(mod.plan("thorough"))
    return [(k, min(n * MORE.get(mod.ID, 4), most[k]) if most[k] > n else n) for k, n in counts]


def share(plan, worker, nworkers):
    """The cases one worker runs: every kind is dealt out evenly."""
    first = {kind: n for n, (kind, _) in enumerate(plan)}
    return [(k, i) for k, i in schedule(plan) if (i + first[k]) % nworkers == worker]


def quiet_repo():
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from loguru import logger
    logger.remove()


def listen(n):
    """Who listens to what the code logs: nobody, or somebody to whom every message is given."""
    import logging
    from loguru import logger
    logger.remove()
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    if n % 2:
        logging.disable(logging.CRITICAL)
        return

    class Listener(logging.Handler):
        heard = 0

        def handle(self, record):
            try:
                record.getMessage()
            except Exception:           # as logging itself does, which tells stderr and goes on
                pass
            self.heard += 1
            if self.heard == 300:       # every step of a search is logged
                logging.disable(logging.INFO)

    root.addHandler(Listener())
    root.setLevel(logging.DEBUG if n % 8 == 0 else logging.WARNING)
    logging.disable(logging.NOTSET)
    logger.add(lambda message: None, level=0, format="{message}", backtrace=False, diagnose=False)


def import_repo():
    sys.path.insert(0, REPO)
    import mahjong
    path = os.path.abspath(mahjong.__file__)
    if not path.startswith(REPO + os.sep):
        raise RuntimeError("mahjong imported from %s, not from %s" % (path, REPO))
    quiet_repo()


def cpu():
    return sum(os.times()[:4])      # the processes this one waited for, too


def run_case(mod, mon, seed, kind, index):
    """Runs one case. None, or (message, key, witness)."""
    mon.context = {}

    def on_alarm(signum, frame):
        raise Hang()

    used = [cpu(), time.time()]

    def on_tick(signum, frame):
        if cpu() - used[0] > .01 * STUCK:
            used[:] = [cpu(), time.time()]
        elif time.time() - used[1] > STUCK:
            raise Stuck()

    signal.signal(signal.SIGALRM, on_tick)
    signal.setitimer(signal.ITIMER_REAL, STUCK / 8, STUCK / 8)
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    listen(index // 8)
    try:
        mod.case(kind, index, rng_for(mod.ID, seed, kind, index), mon)
        return None
    except Violation as v:
        return v.msg, v.key, dict(jsonable(v.witness), **jsonable(mon.context))
    except Hang:
        return ("no answer after %d s of CPU time on a case that takes a fraction of a second" % CASE_CPU,
                None, jsonable(mon.context))
    except Stuck:
        return "no answer: waited %d s without using the CPU" % STUCK, None, jsonable(mon.context)
    except SystemExit as e:
        return "unexpected exit of the program (%r)" % (e.code,), None, jsonable(mon.context)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        tb = traceback.format_exc()
        return ("unexpected %s: %s" % (type(e).__name__, str(e)[:500]), None,
                dict(jsonable(mon.context), traceback=tb[-4000:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(args):
    t0 = time.time()
    import_repo()
    mod = importlib.import_module("rv.checks." + args.id.lower())
    mon = Mon(args.id)
    known = load_known(args.id)
    out = {"cases": 0, "planned": 0, "violations": [], "known": {}, "per_kind": {}}
    items = share(plan_of(mod, args.tier), args.worker, args.nworkers)
    soft = SOFT[args.tier]
    floors = getattr(mod, "FLOORS", {})
    for kind, index in items:
        out["planned"] += 1
        if time.time() - t0 > soft:
            short = any(mon.events.get(k, 0) * args.nworkers < 1.3 * v for k, v in floors.items())
            if not short or time.time() - t0 > STRETCH[args.tier]:
                continue
        res = run_case(mod, mon, args.seed, kind, index)
        out["cases"] += 1
        out["per_kind"][kind] = out["per_kind"].get(kind, 0) + 1
        if res is not None:
            msg, key, witness = res
            if key is not None and key in known:
                out["known"][key] = out["known"].get(key, 0) + 1
                continue
            out["violations"].append({"kind": kind, "index": index, "message": msg, "key": key, "witness": witness,
                                      "worker": args.worker, "nworkers": args.nworkers})
            break
    out["meta"] = {"rule": mod.RULE, "floors": getattr(mod, "FLOORS", {}), "level": getattr(mod, "LEVEL", "exploration"),
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "exhaustive": getattr(mod, "EXHAUSTIVE", False)}
    out.update(checks=mon.checks, events=mon.events, sigs=sorted(mon.sigs), samples=mon.samples,
               wall=time.time() - t0)
    tmp = args.out + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(out, f)
    os.replace(tmp, args.out)


def child_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               LC_ALL="C.UTF-8", RV_REPO=REPO)
    return env


def replay(args):
    with open(args.replay, encoding="utf-8") as f:
        r = json.load(f)
    import_repo()
    mod = importlib.import_module("rv.checks." + r["property"].lower())
    mon = Mon(r["property"])
    if hasattr(mod, "warmup"):
        mod.warmup(mon)
    res = run_case(mod, mon, r["seed"], r["kind"], r["index"])
    if res is None and "worker" in r:
        print("REPLAY: the case alone shows nothing; running what its process had run before it, too")
        before = share(plan_of(mod, r["tier"]), r["worker"], r["nworkers"])
        for kind, index in before[:before.index((r["kind"], r["index"]))]:
            run_case(mod, mon, r["seed"], kind, index)
        res = run_case(mod, mon, r["seed"], r["kind"], r["index"])
    if res is None:
        print("REPLAY: the property held on this case")
        return 0
    print("REPLAY: %s" % res[0])
    print(json.dumps(res[2], ensure_ascii=False, indent=1)[:8000])
    print("VIOLATION property=%s replay=%s" % (r["property"], args.replay))
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nworkers", type=int, default=int(os.environ.get("RV_WORKERS", "0")))
    ap.add_argument("--out")
    args = ap.parse_args(argv)
    if args.replay:
        return replay(args)
    if args.worker is not None:
        worker(args)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)     # threads that never end are not waited for

    t0 = time.time()
    nw = args.nworkers or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="rv-%s-" % args.id)
    procs = []
    rc = 3
    try:
        for w in range(nw):
            out = os.path.join(tmp, "w%d.json" % w)
            err = open(os.path.join(tmp, "w%d.err" % w), "wb")
            p = subprocess.Popen([sys.executable, "-B", "-m", "rv", args.id, "--tier", args.tier,
                                  "--seed", str(args.seed), "--worker", str(w), "--nworkers", str(nw), "--out", out],
                                 env=child_env(), cwd=tmp, stdin=subprocess.DEVNULL, stdout=err, stderr=err)
            procs.append((p, out, err))
        deadline = t0 + HARD[args.tier]
        while any(p.poll() is None for p, _, _ in procs) and time.time() < deadline:
            time.sleep(0.05)
        problems, parts = [], []
        for p, out, err in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
                problems.append("a worker was still running at the watchdog")
            err.close()
            if os.path.exists(out):
                with open(out, encoding="utf-8") as f:
                    parts.append(json.load(f))
            elif not problems:
                with open(err.name, "rb") as f:
                    problems.append("a worker ended with code %s: %s" % (
                        p.returncode, f.read()[-1500:].decode("utf-8", "replace")))
        rc = report(args, parts, problems, time.time() - t0)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        for name in os.listdir(tmp):
            path = os.path.join(tmp, name)
            if os.path.isfile(path):
                os.unlink(path)
        try:
            os.rmdir(tmp)
        except OSError:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    return rc


def report(args, parts, problems, wall):
    events, per_kind, sigs, samples, known, violations = {}, {}, set(), [], {}, []
    cases = checks = planned = 0
    for p in parts:
        cases += p["cases"]
        planned += p["planned"]
        checks += p["checks"]
        for k, v in p["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in p["per_kind"].items():
            per_kind[k] = per_kind.get(k, 0) + v
        for k, v in p["known"].items():
            known[k] = known.get(k, 0) + v
        sigs.update(p["sigs"])
        samples.extend(p["samples"][:1])
        violations.extend(p["violations"])
    meta = parts[0]["meta"] if parts else {"rule": "", "floors": {}, "level": "exploration", "assumptions": [],
                                            "exhaustive": False}
    if not parts and not problems:
        problems.append("no worker reported")
    for k, n in meta["floors"].items():
        if events.get(k, 0) < n:
            problems.append("only %d observations of '%s' (at least %d needed)" % (events.get(k, 0), k, n))
    evidence = {
        "property": args.id, "tier": args.tier, "seed": args.seed, "level": meta["level"],
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs), "rule": meta["rule"],
            "samples": samples[:5] or ["none"], "oracle_checks": checks, "cases_per_kind": per_kind,
            "events_observed": dict(sorted(events.items())),
            "planned_cases": planned, "skipped_after_soft_deadline": planned - cases if not violations else None,
            "known_findings_seen": known, "inconclusive": problems,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if meta["exhaustive"] and cases == planned:
        evidence["coverage"]["exhaustive"] = True
    edir = os.environ.get("RV_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, args.id + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)
    print("%s tier=%s seed=%d cases=%d oracle_checks=%d distinct=%d wall=%.1fs" % (
        args.id, args.tier, args.seed, cases, checks, len(sigs), wall))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    listed = load_known(args.id)
    for key in sorted(listed):
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (args.id, listed[key]["what"]))
    if violations:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in violations[:3]:
            body = dict(v, property=args.id, seed=args.seed, tier=args.tier)
            path = os.path.join(rdir, "%s-%s-%d.json" % (args.id, v["kind"], v["index"]))
            with open(path, "w", encoding="utf-8") as f:
                json.dump(body, f, ensure_ascii=False, indent=1)
            print("  %s[%d]: %s" % (v["kind"], v["index"], v["message"]))
            for k in ("got", "expected"):
                if k in v["witness"]:
                    print("    %s: %s" % (k, str(v["witness"][k])[:400]))
            print("VIOLATION property=%s replay=%s" % (args.id, path))
        return 1
    if problems:
        print("INCONCLUSIVE: " + "; ".join(problems))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
