"""Building commands under nested defaults."""
import threading

from rv import lib
from mahjong.record.utils.builder import Builder, StackedDict

ID = "C35"
RULE = ("random trees of nested default scopes, entered and left in order, left by exceptions, by abandoned generators and early "
        "returns, made in one place and entered in others, with values given again at the call, several builders at once and in threads; every built value must have exactly "
        "the fields in force, innermost first, and every scope left must leave the fields as before it; distinct = histories")
FLOORS = {"builds": 10000, "overrides": 1000, "exceptions": 500, "ctor_failures": 300, "abandoned": 200, "two_builders": 500, "deep": 500,
          "threads": 8, "made_before": 500, "broke_out": 200}


def plan(tier):
    return [("tree", 48 if tier == "quick" else 900), ("threads", 4 if tier == "quick" else 40)]


class Stop(Exception):
    pass


FIELDS = ["prop", "update", "value", "sub_scope", "event", "x"]


def some(rng, lo=0, hi=3):
    return {k: rng.choice([None, 0, False, rng.randrange(100), "v%d" % rng.randrange(9), (1, 2)]) for k in rng.sample(FIELDS, rng.randrange(lo, hi + 1))}


def merged(stack):
    out = {}
    for d in stack:
        out.update(d)
    return out


def build(mon, b, stack, rng):
    own = some(rng)
    calls = []
    want = merged(stack + [own])
    if rng.random() < .08:
        old = b.ctor

        def fail(**kw):
            calls.append(kw)
            raise Stop()
        b.ctor = fail
        try:
            b(**own)
            mon.check(False, "a failing construction passes unnoticed")
        except Stop:
            mon.eq(calls, [want], "a value is built from other fields")
            mon.ev("ctor_failures")
        finally:
            b.ctor = old
    else:
        mon.eq(b(**own), want, "a value is built from other fields", stack=stack, own=own)
    mon.ev("builds")
    if set(own) & set(merged(stack)):
        mon.ev("overrides")


class Stack(list):
    """The fields in force, and scopes made for later."""

    def __init__(self, *a):
        super().__init__(*a)
        self.made = []


def walk(mon, bs, stacks, rng, depth):
    for _ in range(rng.randrange(1, 5)):
        i = rng.randrange(len(bs))
        b, stack = bs[i], stacks[i]
        r = rng.random()
        if r < .45 or depth > 6:
            build(mon, b, stack, rng)
            if len(bs) > 1:
                mon.ev("two_builders")
            continue
        d = some(rng)
        if depth > 3:
            mon.ev("deep")
        if r < .6:
            try:
                with b.when(**d):
                    stack.append(d)
                    walk(mon, bs, stacks, rng, depth + 1)
                    raise Stop()
            except Stop:
                mon.ev("exceptions")
            stack.pop()
        elif r < .7:
            def gen():
                with b.when(**d):
                    for _ in range(4):
                        yield b(**{"x": 5})
            g = gen()
            for _ in range(rng.randrange(1, 5)):
                mon.eq(next(g), merged(stack + [d, {"x": 5}]), "a value built in a generator has other fields")
            g.close()
            mon.ev("abandoned")
        elif r < .73:
            # what breaks out of a scope breaks out of all it does, whatever it is
            how = rng.choice([Stop, GeneratorExit, KeyboardInterrupt, StopIteration, SystemExit, AttributeError, KeyError, ValueError])
            ran, out = [], None
            try:
                with b.when(**d):
                    with b.when(**some(rng)):
                        raise how()
                    ran.append(1)
                ran.append(2)
            except BaseException as e:
                out = type(e)
            mon.check(out is how and not ran, "leaving a scope swallows what broke out of it", raised=how.__name__, got=repr(out), ran=ran)

            def late():
                with b.when(**d):
                    yield
                ran.append(3)
            g = late()
            next(g)
            g.close()
            mon.check(not ran, "an abandoned generator runs on after its scope")
            mon.ev("broke_out")
        elif r < .78:
            # made here, entered anywhere and as often as one likes
            stack.made.append((b.when(**d), d))
            build(mon, b, stack, rng)
        elif r < .9 and stack.made:
            scope, d = rng.choice(stack.made)
            with scope:
                stack.append(d)
                mon.ev("made_before")
                walk(mon, bs, stacks, rng, depth + 1)
            stack.pop()
        else:
            with b.when(**d):
                stack.append(d)
                walk(mon, bs, stacks, rng, depth + 1)
            stack.pop()
        build(mon, b, stack, rng)


def make(rng):
    if rng.random() < .3:
        init = some(rng)
        keep = dict(init)
        return Builder(lambda **kw: kw, StackedDict(init)), Stack([init]), keep
    return Builder(lambda **kw: kw), Stack([{}]), {}


def case(kind, index, rng, mon):
    import random
    if kind == "threads":
        out = {}

        def run(n, seed):
            r = random.Random(seed)
            b, stack, _ = make(r)
            try:
                for _ in range(20):
                    walk(Quiet(), [b], [stack], r, 0)
                out[n] = "ok"
            except BaseException as e:
                out[n] = repr(e)
        ts = [threading.Thread(target=run, args=(n, rng.random())) for n in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for n in range(4):
            mon.eq(out.get(n), "ok", "builders of different threads disturb each other")
            mon.ev("threads")
        return
    for _ in range(25):
        made = [make(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        bs, stacks = [m[0] for m in made], [m[1] for m in made]
        for _ in range(4):
            walk(mon, bs, stacks, rng, 0)
        for b, stack, keep in made:
            mon.eq(stack[0], keep, "building changed the first defaults")
            mon.eq(b(), keep, "a scope that was left is still in force")
        fresh = Builder(lambda **kw: kw)
        mon.eq(fresh(), {}, "a new builder starts with fields of another")
    mon.distinct((index,))
    mon.sample({"builders": len(bs)})


class Quiet:
    def ev(self, *a):
        pass

    def eq(self, got, want, msg, **kw):
        assert got == want, msg

    def check(self, cond, msg, **kw):
        assert cond, msg
