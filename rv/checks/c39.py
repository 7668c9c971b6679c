"""Bit fields and number lists."""
from rv import lib
from mahjong.record.utils.bit import bit_struct_from_desc, named_tuple_from_desc, repack_to, unpack_with
from mahjong.record.utils.value.general import number_list

ID = "C39"
RULE = ("random descriptions of sixteen bits in one to sixteen fields, numbers of any width and flags of one bit, under any names, over "
        "many codes as text and as number: every field is compared with the bits cut out by shifting, and packing the fields again "
        "with the code; random lists of whole and broken numbers in every spelling, whose numbers and their types are compared with those meant; "
        "distinct = (description, code) and lists")
FLOORS = {"descriptions": 200, "codes": 10000, "lists": 3000, "flags": 500, "negative": 300, "broken": 500, "whole_as_broken": 300, "refused": 100}


def plan(tier):
    return [("bits", 24 if tier == "quick" else 600), ("numbers", 16 if tier == "quick" else 400)]


def layout(rng):
    left, out = 16, []
    most = rng.choice([1, 2, 4, 8, 16])
    while left:
        w = min(left, rng.randrange(1, most + 1))
        out.append(("b" if w == 1 and rng.random() < .6 else "u", w))
        left -= w
    names = rng.sample(["%s%d" % (c, i) for c in ("kui", "hai", "type", "padding_", "x") for i in range(5)], len(out))
    return [(n, k, w) for n, (k, w) in zip(names, out)]


def case(kind, index, rng, mon):
    if kind == "numbers":
        return numbers(rng, mon)
    for _ in range(12):
        fields = layout(rng)
        lines = ["%s:%s%d" % f for f in fields]
        desc = rng.choice(["\n", "\n    ", "  "]).join([""] + lines + [""]) if rng.random() < .7 else "\n".join(lines)
        packer, cls = bit_struct_from_desc(desc), named_tuple_from_desc("some_code", desc)
        mon.check(set(cls._fields) == {n for n, _, _ in fields} and len(cls._fields) == len(fields), "the fields are not those described",
                  fields=fields, got=cls._fields)
        for code in [0, 0xffff] + [rng.randrange(65536) for _ in range(60)] + [1 << i for i in range(16)]:
            got = unpack_with(cls, packer, rng.choice([code, str(code)]))
            at = 0
            for name, k, w in fields:
                want = code >> at & (1 << w) - 1
                at += w
                v = getattr(got, name)
                mon.check(v == want and (k == "u" or isinstance(v, bool)), "a field is not the bits described", code=code, fields=fields,
                          field=name, got=v, expected=want)
                mon.ev("flags", int(k == "b"))
            back = repack_to(packer, list(got))
            mon.eq(back[0] if isinstance(back, tuple) else back, code, "packing the fields again gives another code", fields=fields)
            mon.ev("codes")
            mon.distinct((tuple(fields), code))
        for code in (65536, -1, rng.randrange(65536, 10 ** 9)):
            try:
                got = unpack_with(cls, packer, rng.choice([code, str(code)]))
            except Exception:
                mon.ev("refused")
            else:
                mon.check(False, "a code of more than sixteen bits is read as another", code=code, got=got)
        mon.ev("descriptions")
        mon.sample({"fields": fields, "code": code})


def numbers(rng, mon):
    for _ in range(400):
        want, text = [], []
        for _ in range(rng.choice([1, 1, 2, 4, 8, 30])):
            n = rng.choice([0, rng.randrange(-9, 10), rng.randrange(-2000, 2000), rng.randrange(2 ** 31), -rng.randrange(10 ** 6)])
            how = rng.random()
            if how < .5:
                s = str(n)
            elif how < .65:
                s = "%d.%s" % (n, "0" * rng.randrange(1, 4))
                mon.ev("whole_as_broken")
            else:
                n = rng.choice([n + rng.randrange(1, 100) / 100, n - .5, rng.uniform(-1, 1), rng.randrange(-99999, 99999) / 10])
                s = repr(n)
                n = int(n) if n == int(n) else n
                mon.ev("broken", int(isinstance(n, float)))
            if rng.random() < .1:
                s = rng.choice([" %s", "%s ", "+%s" if not s.startswith("-") else "%s"]) % s
            mon.ev("negative", int(n < 0))
            want.append(n)
            text.append(s)
        sep = rng.choice([",", ",", ",", ";", "|", "/"])
        joined = sep.join(text)
        got = number_list(joined) if sep == "," and rng.random() < .7 else number_list(joined, sep) if rng.random() < .5 else number_list(joined, split=sep)
        mon.check(list(got) == want and [type(x) for x in got] == [type(x) for x in want], "a list of numbers is read wrongly", text=joined,
                  got=got, expected=want)
        if isinstance(got, list):
            got[:] = ["spoilt"]
        mon.check(list(number_list(joined, sep)) == want, "a list of numbers read again is another", text=joined)
        mon.ev("lists")
        mon.distinct(joined)
    mon.sample({"text": joined, "numbers": want})
