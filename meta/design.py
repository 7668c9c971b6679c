"""Writes the per-property part of DESIGN.md from rv/checks and meta/gen.py; prose lives in meta/DESIGN.head.md and meta/DESIGN.tail.md."""
import importlib
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(src, name):
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            try:
                return ast.literal_eval(node.value)
            except ValueError:
                return eval(compile(ast.Expression(node.value), name, "eval"), {})
    return None


out = [open(os.path.join(V, "meta/DESIGN.head.md"), encoding="utf-8").read().rstrip(), "", "## Per property", ""]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json"), encoding="utf-8"))["checks"]}
for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)
    src = open(os.path.join(V, "rv/checks/%s.py" % p["id"].lower()), encoding="utf-8").read()
    floors = const(src, "FLOORS") or {}
    plan = re.search(r"def plan\(tier\):\n((?:    .*\n)+)", src).group(1)
    nums = re.search(r"return (.*)", plan).group(1).strip()
    out += ["### %s %s" % (p["id"], p["title"]), "",
            p["statement"], "",
            "- *Observed at*: %s." % ", ".join(p["anchors"]["observe_at"]),
            "- *Workload and oracle*: %s." % const(src, "RULE"),
            "- *Reach beyond tests*: %s" % p["why_tests_cant"],
            "- *Assurance*: %s" % man[p["id"]]["level_note"],
            "- *Cases (quick / thorough)*: `%s`; inconclusive (exit 3) below: %s." % (
                nums, ", ".join("%s %d" % kv for kv in floors.items()) or "none"), ""]
out += [open(os.path.join(V, "meta/DESIGN.tail.md"), encoding="utf-8").read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))
