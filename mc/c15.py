"""C15: static UID validation reports every change in the right class."""

import itertools
import re

from . import idref, ref, scale
from .c13 import UNIT_FILES, UNITS
from .core import h
from .modelcheck import ModelCheck, tail, yload

B = {"type": "branch", "description": "b"}

BASE = {
    "A": {"type": "branch", "description": "root"},
    "A.B": {"type": "branch", "description": "bee"},
    "A.B.X": {"type": "sensor", "datatype": "uint8", "description": "x", "unit": "km", "min": 0, "max": 10},
    "A.B.Y": {"type": "attribute", "datatype": "string", "description": "y", "allowed": ["a", "b"]},
    "A.C": {"type": "branch", "description": "cee", "deprecation": "v1"},
    "A.C.Z": {"type": "actuator", "datatype": "float", "description": "z", "deprecation": "v1 soon"},
    "A.IsW": {"type": "sensor", "datatype": "boolean", "description": "w", "fka": ["A.W"]},
}


def rename(d, old, new, fka=None, keep_position=True):
    """Rename old (with its subtree) to new; fka: names to put on the renamed nodes ({old} = their old path)"""
    if old not in d or new in d:
        return None
    out = {}
    moved = {}
    for k, v in d.items():
        if k == old or k.startswith(old + "."):
            n = new + k[len(old):]
            v = dict(v)
            if fka is not None:
                v["fka"] = [f.replace("{old}", k) for f in fka]
            if keep_position:
                out[n] = v
            else:
                moved[n] = v
        else:
            out[k] = v
    out.update(moved)
    return out if all("." not in k or k.rsplit(".", 1)[0] in out for k in out) else None


def setter(node, **attrs):
    def f(d):
        if node not in d:
            return None
        v = dict(d[node])
        for k, x in attrs.items():
            if x is None:
                v.pop(k, None)
            else:
                v[k] = x
        if v == d[node]:
            return None
        return {**d, node: v}

    return f


def remover(node):
    def f(d):
        if node not in d:
            return None
        return {k: v for k, v in d.items() if k != node and not k.startswith(node + ".")}

    return f


def adder(node, body, front=False):
    def f(d):
        if node in d or node.rsplit(".", 1)[0] not in d or d[node.rsplit(".", 1)[0]]["type"] != "branch":
            return None
        if not front:
            return {**d, node: body}
        # directly below its parent, before its siblings
        p = node.rsplit(".", 1)[0]
        out = {}
        for k, v in d.items():
            out[k] = v
            if k == p:
                out[node] = body
        return out

    return f


def renamer(*a, **kw):
    return lambda d: rename(d, *a, **kw)


def swap(x, y, fka):
    def f(d):
        if x not in d or y not in d:
            return None
        out = {}
        for k, v in d.items():
            if k == x:
                out[y] = {**v, **({"fka": [x]} if fka else {})}
            elif k == y:
                out[x] = {**v, **({"fka": [y]} if fka else {})}
            else:
                out[k] = v
        return out

    return f


S8 = {"type": "sensor", "datatype": "uint8", "description": "new"}
EDITS = {
    "dt X": setter("A.B.X", datatype="uint16"), "dt Z": setter("A.C.Z", datatype="double"), "arr X": setter("A.B.X", datatype="uint8[]"),
    "type X": setter("A.B.X", type="actuator"), "type Y": setter("A.B.Y", type="sensor"),
    "unit X": setter("A.B.X", unit="mm"), "no unit X": setter("A.B.X", unit=None), "unit Z": setter("A.C.Z", unit="km"),
    "allowed Y": setter("A.B.Y", allowed=["a", "b", "c"]), "order Y": setter("A.B.Y", allowed=["b", "a"]), "no allowed Y": setter("A.B.Y", allowed=None),
    "min X": setter("A.B.X", min=1), "no min X": setter("A.B.X", min=None), "max X": setter("A.B.X", max=11), "min Z": setter("A.C.Z", min=0), "swap limits": setter("A.B.X", min=10, max=0),
    "desc X": setter("A.B.X", description="changed"), "desc B": setter("A.B", description="changed bee"), "desc A": setter("A", description="changed root"), "desc W": setter("A.IsW", description="W"),
    "depr Z": setter("A.C.Z", deprecation="v2 now"), "depr C": setter("A.C", deprecation="v3"), "comment X": setter("A.B.X", comment="c"), "default Y": setter("A.B.Y", default="a"),
    "del X": remover("A.B.X"), "del B": remover("A.B"), "del W": remover("A.IsW"), "del C": remover("A.C"),
    "add N": adder("A.N", S8), "add N front": adder("A.N", S8, True), "add B.N": adder("A.B.N", B), "add X8": adder("A.B.X", S8), "add X8 front": adder("A.B.X", S8, True), "add Y8 front": adder("A.B.Y", S8, True),
    "ren X": renamer("A.B.X", "A.B.Xx"), "ren X fka": renamer("A.B.X", "A.B.Xx", ["{old}"]), "ren X fka2": renamer("A.B.X", "A.B.Xx", ["A.B.Older", "{old}"]),
    "ren X fka1": renamer("A.B.X", "A.B.Xx", ["{old}", "A.B.Older"]), "ren X wrong fka": renamer("A.B.X", "A.B.Xx", ["A.B.Older"]), "ren X last fka": renamer("A.B.X", "A.B.Xx", ["{old}"], False),
    "ren X last fka2": renamer("A.B.X", "A.B.Xx", ["A.Q", "{old}"], False),
    "mov X": renamer("A.B.X", "A.C.X"), "mov X fka": renamer("A.B.X", "A.C.X", ["{old}"]), "mov Z up fka": renamer("A.C.Z", "A.Z", ["A.Q", "{old}"]),
    "ren Y fka": renamer("A.B.Y", "A.B.Yy", ["{old}"]), "ren B": renamer("A.B", "A.Bb"), "ren B fka": renamer("A.B", "A.Bb", ["{old}"]), "ren C fka2": renamer("A.C", "A.Cc", ["A.Q", "{old}"]),
    "X to Y name": renamer("A.B.X", "A.B.Y"), "X to Y name fka": renamer("A.B.X", "A.B.Y", ["{old}"]),
    "case X": renamer("A.B.X", "A.B.x".replace("x", "XX")), "lower X": renamer("A.B.X", "A.B.x"), "case W": renamer("A.IsW", "A.ISW"),
    "swap XY": swap("A.B.X", "A.B.Y", False), "swap XY fka": swap("A.B.X", "A.B.Y", True),
    "ren W fka": renamer("A.IsW", "A.IsWw", ["A.W"]), "ren W fka2": renamer("A.IsW", "A.IsWw", ["{old}", "A.W"]), "W no fka": setter("A.IsW", fka=None),
    "root": renamer("A", "Root"), "root fka": renamer("A", "Root", ["{old}"]),
}  # fmt: skip

# Edits of one place in every way a report may fail to notice
FINE = {
    **{f"desc {n} {i}": setter(n, description=f(BASE[n]["description"])) for n in ("A", "A.B", "A.B.X", "A.IsW") for i, f in enumerate((
        str.upper, str.title, lambda t: t + ".", lambda t: t + " ", lambda t: " " + t, lambda t: t + "\n", lambda t: t.replace(" ", "  "), lambda t: t[:-1], lambda t: t + "\u00e9", lambda t: t * 40, lambda t: t[::-1], lambda t: "0", lambda t: "None"))},
    **{f"depr Z {i}": setter("A.C.Z", deprecation=t) for i, t in enumerate(("V2", "v2 ", "v2.", "v", "v" * 100))},
    **{f"ren {n} fka {size} {i}": renamer(n, new, [f"A.Old{j}" if j != i else "{old}" for j in range(size)], kp) for n, new, kp in (("A.B.X", "A.B.Xx", True), ("A.B.Y", "A.C.Yy", False), ("A.B", "A.Bb", True)) for size in (3, 4, 5, 9) for i in range(size)},
    **{f"X8 fka {size} {i}": adder("A.B.X8", {**S8, "fka": [f"A.Old{j}" if j != i else "A.B.X" for j in range(size)]}) for size in (1, 3, 4) for i in range(size)},
    **{f"unit {n} {u}": setter(n, unit=u) for n in ("A.B.X", "A.C.Z") for u in UNITS},
    **{f"limit {a} {v}": setter("A.B.X", **{a: v}) for a, v in (("min", -0.0), ("min", 0.5), ("min", 2), ("max", 10.0), ("max", 10.5), ("max", 255), ("max", 1), ("max", 100))},
    **{f"allowed {i}": setter("A.B.Y", allowed=v) for i, v in enumerate((["a"], ["b"], ["ab"], ["a", "B"], ["a", "b "], ["a,b"], ["a", "b", "a"], ["a", "", "b"]))},
    **{f"dt {n} {t}": setter(n, datatype=t, **({"min": None, "max": None, "unit": None} if t in ("string", "boolean") else {})) for n in ("A.B.X", "A.C.Z") for t in ("uint8", "int8", "uint16", "int16", "uint32", "int64", "float", "double", "float[]", "double[]", "string", "boolean")},
}  # fmt: skip


def build(d):
    root = ref.build(ref.compose([d]))
    ref.check_tree(root, [], UNITS)
    ref.check_parents(root)
    return root


def report(old, new, attrs, cs):
    """Expected report.  old/new: id exports (fqn -> dict); attrs: fqn -> model attributes of the new version.

    -> (exact set of messages, set of messages that may or may not be there)
    """
    exact, free = set(), set()
    by_uid = {int(v["staticUID"], 16): k for k, v in old.items()}
    taken = set()
    rest = []

    def texts(key, o, where):
        if new[key]["description"] != old[o]["description"]:
            where.add(("DESCRIPTION", key))
        a, b = new[key].get("deprecation"), old[o].get("deprecation")
        if a and b and a != b:
            where.add(("DEPRECATION", key))
        elif a != b:
            free.add(("DEPRECATION", key))

    for key, v in new.items():
        uid = int(v["staticUID"], 16)
        former = []
        for f in v.get("fka", []):
            u = int(idref.uid(key, attrs[key], cs, name=f), 16)
            if u in by_uid and by_uid[u] not in former:
                former.append(by_uid[u])
        if uid in by_uid:
            o = by_uid[uid]
            taken.add(o)
            if o != key and o in former:
                exact.add(("SEMANTIC", key, o))
            for x in former:
                if x != o:
                    free.add(("SEMANTIC", key, x))
            texts(key, o, exact)
        elif former:
            # with several names that match it is left open which one counts
            if len(former) > 1:
                return None
            taken.add(former[0])
            exact.add(("SEMANTIC", key, former[0]))
            texts(key, former[0], free)
        else:
            rest.append(key)
    for key in rest:
        if key in old and key not in taken:
            taken.add(key)
            exact.add(("BREAKING", key))
            free.add(("DESCRIPTION", key))
            free.add(("DEPRECATION", key))
        else:
            exact.add(("ADDED", key))
    for o in old:
        if o not in taken:
            exact.add(("DELETED", o))
    return exact, free


PATTERNS = [
    (re.compile(r"BREAKING CHANGE: There was a breaking change for '([^']*)'"), "BREAKING"),
    (re.compile(r"ADDED ATTRIBUTE: The node '([^']*)'"), "ADDED"),
    (re.compile(r"DELETED ATTRIBUTE: '([^']*)'"), "DELETED"),
    (re.compile(r"SEMANTIC NAME CHANGE or PATH CHANGE for '([^']*)', it used to be '([^']*)'"), "SEMANTIC"),
    (re.compile(r"DESCRIPTION MISMATCH: The description of (\S+) has changed"), "DESCRIPTION"),
    (re.compile(r"DEPRECATION MSG CHANGE: Deprecation message for '([^']*)'"), "DEPRECATION"),
]


def parse(log):
    got = []
    for chunk in re.split(r"\[Validation\]", log)[1:]:
        for pat, cls in PATTERNS:
            m = pat.search(chunk)
            if m:
                got.append((cls, *m.groups()))
                break
        else:
            got.append(("UNKNOWN", chunk[:120]))
    return got


class C15(ModelCheck):
    id = "C15"
    preload = ("id",)
    rule = (
        "every edit of the edit alphabet (59 edits: identity and other attributes, renames, moves, swaps, additions, deletions, with and "
        "without former names) and every ordered pair of edits applied to a model (thorough: triples over a sub-alphabet), then the old "
        "export validated against the new model; two-step histories validated against both older exports; every case-sensitivity / strictness "
        "combination for single edits. state = distinct report, transition = one CLI run"
    )
    assumptions = [
        "left open: which former name counts when several match, text changes of a node whose identity changed or whose former name is "
        "not the first one, deprecation messages that appear or vanish",
        "log messages are recognised by their class names",
    ]

    def case(self, key, versions, cs=False, strict=False, only=False, against=None):
        files = {f"v{i}.vspec": ref.text(v) for i, v in enumerate(versions)}
        files.update(UNIT_FILES)
        opt = (["--case-sensitive"] if cs else []) + (["--strict"] if strict else [])
        runs = []
        for i in range(len(versions)):
            runs.append({"argv": ["export", "id", "-s", f"v{i}.vspec", "-o", f"e{i}.vspec"] + opt, "read": [f"e{i}.vspec"], "log": "ERROR"})
            for j in range(i + 1) if against is None else against:
                if j <= i and (j < i or (i == 0 and against is None)):
                    runs.append(
                        {
                            "argv": ["export", "id", "-s", f"v{i}.vspec", "-o", f"x{i}{j}.vspec", "--validate-static-uid", f"e{j}.vspec"] + opt + (["--validate-only"] if only else []),
                            "read": [f"x{i}{j}.vspec"], "log": "WARNING", "cmp": [i, j],
                        }
                    )  # fmt: skip
        return {"key": key, "files": files, "runs": runs, "versions": versions, "cs": cs, "strict": strict, "only": only}

    def cases(self, tier):
        def app(names, d=BASE):
            for n in names:
                d = EDITS[n](d)
                if d is None:
                    return None
            try:
                build(d)
            except ref.Reject:
                return None
            return d

        for cs, strict, only in itertools.product((False, True), repeat=3):
            yield self.case(f"none:{cs}:{strict}:{only}", [BASE, BASE], cs, strict, only)
            yield self.case(f"noise:{cs}:{strict}:{only}", [BASE, dict(reversed(list(BASE.items())))], cs, strict, only)
        for e in EDITS:
            d = app([e])
            if d is None:
                continue
            for cs, strict, only in itertools.product((False, True), repeat=3):
                if only and cs:
                    continue
                yield self.case(f"one:{e}:{cs}:{strict}:{only}", [BASE, d], cs, strict, only, against=[0])
                if not only and not strict:
                    yield self.case(f"undo:{e}:{cs}", [d, BASE], cs, strict, only, against=[0])
        for e, f in FINE.items():
            d = f(BASE)
            try:
                if d is not None and d != BASE:
                    build(d)
            except ref.Reject:
                continue
            if d is not None and d != BASE:
                for cs in (False, True):
                    yield self.case(f"fine:{e}:{cs}", [BASE, d], cs, against=[0])
                yield self.case(f"fineundo:{e}", [d, BASE], against=[0])
        for e, f in itertools.permutations(EDITS, 2):
            d = app([e, f])
            if d is None or d == BASE:
                continue
            for cs in (False, True):
                if cs and tier == "quick" and "fka" not in e + f:
                    continue
                yield self.case(f"two:{e}:{f}:{cs}", [BASE, d], cs, against=[0])
        # edits of any node of larger trees
        for key, main, _ in scale.sweep(16, instances=False, structs=False):
            if key not in ("scale:depth:7", "scale:leaves:15", "scale:branches:9", "scale:bushy:3:3", "scale:leaves:65", "scale:sink", "scale:depth:16"):
                continue
            main = {k: {a: x for a, x in v.items() if a not in ("instances", "unit", "instantiate", "arraysize")} for k, v in main.items()}
            for i, k in enumerate(main):
                if k == "A" or len(main) > 40 and i % 8:
                    continue
                v, sig = main[k], main[k]["type"] != "branch"
                edits = {
                    "desc": {**main, k: {**v, "description": "edited"}}, "depr": {**main, k: {**v, "deprecation": "edited"}},
                    "gone": {x: y for x, y in main.items() if not (x + ".").startswith(k + ".")},
                    "ren": rename(main, k, k + "New"), "renfka": rename(main, k, k + "New", ["{old}"]), "renend": rename(main, k, k + "New", ["{old}"], False),
                }
                if sig:
                    edits["dt"] = {**main, k: {"type": v["type"], "datatype": "string" if v["datatype"] != "string" else "uint8", "description": v["description"]}}
                else:
                    edits["add"] = {**main, k + ".Added": {"type": "sensor", "datatype": "uint8", "description": "new"}}
                for name, d in edits.items():
                    if d is not None:
                        yield self.case(f"large:{key}:{name}:{k}", [main, d], against=[0])
        hist = list(EDITS) if tier == "thorough" else ["dt X", "desc X", "del X", "add X8 front", "ren X fka", "ren X fka2", "mov X fka", "ren B fka", "swap XY fka", "add N", "depr Z", "lower X"]
        for e, f in itertools.product(hist, repeat=2):
            d1 = app([e])
            d2 = app([f], d1) if d1 else None
            if d1 and d2:
                yield self.case(f"hist:{e}:{f}", [BASE, d1, d2])
        if tier == "thorough":
            sub = [e for e in EDITS if "fka" in e or "add" in e or "ren" in e or e in ("dt X", "desc X", "del X", "swap XY", "unit X")]
            for t in itertools.permutations(sub, 3):
                d = app(t)
                if d is not None and d != BASE:
                    yield self.case(f"three:{':'.join(t)}", [BASE, d], against=[0])

    def judge(self, case, outs):
        bads, states = [], []
        cs = case["cs"]
        exps, attrs = [], []
        for v in case["versions"]:
            root = build(v)
            exps.append(idref.export(root, cs))
            attrs.append({f: n.attrs for f, n in root.walk()})
        strict_bad = [any(not ref.name_ok(n) for _, n in build(v).walk()) if case["strict"] else False for v in case["versions"]]
        for run, out in zip(case["runs"], outs):
            if "cmp" not in run:
                continue
            i, j = run["cmp"]
            if any(idref.collides(e) or strict_bad[x] for x, e in enumerate(exps) if x in (i, j)):
                continue  # no valid export to compare with
            tag = f"v{i} against v{j}"
            if out["rc"] != 0:
                bads.append(("status", f"{tag}: exit status {out['rc']}\n{tail(out['log'])}"))
                continue
            res = report(exps[j], exps[i], attrs[i], cs)
            if res is None:
                continue
            exact, free = res
            got = parse(out["log"])
            gs = set(got)
            if len(gs) != len(got):
                bads.append(("repeated", f"{tag}: repeated messages {[g for g in got if got.count(g) > 1]}"))
            for cls in sorted({x[0] for x in exact | gs}):
                e = {x for x in exact if x[0] == cls}
                g = {x for x in gs if x[0] == cls}
                if e - g or (g - e) - free:
                    bads.append((f"report:{cls}", f"{tag}: missing {sorted(e - g)}, unexpected {sorted((g - e) - free)}\nreport: {sorted(gs)}\nexpected: {sorted(exact)}"))
            body = out["out"][run["read"][0]]
            if case["only"] != (body is None):
                bads.append(("output", f"{tag}: output {'missing' if body is None else 'written'}"))
            elif body is not None and not ref.same(yload(body), exps[i]):
                bads.append(("export", ref.diff(exps[i], yload(body))))
            states.append(h(sorted(gs)))
        return bads, states or ["reject"]


CHECK = C15
