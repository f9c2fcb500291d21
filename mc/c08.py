"""C08: unknown attributes and naming violations follow the requested policy."""

import itertools
import json

from . import ref
from .core import h
from .modelcheck import ModelCheck, argv, compare_yaml, expectation, split_types


def compare_json(case, out, model, reason, name="o.out"):
    m = case["model"]
    got = out["out"].get(name)
    if model is None:
        if out["rc"] == 0:
            return [("json-accepted", f"expected rejection ({reason})")], ["BAD"]
        return [], ["reject"]
    if out["rc"] != 0 or got is None:
        return [("json-rejected", f"expected acceptance, exit status {out['rc']}:\n{out['log'][-600:]}")], ["BAD"]
    doc, types = split_types(json.loads(got))
    bads = []
    exp = {model.root.name: ref.nested(model.root, m.get("whitelist", ()), m.get("all_ext", False))}
    if not ref.same(exp, doc):
        bads.append(("json-differs", ref.diff(ref.flatten_json(exp), ref.flatten_json(doc))))
    if model.types is not None and not m.get("types_output"):
        texp = {model.types.name: ref.nested(model.types, m.get("whitelist", ()), m.get("all_ext", False))}
        if not ref.same(texp, types):
            bads.append(("json-types-differ", ref.diff(ref.flatten_json(texp), ref.flatten_json(types or {}))))
    return bads, [h(["json", doc, types])]


POLICIES = [(), ("--strict",), ("-a", "unknown-attribute"), ("-a", "name-style"), ("-a", "unknown-attribute", "-a", "name-style")]


def policy(p):
    return {"strict": "--strict" in p, "aborts": [x for x in p if not x.startswith("-")]}


TREE = {
    "A": {"type": "branch", "description": "a"},
    "A.B": {"type": "branch", "description": "b", "instances": ["L", "R"]},
    "A.B.X": {"type": "sensor", "datatype": "uint8", "description": "x"},
    "A.C": {"type": "branch", "description": "c"},
    "A.C.Y": {"type": "attribute", "datatype": "string", "description": "y"},
    "A.C.Z": {"type": "actuator", "datatype": "T.S", "description": "z"},
}
TYPES = {
    "T": {"type": "branch", "description": "t"},
    "T.S": {"type": "struct", "description": "s"},
    "T.S.P": {"type": "property", "datatype": "uint8", "description": "p"},
    "T.S.Q": {"type": "property", "datatype": "string", "description": "q"},
}


class C08(ModelCheck):
    id = "C08"
    preload = ("yaml", "json")
    rule = (
        "(attribute name x value x node) placements, singly and in pairs, over a signal tree and a type tree x 5 abort policies x 4 whitelists x "
        "extend-all, exported as YAML and as JSON; node names from a 24 letter alphabet x datatype x position x policy; core attributes on "
        "foreign node types; invalid whitelist options. state = distinct export or rejection, transition = one CLI run"
    )

    def compare(self, case, out, model, reason):
        raise NotImplementedError

    def judge(self, case, outs):
        model, reason = expectation(case)
        bads, states = [], []
        for run, out in zip(case["runs"], outs):
            cmp = compare_json if run["argv"][1] == "json" else compare_yaml
            b, s = cmp(case, out, model, reason)
            bads += b
            states += s
        return bads, states

    def mk(self, key, layers, pol=(), wl=(), all_ext=False, types=None, reject=False, extra=(), formats=("yaml", "json")):
        files = {"m.vspec": ref.text(layers[0])}
        ov = []
        for i, l in enumerate(layers[1:]):
            files[f"o{i}.vspec"] = ref.text(l)
            ov.append(f"o{i}.vspec")
        x = list(pol) + list(itertools.chain(*[["-e", w] for w in wl])) + (["--extend-all-attributes"] if all_ext else []) + list(extra)
        model = {"layers": [{"A": None}] if reject else layers, "whitelist": list(wl), "all_ext": all_ext, **policy(pol)}
        if types:
            files["t.vspec"] = ref.text(types)
            x += ["-t", "t.vspec"]
            model["types"] = [types]
        runs = [{"argv": argv(f, overlays=ov, extra=x), "read": ["o.out"]} for f in formats]
        return {"key": f"{key}|{' '.join(pol)}|{'+'.join(wl)}|{all_ext}", "files": files, "runs": runs, "model": model}

    def put(self, places):
        t = {k: dict(v) for k, v in TREE.items()}
        y = {k: dict(v) for k, v in TYPES.items()}
        for node, attr, v in places:
            (t if node in t else y)[node][attr] = v
        return t, y

    def cases(self, tier):
        nodes = list(TREE) + list(TYPES)
        wls = [(), ("foo",), ("bar",), ("foo", "bar")]
        # one unknown attribute
        for node in nodes:
            for pol, wl, ae in itertools.product(POLICIES, wls, (False, True)):
                t, y = self.put([(node, "foo", "v")])
                yield self.mk(f"one:{node}", [t], pol, wl, ae, y)
        # unknown attributes whose names contain, extend or respell a whitelisted one
        near = ("f", "fo", "foo", "oo", "o", "fooo", "xfoo", "foo_", "Foo", "FOO", "fo.o", "foo bar", "min_", "mi", "descriptio", "x")
        for node in ("A", "A.B.X", "A.C.Y", "T.S", "T.S.P"):
            for attr in near:
                for wl in (("foo",), ("fo",), ("oo", "fooo"), ("foo", "fo"), ("o", "f"), ("foobar",)):
                    for pol, ae in itertools.product(POLICIES, (False, True)):
                        t, y = self.put([(node, attr, "v")])
                        yield self.mk(f"near:{node}:{attr}", [t], pol, wl, ae, y)
        # values of unknown attributes survive
        for v in (0, False, "", 1.5, [], [1, "a"], {}, {"a": {"b": [1]}}, "ü\n'x'", None, True):
            for node in ("A", "A.B.X", "A.C.Y", "T.S.P"):
                for wl, ae in (((), False), (("foo",), False), ((), True)):
                    t, y = self.put([(node, "foo", v)])
                    if node.startswith("T") and not wl:
                        continue
                    yield self.mk(f"value:{node}:{ref.val(v)}", [t], (), wl, ae, y)
        # pairs
        for n1, n2 in itertools.product(nodes, repeat=2):
            for pol in POLICIES if tier == "thorough" else POLICIES[:2]:
                for wl in wls:
                    for ae in (False, True) if pol == () else (False,):
                        t, y = self.put([(n1, "foo", 1), (n2, "bar", 2)])
                        yield self.mk(f"two:{n1}/{n2}", [t], pol, wl, ae, y)
        # the same unknown attribute twice
        for n1, n2 in itertools.combinations(nodes, 2):
            for pol in POLICIES if tier == "thorough" or "T" in (n1, n2) else POLICIES[:2]:
                for wl in ((), ("foo",), ("bar",)):
                    for ae in (False, True) if pol == () else (False,):
                        t, y = self.put([(n1, "foo", 1), (n2, "foo", 2)])
                        yield self.mk(f"same:{n1}/{n2}", [t], pol, wl, ae, y)
        # many unknown attributes and nodes, many whitelisted ones, and one that is none of them (or a misplaced core attribute) at each position
        for n in list(range(1, 13)) + [30]:
            for i in range(n + 1) if n < 30 else (0, 15, 30):
                for odd in ("odd", "min", None):
                    for spread in (False, True):
                        for wl in ((), tuple(f"x{j}" for j in range(n)), tuple(f"x{j}" for j in range(n)) + ("odd",)):
                            for pol in POLICIES[:3:2]:
                                t = {"A": {"type": "branch", "description": "a"}}
                                for j in range(n + 1):
                                    nd = f"A.N{j}" if spread else "A.N"
                                    t.setdefault(nd, {"type": "branch", "description": "n"})
                                    if odd and j == i:
                                        t[nd][odd] = 1
                                    if j < n:
                                        t[nd][f"x{j}"] = j
                                yield self.mk(f"many:{n}:{i}:{odd}:{spread}", [t], pol, wl, False)
        # core attributes on nodes they do not belong to, and similar looking ones
        foreign = ["datatype", "min", "max", "unit", "allowed", "default", "arraysize", "instances", "aggregate", "Description", "comments", "uuid", "x-a"]
        for node in nodes:
            for attr in foreign:
                v = {"datatype": "uint8", "allowed": [1], "unit": "km", "instances": ["L"], "arraysize": 1}.get(attr, 1)
                for pol in POLICIES:
                    t, y = self.put([(node, attr, v)])
                    kind = (t if node in t else y)[node]["type"]
                    if kind not in ("branch", "struct") and attr in ref.SIGNAL or kind == "branch" and attr in ref.BRANCH:
                        continue  # it belongs there
                    for wl in ((), ("foo",)) + (() if attr in ref.CORE else ((attr,),)):
                        yield self.mk(f"foreign:{node}:{attr}", [t], pol, wl, False, y)
        # whitelisting options that are refused
        for w in ("datatype", "min", "instances", "type", "a,b", "description", "fka", "delete", "constUID"):
            yield self.mk(f"option:{w}", [TREE], (), (w,), False, TYPES, reject=True)
        # names
        names = [
            "Abc", "abc", "A_b", "A1", "1A", "ABC", "Is", "IsX", "HasX", "Has", "Isx", "isX", "HAS", "hasX", "XIs", "IS", "A-B", "A B", "x", "É", "Aé",
            "I", "H", "Ha",
        ]  # fmt: skip
        for nm in names:
            for dt in ("boolean", "boolean[]", "uint8", "string"):
                for pos in ("leaf", "deep", "inst"):
                    for pol in POLICIES:
                        t = {"A": {"type": "branch", "description": "a"}}
                        p = "A"
                        if pos != "leaf":
                            t["A.B"] = {"type": "branch", "description": "b"}
                            if pos == "inst":
                                t["A.B"]["instances"] = ["L", "Row[1,2]"]
                            p = "A.B"
                        if dt == "string" and pos != "leaf":
                            continue
                        t[f"{p}.{nm}"] = {"type": "sensor", "datatype": dt, "description": "x"}
                        yield self.mk(f"name:{nm}:{dt}:{pos}", [t], pol, (), False, formats=("yaml",))
            for pos in ("branch", "root", "label"):
                for pol in POLICIES:
                    if pos == "root":
                        t = {nm: {"type": "branch", "description": "a"}, f"{nm}.X": {"type": "sensor", "datatype": "int8", "description": "x"}}
                    elif pos == "branch":
                        t = {"A": {"type": "branch", "description": "a"}, f"A.{nm}": {"type": "branch", "description": "a"}}
                    else:
                        t = {"A": {"type": "branch", "description": "a"}, "A.B": {"type": "branch", "description": "a", "instances": [nm]}}
                    yield self.mk(f"name:{nm}:{pos}", [t], pol, (), False, formats=("yaml",))
        # struct member names are not subject to the policy of the signal tree
        for nm in ("p", "IsP", "P_q"):
            for pol in POLICIES:
                y = dict(TYPES)
                y[f"T.S.{nm}"] = {"type": "property", "datatype": "boolean", "description": "p"}
                yield self.mk(f"typename:{nm}", [TREE], pol, (), False, y, formats=("yaml",))
        # policies see the finally effective model: overlays add, retype and delete
        for pol in POLICIES:
            for wl in ((), ("foo",)):
                for i, ov in enumerate(
                    [
                        {"A.C.Y": {"foo": 1}},
                        {"A.B.L.X": {"foo": 1}},
                        {"A.C.Y": {"foo": 1, "delete": True}},
                        {"A.C": {"foo": 1}, "A.C.Y": {"delete": True}},
                        {"A.C.Y": {"datatype": "boolean"}},
                        {"A.C.Y": {"datatype": "boolean", "delete": True}},
                        {"A.C.lower": {"type": "branch", "description": "l"}},
                        {"A.C.lower": {"type": "branch", "description": "l", "delete": True}},
                        {"A.C.Y": {"type": "branch", "datatype": None}},
                    ]
                ):
                    yield self.mk(f"overlay:{i}", [TREE, ov], pol, wl, False, TYPES)


CHECK = C08
