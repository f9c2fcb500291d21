"""C10: JSON, YAML, CSV and tree exports describe the same (effective) model."""

import csv
import io
import itertools
import json
import re
import uuid as uuidlib

from . import exmodels as X, ref, scale
from .core import h
from .modelcheck import ModelCheck, expectation, tail, yload

NS = uuidlib.uuid5(uuidlib.NAMESPACE_OID, "vehicle_signal_specification")
ATTRS = ["type", "datatype", "description", "comment", "unit", "min", "max", "allowed", "default", "deprecation", "constUID", "fka", "instances"]
UNITS = {"km": ["int8", "uint8", "float", "string", "double"]}
UNIT_FILES = {
    "units.yaml": "km: {definition: d, unit: kilo, quantity: q, allowed-datatypes: ['int8', 'uint8', 'float', 'string', 'double']}\n",
    "quantities.yaml": "q: {definition: d}\n",
}
B = {"type": "branch", "description": "b"}


def fqn_uuid(fqn):
    return uuidlib.uuid5(NS, fqn).hex


def no_dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError(f"duplicate key {k}")
        d[k] = v
    return d


def expected_flat(root, m, uuid):
    f = ref.flat(root, m.get("whitelist", ()), m.get("all_ext", False))
    if uuid:
        for k in f:
            f[k]["uuid"] = fqn_uuid(k)
    return f


def parents_ok(flat_paths):
    return all("." not in p or p.rsplit(".", 1)[0] in flat_paths for p in flat_paths)


# ------------------------------------------------------------------------- readers


def read_json(b):
    return json.loads(b.decode("utf-8"), object_pairs_hook=no_dup)


def cell(v):
    """What a CSV cell of an attribute contains."""
    return "" if v is None else str(v)


COLUMNS = {
    "Type": "type", "DataType": "datatype", "Deprecated": "deprecation", "Unit": "unit", "Min": "min", "Max": "max",
    "Desc": "description", "Comment": "comment", "Allowed": "allowed", "Default": "default", "Instances": "instances",
}  # fmt: skip


def check_csv(b, parts, opts, first):
    """parts: [(Node tree, with uuid)] whose nodes have to be the rows; first: name of the first column"""
    rows = list(csv.reader(io.StringIO(b.decode("utf-8"), newline="")))
    head = rows[0]
    want = [first] + [c for c in list(COLUMNS) if c != "Instances"]
    if opts["uuid"]:
        want.append("Id")
    if not opts["expand"]:
        want.append("Instances")
    if head != want:
        return f"header {head}, expected {want}"
    exp = []
    for root, with_uuid in parts:
        for fqn, n in root.walk():
            exp.append((fqn, n, with_uuid))
    got = rows[1:]
    paths = [r[0] for r in got]
    if len(paths) != len(set(paths)) and len(set(e[0] for e in exp)) == len(exp):
        return f"duplicate rows {[p for p in paths if paths.count(p) > 1][:4]}"
    if sorted(paths) != sorted(e[0] for e in exp):
        return f"rows {sorted(paths)}, expected {sorted(e[0] for e in exp)}"
    seen = set()
    for p in paths:
        if "." in p and p.rsplit(".", 1)[0] not in seen:
            return f"{p} comes before its parent"
        seen.add(p)
    by = {e[0]: e for e in exp}
    for r in got:
        if len(r) != len(head):
            return f"row {r} has {len(r)} cells"
        fqn, n, with_uuid = by[r[0]]
        for c, v in zip(head[1:], r[1:]):
            if c == "Id":
                w = fqn_uuid(fqn) if with_uuid else ""
            else:
                w = n.attrs.get(COLUMNS[c])
                if c == "Instances" and isinstance(w, str):
                    w = [w]
                if v == "[]" and w is None:
                    continue
                w = cell(w)
            if v != w:
                return f"{fqn}: column {c} is {v!r}, expected {w!r}"
    return None


LINE = re.compile(r"^((?:│   |    )*)(├── |└── )?(.*)$", re.S)


def check_tree(b, roots, attrs):
    got = []
    stack = []
    for line in b.decode("utf-8").split("\n"):
        m = LINE.match(line)
        pre, conn, rest = m.groups()
        if conn is None and pre and not attrs:
            return f"unparsable line {line!r}"
        if conn is None and "=" in rest and got:
            k, v = rest.split("=", 1)
            depth = len(pre) // 4
            cur = got[-1]
            # attribute lines are indented below their node
            want = 0 if cur[0].count(".") == 0 else cur[0].count(".")
            if depth != want:
                return f"attribute line {line!r} is not aligned with {cur[0]}"
            if k in cur[1]:
                return f"{cur[0]}: {k} twice"
            cur[1][k] = v
            continue
        depth = len(pre) // 4 + (1 if conn else 0)
        stack = stack[:depth] + [rest]
        if len(stack) != depth + 1:
            return f"line {line!r} skips a level"
        got.append((".".join(stack), {}))
    exp = [(f, n) for r in roots for f, n in r.walk()]
    if sorted(g[0] for g in got) != sorted(e[0] for e in exp):
        return f"nodes {sorted(g[0] for g in got)}, expected {sorted(e[0] for e in exp)}"
    by = dict(exp)
    for fqn, a in got:
        for k in attrs:
            w = by[fqn].attrs.get(k)
            if k == "instances" and isinstance(w, str):
                w = [w]
            v = a.pop(k, None)
            if w is None:
                if v not in (None, "[]"):
                    return f"{fqn}: {k}={v}, expected nothing"
                continue
            want = [f"'{w}'" if isinstance(w, str) else str(w)]
            if k == "type":
                want.append(f"'NodeType.{w.upper()}'")
            if v not in want:
                return f"{fqn}: {k}={v}, expected {want}"
        if a:
            return f"{fqn}: unexpected attributes {a}"
    return None


# ------------------------------------------------------------------------- the check


class C10(ModelCheck):
    id = "C10"
    preload = ("yaml", "json", "csv", "tree")
    rule = (
        "every combination of uuid/expand/types-output/whitelist/extend-all/pretty x 6 models; every value of the value alphabet for every "
        "attribute x node kind; every node name of the name alphabet; every rooted tree with <= 5 (thorough 6) nodes in definition orders; "
        "each exported as JSON, YAML, CSV and tree and compared with the reference model. state = distinct content of the four exports, "
        "transition = one CLI run"
    )

    def case(self, key, main, types=None, uuid=False, expand=True, types_output=False, whitelist=(), all_ext=False, pretty=False, attrs=(), skip=()):
        units, unit_files = UNITS, UNIT_FILES
        if any(v.get("unit") in X.UNIT_NAMES for v in main.values()):
            units, unit_files = X.units_for(main)
        files = {"m.vspec": ref.text(main), **unit_files}
        common = ["-s", "m.vspec"]
        if types is not None:
            files["t.vspec"] = ref.text(types)
            common += ["-t", "t.vspec"]
        if uuid:
            common.append("--uuid")
        if not expand:
            common.append("--no-expand")
        for w in whitelist:
            common += ["-e", w]
        to = ["--types-output", "t.out"] if types_output else []
        ext = ["--extend-all-attributes"] if all_ext else []
        runs = [
            {"argv": ["export", "json", "-o", "o.json"] + common + to + ext + (["--pretty"] if pretty else []), "read": ["o.json", "t.out"]},
            {"argv": ["export", "yaml", "-o", "o.yaml"] + common + to + ext, "read": ["o.yaml", "t.out"]},
            {"argv": ["export", "csv", "-o", "o.csv"] + common + to, "read": ["o.csv", "t.out"]},
            {"argv": ["export", "tree", "-o", "o.tree"] + common + [x for a in attrs for x in ("--attr", a)], "read": ["o.tree"]},
        ]
        runs = [r for r in runs if r["argv"][1] not in skip]
        model = {"layers": [main], "types": [types] if types is not None else [], "units": units, "expand": expand, "whitelist": list(whitelist), "all_ext": all_ext}
        return {"key": key, "files": files, "runs": runs, "model": model, "opts": {"uuid": uuid, "expand": expand, "to": types_output, "attrs": list(attrs)}}

    def cases(self, tier):
        for i, (key, main, types) in enumerate(scale.sweep(24 if tier == "thorough" else 16)):
            for uuid, expand, pretty, to in ((False, True, False, False), (True, False, True, True)) if tier == "thorough" else ((bool(i & 1), not i & 2, bool(i & 4), bool(i & 8)),):
                yield self.case(f"{key}:{uuid}:{expand}", main, types, uuid=uuid, expand=expand, pretty=pretty, types_output=to and types is not None)
        for key, main, types in X.texts(X.STRINGS):
            yield self.case(key, main, types)
        leaf = {"type": "sensor", "datatype": "uint8", "description": "x"}
        types = {
            "T": B, "T.N": B, "T.N.S": {"type": "struct", "description": "s", "ext1": 1}, "T.N.S.P": {"type": "property", "datatype": "int8", "description": "p", "min": 0, "ext1": None},
            "T.N.S.Q": {"type": "property", "datatype": "R[]", "description": "q", "arraysize": 2}, "T.N.R": {"type": "struct", "description": "r"},
            "T.N.R.P": {"type": "property", "datatype": "string", "description": "rp", "allowed": ["", "ü"], "default": ""},
        }  # fmt: skip
        models = {
            "one": ({"A": B}, None),
            "flat": ({"A": B, "A.X": {**leaf, "min": 0, "max": 0, "unit": "km"}, "A.Y": {"type": "attribute", "datatype": "boolean", "description": "y", "default": False, "deprecation": ""}}, None),
            "inst": (
                {
                    "A": B, "A.D": {**B, "instances": ["Row[1,2]", ["L", "R"]], "comment": "c"}, "A.D.X": {**leaf, "default": 0, "comment": ""}, "A.D.E": {**B, "instances": "One"},
                    "A.D.E.Y": {"type": "actuator", "datatype": "string[]", "description": "y", "default": ["a", ""]}, "A.D.Z": {**leaf, "instantiate": False},
                }, None,
            ),
            "ext": ({"A": {**B, "ext1": {"a": [1, None]}, "ext2": False}, "A.X": {**leaf, "ext1": None}, "A.C": B, "A.C.Y": {**leaf, "ext1": [], "ext2": "ü"}}, None),
            "types": ({"A": B, "A.X": {**leaf, "datatype": "T.N.S"}, "A.Y": {**leaf, "datatype": "T.N.R[]", "fka": ["A.Z"]}}, types),
            "all": (
                {
                    "A": {**B, "fka": ["Z"]}, "A.B": {**B, "instances": ["L", "R"], "ext1": 0}, "A.B.X": {**leaf, "datatype": "T.N.R", "constUID": "0xABCDEF01"},
                    "A.B.C": {**B, "ext2": ""}, "A.B.C.Y": {**leaf, "allowed": [1, 2], "ext1": "e"}, "A.B.L.Only": {**leaf, "min": -0.0},
                }, types,
            ),
        }  # fmt: skip
        for mn, (main, ty) in models.items():
            for uuid, expand, to, pretty in itertools.product((False, True), (True, False), (False, True), (False, True)):
                for wl, all_ext in itertools.product(((), ("ext1",), ("ext2", "ext1")), (False, True)):
                    if ty is not None and "ext1" not in wl:
                        ty2 = {k: {a: b for a, b in v.items() if a != "ext1"} for k, v in ty.items()}
                    else:
                        ty2 = ty
                    if to and ty is None and (uuid or pretty):
                        continue
                    yield self.case(
                        f"opts:{mn}:{uuid}:{expand}:{to}:{pretty}:{','.join(wl)}:{all_ext}", main, ty2, uuid=uuid, expand=expand, types_output=to,
                        whitelist=wl, all_ext=all_ext, pretty=pretty, attrs=["type", "default", "ext1"] if pretty else [],
                    )  # fmt: skip
        # ---- the value alphabet
        strings = [
            "", " ", "plain", " lead", "trail ", "a,b", 'q"q', "q'q", "a;b|c", "#no comment", "a: b", "- a", "yes", "null", "~", "0", "1.0", "1e3", "0x10", "[]", "{}", "ü€😀", "tab\there",
            "line\nbreak", "end\n", "\nstart", "two\n\nlines\n  indented\n", "cr\r\nlf", "back\\slash", "\u2028sep", "\u0085nel", "nbsp\u00a0", "\ufeffbom", "=1+1", "@at", "`tick", "%p", "!tag", "&a", "*a",
            "x" * 300 + " " + "y" * 1200, "word " * 250, "│   ├── x", "2020-01-01", "12:30:00", "None", "True", "nan",
        ]  # fmt: skip
        for i, s in enumerate(strings):
            skip = ("tree",) if any(c in s for c in "\n\r\u2028\u0085") else ()
            for kind in ("branch", "sensor") if tier == "quick" else ("branch", "sensor", "actuator", "attribute"):
                body = {"type": kind, "description": s, "comment": s, "deprecation": s}
                if kind != "branch":
                    body.update(datatype="string", default=s, allowed=[s, "other"], unit="km")
                yield self.case(f"str:{i}:{kind}", {"A": B, "A.X": body}, skip=skip, attrs=["description", "comment", "default", "allowed"])
                yield self.case(f"ext:{i}:{kind}", {"A": B, "A.X": {**body, "ext": {"k": [s]}}}, whitelist=["ext"], skip=skip, attrs=["ext"])
            yield self.case(f"strarr:{i}", {"A": B, "A.X": {"type": "attribute", "datatype": "string[]", "description": "d", "default": [s, s]}}, skip=skip, attrs=["default"])
            yield self.case(f"struct:{i}", {"A": B, "A.X": {**leaf, "datatype": "T.S"}}, {"T": B, "T.S": {"type": "struct", "description": s}, "T.S.P": {"type": "property", "datatype": "string", "description": s, "default": s}}, skip=skip, attrs=["default"])
        nums = [0, 1, -1, 255, 2**31, -(2**63), 2**64 - 1, 0.0, -0.0, 0.1, 1.5, -2.25, 1e22, 1e-7, 123456789.123456789, 1e300]
        for n in nums:
            for dt in ("double", "numeric") + (("int64", "uint64") if isinstance(n, int) else ()):
                for at in ("min", "max", "default"):
                    yield self.case(f"num:{n!r}:{dt}:{at}", {"A": B, "A.X": {"type": "sensor", "datatype": dt, "description": "d", at: n}}, attrs=[at])
                yield self.case(f"num:{n!r}:{dt}:lists", {"A": B, "A.X": {"type": "sensor", "datatype": dt + "[]", "description": "d", "allowed": [n, 1], "default": [n]}}, attrs=["allowed", "default"])
            yield self.case(f"numext:{n!r}", {"A": {**B, "ext": n}, "A.X": {**leaf, "ext": [n, {"a": n}]}}, whitelist=["ext"], attrs=["ext"])
        for v in (True, False):
            yield self.case(f"bool:{v}", {"A": B, "A.IsX": {"type": "sensor", "datatype": "boolean", "description": "d", "default": v}}, attrs=["default"])
            yield self.case(f"boolarr:{v}", {"A": B, "A.IsX": {"type": "sensor", "datatype": "boolean[]", "description": "d", "allowed": [v], "default": [v, v]}}, attrs=["default", "allowed"])
        for n, lst in enumerate(([], [1], [0], [0, 0, 0])):
            yield self.case(f"listdefault:{n}", {"A": B, "A.X": {"type": "sensor", "datatype": "uint8[]", "description": "d", "default": lst}}, attrs=["default"])
            yield self.case(f"allowed:{n}", {"A": B, "A.X": {"type": "sensor", "datatype": "uint8", "description": "d", "allowed": lst}}, attrs=["allowed"])
        for v, x in enumerate((None, [], {}, "", 0, False, [None], {"a": None}, [[]], {"b": [1, {"c": "ü"}]}, "null")):
            for wl, ae in (((), False), (("ext",), False), ((), True), (("ext",), True)):
                for kind in ("branch", "leaf", "root"):
                    main = {"A": dict(B), "A.C": dict(B), "A.X": dict(leaf)}
                    main[{"branch": "A.C", "leaf": "A.X", "root": "A"}[kind]]["ext"] = x
                    yield self.case(f"extval:{v}:{wl}:{ae}:{kind}", main, whitelist=wl, all_ext=ae, attrs=["ext"])
        # ---- node names
        names = ["X", "x", "X1", "1", "0", "yes", "null", "true", "Ü", "a b", "a-b", "a_b", "a,b", 'a"b', "a'b", "a:b", "#a", "children", "type", "description", "A", "ComplexDataTypes", "1.5".replace(".", "_"), "-", "X" * 140, "é" * 70, "&x", "*x", "?x", "!x", "~", "_X", "X_", "_", "__", "-X", "X-", "$X", "X$", "(X)", "X Y Z"]
        for n in names:
            for kind in ("branch", "leaf", "inst"):
                if kind == "branch":
                    main = {"A": B, f"A.{n}": B, f"A.{n}.{n}": leaf, f"A.{n}.Z": leaf}
                elif kind == "leaf":
                    main = {"A": B, "A.B": B, f"A.{n}": leaf, f"A.B.{n}": leaf}
                    if n != "X":
                        main.update({"A.X": {**leaf, "description": "another"}, "A.B.X": {**leaf, "description": "another"}})
                else:
                    main = {"A": B, "A.B": {**B, "instances": [n, "Other"]}, "A.B.Leaf": leaf}
                for expand in (True, False):
                    yield self.case(f"name:{n}:{kind}:{expand}", main, uuid=True, expand=expand)
        # ---- shapes
        for size in range(2, 6 if tier == "quick" else 7):
            for parents in itertools.product(*[range(i) for i in range(1, size)]):
                paths = ["A"]
                for i, p in enumerate(parents, 1):
                    paths.append(f"{paths[p]}.{chr(65 + i)}")
                inner = set(parents)
                bodies = {p: (B if i in inner or i == 0 else {**leaf, "description": p}) for i, p in enumerate(paths)}
                orders = list(itertools.permutations(paths)) if size <= 4 else [tuple(paths), tuple(reversed(paths)), tuple(paths[2:] + paths[:2])]
                for o, order in enumerate(orders):
                    yield self.case(f"shape:{parents}:{o}", {p: bodies[p] for p in order}, uuid=True, attrs=["description"] if o % 2 else [])

    def judge(self, case, outs):
        model, reason = expectation(case)
        m, opts = case["model"], case["opts"]
        bads, state = [], []
        for run, out in zip(case["runs"], outs):
            fmt = run["argv"][1]
            b = self.judge_one(fmt, case, out, model, reason, m, opts)
            if b:
                bads.append((f"{fmt}:{b[0]}", b[1]))
            state.append((fmt, out["rc"], h([repr(v) for v in out["out"].values()])))
        return bads, ["reject" if model is None else h(state)]

    def judge_one(self, fmt, case, out, model, reason, m, opts):
        if model is None:
            if out["rc"] == 0:
                return "accepted", f"expected rejection ({reason})"
            return None
        if out["rc"] != 0:
            return "rejected", f"expected acceptance ({fmt}), exit status {out['rc']}:\n{tail(out['log'])}"
        main = out["out"].get(f"o.{fmt}")
        if main is None:
            return "no-output", "exit status 0 but no output"
        sep = out["out"].get("t.out")
        has_types = model.types is not None
        if fmt != "tree" and (sep is not None) != (has_types and opts["to"]):
            return "types-file", f"types output file {'written' if sep is not None else 'missing'}"
        wl, ae = m.get("whitelist", ()), m.get("all_ext", False)
        try:
            if fmt == "json":
                doc = read_json(main)
                types = doc.pop("ComplexDataTypes", None) if has_types and not opts["to"] else (read_json(sep) if sep is not None else None)
                got = ref.flatten_json(doc)
                exp = expected_flat(model.root, m, opts["uuid"])
                nest = {model.root.name: nested_uuid(model.root, wl, ae, model.root.name if opts["uuid"] else None)}
                if not ref.same(nest, doc):
                    return "differs", ref.diff(exp, got)
                if has_types:
                    tn = {model.types.name: ref.nested(model.types, wl, ae)}
                    if not ref.same(tn, types):
                        return "types-differ", ref.diff(ref.flatten_json(tn), ref.flatten_json(types or {}))
            elif fmt == "yaml":
                doc = yload(main)
                types = doc.pop("ComplexDataTypes", None) if has_types and not opts["to"] else (yload(sep) if sep is not None else None)
                exp = expected_flat(model.root, m, opts["uuid"])
                if not ref.same(exp, doc):
                    return "differs", ref.diff(exp, doc)
                if has_types:
                    texp = expected_flat(model.types, m, False)
                    if not ref.same(texp, types):
                        return "types-differ", ref.diff(texp, types or {})
            elif fmt == "csv":
                parts = [(model.root, opts["uuid"])]
                if has_types and not opts["to"]:
                    msg = check_csv(main, parts + [(model.types, False)], opts, "Node")
                else:
                    msg = check_csv(main, parts, opts, "Signal")
                    if not msg and sep is not None:
                        msg = check_csv(sep, [(model.types, False)], opts, "Node")
                if msg:
                    return "differs", msg
            elif fmt == "tree":
                msg = check_tree(main, [model.root] + ([model.types] if has_types else []), opts["attrs"])
                if msg:
                    return "differs", msg
        except Exception as e:
            return "unreadable", f"{type(e).__name__}: {e}\n{main[:400]!r}"
        return None


def nested_uuid(node, wl, ae, fqn):
    d = ref.export_attrs(node, wl, ae)
    if fqn:
        d["uuid"] = fqn_uuid(fqn)
    if node.kids:
        d["children"] = {k: nested_uuid(c, wl, ae, f"{fqn}.{k}" if fqn else None) for k, c in node.kids.items()}
    return d


CHECK = C10
