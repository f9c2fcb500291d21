"""C24: the Franca and ApiGear exports contain every signal once with its data."""

import ast
import itertools
import json
import re
import uuid

import yaml

from . import exmodels as X, ref, scale
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

APIGEAR = {"boolean": "bool", "string": "string", "float": "float32", "double": "float64", "numeric": "float64"}
APIGEAR.update({k: "int64" if "64" in k else "int32" for k in ref.INT_RANGES})
LAYERS = {"unreal": "template-unreal", "cpp": "template-cpp14", "qt5": "template-qt5", "qt6": "template-qtcpp"}
IDENT = re.compile(r"[A-Za-z_]\w*\Z", re.A)


# ------------------------------------------------------------------ Franca


class Reader:
    def __init__(self, text):
        self.t, self.p = text, 0

    def ws(self):
        while True:
            m = re.compile(r"\s+|//[^\n]*").match(self.t, self.p)
            if not m:
                return
            self.p = m.end()

    def eat(self, s):
        self.ws()
        if not self.t.startswith(s, self.p):
            raise Malformed(f"expected {s!r} at {self.t[self.p:self.p + 60]!r}")
        self.p += len(s)

    def peek(self, s):
        self.ws()
        return self.t.startswith(s, self.p)

    def match(self, rx):
        self.ws()
        m = re.compile(rx).match(self.t, self.p)
        if not m:
            raise Malformed(f"expected {rx} at {self.t[self.p:self.p + 60]!r}")
        self.p = m.end()
        return m.group()

    def string(self):
        return json.loads(self.match(r'"(?:[^"\\\n\r]|\\.)*"'), strict=False)

    def value(self):
        if self.peek('"'):
            return self.string()
        if self.peek("["):
            m = self.match(r"\[(?:[^\]'\"]|'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\")*\]")
            try:
                return ast.literal_eval(m)
            except (ValueError, SyntaxError):
                raise Malformed(f"list {m}")
        return ast.literal_eval(self.match(r"-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?"))


def franca(text):
    """-> (version, [{field: value}])"""
    r = Reader(text)
    r.eat("const")
    r.eat("UTF8String")
    r.eat("VSS_VERSION")
    r.eat("=")
    version = r.string()
    r.eat("struct")
    r.eat("SignalSpec")
    r.match(r"\{[^{}]*\}")
    r.eat("const")
    r.eat("SignalSpec[]")
    r.eat("signal_spec")
    r.eat("=")
    r.eat("[")
    nodes = []
    while not r.peek("]"):
        if nodes:
            r.eat(",")
        r.eat("{")
        d = {}
        while not r.peek("}"):
            if d:
                r.eat(",")
            k = r.match(r"\w+")
            if k in d:
                raise Malformed(f"field {k} twice")
            r.eat(":")
            d[k] = r.value()
        r.eat("}")
        nodes.append(d)
    r.eat("]")
    r.ws()
    if r.p != len(text):
        raise Malformed(f"unexpected {text[r.p:r.p + 60]!r}")
    return version, nodes


def same(a, b):
    """Equal and of the same kind (1 is not True)"""
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return isinstance(a, bool) == isinstance(b, bool) and isinstance(a, str) == isinstance(b, str) and a == b


NS = uuid.uuid5(uuid.NAMESPACE_OID, "vehicle_signal_specification")


class C24(ExportCheck):
    id = "C24"
    preload = ("yaml", "franca", "apigear")
    rule = (
        "every rooted tree up to 4 (thorough 5) nodes with prefix sharing and underscore names, every text of an alphabet of 40 awkward texts, every datatype x array x kind x constraint, allowed values "
        "of every datatype, struct references, instances, all sets of <=2 deprecated nodes, x the options of both exporters (uuid, version; template paths); every output is read back and compared "
        "with the reference model. state = distinct output, transition = one CLI run"
    )

    def one(self, which, key, main, types=None, opts=(), **kw):
        self.exporter = which
        self.out_args = ("-o", "o.out") if which == "franca" else ("--output-dir", "oapi")
        return self.make(f"{which}:{key}", main, types, opts, **kw)

    def cases(self, tier):
        thorough = tier == "thorough"
        n, seen = 0, set()
        size = 5 if thorough else 4
        fams = [X.shapes(size), X.shapes(size, ("B", "B_C", "C")), X.datatypes(), X.instances(), X.allowed(("sensor", "attribute")), X.texts(X.STRINGS)]
        fams += [X.named(["true", "null", "on", "Yes"]), X.named(["x1", "_x", "A_B", "B_Value", "int32", "string", "B_Deprecated"], True)]
        franca_opts = [[], ["--uuid"], ["--franca-vss-version", "5.1"]]
        api_opts = [[], ["--uuid"], ["--apigear-template-cpp-path", "x/cpp"]]
        fams.append(scale.sweep(24 if thorough else 16, structs=False))
        for key, main, types in itertools.chain(*fams):
            if key in seen:
                continue
            seen.add(key)
            n += 1
            for which, opts in (("franca", franca_opts), ("apigear", api_opts)):
                for i, o in enumerate(opts):
                    if i == 0 or (n + i) % (2 if thorough else 6) == 0:
                        yield self.one(which, f"{key}:{i}", main, None, o)
        for i, v in enumerate(X.STRINGS):
            yield self.one("franca", f"version:{i}", {"A": B, "A.X": leaf()}, None, ["--franca-vss-version", v])
            m = {"A": B, "A.X": leaf("string", allowed=[v, v + "a"]), "A.Y": leaf("string[]", "attribute", allowed=[v])}
            yield self.one("franca", f"astr:{i}", m)
            yield self.one("apigear", f"astr:{i}", m)
        for i, (dt, vals) in enumerate((("int8", [-1, 1, 10, 16]), ("uint64", [2**64 - 1, 0]), ("int64", [-(2**63), 9, 10]), ("double", [-1.5, 1.5, 1e-7, 1e22]), ("float", [1.0, -1.0]), ("numeric", [1, -1, 0.5]), ("string", ["10", "0x10", "1a", "a1"]), ("boolean", [True, False]))):
            for arr in ("", "[]"):
                m = {"A": B, "A.IsX": leaf(dt + arr, allowed=vals), "A.B": B, "A.B.IsX": leaf(dt + arr, allowed=vals[::-1])}
                yield self.one("franca", f"anum:{i}{arr}", m)
                yield self.one("apigear", f"anum:{i}{arr}", m)
        # deprecated nodes, and names like the ones they get
        dep = {
            "A": B, "A.X": leaf("T.S"), "A.Y": leaf("string", allowed=["a", "b"]), "A.B": B, "A.B.X": leaf("T.N.S[]"), "A.B_X": B, "A.B_X.X_Deprecated": leaf("int8"), "A.B.Y": leaf("float"),
        }  # fmt: skip
        s = {"type": "struct", "description": "s"}
        types = {"T": B, "T.S": s, "T.S.P": leaf("T.N.S", "property"), "T.S.Q": leaf("uint8", "property", allowed=[1, 2]), "T.N": B, "T.N.S": s, "T.N.S.P": leaf("string[]", "property")}
        both = [("m", k) for k in dep] + [("t", k) for k in types]
        for k in range(3 if not thorough else 4):
            for marks in itertools.combinations(both, k):
                m, t = ({p: {**a, "deprecation": "V5"} if (w, p) in marks else a for p, a in d.items()} for w, d in (("m", dep), ("t", types)))
                name = "+".join(p for _, p in marks)
                yield self.one("apigear", f"dep:{name}", m, t)
                if not any(w == "t" for w, _ in marks):
                    yield self.one("franca", f"dep:{name}", {p: {**a, "datatype": "int8"} if "T." in a.get("datatype", "") else a for p, a in m.items()})
        for a, b in (("X", "X_Deprecated"), ("B_X", "B"), ("B_Deprecated", "B"), ("X_Value", "X")):
            for kinds in itertools.product("sba", repeat=2):
                for marks in itertools.product((False, True), repeat=2):
                    m = {"A": B}
                    for nm, kind, mark in zip((a, b), kinds, marks):
                        d = {"deprecation": "V5"} if mark else {}
                        m[f"A.{nm}"] = {**B, **d} if kind == "b" else leaf("uint8", **d, **({"allowed": [1, 2]} if kind == "a" else {}))
                        if kind == "b":
                            m[f"A.{nm}.X"] = leaf("int8")
                            m[f"A.{nm}.Value"] = leaf("int16", allowed=[3])
                    yield self.one("apigear", f"clash:{a}:{b}:{kinds}:{marks}", m)
        i = 0
        for key, main, types in X.structs():
            i += 1
            if thorough or i % 4 == 0:
                yield self.one("apigear", key, main, types)
        # template paths
        flags = ["unreal", "cpp", "qt5", "qt6"]
        for k in range(5):
            for sub in itertools.combinations(flags, k):
                for path in ("p", "./p", "x/y/p", "../p", "/abs/p"):
                    o = [x for f in sub for x in (f"--apigear-template-{f}-path", path + f)]
                    yield self.one("apigear", f"layers:{'+'.join(sub)}:{path}", {"A": B, "A.X": leaf()}, None, o)

    # -------------------------------------------------------------- expectations
    def api_name(self, f, n):
        return f.replace(".", "_") + ("_Deprecated" if n.attrs.get("deprecation") else "")

    def api_model(self, model):
        """-> interfaces, structs: [(name, [(name, node, enum name or None)])], enums: [(name, node)]"""
        inter, structs, enums = [], [], []
        field = lambda c: c.name + ("_Deprecated" if c.attrs.get("deprecation") else "")
        for f, n in model.root.walk():
            if n.attrs["type"] == "branch":
                props = [(field(c), c, self.api_name(f"{f}.{c.name}", c) + "_Value" if c.attrs.get("allowed") else None) for c in n.kids.values() if c.attrs["type"] != "branch"]
                enums += [(e, c) for _, c, e in props if e]
                if props:
                    inter.append((self.api_name(f, n), props))
        for f, n in model.types.walk() if model.types else ():
            if n.attrs["type"] == "struct":
                structs.append((self.api_name(f, n), [(field(c), c, None) for c in n.kids.values()]))
        return inter, structs, enums

    def unexportable(self, case, model):
        if case["runs"][0]["argv"][1] == "franca":
            return None
        inter, structs, enums = self.api_model(model)
        names = [x[0] for x in inter + structs + enums]
        if len(names) != len(set(names)):
            return "?interfaces, structs or enums share a name"
        for _, props in inter + structs:
            if len({p[0] for p in props}) != len(props):
                return "?properties share a name"
        return None

    # -------------------------------------------------------------- checks
    def check(self, case, model, outs):
        if case["runs"][0]["argv"][1] == "franca":
            return self.check_franca(case, model, outs)
        return self.check_apigear(case, model, outs)

    def check_franca(self, case, model, outs):
        if list(outs) != ["o.out"]:
            return [("files", f"files {sorted(outs)}")]
        version, nodes = franca(outs["o.out"])
        o = case["opts"]
        want = o[o.index("--franca-vss-version") + 1] if "--franca-vss-version" in o else "None"
        bads = []
        if version != want:
            bads.append(("version", f"version {version!r}, expected {want!r}"))
        expected = []
        for f, n in model.root.walk():
            if n is model.root:
                continue
            a = n.attrs
            e = {"name": f, "type": a["type"], "description": a["description"]}
            for k in ("datatype", "unit", "min", "max", "allowed"):
                if a.get(k) is not None and a.get(k) != []:
                    e[k] = a[k]
            if "--uuid" in o:
                e["uuid"] = uuid.uuid5(NS, f).hex
            expected.append(e)
        if [n.get("name") for n in nodes] != [e["name"] for e in expected]:
            return bads + [("nodes", f"nodes {[n.get('name') for n in nodes]}, expected {[e['name'] for e in expected]}")]
        for n, e in zip(nodes, expected):
            for k in dict.fromkeys([*e, *n]):
                if k not in n or k not in e or not same(n[k], e[k]):
                    bads.append((f"field-{k}", f"{e['name']}: {k} is {n.get(k)!r}, expected {e.get(k)!r}"))
        return bads[:4]

    def check_apigear(self, case, model, outs):
        root = model.root.name
        mod, sol = f"oapi/{root}.module.yaml", f"oapi/{root}.solution.yaml"
        if sorted(outs) != [mod, sol]:
            return [("files", f"files {sorted(outs)}")]
        try:
            module, solution = (yaml.safe_load(outs[x]) for x in (mod, sol))
        except yaml.YAMLError as e:
            raise Malformed(str(e))
        bads = []

        def bad(sig, msg):
            bads.append((sig, msg))

        # solution
        o = case["opts"]
        want = [(k, o[o.index(f"--apigear-template-{k}-path") + 1]) for k in LAYERS if f"--apigear-template-{k}-path" in o] or [("cpp", "cppservice")]
        got = solution.get("layers", [])
        if solution.get("name") != root or solution.get("schema") != "apigear.solution/1.0":
            bad("solution", f"{solution}")
        if sorted(l["name"] for l in got) != sorted(k for k, _ in want):
            bad("layers", f"layers {got}, expected {want}")
        for l in got:
            path = dict(want).get(l["name"])
            if path is not None and (l.get("output") or "").removeprefix("./") != path.removeprefix("./"):
                bad("layer-output", f"layer {l}, expected {path}")
            if l.get("inputs") != [f"{root}.module.yaml"] or l.get("template") != f"apigear-io/{LAYERS.get(l['name'])}":
                bad("layer", f"layer {l}")
        # module
        if module.get("name") != root or module.get("schema") != "apigear.module/1.0" or set(module) - {"schema", "name", "version", "interfaces", "enums", "structs"}:
            bad("module", f"{ {k: v for k, v in module.items() if k not in ('interfaces', 'enums', 'structs')} }")
        inter, structs, enums = self.api_model(model)
        declared = {f: self.api_name(f, n) for f, n in model.types.walk()} if model.types else {}
        names = []
        for kind, sub, expected in (("interfaces", "properties", inter), ("structs", "fields", structs)):
            got = module.get(kind) or []
            names += [x.get("name") for x in got]
            if sorted(x.get("name") for x in got) != sorted(x[0] for x in expected):
                bad(kind, f"{kind} {[x.get('name') for x in got]}, expected {[x[0] for x in expected]}")
                continue
            by = {x["name"]: x for x in got}
            for name, props in expected:
                fields = by[name].get(sub) or []
                if [x.get("name") for x in fields] != [p[0] for p in props]:
                    bad(sub, f"{name}: {[x.get('name') for x in fields]}, expected {[p[0] for p in props]}")
                    continue
                for x, (pname, c, enum) in zip(fields, props):
                    base, arr = ref.split_array(c.attrs["datatype"])
                    t = enum or APIGEAR.get(base) or declared.get(base)
                    if x.get("type") != t:
                        bad("type", f"{name}.{pname}: type {x.get('type')}, expected {t}")
                    if not enum and bool(x.get("array")) != arr:
                        bad("array", f"{name}.{pname}: array {x.get('array')} for {c.attrs['datatype']}")
                    if (x.get("description") or "") != c.attrs["description"]:
                        bad("description", f"{name}.{pname}: {x.get('description')!r}, expected {c.attrs['description']!r}")
                    if set(x) - {"name", "type", "array", "description"}:
                        bad("property", f"{x}")
        got = module.get("enums") or []
        names += [x.get("name") for x in got]
        if len(names) != len(set(names)):
            bad("names", f"{names}")
        if sorted(x.get("name") for x in got) != sorted(e for e, _ in enums):
            bad("enums", f"enums {[x.get('name') for x in got]}, expected {[e for e, _ in enums]}")
        else:
            by = {x["name"]: x.get("members") or [] for x in got}
            for e, c in enums:
                vals, mem = c.attrs["allowed"], by[e]
                if len(vals) != len(mem) or len({m.get("name") for m in mem}) != len({repr(v) for v in vals}):
                    bad("members", f"{e}: {mem} for {vals}")
                    continue
                for v, m in zip(vals, mem):
                    nm = m.get("name")
                    if isinstance(v, str):
                        ok = nm == v or (not IDENT.match(v) and isinstance(nm, str) and re.sub(r"\W", "", nm).endswith(re.sub(r"[\W]", "", v)))
                    else:
                        ok = isinstance(nm, str) and bool(IDENT.match(nm))
                        if isinstance(v, int) and not isinstance(v, bool) and m.get("value", v) != v:
                            bad("value", f"{e}: {m} for {v!r}")
                        if isinstance(v, int) and not isinstance(v, bool) and "value" not in m and ref.split_array(c.attrs["datatype"])[0] in ref.INT_RANGES:
                            bad("value", f"{e}: {m} for {v!r}")
                    if not ok:
                        bad("member", f"{e}: {m} for {v!r}")
        return bads[:4]


CHECK = C24
