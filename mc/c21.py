"""C21: the JSON Schema export accepts exactly the values the model permits."""

import glob
import itertools
import json
import math
import sys

from . import exmodels as X, ref, scale
from .c10 import fqn_uuid, no_dup
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

_V = None


def validator():
    """The JSON Schema implementation (Draft 2020-12) of the tooling environment"""
    global _V
    if _V is None:
        dirs = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
        sys.path += dirs
        try:
            from jsonschema import Draft202012Validator
        finally:
            for d in dirs:
                sys.path.remove(d)
        _V = Draft202012Validator
    return _V


POOL = [None, True, False, -1, 0, 1, 2, 7, 100, 0.5, -1.5, 1e22, "", "a", "b c", "1", "true", [], {}, [None], [0], [1, 2], ["a"], [True, False, True], [0.5], [[1]], {"a": 1}]
CLASS = {"boolean": "b", "string": "s", "float": "n", "double": "n", "numeric": "n"}


def klass(v):
    if isinstance(v, bool):
        return "b"
    return {int: "i", float: "n", str: "s"}.get(type(v), "x")


def scalar_ok(v, base, a):
    """Does the model permit v?  None: not decided by the schema's vocabulary"""
    c = CLASS.get(base, "i")
    k = klass(v)
    if not (k == c or (c == "n" and k == "i")):
        if c == "i" and k == "n" and float(v).is_integer():
            return None
        return False
    if c == "i":
        lo, hi = ref.INT_RANGES[base]
        if not lo <= v <= hi:
            return None
    if a.get("min") is not None and v < a["min"]:
        return False
    if a.get("max") is not None and v > a["max"]:
        return False
    if a.get("allowed"):
        if any(x == v and (klass(x) == "b") == (k == "b") for x in a["allowed"]):
            return True
        return False
    return True


def permits(v, a):
    base, arr = ref.split_array(a["datatype"])
    if not arr:
        return scalar_ok(v, base, a)
    if not isinstance(v, list):
        return False
    if a.get("arraysize") and len(v) != a["arraysize"]:
        return False
    res = [scalar_ok(x, base, a) for x in v]
    return False if False in res else None if None in res else True


def candidates(a):
    base, arr = ref.split_array(a["datatype"])
    scal = [x for x in POOL if not isinstance(x, (list, dict))] + list(a.get("allowed") or [])
    for k in ("min", "max"):
        if a.get(k) is not None:
            scal += [a[k], a[k] - 1, a[k] + 1, a[k] / 2]
            if abs(a[k]) < 2**53:
                scal += [math.floor(a[k]), math.ceil(a[k]), round(a[k], 1), int(a[k]) - 2, int(a[k]) + 2]
    if base in ref.INT_RANGES:
        scal += list(ref.INT_RANGES[base])
    if not arr:
        return scal + POOL
    size = a.get("arraysize") or 2
    good = next((x for x in scal if scalar_ok(x, base, a)), 0)
    out = list(POOL) + [[good] * n for n in range(0, size + 3)]
    for x in scal:
        out += [[x] * size, [good] * (size - 1) + [x], x]
    return out


class C21(ExportCheck):
    id = "C21"
    exporter = "jsonschema"
    preload = ("yaml", "jsonschema")
    rule = (
        "every rooted tree up to 4 (thorough 5) nodes, every datatype x array x size x kind x constraint, every allowed list, texts, instances, types files, extended attributes, x all "
        "combinations of the options; the schema is validated against the meta schema and every candidate value of every signal (around all limits, of all other types), every missing and "
        "every additional member at every level is validated against it and compared with the reference model. state = distinct schema, transition = one CLI run"
    )

    def setup(self):
        validator()

    def cases(self, tier):
        thorough = tier == "thorough"
        flags = ["--no-additional-properties", "--require-all-properties", "--extend-all-attributes", "--uuid", "--pretty", "--no-expand"]
        combos = [[f for f, on in zip(flags, bits) if on] for bits in itertools.product((0, 1), repeat=len(flags))]
        some = combos if thorough else [[], flags[:1], flags[1:2], flags[:2], flags[2:4], flags]
        n = 0

        def add(key, main, types, opts):
            return self.make(f"{key}:{','.join(o[2:8] for o in opts)}", main, types, opts, expand="--no-expand" not in opts)

        for fam in (X.shapes(5 if thorough else 4, leaves=(leaf(), B, leaf("string[]", arraysize=2)) if thorough else (leaf(), B)), X.datatypes(), X.allowed(), X.texts(X.STRINGS), X.structs(), scale.sweep(24 if thorough else 16)):
            for key, main, types in fam:
                n += 1
                yield add(key, main, types, some[n % len(some)])
        for dt in ("uint8", "int8", "int16", "uint64", "float", "double"):  # limits that are no value of the datatype
            lims = (None, -1.5, -0.5, -0.1, 0.1, 0.5, 1.5, 2.9, 1)
            for arr, (lo, hi) in itertools.product(("", "[]"), itertools.product(lims, lims)):
                a = {k: v for k, v in (("min", lo), ("max", hi)) if v is not None}
                if lo is not None and hi is not None and (math.ceil(lo) > math.floor(hi) if "int" in dt else lo > hi) or dt[0] == "u" and (hi or 0) < 0:
                    continue
                yield add(f"limits:{dt}{arr}:{lo}:{hi}", {"A": B, "A.X": leaf(dt + arr, **a), "A.Y": leaf()}, None, [])
        for key, main, types in itertools.chain(X.instances(), itertools.islice(X.shapes(3), 0, None, 3)):
            for o in combos:
                yield add("all:" + key, main, types, o)
        ext = {"A": {**B, "ext1": 1, "ext2": {"a": None}}, "A.B": {**B, "ext1": "x"}, "A.B.X": leaf(ext1=[1], ext2=False, min=0, max=5, comment="c", deprecation="d", unit="km"), "A.Y": leaf("string", ext1=None)}
        t = {"T": B, "T.S": {"type": "struct", "description": "s"}, "T.S.P": leaf("int8", "property")}
        for wl in ((), ("ext1",), ("ext2", "ext1")):
            for o in combos:
                c = self.make(f"ext:{','.join(wl)}:{','.join(x[2:8] for x in o)}", ext, None, o, wl, expand="--no-expand" not in o)
                c["model"]["all_ext"] = "--extend-all-attributes" in o
                yield c
        for o in combos:
            yield add("types:unused", {"A": B, "A.X": leaf()}, t, o)

    def unexportable(self, case, model):
        if any("." in n.attrs.get("datatype", "") for tree in (model.root, model.types) if tree for _, n in tree.walk()):
            return "?the documentation excludes struct types for this exporter"
        return None

    def check(self, case, model, outs):
        if list(outs) != ["o.out"]:
            return [("files", f"files {sorted(outs)}")]
        try:
            s = json.loads(outs["o.out"], object_pairs_hook=no_dup)
        except ValueError as e:
            raise Malformed(f"not JSON: {e}")
        V = validator()
        try:
            V.check_schema(s)
        except Exception as e:
            raise Malformed(f"not a JSON Schema: {str(e)[:300]}")
        o = case["opts"]
        closed, required, ext, uuid = ("--no-additional-properties" in o, "--require-all-properties" in o, "--extend-all-attributes" in o, "--uuid" in o)
        bads = []

        def bad(sig, msg):
            bads.append((sig, msg))

        if s.get("title") != model.root.name or s.get("$schema") != "https://json-schema.org/draft/2020-12/schema":
            bad("head", f"title {s.get('title')!r}, $schema {s.get('$schema')!r}")

        # ---- structure and annotations
        def annotations(fqn, n, d):
            want = {"description": n.attrs["description"]}
            if n.attrs.get("default") is not None:
                want["default"] = n.attrs["default"]
            wl = case["model"]["whitelist"]
            for k in ref.unknown_attrs(n):
                if ext or k in wl:
                    want[k] = n.attrs[k]
            if ext:
                want["x-VSStype"] = n.attrs["type"]
                for k in ("datatype", "deprecation", "comment", "unit"):
                    if n.attrs.get(k):
                        want["x-" + k] = n.attrs[k]
                if uuid:
                    want["x-uuid"] = fqn_uuid(fqn)
            for k, v in want.items():
                if k not in d or not ref.same(d[k], v):
                    bad("annotation", f"{fqn}: {k} is {d.get(k, 'missing')!r}, expected {v!r}")
            rest = set(d) - set(want) - {"type", "properties", "required", "additionalProperties", "minimum", "maximum", "enum", "items", "minItems", "maxItems", "$schema", "title", "x-ComplexDataTypes", "instances"}
            rest = {k for k in rest if not (k.startswith("x-") and d[k] in (None, "", []))}
            if rest:
                bad("annotation", f"{fqn}: unexpected {sorted(rest)}")

        def structure(fqn, n, d):
            annotations(fqn, n, d)
            if n.attrs["type"] == "branch":
                props = d.get("properties", {})
                if list(props) != list(n.kids):
                    bad("members", f"{fqn}: properties {list(props)}, expected {list(n.kids)}")
                    return
                for k, c in n.kids.items():
                    structure(f"{fqn}.{k}", c, props[k])

        structure(model.root.name, model.root, s)
        if bads:
            return bads[:3]

        # ---- values
        sigs = []

        def valid_value(a):
            return next((v for v in candidates(a) if permits(v, a)), None)

        def build(n):
            if n.attrs["type"] == "branch":
                return {k: build(c) for k, c in n.kids.items()}
            return valid_value(n.attrs)

        def sub(d, path):
            for p in path:
                d = d["properties"][p]
            return d

        doc = build(model.root)
        whole = V(s)
        if not whole.is_valid(doc):
            return [("rejects", f"{json.dumps(doc)} is refused: {next(whole.iter_errors(doc)).message[:300]}")]
        for path, n in walk(model.root):
            d = sub(s, path)
            loc = ".".join((model.root.name,) + path)
            if n.attrs["type"] == "branch":
                obj = get(doc, path)
                for k in list(obj):
                    less = {x: v for x, v in obj.items() if x != k}
                    if whole.is_valid(put(doc, path, less)) == required:
                        bad("missing-member", f"{loc} without {k} is {'accepted' if required else 'refused'}")
                for extra in ("Extra", "x"):
                    if extra not in obj and whole.is_valid(put(doc, path, {**obj, extra: 1})) == closed:
                        bad("additional-member", f"{loc} with {extra} is {'accepted' if closed else 'refused'}")
                continue
            single = V(d)
            for v in candidates(n.attrs):
                want = permits(v, n.attrs)
                if want is None:
                    continue
                if single.is_valid(v) != want:
                    bad("accepts" if not want else "rejects", f"{loc} ({n.attrs}): {json.dumps(v)} is {'refused' if want else 'accepted'}")
                elif not want and not sigs and whole.is_valid(put(doc, path, v)):
                    bad("accepts", f"{loc}: the whole document with {json.dumps(v)} is accepted")
        return bads[:3]


def walk(n, path=()):
    yield path, n
    for k, c in n.kids.items():
        yield from walk(c, path + (k,))


def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def put(doc, path, v):
    if not path:
        return v
    return {**doc, path[0]: put(doc[path[0]], path[1:], v)}


CHECK = C21
