"""C20: the GraphQL export is a valid schema covering the model."""

import itertools
import re

from . import exmodels as X, ref, scale
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

INT = {"int8", "uint8", "int16", "uint16", "int32"}


def scalar(dt):
    base, arr = ref.split_array(dt)
    t = "Boolean" if base == "boolean" else "String" if base == "string" else "Int" if base in INT else "Float"
    return f"[{t}]" if arr else t


def has_signal(n):
    return n.attrs["type"] != "branch" or any(has_signal(c) for c in n.kids.values())


def words(name):
    """The name without its first letter's and its acronyms' case"""
    return name.replace("_", "").lower()


def same_text(got, want):
    """Descriptions are block strings: surrounding blank lines and common indentation carry no meaning"""
    def norm(s):
        return [x.strip() for x in re.split("\r\n|\r|\n", s or "") if x.strip()]

    return norm(got) == norm(want)


class C20(ExportCheck):
    id = "C20"
    exporter = "graphql"
    preload = ("yaml", "graphql")
    has_types = False
    rule = (
        "every rooted tree up to 5 (thorough 6) nodes with every leaf a signal or an empty branch, every datatype x array x kind x constraint, every text of the alphabet as description and "
        "deprecation, names that GraphQL treats specially or that only differ in case, instances, additional fields; the schema is parsed and validated and compared with the reference "
        "model. state = distinct schema, transition = one CLI run"
    )

    def cases(self, tier):
        thorough = tier == "thorough"
        for fam in (X.shapes(5 if thorough else 4), X.datatypes(), X.instances(), X.allowed(), X.texts(X.STRINGS), scale.sweep(24 if thorough else 16, structs=False)):
            for key, main, types in fam:
                yield self.make(key, main)
        names = ["Query", "query", "Type", "Input", "Schema", "Value", "Timestamp", "Unit", "ID", "Id", "True", "Null", "On", "String", "Int", "X1", "X1A", "ABS", "IsABSOn", "ABCar", "A1B2", "lower", "lowerUpper"]
        for key, main, types in X.named(names):
            yield self.make(key, main)
        for key, main, types in X.pairs_of_names(itertools.combinations(["Ab", "AB", "aB", "ABC", "AbC", "Abc", "X1A", "X1a", "IsABS", "IsAbs"], 2)):
            yield self.make(key, main)
        # paths that differ only in where a name ends
        for n in (2, 3, 4):
            words_ = ["B", "C", "D", "E"][:n]
            cuts = list(itertools.product(("_", "."), repeat=n - 1))
            joined = ["".join(w + c for w, c in zip(words_, list(cut) + [""])) for cut in cuts]
            for r in (1, 2) if n > 3 else (1, 2, 3):
                for paths in itertools.permutations(joined, r):
                    for end in ("leaf", "branch"):
                        m = {"A": B}
                        for i, path in enumerate(paths):
                            parts = path.split(".")
                            for k in range(1, len(parts)):
                                m.setdefault("A." + ".".join(parts[:k]), {**B, "description": f"b{i}{k}"})
                            m["A." + path] = {**B, "description": f"e{i}"} if end == "branch" else leaf("uint8" if i else "string", description=f"l{i}")
                            if end == "branch":
                                m[f"A.{path}.X{i}"] = leaf(description=f"x{i}")
                        if any(v["type"] != "branch" and any(o.startswith(k + ".") for o in m) for k, v in m.items()):
                            continue
                        yield self.make(f"joined:{end}:{'/'.join(paths)}", m)
        for i, s in enumerate(X.STRINGS):
            for kind in ("sensor", "branch"):
                m = {"A": {**B, "deprecation": s}, "A.X": leaf(unit="km", deprecation=s, description="x"), "A.B": {**B, "deprecation": s}, "A.B.Y": leaf(unit="percent", description=s)}
                yield self.make(f"depr:{i}:{kind}", m)
        base = {"A": B, "A.X": leaf(unit="km"), "A.B": B, "A.B.Y": leaf("string", deprecation="old"), "A.B.C": B}
        for fields in itertools.chain.from_iterable(itertools.permutations(["source,Source System", "other,Some: text", "x1,", "Value,v", "value,v", "timestamp,t", "unit,u"], r) for r in ((1, 2, 3) if thorough else (1, 2))):
            yield self.make(f"fields:{fields}", base, opts=[x for f in fields for x in ("-g", f)])

    def unexportable(self, case, model):
        if not has_signal(model.root):
            return "no signal"
        for f, n in model.root.walk():
            k = [words(c.name) for c in n.kids.values() if has_signal(c)]
            if len(k) != len(set(k)):
                # spelled differently: told apart by some conversions of the case, all others have to refuse them
                return f"?{f}: two children may get the same field name"
        joined = [f.replace(".", "_") for f, n in model.root.walk() if has_signal(n)]
        if len(joined) != len(set(joined)):
            return "?two nodes would get the same type name"
        extra = [o.split(",")[0] for o in case["opts"] if "," in o]
        if set(extra) & {"value", "timestamp", "unit"}:
            return "an additional field replaces a field"
        return None

    def check(self, case, model, outs):
        from graphql import GraphQLError, build_schema, validate_schema

        if list(outs) != ["o.out"]:
            return [("files", f"files {sorted(outs)}")]
        try:
            s = build_schema(outs["o.out"])
        except GraphQLError as e:
            raise Malformed(f"schema does not parse: {e}")
        except TypeError as e:
            raise Malformed(f"schema is inconsistent: {e}")
        errs = validate_schema(s)
        if errs:
            raise Malformed(f"schema is invalid: {errs[0].message}")
        q = s.query_type
        if q is None or list(q.fields) != ["vehicle"]:
            raise Malformed("no query root with the field vehicle")
        v = q.fields["vehicle"]
        if {k: str(a.type) for k, a in v.args.items()} != {"id": "String!", "after": "String"}:
            return [("arguments", f"{v.args}")]
        extra = [o.split(",", 1) for o in case["opts"] if "," in o]
        bads, seen = [], set()

        def bad(sig, msg):
            bads.append((sig, msg))

        def text(what, got, want, loc):
            if not same_text(got, want):
                bad(what, f"{loc}: {what} {got!r}, expected {want!r}")

        def depr(field, n, loc):
            want = n.attrs.get("deprecation")
            if field.deprecation_reason != want:
                bad("deprecation", f"{loc}: deprecation {field.deprecation_reason!r}, expected {want!r}")

        def rec(fqn, n, t):
            name = str(t)
            if name in seen:
                bad("type-shared", f"{fqn}: type {name} is used twice")
                return
            seen.add(name)
            if name != fqn.replace(".", "_"):
                bad("type-name", f"{fqn}: type is called {name}")
            text("description", t.description, n.attrs["description"], fqn)
            d = n.attrs["description"]
            if n.attrs["type"] == "branch":
                kids = [c for c in n.kids.values() if has_signal(c)]
                if [words(f) for f in t.fields] != [words(c.name) for c in kids]:
                    bad("fields", f"{fqn}: fields {list(t.fields)}, expected those for {[c.name for c in kids]}")
                    return
                for (fname, f), c in zip(t.fields.items(), kids):
                    if re.fullmatch("([A-Z][a-z0-9]+)+", c.name) and fname != c.name[0].lower() + c.name[1:]:
                        bad("field-name", f"{fqn}.{c.name}: field is called {fname}")
                    text("field-description", f.description, c.attrs["description"], f"{fqn}.{fname}")
                    depr(f, c, f"{fqn}.{fname}")
                    if f.args:
                        bad("field-args", f"{fqn}.{fname} has arguments")
                    rec(f"{fqn}.{c.name}", c, f.type)
                return
            want = {"value": (scalar(n.attrs["datatype"]), f"Value: {d}"), "timestamp": ("String", f"Timestamp: {d}")}
            for k, desc in extra:
                want[k] = ("String", f" {desc}: {d}")
            if n.attrs.get("unit"):
                want["unit"] = ("String", f"Unit of {d}")
            got = {k: str(f.type) for k, f in t.fields.items()}
            if got != {k: w[0] for k, w in want.items()}:
                bad("signal-fields", f"{fqn}: {got}, expected {want}")
                return
            for k, f in t.fields.items():
                text("signal-description", f.description, want[k][1], f"{fqn}.{k}")
                depr(f, n, f"{fqn}.{k}")

        rec(model.root.name, model.root, v.type)
        rest = {k for k in s.type_map if not k.startswith("__")} - seen - {"Query", "String", "Int", "Float", "Boolean", "ID"}
        if rest:
            bad("types", f"superfluous types {sorted(rest)}")
        return bads[:3]


CHECK = C20
