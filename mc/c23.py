"""C23: the Go export compiles and mirrors the model."""

import itertools
import re

from . import exmodels as X, ref, scale
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

KEYWORDS = set("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var".split())
GO = {"boolean": "bool", "string": "string", "float": "float32", "double": "float64", "numeric": "float64", **{k: k for k in ref.INT_RANGES}}
BUILTIN = set(GO.values())
IDENT = r"[A-Za-z_][A-Za-z0-9_]*"


def parse(text):
    """-> (package, {type name: [(field, array prefix, type)]}); the subset of Go the exporter writes, checked like the compiler does"""
    m = re.match(rf"package ({IDENT})\n", text)
    if not m or m.group(1) in KEYWORDS:
        raise Malformed("no package clause")
    types, pos = {}, m.end()
    item = re.compile(rf"\s*type ({IDENT}) struct \{{\n((?:[^{{}}\n]*\n)*)\}}")
    while text[pos:].strip():
        d = item.match(text, pos)
        if not d:
            raise Malformed(f"unexpected text {text[pos:pos + 60]!r}")
        pos = d.end()
        name, fields = d.group(1), []
        if name in KEYWORDS or name in ("init", "_"):
            raise Malformed(f"{name} is no type name")
        if name in types:
            raise Malformed(f"type {name} redeclared")
        for line in d.group(2).splitlines():
            f = re.fullmatch(rf"\s*({IDENT})\s+((?:\[\d*\])*)({IDENT})\s*", line)
            if not f:
                raise Malformed(f"type {name}: unexpected line {line!r}")
            if f.group(1) in KEYWORDS or f.group(3) in KEYWORDS:
                raise Malformed(f"type {name}: keyword in {line!r}")
            if f.group(1) in [x[0] for x in fields]:
                raise Malformed(f"type {name}: field {f.group(1)} redeclared")
            fields.append(f.groups())
        types[name] = fields
    for name, fields in types.items():
        for f, _, t in fields:
            if t not in types and t not in BUILTIN:
                raise Malformed(f"{name}.{f}: undefined type {t}")
    # a struct must not contain itself (not even in an array of fixed size)
    state = {}

    def visit(t, path):
        if state.get(t) == 1:
            raise Malformed(f"invalid recursive type {' -> '.join(path + (t,))}")
        if t not in types or state.get(t) == 2:
            return
        state[t] = 1
        for _, arr, x in types[t]:
            if arr != "[]":
                visit(x, path + (t,))
        state[t] = 2

    for t in types:
        visit(t, ())
    return m.group(1), types


class C23(ExportCheck):
    id = "C23"
    exporter = "go"
    preload = ("yaml", "go")
    rule = (
        "every rooted tree up to 5 (thorough 6) nodes with names whose concatenations coincide, every datatype x array x kind, every placement and acyclic reference graph of up to 3 structs in 6 "
        "places, every instance declaration with equal and with individually changed instances (added, changed, deleted members at every level), names like the generated instance types, x "
        "--short-names x --package; the file is parsed and type-checked by the rules of Go and compared with the reference model. state = distinct output, transition = one CLI run"
    )

    def cases(self, tier):
        thorough = tier == "thorough"
        combos = [[], ["--no-short-names"], ["--package", "other"]]
        fams = [X.shapes(5 if thorough else 4), X.shapes(5 if thorough else 4, ("B", "I1"), leaves=(B,)), X.datatypes(), X.structs(), X.instances(), X.allowed(), scale.sweep(24 if thorough else 16)]
        words = ["Type", "Func", "String", "Struct", "Int8", "I1", "I2", "Vss", "Error", "Main", "Init", "A", "AB", "type", "string", "init", "int8", "func", "vss"]
        fams += [X.named(words, True), X.named_types(words)]
        n, seen = 0, set()
        for fam in fams:
            for key, main, types in fam:
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                for i, o in enumerate(combos):
                    if i == 1 and n % 3 and not thorough and key.split(":")[0] in ("struct", "dt", "prop"):
                        continue
                    if i == 2 and n % 10 and not key.startswith("inst"):
                        continue
                    yield self.make(f"{key}:{','.join(o)}", main, types, o)
        # ---- instances that differ
        base = {"A": B, "A.B": B, "A.B.X": leaf(), "A.B.C": B, "A.B.C.Y": leaf("string"), "A.Z": leaf("float")}
        decls = ["L", ["L", "R"], "Row[1,2]", ["Row[1,2]", ["L", "R"]], ["I1", "I2"], ["C", "D"], ["B", "A"]]
        for d, decl in enumerate(decls):
            chains = [[x] for x in decl] if isinstance(decl, list) and not isinstance(decl[0], list) and not any(isinstance(x, list) for x in decl) and "[" not in decl[0] else None
            if decl == "L":
                chains = [["L"]]
            elif decl == "Row[1,2]":
                chains = [["Row1"], ["Row2"]]
            elif chains is None:
                chains = [["Row1", "L"], ["Row1", "R"], ["Row2", "L"], ["Row2", "R"]]
            edits = [None]
            for c in chains[:2] if not thorough else chains:
                p = "A.B." + ".".join(c)
                for q in dict.fromkeys([p, "A.B." + c[0]]):
                    edits += [{f"{q}.N": leaf("int8")}, {f"{q}.N": B, f"{q}.N.M": leaf()}, {f"{q}.C.N": leaf("int8")}]
                edits += [{f"{p}.X": {"type": "sensor", "datatype": "int32", "description": "d"}}, {f"{p}.X": {**leaf(), "delete": True}}, {f"{p}.C.Y": {**leaf("string"), "delete": True}}, {f"{p}.C.Y": {**leaf(), "datatype": "string[]", "description": "d"}}]
            edits += [{"A.B.G": {**B, "instantiate": False}, "A.B.G.E": leaf("int8")}, {"A.B.I1": {**B, "instantiate": False}, "A.B.I1.E": leaf("int8")}, {"A.B.C": {**B, "instances": ["P", "Q"]}}, {"A.B.C": {**B, "instantiate": False}}]
            two = [{"A.B.C": {**B, "instances": ["P", "Q"]}, f"A.B.{'.'.join(chains[0])}.C.P.N": leaf("int8")}, {"A.D": {**B, "instances": decl}, "A.D.X": leaf("string"), "A.D.B": B, "A.D.B.X": leaf("int8")}]
            for e, edit in enumerate(edits + two):
                if decl == ["I1", "I2"] and edit and "A.B.I1" in edit:
                    continue  # is there already
                if decl == ["C", "D"] and edit and not edit.get("A.B.C", {}).get("instantiate", True):
                    continue  # likewise
                m = {**base, "A.B": {**B, "instances": decl}, **(edit or {})}
                for o in combos[:2]:
                    yield self.make(f"differ:{d}:{e}:{','.join(o)}", m, None, o)
                    # two instantiated branches with the same content below different parents
                    m2 = {**m, "A.E": B, **{k.replace("A.", "A.E.", 1): v for k, v in m.items() if k.startswith("A.B")}}
                    yield self.make(f"differ2:{d}:{e}:{','.join(o)}", m2, None, o)

    def unexportable(self, case, model):
        names = [f.replace(".", "") for tree in (model.root, model.types) if tree for f, n in tree.walk() if n.attrs["type"] == "struct" or (n.attrs["type"] == "branch" and tree is model.root)]
        if len(names) != len(set(names)):
            return "?two types share a name"
        if any(p in KEYWORDS or p in BUILTIN or p == "init" for tree in (model.root, model.types) if tree for f, n in tree.walk() for p in f.split(".")):
            return "?a name has a meaning in Go"
        return None

    def check(self, case, model, outs):
        if list(outs) != ["o.out"]:
            return [("files", f"files {sorted(outs)}")]
        pkg, types = parse(outs["o.out"])
        want = case["opts"][case["opts"].index("--package") + 1] if "--package" in case["opts"] else "vss"
        bads = []
        if pkg != want:
            bads.append(("package", f"package {pkg}"))
        structs = model.type_nodes()
        used, by_struct = set(), {}

        def check(fqn, n, t):
            """The type t has to describe node n"""
            if t not in types:
                bads.append(("type", f"{fqn}: {t} is no struct type"))
                return
            if n.attrs["type"] == "struct":
                if by_struct.setdefault(fqn, t) != t:
                    bads.append(("struct", f"{fqn}: types {t} and {by_struct[fqn]}"))
                    return
                if t in used:
                    return
            used.add(t)
            if [f for f, _, _ in types[t]] != list(n.kids):
                bads.append(("fields", f"{fqn}: type {t} has the fields {[f for f, _, _ in types[t]]}, expected {list(n.kids)}"))
                return
            for (f, arr, x), c in zip(types[t], n.kids.values()):
                loc = f"{fqn}.{f}"
                if c.attrs["type"] == "branch":
                    if arr:
                        bads.append(("array", f"{loc}: type {arr}{x}"))
                    check(loc, c, x)
                    continue
                base, isarr = ref.split_array(c.attrs["datatype"])
                if isarr != (arr != "") or (arr not in ("", "[]") and arr != f"[{c.attrs.get('arraysize')}]"):
                    bads.append(("array", f"{loc}: type {arr}{x} for {c.attrs['datatype']}"))
                if base in GO:
                    if x != GO[base]:
                        bads.append(("field-type", f"{loc}: type {arr}{x} for {c.attrs['datatype']}"))
                else:
                    check(base, structs[base], x)

        root = next(iter(types), None)
        roots = [t for t in types if t.lower() == model.root.name.lower()]
        if len(roots) != 1:
            return [("root", f"no type for {model.root.name}: {sorted(types)}, first {root}")]
        check(model.root.name, model.root, roots[0])
        rest = [t for t in types if t not in used]
        for f, n in structs.items():
            if n.attrs["type"] == "struct" and f not in by_struct:
                fit = [t for t in rest if [x for x, _, _ in types[t]] == list(n.kids)]
                if not fit:
                    bads.append(("struct-missing", f"no type for {f}: {sorted(types)}"))
                else:
                    n0 = len(bads)
                    check(f, n, next((t for t in fit if f.replace(".", "").endswith(t)), fit[0]))
                    if len(bads) == n0:
                        rest = [t for t in rest if t not in used]
        rest = [t for t in types if t not in used]
        if rest:
            bads.append(("superfluous", f"types {rest} describe nothing"))
        return bads[:3]


CHECK = C23
