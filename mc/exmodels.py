"""Families of models that every code generating exporter is run on.

Each generator yields (key, main specification, types specification or None).  Names are identifiers
([A-Za-z][A-Za-z0-9]*): what the VSS rules allow and every target language can express.
"""

import itertools
import json

from . import ref

B = {"type": "branch", "description": "b"}
UNITS = {"km": list(ref.SCALARS), "percent": list(ref.SCALARS)}
UNIT_FILES = {
    "units.yaml": "km: {definition: d, unit: kilo meter, quantity: q, allowed-datatypes: %s}\npercent: {definition: d, unit: per cent, quantity: q, allowed-datatypes: %s}\n"
    % ((str(list(ref.SCALARS)),) * 2),
    "quantities.yaml": "q: {definition: d}\n",
}


def leaf(dt="uint8", kind="sensor", **kw):
    return {"type": kind, "datatype": dt, "description": "d", **kw}


def shapes(size, names=("A", "B", "AB"), root="A", leaves=None):
    """Every rooted tree with up to `size` nodes, every naming out of `names`, leaves being signals or branches"""
    leaves = leaves or (leaf(), B)
    for n in range(1, size + 1):
        for parents in itertools.product(*[range(i) for i in range(1, n)]):
            inner = set(parents) | {0}
            for nm in itertools.product(names, repeat=n - 1):
                paths = [root]
                for i, p in enumerate(parents):
                    paths.append(f"{paths[p]}.{nm[i]}")
                if len(set(paths)) != len(paths):
                    continue
                ends = [i for i in range(n) if i not in inner]
                for kinds in itertools.product(range(len(leaves)), repeat=len(ends)):
                    k = dict(zip(ends, kinds))
                    yield f"shape:{'/'.join(paths)}:{''.join(map(str, kinds))}", {p: (leaves[k[i]] if i in k else B) for i, p in enumerate(paths)}, None


EXAMPLES = {  # valid values per datatype, growing
    "boolean": [False, True], "string": ["a", "b c"], "float": [-1.5, 0.25], "double": [-1.5, 1e22], "numeric": [-3, 2.5],
    **{f"uint{b}": [0, 2**b - 1] for b in (8, 16, 32, 64)}, **{f"int{b}": [-(2 ** (b - 1)), 2 ** (b - 1) - 1] for b in (8, 16, 32, 64)},
}  # fmt: skip


def datatypes(kinds=("sensor", "actuator", "attribute")):
    """Every scalar datatype, alone, as array and as array of fixed size, with every kind of constraint"""
    for dt in ref.SCALARS:
        lo, hi = EXAMPLES[dt]
        for arr, size in (("", None), ("[]", None), ("[]", 1), ("[]", 3)):
            a = {} if size is None else {"arraysize": size}
            one = (lambda v: [v] * (size or 2)) if arr else (lambda v: v)
            cons = [{}, {"unit": "km"}, {"default": one(lo)}, {"default": one(hi)}, {"allowed": [lo]}, {"allowed": [lo, hi], "default": one(hi)}]
            if dt not in ("boolean", "string"):
                cons += [{"min": lo}, {"max": hi}, {"min": lo, "max": hi, "unit": "percent", "default": one(lo)}, {"min": 0}, {"max": 0}]
            if arr and size is None:
                cons.append({"default": []})
            for i, c in enumerate(cons):
                for kind in kinds:
                    if kind != kinds[0] and i > 2:
                        continue
                    n = "IsX" if dt == "boolean" else "X"
                    yield f"dt:{dt}{arr}{size}:{i}:{kind}", {"A": B, f"A.{n}": leaf(dt + arr, kind, **a, **c), "A.Y": leaf("float")}, None


def texts(strings):
    for i, s in enumerate(strings):
        yield f"text:{i}", {"A": {**B, "description": s, "comment": s}, "A.B": {**B, "description": s}, "A.B.X": leaf("string", "attribute", description=s, comment=s, deprecation=s, default=s), "A.Y": leaf()}, None
    for i, s in enumerate(UNIT_NAMES):
        yield f"unitname:{i}", {"A": B, "A.X": leaf("float", "sensor", unit=s), "A.Y": leaf("int8[]", "attribute", unit=s, default=[1])}, None


UNIT_NAMES = ["m/s", "m/s^2", "degrees", "\u00b0C", "\u03a9", "%", "Nm", "a b", "cm^3", "m/h", "iso8601", "W/(m*K)", 'in "', '"', "'", "\\", "a\\n", "x,y", "a;b", "/*", "*/", "//", "#", "}", "{x}", "<b>", "&", "null", "true", "1", "x" * 100, "-", "unix_time", "${x}"]


def units_for(*docs):
    """The units a specification refers to, and unit files that define them"""
    names = sorted({v["unit"] for d in docs if d for v in d.values() if isinstance(v.get("unit"), str) and v["unit"]} - set(UNITS))
    if not names:
        return UNITS, UNIT_FILES
    lines = "".join(f"{json.dumps(n, ensure_ascii=False)}: {{definition: d, unit: {json.dumps('name of ' + n, ensure_ascii=False)}, quantity: q, allowed-datatypes: {list(ref.SCALARS)}}}\n" for n in names)
    return {**UNITS, **{n: list(ref.SCALARS) for n in names}}, {**UNIT_FILES, "units.yaml": UNIT_FILES["units.yaml"] + lines}


STRINGS = [
    "", " ", "plain", "two words", 'q"q', "q'q", '"', '"""', "\\", 'end\\', '\\"', "a\\nb", "a,b", "a;b", "{x}", "}", "/* c */", "*/", "// c", "# c", "%d%s", "${x}", "$x", "`tick`", "<b>&amp;</b>", "ü€😀",
    "tab\there", "line\nbreak", "end\n", "\nstart", "two\n\nlines\n  indented\n}", "cr\r\nlf", "x" * 600, "word " * 120, "[]", "null", "true", "0", "1e3", "{{ x }}", "{% x %}", "[a]", "-", "1:2",
]  # fmt: skip


def structs():
    """References between up to three structs in up to three places, from struct properties and signals"""
    where = ("T.S", "T.N.S", "T.N.R", "T.N.M.S", "T.O.S", "T.O.Q")
    def tree(paths, refs):
        t = {"T": B}
        for p in paths:
            parts = p.split(".")
            for i in range(2, len(parts)):
                t.setdefault(".".join(parts[:i]), B)
        for p in paths:
            t[p] = {"type": "struct", "description": "s"}
            t[p + ".P"] = leaf("uint8", "property", min=1, max=9)
            t[p + ".Of" + p.replace(".", "")] = leaf("string", "property")
            for j, r in enumerate(refs.get(p, ())):
                t[f"{p}.R{j}"] = leaf(r, "property")
        return t

    for n in (1, 2, 3):
        for paths in itertools.combinations(where, n):
            for order in itertools.permutations(paths):
                # references of a struct to earlier or later ones, no cycles
                pairs = [(a, b) for a, b in itertools.combinations(order, 2)]
                for mask in range(2 ** len(pairs)):
                    refs = {}
                    for i, (a, b) in enumerate(pairs):
                        if mask >> i & 1:
                            refs.setdefault(a, []).append(b + ("[]" if i % 2 else ""))
                    for rev in (False, True):
                        if rev and n == 1:
                            continue
                        t = tree(list(reversed(order)) if rev else order, refs)
                        main = {"A": B, "A.X": leaf(order[0]), "A.B": B}
                        for i, p in enumerate(order):
                            main[f"A.B.Y{i}"] = leaf(p + "[]", "actuator")
                        yield f"struct:{','.join(order)}:{mask}:{rev}", main, t
    # kinds of properties
    for dt in ref.SCALARS:
        lo, hi = EXAMPLES[dt]
        for arr, size in (("", None), ("[]", None), ("[]", 3)):
            for i, c in enumerate([{}, {"default": [lo] * (size or 2) if arr else lo}, {"allowed": [lo, hi]}] + ([{"min": lo, "max": hi, "unit": "km"}] if dt not in ("string", "boolean") else [])):
                a = {"arraysize": size} if size else {}
                t = {"T": B, "T.S": {"type": "struct", "description": "s"}, "T.S.IsP": leaf(dt + arr, "property", **a, **c)}
                yield f"prop:{dt}{arr}{size}:{i}", {"A": B, "A.X": leaf("T.S")}, t
    # names of inner scopes that coincide with the outermost one
    s = {"type": "struct", "description": "s"}
    for a, b in itertools.permutations(("T.S", "T.T", "T.N.T", "T.T.S", "T.N.N", "T.N.S", "T.N", "T.T.T"), 2):
        if a.startswith(b + ".") or b.startswith(a + "."):
            continue
        for rev in (False, True):
            t = {"T": B}
            for x in (b, a) if rev else (a, b):
                for i in range(2, x.count(".") + 1):
                    t[".".join(x.split(".")[:i])] = B
                t[x] = s
                t[x + ".P"] = leaf("string", "property")
            t[a + ".R"] = leaf(b, "property")
            yield f"struct:scope:{a}:{b}:{rev}", {"A": B, "A.T": leaf(a), "A.N": B, "A.N.T": leaf(b)}, t
    # declared but never used, nested namespaces without structs, struct arrays of fixed size
    yield "struct:unused", {"A": B, "A.X": leaf()}, {"T": B, "T.S": s, "T.S.P": leaf("int8", "property")}
    for r in ("T", "AB"):
        yield f"struct:root:{r}", {r: B, f"{r}.X": leaf("T.S"), f"{r}.B": B, f"{r}.AB": B}, {"T": B, "T.S": s, "T.S.P": leaf("int8", "property")}
        yield f"struct:root2:{r}", {"A": B, "A.X": leaf(f"{r}.S"), "A.B": B, "A.B.X": leaf()}, {r: B, f"{r}.S": s, f"{r}.S.P": leaf("int8", "property")}
    yield "struct:empty", {"A": B, "A.X": leaf("T.S")}, {"T": B, "T.S": s}
    yield "struct:none", {"A": B, "A.X": leaf()}, {"T": B, "T.N": B}
    yield "struct:array", {"A": B, "A.X": leaf("T.S[]", arraysize=3)}, {"T": B, "T.S": s, "T.S.P": leaf("int8", "property")}
    yield "struct:deep", {"A": B, "A.B": {**B, "instances": ["L", "R"]}, "A.B.X": leaf("T.N.S")}, {"T": B, "T.N": B, "T.N.S": s, "T.N.S.P": leaf("T.N.R[]", "property", arraysize=2), "T.N.R": s, "T.N.R.Q": leaf("string[]", "property")}
    yield "struct:twice", {"A": B, "A.X": leaf("T.N.S"), "A.Y": leaf("T.O.S")}, {
        "T": B, "T.N": B, "T.O": B, "T.N.S": s, "T.N.S.P": leaf("T.O.S", "property"), "T.N.S.Q": leaf("T.O.S[]", "property"), "T.N.R": s, "T.N.R.P": leaf("T.O.S", "property"), "T.N.R.O": leaf("T.N.S", "property"),
        "T.O.S": s, "T.O.S.P": leaf("int8", "property"),
    }  # fmt: skip


def instances():
    for i, inst in enumerate(("L", ["L", "R"], "Row[1,2]", ["Row[1,2]", "L"], [["L", "R"]], ["Row[1,3]", ["L", "R"]], ["Row1", "Row2"])):
        for extra in (False, True):
            m = {"A": B, "A.B": {**B, "instances": inst}, "A.B.X": leaf(), "A.B.C": B, "A.B.C.Y": leaf("string", "attribute"), "A.Z": leaf("float")}
            if extra:
                m["A.B.C"] = {**B, "instances": ["P", "Q"]}
                m["A.B.N"] = leaf("boolean", instantiate=False)
            yield f"inst:{i}:{extra}", m, None
            if extra:
                m = dict(m)
                m["A.D"] = {**B, "instances": ["L", "R"]}
                m["A.D.X"] = leaf("string")
                m["A.D.B"] = B
                m["A.D.B.X"] = leaf("int8")
                yield f"inst:{i}:two", m, None


ALLOWED = {
    "string": [["A"], ["A", "B"], ["a", "A"], ["B", "A", "C"], ["1", "2"], ["1A", "A1"], ["with space", "with-dash"], ["", "X"], ["ü", "€"], ['q"q', "b\\s"], ["x" * 40, "y"], ["None", "null", "true"], ["UP", "up", "Up"], ["A_B", "A B", "A-B", "A.B"], ["A", "A"], ["default", "struct", "enum", "string"], ["+", "-"], ["π", "Ω"], ["line\nbreak", "tab\t"], ["%", "$", "#"], ["_a", "a_"]],
    "uint8": [[1], [0, 255], [3, 1, 2], [10, 16]], "int8": [[-128, 0, 127], [-1], [-1, 1]], "int64": [[-(2**63), 2**63 - 1]], "uint64": [[2**64 - 1]],
    "float": [[0.5], [1.5, -2.25], [1, 2.5], [1e-7, 1e22]], "double": [[0.1, 0.2]], "boolean": [[True], [True, False]], "numeric": [[1, 2.5]],
}  # fmt: skip


def allowed(kinds=("sensor",)):
    for dt, lists in ALLOWED.items():
        for i, lst in enumerate(lists):
            for arr in ("", "[]"):
                for j, d in enumerate((None, lst[0], *lst[-1:][: len(lst) - 1])):
                    for kind in kinds:
                        n = "IsX" if dt == "boolean" else "X"
                        c = {} if d is None else {"default": [d, d] if arr else d}
                        yield f"allowed:{dt}{arr}:{i}:{j}:{kind}", {"A": B, f"A.{n}": leaf(dt + arr, kind, allowed=lst, **c), "A.B": B, "A.B.Z": leaf(dt + arr, kind, allowed=lst)}, None


def named(names, root=False):
    """Every name as branch, signal, instance label and struct/property name"""
    for n in names:
        yield f"name:{n}:leaf", {"A": B, f"A.{n}": leaf(), "A.Z": leaf("float")}, None
        yield f"name:{n}:branch", {"A": B, f"A.{n}": B, f"A.{n}.X": leaf(), f"A.{n}.{n}": leaf("string")}, None
        yield f"name:{n}:inst", {"A": B, "A.B": {**B, "instances": [n, "Other"]}, "A.B.X": leaf()}, None
        if root:
            yield f"name:{n}:root", {n: B, f"{n}.X": leaf(), f"{n}.C": B, f"{n}.C.X": leaf()}, None


def named_types(names):
    s = {"type": "struct", "description": "s"}
    for n in names:
        yield f"tname:{n}:struct", {"A": B, "A.X": leaf(f"T.{n}")}, {"T": B, f"T.{n}": s, f"T.{n}.P": leaf("int8", "property")}
        yield f"tname:{n}:prop", {"A": B, "A.X": leaf("T.S")}, {"T": B, "T.S": s, f"T.S.{n}": leaf("int8", "property"), "T.S.Z": leaf("T.R", "property"), "T.R": s, "T.R.P": leaf("string", "property")}
        yield f"tname:{n}:ns", {"A": B, "A.X": leaf(f"T.{n}.S[]")}, {"T": B, f"T.{n}": B, f"T.{n}.S": s, f"T.{n}.S.P": leaf("int8", "property")}


def pairs_of_names(pairs):
    """Two siblings of every kind under names that a target language may confuse"""
    for a, b in pairs:
        for x, y in ((a, b), (b, a)):
            for k1, k2 in itertools.product("sb", repeat=2):
                m = {"A": B}
                for n, k, dt in ((x, k1, "uint8"), (y, k2, "string")):
                    if k == "s":
                        m[f"A.{n}"] = leaf(dt)
                    else:
                        m[f"A.{n}"] = B
                        m[f"A.{n}.X"] = leaf(dt)
                        m[f"A.{n}.Only{dt}"] = leaf(dt)
                yield f"pair:{x}:{y}:{k1}{k2}", m, None
