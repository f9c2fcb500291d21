"""C22: the DDS-IDL export is well-formed and covers the model."""

import ast
import keyword
import re

from . import exmodels as X, ref, scale
from .c10 import fqn_uuid  # noqa: F401
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

IDL = """abstract any alias attribute bitfield bitmask bitset boolean case char component connector const consumes context custom default double exception emits enum eventtype factory FALSE finder
fixed float getraises home import in inout interface local long manages map mirrorport module multiple native Object octet oneway out primarykey private port porttype provides public publishes
raises readonly setraises sequence short string struct supports switch TRUE truncatable typedef typeid typename typeprefix unsigned union uses ValueBase valuetype void wchar wstring int8 uint8
int16 int32 int64 uint16 uint32 uint64""".split()
KEYWORDS = {k.lower() for k in IDL}
PYTHON = set(keyword.kwlist)
BASE = {
    "uint8": "octet", "int8": "octet", "uint16": "unsigned short", "int16": "short", "uint32": "unsigned long", "int32": "long", "uint64": "unsigned long long", "int64": "long long",
    "boolean": "boolean", "float": "float", "double": "double", "numeric": "double", "string": "string",
}  # fmt: skip
TOKEN = re.compile(r'\s+|//[^\n]*|([A-Za-z_][A-Za-z0-9_]*)|(-?\d[0-9.]*(?:[eE][+-]?\d+)?)|"((?:[^"\\\n]|\\.)*)"|(::|[{}<>;,=()\[\]@])|(\'[^\n]*?\')')
UNESCAPE = {"n": "\n", "t": "\t", "r": "\r"}


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Malformed(f"unexpected text {text[pos:pos + 30]!r}")
        s = m.group(0)
        if s.startswith("//") and s.endswith("\\"):
            raise Malformed(f"comment {s!r} continues on the next line")
        if s.startswith("//") and "\r" in s:
            raise Malformed(f"line break within the comment {s!r}")
        if m.group(1):
            out.append(("id", m.group(1)))
        elif m.group(2):
            out.append(("num", m.group(2)))
        elif m.group(3) is not None:
            out.append(("str", re.sub(r"\\(.)", lambda x: UNESCAPE.get(x.group(1), x.group(1)), m.group(3))))
        elif m.group(4):
            out.append((m.group(4), m.group(4)))
        elif m.group(5):
            out.append(("chr", m.group(5)))
        pos = m.end()
    return out + [("eof", None)]


class Parser:
    """IDL subset -> self.items: [(kind, path, payload)] in order of definition"""

    def __init__(self, text, full):
        self.t = tokens(text)
        self.i = 0
        self.full = full
        self.decl = {}  # scope tuple (lower case) -> {lower name: (kind, complete)}
        self.items = []
        while self.t[self.i][0] != "eof":
            self.definition(())

    def eat(self, *kinds):
        k, v = self.t[self.i]
        if k not in kinds:
            raise Malformed(f"expected {kinds}, found {v!r} after {' '.join(str(x[1]) for x in self.t[max(0, self.i - 6) : self.i])}")
        self.i += 1
        return v

    def word(self, w):
        if self.t[self.i] != ("id", w):
            raise Malformed(f"expected {w}, found {self.t[self.i][1]!r}")
        self.i += 1

    def ident(self):
        v = self.eat("id")
        if v in PYTHON:
            raise Malformed(f"identifier {v} is a keyword of Python")
        if v.startswith("_"):
            v = v[1:]
            if not v:
                raise Malformed("empty identifier")
        elif v.lower() in KEYWORDS:
            raise Malformed(f"identifier {v} is a keyword of IDL")
        return v

    def declare(self, scope, name, kind, complete=True):
        d = self.decl.setdefault(tuple(s.lower() for s in scope), {})
        old = d.get(name.lower())
        if old and not (kind == old[0] == "module" or (kind == old[0] == "struct" and not old[1])):
            raise Malformed(f"{'::'.join(scope + (name,))} is defined twice")
        d[name.lower()] = (kind, complete)

    def resolve(self, scope, names, absolute):
        low = [n.lower() for n in names]
        scope = tuple(s.lower() for s in scope)
        for i in range(len(scope), -1, -1) if not absolute else (0,):
            if low[0] in self.decl.get(scope[:i], {}):
                cur = scope[:i]
                for n in low:
                    e = self.decl.get(cur, {}).get(n)
                    if not e:
                        return None
                    cur += (n,)
                return e[0], e[1], cur
        return None

    def definition(self, scope):
        w = self.eat("id")
        if w == "module":
            name = self.ident()
            self.declare(scope, name, "module")
            self.items.append(("module", scope + (name,), None))
            self.eat("{")
            if self.t[self.i][0] == "}":
                raise Malformed(f"module {name} is empty")
            while self.t[self.i][0] != "}":
                self.definition(scope + (name,))
            self.eat("}")
            self.eat(";")
        elif w == "enum":
            name = self.ident()
            self.declare(scope, name, "enum")
            self.eat("{")
            lits = [self.ident()]
            while self.t[self.i][0] == ",":
                self.eat(",")
                lits.append(self.ident())
            self.eat("}")
            self.eat(";")
            for x in lits:
                self.declare(scope, x, "literal")
            self.items.append(("enum", scope + (name,), lits))
        elif w == "struct":
            name = self.ident()
            if self.t[self.i][0] == ";":
                self.eat(";")
                self.declare(scope, name, "struct", False)
                return
            self.declare(scope, name, "struct", False)
            self.eat("{")
            members, seen = [], set()
            while self.t[self.i][0] != "}":
                m = self.member(scope + (name,))
                if m[1].lower() in seen:
                    raise Malformed(f"two members {m[1]} in {name}")
                seen.add(m[1].lower())
                members.append(m)
            self.eat("}")
            self.eat(";")
            self.declare(scope, name, "struct", True)
            self.items.append(("struct", scope + (name,), members))
        else:
            raise Malformed(f"unexpected {w}")

    def typ(self, scope, seq=False):
        if self.t[self.i] == ("id", "sequence"):
            self.i += 1
            self.eat("<")
            t = self.typ(scope, True)
            if self.t[self.i][0] == ",":
                self.eat(",")
                t += "," + self.eat("num")
            self.eat(">")
            return f"sequence<{t}>"
        absolute = self.t[self.i][0] == "::"
        if absolute:
            self.eat("::")
        k, v = self.t[self.i]
        if not absolute and k == "id" and v in KEYWORDS and v not in ("struct", "enum", "module"):
            words = []
            while self.t[self.i][0] == "id" and self.t[self.i][1] in ("unsigned", "long", "short", "octet", "boolean", "float", "double", "string", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"):
                words.append(self.eat("id"))
                if words[-1] not in ("unsigned", "long"):
                    break
            t = " ".join(words)
            if t not in set(BASE.values()) | set(ref.INT_RANGES):
                raise Malformed(f"unknown type {t or v}")
            return t
        names = [self.ident()]
        while self.t[self.i][0] == "::":
            self.eat("::")
            names.append(self.ident())
        r = self.resolve(scope, names, absolute)
        if r is None:
            raise Malformed(f"{'::'.join(names)} is not declared where {'::'.join(scope)} uses it")
        if r[0] not in ("struct", "enum"):
            raise Malformed(f"{'::'.join(names)} used in {'::'.join(scope)} is a {r[0]}")
        if not r[1] and not seq:
            raise Malformed(f"{'::'.join(names)} is incomplete where {'::'.join(scope)} uses it")
        return "::" + "::".join(r[2])

    def member(self, scope):
        """(type, name, default, range, constant)"""
        rng = default = None
        if self.t[self.i] == ("id", "const") and self.full:
            self.i += 1
            self.word("string")
            name = self.eat("id")
            self.eat("=")
            v = self.eat("str")
            self.eat(";")
            return ("const", name, v, None)
        if self.t[self.i][0] == "@" and self.full:
            self.eat("@")
            self.word("range")
            self.eat("(")
            self.word("min")
            self.eat("=")
            lo = self.eat("num")
            self.eat(",")
            self.word("max")
            self.eat("=")
            hi = self.eat("num")
            self.eat(")")
            rng = (float(lo), float(hi))
        t = self.typ(scope)
        name = self.ident()
        if self.full and self.t[self.i][0] != ";":
            if self.t[self.i] == ("id", "default"):
                self.i += 1
            default = []
            while self.t[self.i][0] != ";":
                default.append(self.t[self.i])
                if self.t[self.i][0] in ("eof", "{", "}"):
                    raise Malformed("unterminated default")
                self.i += 1
        self.eat(";")
        return (t, name, default, rng)


def literal(s):
    s = "d" + s if s[:1].isdigit() else s
    return s if re.fullmatch("[A-Za-z][A-Za-z0-9_]*", s) else None


def enum_literals(allowed):
    """The literals the enumeration has to have, or None if the values are no (distinct) identifiers"""
    if not all(isinstance(a, str) for a in allowed):
        return None
    lits = [literal(a) for a in allowed]
    if None in lits or len({x.lower() for x in lits}) != len(lits):
        return None
    return lits


def has_signal(n):
    return n.attrs["type"] != "branch" or any(has_signal(c) for c in n.kids.values())


class C22(ExportCheck):
    id = "C22"
    exporter = "ddsidl"
    preload = ("yaml", "ddsidl")
    rule = (
        "every rooted tree up to 4 (thorough 5) nodes, every datatype x array x kind x constraint, every allowed list, every text, every keyword of IDL, C and Python in several spellings as name "
        "of every kind of node, every placement and acyclic reference graph of up to 3 structs, x --all-idl-features x --uuid; the text is parsed and name-resolved by the rules of IDL 4.2 and "
        "compared with the reference model. state = distinct output, transition = one CLI run"
    )

    def cases(self, tier):
        thorough = tier == "thorough"
        combos = [[], ["--all-idl-features"], ["--uuid"], ["--all-idl-features", "--uuid"]]
        n = 0
        distinct = ("B", "C", "D")
        for fam in (X.shapes(5 if thorough else 4, distinct), X.datatypes(), X.allowed(), X.texts(X.STRINGS), X.structs(), X.instances(), scale.sweep(24 if thorough else 16)):
            for key, main, types in fam:
                n += 1
                for o in combos if thorough or not key.startswith(("shape", "struct")) else combos[n % 4 : n % 4 + 1]:
                    if key.startswith("struct:root:T"):
                        continue  # types and signals in one module
                    if key.startswith(("shape", "scale")) and any(p.split(".")[-1] in p.split(".")[:-1] for p in main):
                        continue
                    yield self.make(f"{key}:{','.join(o)}", main, types, o)
        words = sorted({*IDL, *keyword.kwlist, "auto", "break", "extern", "goto", "register", "sizeof", "volatile", "uuid", "value", "values", "type", "unit", "description", "Match", "Print", "Octet", "Self", "Values"})
        done = set()
        for w in words:
            for s in dict.fromkeys([w, w.capitalize(), w.lower(), w.upper()]):
                if s in done:
                    continue
                done.add(s)
                for key, main, types in X.named([s], s.lower() not in ("true", "false", "null", "yes", "no", "on", "off")):
                    if ":branch" in key or ":root" in key:
                        # the name of a scope must not be defined again directly within it
                        main = {k: v for k, v in main.items() if k.split(".").count(s) < 2}
                    yield self.make(key, main, None, ["--uuid"] if len(w) % 2 else [])
                for key, main, types in X.named_types([s]):
                    if s.lower() == "t":
                        continue
                    yield self.make(key, main, types)
                for d in (None, w):
                    c = {} if d is None else {"default": d}
                    for o in combos[:2]:
                        yield self.make(f"lit:{s}:{d is None}:{','.join(o)}", {"A": B, "A.X": leaf("string", allowed=[s, "Other", w] if s.lower() != w.lower() else [w, "Other"], **c)}, None, o)
        # every position of a value that is no identifier
        for bad in ("", "1", "1a", "a b", "ü", '"', "a-b"):
            for pos in range(3):
                lst = ["UP", "DOWN"]
                lst.insert(pos, bad)
                for dt in ("string", "string[]"):
                    for o in combos[:2]:
                        yield self.make(f"noident:{bad}:{pos}:{dt}:{','.join(o)}", {"A": B, "A.X": leaf(dt, allowed=lst, default=[bad] if "[" in dt else bad), "A.B": B, "A.B.Y": leaf("string", allowed=["UP"])}, None, o)

    def unexportable(self, case, model):
        for f, n in model.root.walk():
            a = n.attrs
            if a.get("allowed") and a["datatype"].startswith("string") and enum_literals(a["allowed"]) is None:
                return "?values that are no identifiers"
        for f, n in list(model.root.walk()) + (list(model.types.walk()) if model.types else []):
            low = f.lower().split(".")
            if any(x == y for x, y in zip(low, low[1:])) and n.attrs["type"] != "property":
                return "?a scope and its member share their name"
        return None

    def check(self, case, model, outs):
        if list(outs) != ["o.out"]:
            return [("files", f"files {sorted(outs)}")]
        full = "--all-idl-features" in case["opts"]
        uuid = "--uuid" in case["opts"]
        p = Parser(outs["o.out"], full)
        exp = []  # (kind, path, check of the payload)
        types = dict(model.types.walk()) if model.types else {}

        def idl_type(dt, prop=False):
            base, arr = ref.split_array(dt)
            ts = [BASE[base]] if base in BASE else ["::" + base.replace(".", "::").lower()]
            if prop and base in ref.INT_RANGES:
                ts.append(base)
            return [f"sequence<{t}>" for t in ts] + ([f"sequence<{t},{n}>" for t in ts for n in ()]) if arr else ts

        items = list(p.items)
        bads = []

        def bad(sig, msg):
            bads.append((sig, msg))

        # ---- the types, in any order
        want_types = {f: n for f, n in types.items() if n.attrs["type"] == "struct"}
        got = {}
        main_items = []
        troot = model.types.name.lower() if model.types else None
        for kind, path, payload in items:
            if troot and path[0].lower() == troot and ".".join(path).lower() not in {f.lower() for f, _ in model.root.walk()}:
                if kind == "struct":
                    got[".".join(path)] = payload
                elif kind == "enum":
                    bad("types", f"enumeration {path} among the types")
            else:
                main_items.append((kind, path, payload))
        if sorted(got) != sorted(want_types):
            bad("types", f"structs {sorted(got)}, expected {sorted(want_types)}")
            return bads
        for f, n in want_types.items():
            m = [(t, name) for t, name, _, _ in got[f]]
            names = [c.name for c in n.kids.values()]
            if [x[1] for x in m] != names:
                bad("properties", f"{f}: {m}, expected {names}")
                continue
            for (t, name), c in zip(m, n.kids.values()):
                if t not in idl_type(c.attrs["datatype"], True):
                    bad("property-type", f"{f}.{name}: {t}, expected {idl_type(c.attrs['datatype'], True)}")

        # ---- the tree
        seq = []

        def rec(n, path):
            if n.attrs["type"] == "branch":
                if not has_signal(n):
                    return
                seq.append(("module", path, None))
                for c in n.kids.values():
                    rec(c, path + (c.name,))
                return
            a = n.attrs
            lits = enum_literals(a["allowed"]) if a.get("allowed") and a["datatype"] in ("string", "string[]") else None
            if lits:
                seq.append(("module", path[:-1] + (path[-1] + "_M",), None))
                seq.append(("enum", path[:-1] + (path[-1] + "_M", path[-1] + "Values"), lits))
            seq.append(("struct", path, (a, lits)))

        rec(model.root, (model.root.name,))
        if [(k, q) for k, q, _ in main_items] != [(k, q) for k, q, _ in seq]:
            bad("tree", f"definitions {[(k, '::'.join(q)) for k, q, _ in main_items]}, expected {[(k, '::'.join(q)) for k, q, _ in seq]}")
            return bads[:3]
        for (kind, path, payload), (_, _, want) in zip(main_items, seq):
            loc = ".".join(path)
            if kind == "enum":
                if payload != want:
                    bad("literals", f"{loc}: {payload}, expected {want}")
            elif kind == "struct":
                a, lits = want
                consts = {m[1]: m[2] for m in payload if m[0] == "const"}
                rest = [m for m in payload if m[0] != "const"]
                names = (["uuid"] if uuid else []) + ["value"]
                if [m[1] for m in rest] != names or (uuid and rest[0][0] != "string"):
                    bad("members", f"{loc}: {rest}")
                    continue
                t, _, default, rng = rest[-1]
                if lits:
                    e = "::" + "::".join(path[:-1] + (path[-1] + "_M", path[-1] + "Values")).lower()
                    ok = [e] if a["datatype"] == "string" else [e, f"sequence<{e}>"]
                else:
                    ok = idl_type(a["datatype"])
                if t not in ok:
                    bad("type", f"{loc}: {t}, expected {ok}")
                if full:
                    wc = {"type": a["type"], "description": a["description"]}
                    if a.get("unit") is not None:
                        wc["unit"] = a["unit"]
                    if consts != wc:
                        bad("constants", f"{loc}: {consts}, expected {wc}")
                    wr = (float(a["min"]), float(a["max"])) if a.get("min") is not None and a.get("max") is not None else None
                    if rng != wr:
                        bad("range", f"{loc}: {rng}, expected {wr}")
                    self.default(bad, loc, a, lits, default)
        return bads[:3]

    def default(self, bad, loc, a, lits, got):
        d = a.get("default")
        if (d is None) != (got is None):
            bad("default", f"{loc}: default {got}, expected {d!r}")
        elif d is not None and not isinstance(d, list):
            if lits:
                want = [("id", "d" + d if d[:1].isdigit() else d), ("id", "_" + d)]
            elif isinstance(d, bool):
                want = [("id", str(d)), ("id", str(d).upper())]
            elif isinstance(d, str):
                want = [("str", d)]
            else:
                if len(got) != 1 or got[0][0] != "num" or ast.literal_eval(got[0][1]) != d:
                    bad("default", f"{loc}: default {got}, expected {d!r}")
                return
            if len(got) != 1 or got[0] not in want:
                bad("default", f"{loc}: default {got}, expected {d!r}")


CHECK = C22
