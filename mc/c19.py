"""C19: the protobuf export is well-formed and covers the model."""

import itertools
import re

from . import exmodels as X, ref, scale
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

TOKEN = re.compile(r'\s+|([A-Za-z_][A-Za-z0-9_]*)|(\d+)|"([^"\\\n]*)"|([{}=;.])')
SCALAR = {
    "boolean": "bool", "float": "float", "double": "double", "numeric": "double", "string": "string", "int8": "int32", "int16": "int32", "int32": "int32", "int64": "int64",
    "uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64",
}  # fmt: skip
BUILTIN = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Malformed(f"unexpected character {text[pos]!r}")
        if m.group(1):
            out.append(("id", m.group(1)))
        elif m.group(2):
            out.append(("int", int(m.group(2))))
        elif m.group(3) is not None:
            out.append(("str", m.group(3)))
        elif m.group(4):
            out.append((m.group(4), m.group(4)))
        pos = m.end()
    return out + [("eof", None)]


def parse(text):
    """-> (package, imports, [(message name, [(label, type, name, number)])]) of a proto3 file"""
    t = tokens(text)
    i = 0

    def eat(*kinds):
        nonlocal i
        k, v = t[i]
        if k not in kinds:
            raise Malformed(f"expected {kinds}, found {v!r}")
        i += 1
        return v

    def dotted():
        name = ""
        if t[i][0] == ".":
            name = eat(".")
        name += eat("id")
        while t[i][0] == ".":
            name += eat(".") + eat("id")
        return name

    if eat("id") != "syntax":
        raise Malformed("does not start with the syntax statement")
    eat("=")
    if eat("str") != "proto3":
        raise Malformed("syntax is not proto3")
    eat(";")
    package, imports, messages = "", [], []
    while t[i][0] != "eof":
        kw = eat("id", ";")
        if kw == ";":
            continue
        if kw == "package":
            if package:
                raise Malformed("two package statements")
            package = dotted()
            eat(";")
        elif kw == "import":
            f = eat("str")
            if f in imports:
                raise Malformed(f"import {f} listed twice")
            imports.append(f)
            eat(";")
        elif kw == "message":
            name = eat("id")
            eat("{")
            fields = []
            while t[i][0] != "}":
                label = None
                if t[i] in (("id", "repeated"), ("id", "optional")) and t[i + 1][0] in ("id", "."):
                    label = eat("id")
                dt = dotted()
                fn = eat("id")
                eat("=")
                num = eat("int")
                eat(";")
                fields.append((label, dt, fn, num))
            eat("}")
            messages.append((name, fields))
        else:
            raise Malformed(f"unexpected statement {kw}")
    return package, imports, messages


def load(files, main):
    """Parse and link all files like protoc does -> {full message name: (file, fields with resolved types)}"""
    parsed = {f: parse(x) for f, x in files.items()}
    defined, packages = {}, {}
    for f, (pkg, imports, messages) in parsed.items():
        parts = pkg.split(".") if pkg else []
        for i in range(len(parts)):
            packages.setdefault(".".join(parts[: i + 1]), set()).add(f)
        for name, _ in messages:
            full = f"{pkg}.{name}" if pkg else name
            if full in defined:
                raise Malformed(f"message {full} is defined twice")
            defined[full] = f
        for imp in imports:
            if imp not in files:
                raise Malformed(f"{f} imports {imp}, which is not generated")

    def closure(f, path=()):
        if f in path:
            raise Malformed(f"file recursively imports itself: {' -> '.join(path + (f,))}")
        for i in parsed[f][1]:
            closure(i, path + (f,))

    res = {}
    for f, (pkg, imports, messages) in parsed.items():
        closure(f)
        seen = {f, *imports}

        def reach(x, acc):
            for i in parsed[x][1]:
                acc.add(i)
                reach(i, acc)
            return acc

        known = reach(f, {f})
        # messages and packages that exist as far as this file (with everything it imports) is concerned
        types = {k for k, v in defined.items() if v in known}
        pkgs = {k for k, v in packages.items() if v & known}
        clash = types & pkgs
        if clash:
            raise Malformed(f"{f}: {sorted(clash)} is a message and a package")
        for name, fields in messages:
            full = f"{pkg}.{name}" if pkg else name
            names, nums, jsons, linked = set(), set(), set(), []
            for label, dt, fn, num in fields:
                if fn in names:
                    raise Malformed(f"{full}: two fields {fn}")
                if num in nums:
                    raise Malformed(f"{full}: two fields with number {num}")
                if not 1 <= num <= 2**29 - 1 or 19000 <= num <= 19999:
                    raise Malformed(f"{full}.{fn}: illegal field number {num}")
                names.add(fn)
                nums.add(num)
                if dt in BUILTIN:
                    linked.append((label, dt, fn, num))
                    continue
                if dt.startswith("."):
                    target = dt[1:] if dt[1:] in types else None
                else:
                    target = None
                    first = dt.split(".")[0]
                    scope = full.split(".")
                    for i in range(len(scope), -1, -1):
                        pre = ".".join(scope[:i])
                        cand = f"{pre}.{first}" if pre else first
                        if "." in dt:
                            if cand in pkgs or cand in types:
                                whole = f"{pre}.{dt}" if pre else dt
                                target = whole if whole in types else None
                                break
                        elif cand in types:
                            target = cand
                            break
                if target is None:
                    raise Malformed(f"{full}.{fn}: type {dt} is not defined")
                if defined[target] not in seen:
                    raise Malformed(f"{full}.{fn}: {target} is defined in {defined[target]}, which is not imported")
                linked.append((label, target, fn, num))
            res[full] = (f, linked)
    return res, parsed


class C19(ExportCheck):
    id = "C19"
    exporter = "protobuf"
    preload = ("yaml", "protobuf")
    out_args = ("-o", "o.out", "--types-out-dir", "ot")
    rule = (
        "every rooted tree up to 5 (thorough 6) nodes with names whose concatenations coincide, every datatype x array x kind x constraint, every placement and acyclic reference graph "
        "of up to 3 structs in 6 places in every order, keyword-like names, instances, static UIDs around every limit of the field numbers and in every collision pattern, x --add-optional "
        "x --static-uid; the generated files are parsed and linked by the rules of proto3. state = distinct set of generated files, transition = one CLI run"
    )

    def cases(self, tier):
        thorough = tier == "thorough"
        fams = [X.shapes(5 if thorough else 4), X.datatypes(), X.structs(), X.instances(), scale.sweep(24 if thorough else 16), X.pairs_of_names([("Ab", "AB"), ("Ab", "aB"), ("AB", "A1")])]
        words = ["message", "import", "package", "syntax", "repeated", "optional", "reserved", "oneof", "map", "enum", "option", "returns", "Rpc", "class", "A", "X1", "x", "Uint8", "String"]
        fams += [X.named(words, True), X.named_types(words + ["T", "S"])]
        for fam in fams:
            for key, main, types in fam:
                for opt in (False, True):
                    if opt and key.startswith("shape") and not thorough and len(main) > 3:
                        continue
                    yield self.make(f"{key}:{opt}", main, types, ["--add-optional"] if opt else [])
        # static UIDs
        uids = [
            "0x00000000", "0x00000007", "0x00000008", "0x0000000F", "0x00000010", "0xFFFFFFFF", "0xFFFFFFF8", "0xFFFFFFF7", "0xABCDEF01", "0xabcdef07", "0xABCDEF08", "0x100000000", "0x100000008",
            f"0x{18999 * 8 + 7:08X}", f"0x{19000 * 8:08X}", f"0x{19500 * 8 + 3:08X}", f"0x{19999 * 8 + 7:08X}", f"0x{20000 * 8:08X}", "0x20000000000000000", "0x12345678",
        ]  # fmt: skip
        for opt in ([], ["--add-optional"]):
            o = ["--static-uid"] + opt
            for u, v in itertools.product(uids, repeat=2):
                if opt and u != uids[2] and v != uids[2]:
                    continue
                for shape in ("sib", "branch", "below"):
                    if shape == "sib":
                        m = {"A": B, "A.X": leaf(staticUID=u), "A.Y": leaf("string[]", staticUID=v)}
                    elif shape == "branch":
                        m = {"A": B, "A.C": {**B, "staticUID": u}, "A.Y": leaf(staticUID=v)}
                    else:
                        m = {"A": {**B, "staticUID": u}, "A.C": {**B, "staticUID": u}, "A.C.Y": leaf(staticUID=v)}
                    yield self.make(f"uid:{u}:{v}:{shape}:{bool(opt)}", m, None, o, ["staticUID"])
            for miss in ("A.X", "A.C", "A.C.Y", "A"):
                m = {"A": {**B, "staticUID": "0x11111111"}, "A.X": leaf(staticUID="0x22222222"), "A.C": {**B, "staticUID": "0x33333333"}, "A.C.Y": leaf(staticUID="0x44444444")}
                m[miss] = {k: v for k, v in m[miss].items() if k != "staticUID"}
                yield self.make(f"uid:missing:{miss}:{bool(opt)}", m, None, o, ["staticUID"])
            for bad in ("", "zzz", "0x", "-0x8", "0x1_0000", " 0x88888888"):
                yield self.make(f"uid:bad:{bad}:{bool(opt)}", {"A": B, "A.X": leaf(staticUID=bad)}, None, o, ["staticUID"])
            # three fields, every order; the same UIDs in another branch are no collision
            for perm in itertools.permutations(["0x00000008", "0x00000010", "0x12345678", "0x1234567F"], 3):
                m = {"A": B, "A.C": {**B, "staticUID": "0xDDDDDDDD"}}
                for i, u in enumerate(perm):
                    m[f"A.X{i}"] = leaf("uint8[]" if i == 1 else "float", staticUID=u)
                    m[f"A.C.X{i}"] = leaf(staticUID=perm[-i])
                yield self.make(f"uid:three:{','.join(perm)}:{bool(opt)}", m, None, o, ["staticUID"])
            s = {"type": "struct", "description": "s", "staticUID": "0x55555555"}
            for u, v in itertools.product(["0x66666666", "0x66666667", "0x77777777", "0x00000001"], repeat=2):
                t = {"T": {**B, "staticUID": "0x1"}, "T.S": s, "T.S.P": leaf("int8", "property", staticUID=u), "T.S.Q": leaf("T.R[]", "property", staticUID=v), "T.R": {**s, "staticUID": "0x99999999"}, "T.R.P": leaf("int8", "property", staticUID=u)}
                yield self.make(f"uid:struct:{u}:{v}:{bool(opt)}", {"A": B, "A.X": leaf("T.S", staticUID="0xAAAAAAAA")}, t, o, ["staticUID"])

    # ------------------------------------------------------------------ oracle
    def number(self, n):
        u = n.attrs.get("staticUID")
        if u is None:
            return None
        try:
            return int(u, 0) >> 3
        except (TypeError, ValueError):
            return None

    def holders(self, model):
        """(fqn, node) of everything that becomes a message"""
        res = [(f, n) for f, n in model.root.walk() if n.attrs["type"] == "branch"]
        if model.types:
            res += [(f, n) for f, n in model.types.walk() if n.attrs["type"] == "struct"]
        return res

    def unexportable(self, case, model):
        if "--static-uid" in case["opts"]:
            for f, n in self.holders(model):
                nums = [self.number(c) for c in n.kids.values()]
                for num in nums:
                    if num is None or not 1 <= num < 2**29 or 19000 <= num < 20000:
                        return f"{f} has a child without usable static UID"
                if len(set(nums)) != len(nums):
                    return f"colliding field numbers below {f}"
        names = [f.replace(".", "") for f, n in model.root.walk() if n.attrs["type"] == "branch"]
        if len(names) != len(set(names)):
            return "two branches share a message name"
        structs = [f for f, n in self.holders(model) if n.attrs["type"] == "struct"]
        if structs:
            used = any("." in n.attrs.get("datatype", "") for _, n in model.root.walk())
            if used and model.types.name in names:
                return "a branch shares its message name with the package of the types"
            needs = {}
            for s in structs:
                ns = s.rsplit(".", 1)[0]
                needs.setdefault(ns, set())
                for c in model.type_nodes()[s].kids.values():
                    t = ref.split_array(c.attrs["datatype"])[0]
                    if "." in t and t.rsplit(".", 1)[0] != ns:
                        needs[ns].add(t.rsplit(".", 1)[0])
            while needs:
                done = [k for k, v in needs.items() if not v & set(needs)]
                if not done:
                    return f"the files of {sorted(needs)} would import each other"
                for k in done:
                    del needs[k]
        return None

    def check(self, case, model, outs):
        files = {}
        for p, text in outs.items():
            files[p[3:] if p.startswith("ot/") else p] = text
        if "o.out" not in files:
            return [("no-output", f"files {sorted(files)}")]
        msgs, parsed = load(files, "o.out")
        opt = "--add-optional" in case["opts"]
        expected = {}
        for fqn, n in self.holders(model):
            struct = n.attrs["type"] == "struct"
            fields = []
            for i, c in enumerate(n.kids.values(), 1):
                t = c.attrs["type"]
                if t == "branch":
                    dt, arr = f"{fqn}.{c.name}".replace(".", ""), False
                else:
                    base, arr = ref.split_array(c.attrs["datatype"])
                    dt = SCALAR.get(base, base)
                num = self.number(c) if "--static-uid" in case["opts"] else i
                fields.append(("repeated" if arr else "optional" if opt else None, dt, c.name, num))
            expected[fqn if struct else fqn.replace(".", "")] = fields
        if sorted(msgs) != sorted(expected):
            return [("messages", f"messages {sorted(msgs)}, expected {sorted(expected)}")]
        for m, fields in expected.items():
            if msgs[m][1] != fields:
                return [("fields", f"message {m}: fields {msgs[m][1]}, expected {fields}")]
            if ("." in m) != (msgs[m][0] != "o.out"):
                return [("file", f"message {m} is in {msgs[m][0]}")]
        return []


CHECK = C19
