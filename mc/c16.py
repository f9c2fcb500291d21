"""C16: the binary export read by the C and the Go library."""

import itertools
import os

from . import binlib, ref, scale
from .core import Check, h, run_case

DT = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "boolean", "float", "double", "string", "numeric")


def br(**kw):
    return {"type": "branch", "description": "b", **kw}


def sig(**kw):
    return {"type": "sensor", "datatype": "string", "description": "s", **kw}


def shapes(n):
    """All ordered trees with n nodes, as nested tuples."""
    if n == 1:
        return [()]
    res = []
    for first in range(1, n):
        for f in shapes(first):
            for rest in shapes(n - first) if n - first >= 1 else []:
                res.append((f,) + rest)
    return res


class C16(Check):
    id = "C16"
    chunk = 4
    rule = (
        "every datatype x values for min, max, default, allowed (also empty, negative, huge, non-ASCII); every text field at every length "
        "around the limits of its length field in 1, 2 and 4 byte characters; allowed lists, numbers of children and path lengths around "
        "their limits; all access control values on all node types; all ordered trees of <=6 (thorough 7) nodes with all node types; pairs of "
        "fields in one node; existing output; with and without UUIDs. state = distinct file content, transition = one export, each accepted "
        "one read by both libraries under address and undefined behaviour sanitizers and by the reference decoder"
    )
    assumptions = [
        "values are carried as their Python text (True, 1.5, ['a']), as the format has only strings",
        "a length field that does not fit, a NUL character, an access control value outside of the documented four and a path of more "
        "than 511 bytes have to be rejected",
    ]

    def setup(self):
        binlib.build()

    def mk(self, key, d, uuid=False, units=None, pre=None, layers=()):
        files = {"m.vspec": ref.text(d)}
        for i, l in enumerate(layers):
            files[f"o{i}.vspec"] = ref.text(l)
        if units:
            files["quantities.yaml"] = ref.text({"q": {"definition": "q"}})
            files["units.yaml"] = ref.text({u: {"definition": "d", "unit": u, "quantity": "q", "allowed-datatypes": ["numeric"]} for u in units})
        if pre is not None:
            files["o.bin"] = pre
        a = ["export", "binary", "-s", "m.vspec", "-o", "o.bin", "-e", "validate"] + (["--uuid"] if uuid else [])
        for i in range(len(layers)):
            a += ["-l", f"o{i}.vspec"]
        return {
            "key": key, "files": files, "runs": [{"argv": a, "read": ["o.bin"]}], "pre": pre,
            "layers": [d] + list(layers), "units": units or [], "uuid": uuid,
        }  # fmt: skip

    def cases(self, tier):
        thorough = tier == "thorough"
        # values of every datatype
        vals = {
            "int": [0, 1, -1, 127, 128, 255, 256, 65535, -32768, 2**31, 2**32 - 1, 2**63, -(2**63), 2**64 - 1],
            "float": [0.0, -0.0, 1.5, -2.25, 1e22, 1e-7, 1.7976931348623157e308, 5e-324, 0.1, 123456789.125],
            "boolean": [True, False],
            "string": ["", "a", "é", "a b", '"', "a,b", "[x]", "\n", "🚗", "None", "0"],
        }
        kind = {"boolean": ["boolean"], "string": ["string"], "float": ["float", "int"], "double": ["float", "int"], "numeric": ["float", "int"]}
        for dt in DT:
            vs = [v for k in kind.get(dt, ["int"]) for v in vals[k]]
            for v in vs:
                for attr in ({"default": v}, {"allowed": [v]}, {"allowed": [v], "default": v}, {"min": v}, {"max": v}):
                    if "min" in attr or "max" in attr:
                        if isinstance(v, (str, bool)):
                            continue
                    for arr in (False, True):
                        a = dict(attr)
                        if arr and "default" in a:
                            a["default"] = [v]
                        t = dt + ("[]" if arr else "")
                        for nt in ("sensor", "actuator", "attribute"):
                            if nt != "sensor" and not thorough and v not in (1, "a", True, 1.5):
                                continue
                            yield self.mk(f"val:{nt}:{t}:{ref.val(a)}", {"A": br(), "A.X": sig(datatype=t, type=nt, **a), "A.Y": sig()})
            vs = vs[:4] if not thorough else vs[:8]
            for n in (2, 3):
                for lst in itertools.permutations(vs, n):
                    yield self.mk(f"list:{dt}:{ref.val(list(lst))}", {"A": br(), "A.X": sig(datatype=dt, allowed=list(lst)), "A.Y": sig(datatype=dt + "[]", default=list(lst))})
            for lo, hi in itertools.product([None] + vs, repeat=2):
                if not isinstance(lo, (str, bool)) and not isinstance(hi, (str, bool)):
                    a = {k: v for k, v in (("min", lo), ("max", hi)) if v is not None}
                    yield self.mk(f"minmax:{dt}:{lo}:{hi}", {"A": br(), "A.X": sig(datatype=dt, **a)})
        # text lengths
        chars = {"1": "a", "2": "é", "4": "🚗"}
        bound8 = [0, 1, 9, 10, 15, 16, 49, 50, 51, 62, 63, 64, 65, 127, 128, 159, 160, 161, 239, 240, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 1000]
        for cn, c in chars.items():
            for n in bound8 if not thorough else range(0, 300):
                s = c * n
                for odd in (False, True) if c != "a" else (False,):
                    t = s + ("b" if odd else "")
                    k = f"{cn}:{n}:{odd}"
                    yield self.mk(f"len:default:{k}", {"A": br(), "A.X": sig(default=t), "A.Y": sig()})
                    yield self.mk(f"len:allowed:{k}", {"A": br(), "A.X": sig(allowed=[t, "z"]), "A.Y": sig()})
                    yield self.mk(f"len:allowed2:{k}", {"A": br(), "A.X": sig(allowed=["z", t], default="z"), "A.Y": sig()})
                    yield self.mk(f"len:array:{k}", {"A": br(), "A.X": sig(datatype="string[]", default=[t]), "A.Y": sig()})
                    yield self.mk(f"len:descr:{k}", {"A": br(), "A.X": sig(description=t), "A.Y": sig()})
                    yield self.mk(f"len:validate:{k}", {"A": br(), "A.X": sig(validate=t), "A.Y": sig()})
                    if t:
                        yield self.mk(f"len:unit:{k}", {"A": br(), "A.X": sig(datatype="uint8", unit=t), "A.Y": sig()}, units=[t])
                        yield self.mk(f"len:name:{k}", {"A": br(), "A." + t: sig(), "A.Y": sig()})
                        yield self.mk(f"len:bname:{k}", {"A": br(), "A." + t: br(), f"A.{t}.X": sig(), "A.Y": sig()})
                        yield self.mk(f"len:root:{k}", {t: br(), t + ".X": sig()})
            w = len(c.encode())
            for n in (65535 // w - 1, 65535 // w, 65535 // w + 1, 65536 // w + 1, 70000 // w, 131072 // w + 3):
                yield self.mk(f"len:descr:{cn}:{n}", {"A": br(), "A.X": sig(description=c * n), "A.Y": sig()})
        # path lengths
        for seg in (100, 255):
            for total in (509, 510, 511, 512, 513, 800):
                names, left = [], total - 1
                while left > 0:
                    m = min(seg, left - 1)
                    if m <= 0:
                        break
                    names.append("P" * m)
                    left -= m + 1
                d, p = {"A": br()}, "A"
                for i, nme in enumerate(names):
                    p += "." + nme
                    d[p] = br() if i < len(names) - 1 else sig()
                yield self.mk(f"path:{seg}:{len(p)}", d)
        # sizes of the lists
        for n in (1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513):
            yield self.mk(f"allowed:{n}", {"A": br(), "A.X": sig(allowed=[f"v{i}" for i in range(n)]), "A.Y": sig()})
            yield self.mk(f"allowedint:{n}", {"A": br(), "A.X": sig(datatype="uint16", allowed=list(range(n))), "A.Y": sig()})
            yield self.mk(f"allowedlong:{n}", {"A": br(), "A.X": sig(allowed=[f"{i:03d}" + "x" * 252 for i in range(n)]), "A.Y": sig()})
            yield self.mk(f"kids:{n}", {"A": br(), "A.B": br(), **{f"A.B.X{i}": sig() for i in range(n)}, "A.Z": sig()})
            yield self.mk(f"rootkids:{n}", {"A": br(), **{f"A.X{i}": sig() for i in range(n)}})
            yield self.mk(f"instances:{n}", {"A": br(), "A.B": br(instances=f"I[1,{n}]"), "A.B.X": sig()})
        # access control on every kind of node
        for v in list(binlib.ACCESS) + ["", "consent", "read-only", "Read-Write", "read-write+Consent", "write-only+consent ", "x read-write", True, 1, None]:
            for where in ("root", "branch", "sensor", "actuator", "attribute", "struct", "property"):
                d = {"A": br(), "A.B": br(), "A.B.X": sig(), "A.B.S": {"type": "struct", "description": "st"}, "A.B.S.P": {"type": "property", "datatype": "uint8", "description": "p"}, "A.B.Z": sig()}
                p = {"root": "A", "branch": "A.B", "struct": "A.B.S", "property": "A.B.S.P"}.get(where, "A.B.X")
                if p == "A.B.X":
                    d[p]["type"] = where
                d[p]["validate"] = v
                yield self.mk(f"access:{v}:{where}", d)
        for i, (key, main, _) in enumerate(scale.sweep(24 if thorough else 16, structs=False)):
            yield self.mk(key, main, uuid=bool(i & 1), units=["km", "percent"] if key == "scale:sink" else None)
        # all trees with all node types
        inner = ("branch", "struct")
        for n in range(1, 7 if not thorough else 8):
            for si, sh in enumerate(shapes(n)):
                for kind in range(4):
                    d = {}

                    def put(t, path, depth, idx):
                        last = not t
                        if kind == 3 and depth > 0:
                            typ = "struct" if not last or idx % 2 else "property"
                        elif last and depth > 0 and not (kind == 2 and idx % 2):
                            typ = ("sensor", "actuator", "attribute")[(idx + depth + kind) % 3]
                        else:
                            typ = "branch"
                        d[path] = {"type": typ, "description": f"d {path}"}
                        if typ not in inner:
                            d[path]["datatype"] = "uint8"
                        for j, k in enumerate(t):
                            put(k, f"{path}.{'ABCDEFG'[j]}", depth + 1, j)

                    put(sh, "R", 0, 0)
                    for uuid in (False, True):
                        yield self.mk(f"tree:{n}:{si}:{kind}:{uuid}", d, uuid)
        # two fields at once
        fields = {
            "min": {"datatype": "int8", "min": -5}, "max": {"datatype": "int8", "max": 7}, "unit": {"datatype": "int8", "unit": "km"},
            "allowed": {"datatype": "int8", "allowed": [1, 2]}, "default": {"datatype": "int8", "default": 1}, "validate": {"validate": "read-write"},
            "comment": {"comment": "c"}, "deprecation": {"deprecation": "d"}, "descr": {"description": "é" * 200}, "fka": {"fka": ["A.O"]},
        }  # fmt: skip
        for r in (0, 1, 2, 3, len(fields)):
            for ks in itertools.combinations(fields, r):
                a = {}
                for k in ks:
                    a.update(fields[k])
                for uuid in (False, True):
                    d = {"A": br(), "A.X": sig(datatype="int8", **{k: v for k, v in a.items() if k != "datatype"} if "description" not in a else {}), "A.Y": sig()}
                    if "description" in a:
                        d["A.X"] = {"type": "sensor", "datatype": "int8", **a}
                    yield self.mk(f"fields:{'+'.join(ks)}:{uuid}", d, uuid, units=["km"])
        # whatever was in the output file before
        for pre in (b"", b"x", b"\xff" * 5000):
            for good in (True, False):
                d = {"A": br(), "A.X": sig(default="a" * (1 if good else 256))}
                yield self.mk(f"pre:{len(pre)}:{good}", d, pre=pre)
        # merged and expanded models
        for inst in ("I[1,2]", ["L", "R"], [["L", "R"], "I[1,2]"]):
            d = {"A": br(), "A.B": br(instances=inst, validate="write-only"), "A.B.X": sig(validate="read-write+consent"), "A.B.K": sig(instantiate=False)}
            for uuid in (False, True):
                yield self.mk(f"inst:{ref.val(inst)}:{uuid}", d, uuid, layers=[{"A.B.I1.X": sig(default="x")}, {"A.B.K": sig(delete=True)}])

    def evaluate(self, case, d):
        outs = run_case(case, d)
        out = outs[0]
        try:
            model = ref.evaluate(case["layers"], (), {u: ["numeric"] for u in case["units"]}, whitelist=["validate"])
            root = binlib.from_model(model.root, None, case["uuid"])
            reason = binlib.misfit(root)
        except ref.Reject as e:
            reason = str(e)
        got = out["out"]["o.bin"]
        if reason:
            bads = []
            if out["rc"] == 0:
                bads.append(("accepted", f"expected rejection ({reason}) but the export succeeded"))
            elif got != case["pre"]:
                bads.append(("touched", f"rejected ({reason}) but the output was written: {len(got or b'')} bytes"))
            return bads, ["BAD" if bads else "reject"], 1, 0
        if out["rc"] != 0 or got is None:
            return [("rejected", f"expected acceptance: status {out['rc']}\n{out['log'][-600:]}")], ["BAD"], 1, 0
        bads = []
        if got != binlib.encode(root):
            bads.append(("bytes", f"the file is not the documented encoding\nexpected {binlib.encode(root)[:300]!r}\ngot      {got[:300]!r}"))
        exp = [f"R {len(list(root.walk()))}"] + binlib.dump(root)
        for lib in binlib.LIBS:
            rc, lines, err = binlib.drive(lib, [("R", os.path.join(d, "o.bin")), ("D",)], d)
            if rc or lines != exp:
                diff = next(((a, b) for a, b in itertools.zip_longest(exp, lines) if a != b), "")
                bads.append((f"read-{lib}", f"{lib} library: status {rc}\nexpected/got: {diff}\n{err[:700]}"))
        return bads, [h(got.hex())], 3, 1


CHECK = C16
