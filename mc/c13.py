"""C13: a static UID is a pure function of exactly the identity attributes."""

import itertools

from . import idref, ref, scale
from .core import h
from .modelcheck import ModelCheck, expectation, tail, yload

B = {"type": "branch", "description": "b"}
UNITS = {"km": ["numeric"], "mm": ["numeric"]}
UNIT_FILES = {
    "units.yaml": "km: {definition: d, unit: km, quantity: q, allowed-datatypes: ['numeric']}\nmm: {definition: d, unit: mm, quantity: q, allowed-datatypes: ['numeric']}\n",
    "quantities.yaml": "q: {definition: d}\n",
}


class C13(ModelCheck):
    id = "C13"
    preload = ("id",)
    rule = (
        "every combination of node name x node type x datatype x unit x allowed x min x max x fka x constUID values of the alphabets, with and "
        "without --case-sensitive; every non-identity attribute and neighbourhood change; every split of the definitions over layers and "
        "every definition order; each UID in the export is compared with an independent FNV-1 implementation. state = distinct export, "
        "transition = one CLI run"
    )
    assumptions = ["case-insensitive mode folds ASCII letters only, as documented by the byte-wise hash"]

    def case(self, key, layers, cs=False, types=None, expand=True, includes=()):
        files = {"m.vspec": ref.text(layers[0]), **UNIT_FILES}
        argv = ["export", "id", "-s", "m.vspec", "-o", "o.out"]
        for i, l in enumerate(layers[1:]):
            files[f"l{i}.vspec"] = ref.text(l)
            argv += ["-l", f"l{i}.vspec"]
        if types:
            files["t.vspec"] = ref.text(types)
            argv += ["-t", "t.vspec"]
        if cs:
            argv.append("--case-sensitive")
        if not expand:
            argv.append("--no-expand")
        return {
            "key": key, "files": files, "runs": [{"argv": argv, "read": ["o.out"]}], "cs": cs,
            "model": {"layers": layers, "units": UNITS, "types": [types] if types else [], "expand": expand},
        }  # fmt: skip

    def cases(self, tier):
        for key, main, types in scale.sweep(24 if tier == "thorough" else 16):
            for cs in (False, True):
                yield self.case(f"{key}:{cs}", [main], cs, types=types)
        names = ["X", "x", "Xy", "XY", "X1", "Ünit", "a b", "IsX"]
        kinds = ["sensor", "actuator", "attribute"]
        dts = ["uint8", "uint16", "int8", "float", "string", "boolean", "uint8[]", "string[]"]
        full = tier == "thorough"
        for name in names if full else names[:4]:
            for kind, dt, cs in itertools.product(kinds, dts, (False, True)):
                num = dt in ("uint8", "uint16", "int8", "float", "uint8[]")
                for unit in (None, "km", "mm") if num else (None,):
                    limits = list(itertools.product((None, 0, 1), (None, 0, 1, 10))) if num else [(None, None)]
                    for mn, mx in limits:
                        body = {"type": kind, "datatype": dt, "description": "d"}
                        if unit:
                            body["unit"] = unit
                        if mn is not None:
                            body["min"] = mn
                        if mx is not None:
                            body["max"] = mx
                        if not full and name != "X" and (mn, mx) not in ((None, None), (0, 1), (None, 0), (0, None)):
                            continue
                        yield self.case(f"ident:{name}:{kind}:{dt}:{unit}:{mn}:{mx}:{cs}", [{"A": B, f"A.{name}": body}], cs)
        for dt, alloweds in {
            "string": [[], ["a"], ["A"], ["a", "b"], ["b", "a"], ["a, b"], ["a', 'b"], ["ü"], ["Ü"], [""], ["1"]],
            "uint8": [[], [0], [1], [1, 2], [2, 1], [12], [0, 1]],
            "float": [[], [0.0], [1.0], [1], [0.5, 1.5]],
            "boolean": [[True], [False], [True, False]],
        }.items():
            for al, cs, kind, arr in itertools.product(alloweds, (False, True), kinds, ("", "[]")):
                yield self.case(
                    f"allowed:{dt}{arr}:{al}:{cs}:{kind}", [{"A": B, "A.X": {"type": kind, "datatype": dt + arr, "description": "d", "allowed": al}}], cs
                )
        for n in (0, -1, 0.0, 1, 1.0, 1.5, -0.5, 100, 1e10, 1e22, -128, 255, 1e-7):
            for at, cs in itertools.product(("min", "max"), (False, True)):
                yield self.case(f"limit:{at}:{n!r}:{cs}", [{"A": B, "A.X": {"type": "sensor", "datatype": "double", "description": "d", at: n}}], cs)
        # ---- name replacement
        fkas = ["A.Old", "Old", "A.X", "a.old", "A.Old: unit: ", "Ä.ö", ["A.Old"], ["A.Old", "A.Older"], ["A.Older", "A.Old"], [], ["Z"]]
        consts = [None, "0x00000000", "0xFFFFFFFF", "0xabcdef01", "0xABCDEF01", "0xAbCdEf01"]
        for fka, const, cs, kind in itertools.product(fkas, consts, (False, True), ("branch", "sensor")):
            body = {"type": kind, "description": "d", "fka": fka}
            if kind == "sensor":
                body["datatype"] = "uint8"
            if const:
                body["constUID"] = const
            yield self.case(f"fka:{fka}:{const}:{cs}:{kind}", [{"A": B, "A.X": body, "A.W": B}], cs)
        # ---- things that must not matter
        leaf = {"type": "sensor", "datatype": "uint8", "description": "x", "unit": "km", "min": 0}
        noise = {
            "description": ["", "other", "ü"], "comment": ["", "c"], "deprecation": ["", "soon"], "default": [0, 1], "ext": [0, None, {"a": 1}],
            "delete": [False], "instantiate": [True], "staticUID": ["0x00000001"], "uuid": ["u"],
        }  # fmt: skip
        for k, vs in noise.items():
            for v, cs, where in itertools.product(vs, (False, True), ("A", "A.B", "A.B.X", "A.Y")):
                if k == "default" and where not in ("A.B.X", "A.Y"):
                    continue
                m = {"A": dict(B), "A.B": dict(B), "A.B.X": dict(leaf), "A.Y": dict(leaf)}
                m[where][k] = v
                yield self.case(f"noise:{k}:{v}:{cs}:{where}", [m], cs)
        base = {"A": B, "A.B": B, "A.B.X": leaf, "A.Y": {"type": "attribute", "datatype": "string", "description": "y", "allowed": ["a", "b"]}, "A.B.C": B, "A.B.C.Z": leaf}
        keys = list(base)
        for order in itertools.permutations(keys):
            yield self.case(f"order:{','.join(order)}", [{k: base[k] for k in order}])
        for mask in range(2 ** len(keys)):
            sub = {k: base[k] for i, k in enumerate(keys) if mask >> i & 1}
            yield self.case(f"subset:{mask}", [sub or {"A": B}])
            yield self.case(f"split:{mask}", [{"A": B, **{k: v for k, v in base.items() if k not in sub}}, sub or {"A": B}])
        writes = [{"unit": "mm"}, {"min": 1}, {"max": 3}, {"datatype": "uint16"}, {"type": "actuator"}, {"min": None}, {"unit": None}, {"fka": ["A.Q"]}, {"constUID": "0x00000001"}, {"description": "n"}]
        for a, b in itertools.product(range(len(writes)), repeat=2):
            for t1, t2 in itertools.product(("A.B.X", "A.B.C.Z"), repeat=2):
                yield self.case(f"overlay:{a}:{b}:{t1}:{t2}", [base, {t1: writes[a]}, {t2: writes[b]}])
        # ---- instances and types
        types = {"T": B, "T.S": {"type": "struct", "description": "s"}, "T.S.P": {"type": "property", "datatype": "uint8", "description": "p"}}
        for inst, cs, expand in itertools.product(("L", ["L", "R"], "Row[1,3]", ["Row[1,2]", ["L", "R"]], []), (False, True), (True, False)):
            for spec in ({}, {"A.B.L.X": {"type": "sensor", "datatype": "uint8", "description": "s", "min": 3}}, {"A.B.L": {**B, "fka": ["A.Q"]}}):
                m = {"A": B, "A.B": {**B, "instances": inst}, "A.B.X": leaf, "A.B.C": B, "A.B.C.Z": {**leaf, "datatype": "T.S", "unit": None, "min": None}, **spec}
                yield self.case(f"inst:{inst}:{cs}:{expand}:{','.join(spec)}", [m], cs, types=types, expand=expand)

    def judge(self, case, outs):
        model, reason = expectation(case)
        out = outs[0]
        got = out["out"]["o.out"]
        exp = idref.export(model.root, case["cs"]) if model else None
        if exp is None or idref.collides(exp):
            if out["rc"] == 0:
                return [("accepted", f"expected failure ({reason or idref.collides(exp)}) but the export succeeded:\n{(got or b'').decode()[:600]}")], ["BAD"]
            return [], ["reject"]
        if out["rc"] != 0 or got is None:
            return [("rejected", f"expected success, exit status {out['rc']}:\n{tail(out['log'])}")], ["BAD"]
        doc = yload(got)
        if not ref.same(exp, doc):
            return [("differs", ref.diff(exp, doc))], ["BAD"]
        return [], [h(doc)]


CHECK = C13
