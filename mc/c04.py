"""C04: definitions for one instance win over definitions for all instances."""

import itertools

from . import ref
from .modelcheck import ModelCheck, argv


def br(d, **kw):
    return {"type": "branch", "description": d, **kw}


def base(decl, nested=False):
    d = {
        "A": br("root"),
        "A.B": br("b", instances=decl, comment="bc"),
        "A.B.X": {"type": "sensor", "datatype": "int16", "description": "x", "comment": "gen", "min": 1, "max": 9},
        "A.B.C": br("c", deprecation="dep"),
        "A.B.C.X": {"type": "attribute", "datatype": "string", "description": "cx", "allowed": ["a", "b"], "default": "a"},
    }
    if nested:
        d["A.B.C"]["instances"] = ["U", "V"]
    return d


def payload(kind, target, i):
    last = target.rsplit(".", 1)[1]
    isleaf = last in ("X", "N")
    if kind == "partial":
        return {"comment": f"p{i}"}
    if kind == "ext":
        return {"ext": {f"k{i}": i}}
    if kind == "zero":
        return {"min": 0, "max": None, "comment": ""} if isleaf else {"comment": ""}
    if kind == "nodesc":
        return {"type": "sensor", "datatype": "float", "unit": "u"} if isleaf else {"type": "branch", "comment": f"n{i}"}
    if kind == "full":
        if isleaf:
            return {"type": "actuator", "datatype": "uint8", "description": f"full{i}", "default": 0}
        return {"type": "branch", "description": f"full{i}"}
    raise ValueError(kind)


DECLS = {
    "range": ["Row[1,2]"],
    "list": ["L", "R"],
    "two": ["Row[1,2]", ["L", "R"]],
    "string": "Row[1,2]",
    "three": ["Row[1,2]", ["L"], ["P", "Q"]],
}
FIRST = {"range": "Row1", "list": "L", "two": "Row1", "string": "Row1", "three": "Row2"}
FULL = {"range": "Row1", "list": "L", "two": "Row1.L", "string": "Row1", "three": "Row2.L.Q"}
OTHER = {"range": "Row2", "list": "R", "two": "Row2.R", "string": "Row2", "three": "Row2.L.P"}

UNITS = "u: {definition: d, unit: u, quantity: q, allowed-datatypes: [numeric, string]}\n"
QUANT = "q: {definition: d}\n"


class C04(ModelCheck):
    id = "C04"
    rule = (
        "base with an instantiated branch (5 declarations, also with a nested instantiated branch); every overlay sequence of <=2 writes "
        "(quick: <=3 over a reduced, thorough: over the full alphabet) over targets {general, half-expanded, fully expanded, other instance, "
        "new node, undeclared row} x payloads {partial, extended attribute, falsy values, without description, complete}. state = distinct "
        "exported model, transition = one CLI run"
    )

    def targets(self, dk, nested):
        f, full, other = FIRST[dk], FULL[dk], OTHER[dk]
        t = ["A.B", "A.B.X", "A.B.C", "A.B.C.X", "A.B.N", f"A.B.{full}", f"A.B.{full}.X", f"A.B.{full}.C", f"A.B.{full}.C.X"]
        t += [f"A.B.{full}.N", f"A.B.{other}.X"]
        if f != full:
            t += [f"A.B.{f}", f"A.B.{f}.X", f"A.B.{f}.N"]
        if nested:
            t += [f"A.B.{full}.C.U.X", "A.B.C.V.X", f"A.B.{full}.C.U", f"A.B.{other}.C.V.N"]
        return t

    def mk(self, key, layers, noexpand=False):
        files = {"m.vspec": ref.text(layers[0]), "units.yaml": UNITS, "quantities.yaml": QUANT}
        ov = []
        for i, l in enumerate(layers[1:]):
            files[f"o{i}.vspec"] = ref.text(l)
            ov.append(f"o{i}.vspec")
        return {
            "key": key,
            "files": files,
            "runs": [
                {"argv": argv("yaml", overlays=ov, extra=["-e", "ext"] + (["--no-expand"] if noexpand else [])), "read": ["o.out"]}
            ],
            "model": {
                "layers": layers,
                "whitelist": ["ext"],
                "units": {"u": ["numeric", "string"]},
                "expand": not noexpand,
            },
        }

    def cases(self, tier):
        kinds = ["partial", "ext", "zero", "nodesc", "full"]
        for dk, nested in [(k, n) for k in DECLS for n in (False, True)]:
            b = base(DECLS[dk], nested)
            targets = self.targets(dk, nested)
            ops = [(t, k) for t in targets for k in kinds]
            full2 = tier == "thorough" or (dk, nested) in (("two", False),)
            for n in (0, 1, 2):
                for seq in itertools.product(ops, repeat=n):
                    if n == 2 and not full2 and not (seq[0][1] in ("partial", "full") and seq[1][1] in ("ext", "full")):
                        continue
                    layers = [b] + [{t: payload(k, t, i)} for i, (t, k) in enumerate(seq)]
                    yield self.mk(f"{dk}{'+nested' if nested else ''}:" + ",".join(f"{t}={k}" for t, k in seq), layers)
            # three writes that meet at one node
            red = [
                ("A.B.X", "partial"), ("A.B.X", "full"), (f"A.B.{FULL[dk]}.X", "partial"), (f"A.B.{FULL[dk]}.X", "full"),
                (f"A.B.{FULL[dk]}.X", "zero"), (f"A.B.{FULL[dk]}", "full"), ("A.B", "full"),
            ]  # fmt: skip
            if tier == "thorough":
                red = [o for o in ops if o[1] in ("partial", "full", "nodesc")]
                if not (dk, nested) == ("two", False):
                    red = red[:18]
            for seq in itertools.product(red, repeat=3):
                layers = [b] + [{t: payload(k, t, i)} for i, (t, k) in enumerate(seq)]
                yield self.mk(f"3:{dk}{'+nested' if nested else ''}:" + ",".join(f"{t}={k}" for t, k in seq), layers)
        # specific data within the base file itself, all file orders of general/specific
        for dk in DECLS:
            b = base(DECLS[dk])
            spec = {
                f"A.B.{FULL[dk]}.X": {"comment": "spec", "max": 5},
                f"A.B.{FULL[dk]}.N": payload("full", "A.B.N", 0),
                f"A.B.{OTHER[dk]}": {"comment": "other"},
            }
            for perm in itertools.permutations(list(spec) + ["A.B.X", "A.B.C"]):
                d = {k: b[k] for k in b if k not in perm}
                for k in perm:
                    d[k] = spec.get(k, b.get(k))
                yield self.mk(f"inbase:{dk}:" + ",".join(perm), [d])
        # rows outside of the declared range are self-standing and get no general children
        for decl in (["Row[1,2]"], "Row[1,2]", ["Row[1,2]", ["L", "R"]], ["Row[2,3]x"], [["Row[1,2]"], "Z"]):
            for name in ("Row5", "Row0", "Row12", "Row5x"):
                for below in (["X"], ["X", "N"], ["L", "L.X"], []):
                    ov = {f"A.B.{name}": br("extra")}
                    for k in below:
                        ov[f"A.B.{name}.{k}"] = br("lx") if k == "L" else {"type": "sensor", "datatype": "int8", "description": f"extra {k}"}
                    for where in ("overlay", "base"):
                        b = base(decl)
                        layers = [b, ov] if where == "overlay" else [{**b, **ov}]
                        yield self.mk(f"outside:{ref.val(decl)}:{name}:{'+'.join(below)}:{where}", layers)
        # without expansion, specific paths are exported next to the unexpanded branch
        for dk in DECLS:
            for t, k in [(t, k) for t in self.targets(dk, False) for k in kinds]:
                chain = {}
                parts = t.split(".")
                for i in range(2, len(parts)):
                    p = ".".join(parts[:i])
                    chain[p] = br(f"chain {p}")
                b = base(DECLS[dk])
                layers = [b, {p: v for p, v in chain.items() if p not in b}, {t: payload(k, t, 0)}]
                yield self.mk(f"noexpand:{dk}:{t}={k}", layers, noexpand=True)


CHECK = C04
