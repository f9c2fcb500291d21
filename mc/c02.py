"""C02: only complete, correctly typed trees are accepted."""

import itertools

from . import ref, scale
from .modelcheck import ModelCheck, argv


def node(kind, d="d"):
    if kind == "branch" or kind == "struct":
        return {"type": kind, "description": d}
    if kind in ("sensor", "actuator", "attribute", "property"):
        return {"type": kind, "datatype": "uint8", "description": d}
    return {
        "badtype": {"type": "signal", "datatype": "uint8", "description": d},
        "notype": {"datatype": "uint8", "description": d},
        "nodesc": {"type": "sensor", "datatype": "uint8"},
        "brnodesc": {"type": "branch"},
        "nodatatype": {"type": "actuator", "description": d},
        "empty": {},
    }[kind]


GOOD = ["branch", "sensor", "actuator", "attribute", "struct", "property"]
BAD = ["badtype", "notype", "nodesc", "brnodesc", "nodatatype", "empty"]
ALL = [None] + GOOD + BAD


class C02(ModelCheck):
    id = "C02"
    rule = (
        "every assignment of the 13 node states (absent, six kinds, six incomplete forms) to the chains A, A.B, A.B.C with a sibling; of "
        "8 states to a 4-level chain; every subset of a 10 path universe with a second root; every file order of 5-node trees; every "
        "kind assignment in type trees. state = distinct exported tree or rejection, transition = one CLI run"
    )

    def case(self, key, d, types=None):
        files = {"m.vspec": ref.text(d)}
        extra = []
        model = {"layers": [d]}
        if types is not None:
            files["t.vspec"] = ref.text(types)
            extra = ["-t", "t.vspec"]
            model["types"] = [types]
        return {
            "key": key,
            "files": files,
            "runs": [{"argv": argv("yaml", extra=extra), "read": ["o.out"]}],
            "model": model,
        }

    def cases(self, tier):
        # presence: every subset of a universe of paths, all well formed
        uni = {
            "A": "branch", "A.B": "branch", "A.C": "branch", "A.B.C": "branch", "A.B.S": "sensor", "A.C.S": "actuator",
            "A.B.C.T": "attribute", "A.BC": "sensor", "Z": "branch", "Z.Y": "sensor",
        }  # fmt: skip
        names = list(uni)
        for mask in range(1, 2 ** len(names)):
            d = {n: node(uni[n], f"d of {n}") for i, n in enumerate(names) if mask >> i & 1}
            yield self.case("subset:" + "+".join(d), d)
        # names that are prefixes/suffixes of each other, on every level
        uni = ["A.A", "A.AA", "A.A.A", "A.AA.A", "A.A.AA", "A.A.A.A", "A.Axy", "A.A.B"]
        for mask in range(2 ** len(uni)):
            d = {"A": node("branch", "root")}
            sel = [n for i, n in enumerate(uni) if mask >> i & 1]
            for n in sel:
                leaf = not any(m.startswith(n + ".") for m in sel)
                d[n] = node("sensor" if leaf else "branch", f"d of {n}")
            yield self.case("prefix:" + "+".join(sel), d)
        # kinds along a chain of three, with a sibling
        for a, b, c in itertools.product(ALL, repeat=3):
            for e in (None, "sensor") if tier == "quick" else (None, "sensor", "branch", "property", "nodesc"):
                d = {}
                for path, k in (("A", a), ("A.B", b), ("A.B.C", c), ("A.E", e)):
                    if k:
                        d[path] = node(k, f"d of {path}")
                if not d:
                    continue
                yield self.case(f"chain3:{a}/{b}/{c}/{e}", d)
        # four levels below a proper root
        lv = [None] + GOOD + ["notype"] if tier == "thorough" else [None, "branch", "sensor", "struct", "property", "attribute"]
        for ks in itertools.product(lv, repeat=4):
            d = {"A": node("branch", "root")}
            for i, k in enumerate(ks):
                if k:
                    d["A" + ".B" * (i + 1)] = node(k, f"level {i}")
            yield self.case("chain4:" + "/".join(map(str, ks)), d)
        # two siblings with children
        for ks in itertools.product(["branch", "sensor", "struct", "property"], repeat=4):
            d = {"A": node("branch", "root"), "A.B": node(ks[0]), "A.C": node(ks[1]), "A.B.X": node(ks[2]), "A.C.X": node(ks[3])}
            yield self.case("siblings:" + "/".join(ks), d)
        # file order
        shapes = {
            "deep": ["A", "A.B", "A.B.C", "A.B.C.D", "A.B.C.D.E"],
            "wide": ["A", "A.B", "A.C", "A.B.X", "A.C.X"],
            "alike": ["A", "A.AB", "A.AB.A", "A.A", "A.A.AB"],
            "gap": ["A", "A.B", "A.C.D", "A.B.D", "A.B.D.E"],
        }
        for name, paths in shapes.items():
            for perm in itertools.permutations(paths):
                d = {}
                for p in perm:
                    leaf = not any(q.startswith(p + ".") for q in paths)
                    d[p] = node("sensor" if leaf else "branch", f"d of {p}")
                yield self.case(f"order:{name}:" + ",".join(perm), d)
        # mandatory attributes: each one missing / null / of a wrong shape, on each kind and position
        for kind in GOOD:
            for attr in ("type", "description", "datatype"):
                for how in ("absent", "null", "number", "list", "empty"):
                    for pos in ("leaf", "inner"):
                        n = node(kind)
                        if attr not in n:
                            continue
                        if how == "absent":
                            del n[attr]
                        else:
                            n[attr] = {"null": None, "number": 7, "list": ["x"], "empty": ""}[how]
                        d = {"A": node("branch"), "A.N": n}
                        if kind == "property":
                            d = {"A": node("branch"), "A.S": node("struct"), "A.S.N": n}
                        if pos == "inner":
                            if kind != "branch":
                                continue
                            d["A.N.X"] = node("sensor")
                        yield self.case(f"mandatory:{kind}:{attr}:{how}:{pos}", d)
        # a node without a body, malformed bodies
        for i, body in enumerate([None]):
            d = {"A": node("branch"), "A.N": body}
            yield self.case(f"nobody:{i}", d)
        # degenerate paths
        for p in ("A..B", ".A", ".", "A.B..C"):
            yield self.case(f"path:{p}", {"A": node("branch"), "A.B": node("branch"), p: node("sensor")})
        # many nodes: complete, in reverse, and with each single branch of a chain or of a bushy tree missing
        for key, main, types in scale.sweep(24 if tier == "thorough" else 16, instances=False):
            if key == "scale:sink" or key.split(":")[1] in ("text", "allowed", "default", "number"):
                continue
            yield self.case(key, main, types)
            yield self.case("reverse:" + key, dict(reversed(list(main.items()))), dict(reversed(list(types.items()))) if types else None)
            if key.split(":")[1] in ("depth", "same", "bushy"):
                for k in [k for k in main if main[k]["type"] == "branch"]:
                    yield self.case(f"without:{k}:{key}", {x: v for x, v in main.items() if x != k})
            if key.split(":")[1] in ("leaves", "branches", "depth") and len(main) < 70:
                for i, k in enumerate(main):
                    yield self.case(f"below:{i}:{key}", {**main, k + ".Q": node("sensor")})
                    yield self.case(f"bad:{i}:{key}", {**main, k: {**main[k], "type": "property"}})
        # kinds in the types tree
        m = {"A": node("branch", "root")}
        tk = [None, "branch", "struct", "property", "sensor", "notype", "nodesc"]
        for ks in itertools.product(tk, repeat=4):
            if tier == "quick" and ks[3] in ("notype", "nodesc"):
                continue
            t = {}
            for i, k in enumerate(ks):
                if k:
                    t["T" + ".U" * i] = node(k, f"type level {i}")
            if not t:
                continue
            yield self.case("types:" + "/".join(map(str, ks)), m, t)
            # the type tree has the root name of the signal tree, with and without equal paths below
            same = {"A" + k[1:]: v for k, v in t.items()}
            if ks[3] in (None, "property"):
                yield self.case("sametypes:" + "/".join(map(str, ks)), m, same)
                if ks[0] == "branch":
                    yield self.case("samepaths:" + "/".join(map(str, ks)), {**m, "A.U": node("branch"), "A.U.U": node("sensor")}, same)
                    yield self.case("sibling:" + "/".join(map(str, ks)), m, {**same, "A.V": node("struct", "v"), "A.V.P": node("property", "p")})


CHECK = C02
