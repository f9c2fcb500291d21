"""C05: deletion removes exactly the marked nodes and their subtrees."""

import itertools

from . import ref, scale
from .modelcheck import ModelCheck, argv


def br(d, **kw):
    return {"type": "branch", "description": d, **kw}


def sig(d, **kw):
    return {"type": "sensor", "datatype": "uint8", "description": d, **kw}


PLAIN = {
    "A": br("a"),
    "A.B": br("b"),
    "A.B.X": sig("bx"),
    "A.B.C": br("bc"),
    "A.B.C.X": sig("bcx"),
    "A.BX": sig("abx"),
    "A.E": br("e"),
    "A.E.X": sig("ex"),
}
INST = {
    "A": br("a"),
    "A.B": br("b", instances=["Row[1,2]", ["L", "R"]]),
    "A.B.X": sig("bx"),
    "A.B.K": sig("bk", instantiate=False),
    "A.B.C": br("bc"),
    "A.B.C.X": sig("bcx"),
    "A.E": sig("e"),
}
FLAGS = [None, True, False]


class C05(ModelCheck):
    id = "C05"
    rule = (
        "every assignment of delete absent/true/false to all nodes of an 8 node tree (in the base file); every pair of overlay writes of "
        "true/false over general, half-expanded and fully expanded paths of an instantiated tree; deletion through instance-only paths, nested "
        "instances and no-expand; deletion of invalid nodes. state = distinct exported model, transition = one CLI run"
    )
    assumptions = ["the root itself is not marked for deletion"]

    def mk(self, key, layers, noexpand=False, all_formats=False):
        files = {"m.vspec": ref.text(layers[0])}
        ov = []
        for i, l in enumerate(layers[1:]):
            files[f"o{i}.vspec"] = ref.text(l)
            ov.append(f"o{i}.vspec")
        return {
            "key": key,
            "files": files,
            "runs": [{"argv": argv("yaml", overlays=ov, extra=["--no-expand"] if noexpand else []), "read": ["o.out"]}],
            "model": {"layers": layers, "expand": not noexpand},
        }

    def cases(self, tier):
        names = [n for n in PLAIN if n != "A"]
        for flags in itertools.product(FLAGS, repeat=len(names)):
            d = {k: dict(v) for k, v in PLAIN.items()}
            for n, f in zip(names, flags):
                if f is not None:
                    d[n]["delete"] = f
            yield self.mk("plain:" + "".join("-tf"[FLAGS.index(f)] for f in flags), [d])
        # siblings whose names look alike
        alike = {"A": br("a"), "A.X": sig("1"), "A.x": sig("2"), "A.XX": sig("3"), "A.X1": br("4"), "A.X1.X": sig("5"), "A.x1": br("6"), "A.x1.X": sig("7"), "A.X1.x": sig("8"), "A.B": br("9"), "A.B.X1": br("10"), "A.B.X1.X": sig("11"), "A.B.X": sig("12")}
        for n in (1, 2, 3):
            for marked in itertools.combinations([k for k in alike if k != "A"], n):
                for rev in (False, True):
                    d = {k: {**v, **({"delete": True} if k in marked else {})} for k, v in (reversed(list(alike.items())) if rev else alike.items())}
                    yield self.mk(f"alike:{rev}:" + ",".join(marked), [d])
                yield self.mk("alikeover:" + ",".join(marked), [alike, {k: {"delete": True} for k in marked}])
        # overlays on the instantiated tree
        general = ["A.B", "A.B.X", "A.B.K", "A.B.C", "A.B.C.X", "A.E"]
        spec = ["A.B.Row1", "A.B.Row1.L", "A.B.Row1.L.X", "A.B.Row1.L.C", "A.B.Row1.L.C.X", "A.B.Row2.R.X", "A.B.Row2"]
        ops = [(t, f) for t in general + spec for f in (True, False)]
        styles = ["bare", "typed", "full"]

        def write(t, f, style):
            n = {"delete": f}
            isleaf = t.rsplit(".", 1)[1] in ("X", "K", "E")
            if style != "bare":
                n["type"] = "sensor" if isleaf else "branch"
                if isleaf:
                    n["datatype"] = "uint8"
            if style == "full":
                n["description"] = "overlaid"
            return {t: n}

        for seq in itertools.chain(((o,) for o in ops), itertools.product(ops, repeat=2)):
            for st in itertools.product(styles, repeat=len(seq)):
                if len(seq) == 2 and tier == "quick" and st not in (("bare", "bare"), ("typed", "typed"), ("bare", "full"), ("full", "bare")):
                    continue
                layers = [INST] + [write(t, f, s) for (t, f), s in zip(seq, st)]
                yield self.mk("inst:" + ",".join(f"{t}={f}/{s}" for (t, f), s in zip(seq, st)), layers)
        # triples on one path: mark, take back, mark again; general against specific
        red = [("A.B.X", True), ("A.B.X", False), ("A.B.Row1.L.X", True), ("A.B.Row1.L.X", False), ("A.B.Row1", True), ("A.B", False)]
        if tier == "thorough":
            red = ops[:4] + ops[12:20]
        for seq in itertools.product(red, repeat=3):
            for st in ("bare", "typed"):
                layers = [INST] + [write(t, f, st) for t, f in seq]
                yield self.mk(f"inst3:{st}:" + ",".join(f"{t}={f}" for t, f in seq), layers)
        # unexpanded
        for t, f in [(t, f) for t in general for f in (True, False)]:
            yield self.mk(f"noexpand:{t}={f}", [INST, write(t, f, "typed")], noexpand=True)
        # nested instances
        nest = {
            "A": br("a"), "A.B": br("b", instances=["L", "R"]), "A.B.C": br("c", instances="Row[1,2]"), "A.B.C.X": sig("x"), "A.B.Y": sig("y"),
        }  # fmt: skip
        tg = ["A.B", "A.B.C", "A.B.C.X", "A.B.L", "A.B.L.C", "A.B.L.C.Row1", "A.B.L.C.Row1.X", "A.B.C.Row2", "A.B.C.Row2.X", "A.B.R.Y"]
        for (t1, f1), (t2, f2) in itertools.product([(t, f) for t in tg for f in (True, False)], repeat=2):
            layers = [nest, {t1: {"delete": f1}}, {t2: {"delete": f2}}]
            yield self.mk(f"nested:{t1}={f1},{t2}={f2}", layers)
        # large trees: every single node and every pair out of one of everything, every node of chains and of wide trees
        sink = {k: {a: x for a, x in v.items() if a != "unit"} for k, v in scale.SINK.items()}
        names = [k for k in sink if k != "A"]
        inst = ["A.Cabin.Door.Row1", "A.Cabin.Door.Row1.Left", "A.Cabin.Door.Row2.Right.Window", "A.Cabin.Door.Row1.Left.Window.Position", "A.Cabin.Door.Row2.Left.IsLocked"]
        for k in names + inst:
            yield self.mk(f"sink:{k}", [sink, {k: {"delete": True}}])
            if k in sink:
                yield self.mk(f"sinkbase:{k}", [{**sink, k: {**sink[k], "delete": True}}])
        for k, l in itertools.permutations(names + inst, 2):
            yield self.mk(f"sink2:{k}:{l}", [sink, {k: {"delete": True}, l: {"delete": True}}])
        for key, main, _ in scale.sweep(24 if tier == "thorough" else 16, instances=False, structs=False):
            if key.split(":")[1] not in ("depth", "same", "leaves", "branches", "bushy") or len(main) > 70:
                continue
            ks = [k for k in main if k != "A"]
            for i, k in enumerate(ks):
                yield self.mk(f"del:{i}:{key}", [{**main, k: {**main[k], "delete": True}}])
            for j, some in enumerate((ks[::2], ks[1::2], ks[::3], ks[: len(ks) // 2], ks[len(ks) // 2 :], ks[-1:], ks)):
                yield self.mk(f"dels:{j}:{key}", [main, {k: {"delete": True} for k in some}])
        # a deleted node still has to be a valid node; structure is judged after the deletion
        for t in ("A.B.X", "A.B.C", "A.E"):
            for bad in ({"datatype": "nonsense"}, {"type": "nonsense"}, {"description": None}, {"default": 300, "datatype": "uint8"}):
                yield self.mk(f"invalid:{t}:{ref.val(bad)}", [PLAIN, {t: {**bad, "delete": True}}])
        for kind in ("sensor", "struct", "property"):
            d = {**PLAIN, "A.B": {"type": kind, "datatype": "uint8", "description": "b"}}
            for mask in range(1, 8):
                ov = {}
                for i, t in enumerate(("A.B", "A.B.X", "A.B.C")):
                    if mask >> i & 1:
                        ov[t] = {"delete": True}
                yield self.mk(f"structure:{kind}:{mask}", [d, ov])


CHECK = C05
