"""C03: instance expansion."""

import itertools

from . import ref, scale
from .modelcheck import ModelCheck, argv

ENTRIES = [
    "L",
    "R",
    "Row[1,2]",
    "Col[2,3]",
    "Pos[1,3]x",
    "One[1,1]",
    ["L"],
    ["L", "R"],
    ["P[1,2]", "Q"],
    ["S[4,5]"],
]
BR = {"type": "branch", "description": "b"}


def leaf(d, **kw):
    return {"type": "sensor", "datatype": "uint8", "description": d, **kw}


def br(d, **kw):
    return {"type": "branch", "description": d, **kw}


# what is below the instantiated branch A.B
BELOW = {
    "none": {},
    "leaf": {"X": leaf("x", min=0, comment="c")},
    "two": {"X": leaf("x", allowed=[1, 2], default=1), "Y": {"type": "attribute", "datatype": "string[]", "description": "y", "default": ["a"]}},
    "deep": {"C": br("c", comment="cc"), "C.X": leaf("cx"), "C.D": br("d"), "C.D.X": leaf("cdx"), "Y": leaf("y")},
    "keepleaf": {"X": leaf("x"), "K": leaf("k", instantiate=False)},
    "keepbranch": {"K": br("k", instantiate=False), "K.X": leaf("kx"), "C": br("c"), "C.K": leaf("ck", instantiate=False)},
    "keeponly": {"K": leaf("k", instantiate=False)},
    "nested": {"C": br("c", instances=["In[1,2]"]), "C.X": leaf("cx"), "Y": leaf("y")},
    "nestedkeep": {"C": br("c", instances=["U", "V"], instantiate=False), "C.X": leaf("cx"), "C.K": leaf("ck", instantiate=False)},
    "nestednames": {"C": br("c", instances=["L", "R"]), "C.L2": leaf("l2"), "C.Row": leaf("row")},
    "falsy": {"X": leaf("", ext=None, comment="", min=0, max=0.0), "Y": {"type": "attribute", "datatype": "string[]", "description": "y", "default": [], "allowed": [], "ext": []}, "C": br("c", ext=None, comment=None), "C.X": leaf("cx", ext={}, unit=None, default=0)},
    "ext": {"X": leaf("x", ext={"a": [1, {"b": 2}]}, deprecation="dep")},
}


class C03(ModelCheck):
    id = "C03"
    rule = (
        "every instance declaration that is a string or a list of <=3 entries (thorough: all, quick: length 3 with four subtrees) over a "
        "10 letter alphabet of labels, ranges and lists, times 11 subtrees, expanded and unexpanded; all nestings of two (and three) "
        "instantiated branches; sibling instantiated branches; instantiated root. state = distinct expanded tree, transition = one CLI run"
    )
    assumptions = ["several ranges within one label are outside the space"]

    def mk(self, key, d, expand=True, layers=None):
        layers = layers or [d]
        files = {"m.vspec": ref.text(layers[0])}
        ov = []
        for i, l in enumerate(layers[1:]):
            files[f"o{i}.vspec"] = ref.text(l)
            ov.append(f"o{i}.vspec")
        extra = ["-e", "ext"] + ([] if expand else ["--no-expand"])
        return [{
            "key": key + ("" if expand else ":noexpand"),
            "files": files,
            "runs": [{"argv": argv("yaml", overlays=ov, extra=extra), "read": ["o.out"]}],
            "model": {"layers": layers, "expand": expand, "whitelist": ["ext"]},
        }]

    def cases(self, tier):
        decls = ["L", "Row[1,2]", "Row[0,0]", "Row[3,3]x", "Row[9,11]", "Bad[2,1]", "x[1,2"]
        shapes = [a + r + b for a in ("", "R", "R1", "R_", "1", "Row") for b in ("", "x", "3", "03", "X1") for r in ("[1,2]", "[0,1]", "[01,02]", "[8,11]", "[2,1]", "[1,1]", "[010,012]", "[98,102]", "[00,0]")]
        decls += [x for x in shapes if x not in decls] + [[[x, "Z"]] for x in shapes]
        decls += [list(c) for n in (0, 1, 2, 3) for c in itertools.product(ENTRIES, repeat=n)]
        decls += [[["A", "B"], ["C", "D"], ["E", "F"], ["G"]], [[1, 2]], [1, 2], ["Row[1,2]", [3, "Left"]], 5, {"a": 1}, True]
        for i, decl in enumerate(decls):
            many = isinstance(decl, list) and len(decl) == 3
            for bname, below in BELOW.items():
                if many and tier == "quick" and bname not in ("leaf", "deep", "keepbranch", "nested"):
                    continue
                for expand in (True,) if many else (True, False):
                    d = {"A": br("root"), "A.B": br("b", instances=decl, comment="bc"), "A.E": leaf("e")}
                    for k, v in below.items():
                        d[f"A.B.{k}"] = v
                    yield from self.mk(f"decl:{ref.val(decl)}:{bname}", d, expand)
        # children and instances of the same name: content of the instance, or two nodes of one path
        clash = ["L", "Row[1,2]", ["L", "R"], ["Row[1,2]", "L"], ["L", "Row[1,2]"], [["L", "R"], "L"], [["L", "R"], ["R", "S"]], [["Row[1,2]", "L"]], [["Row[1,2]", "Row5"]], [["Row[1,2]", "Row[4,5]"]]]
        clash += [["L", "L"], [["L", "L"]], ["Row[1,2]", "Row1"], [["Row[1,2]", "Row1"]], ["Row1", "Row[1,2]"], [["L", "R"], ["L", "R"]], ["L", "Row[1,2]", "L"], ["Row[1,2]", "L", "L"], ["L", ["R", "L"]]]
        kids = {
            "leaf": {"%s": leaf("k")}, "keepleaf": {"%s": leaf("k", instantiate=False)}, "keepbr": {"%s": br("k", instantiate=False), "%s.Y": leaf("ky")},
            "br": {"%s": br("k"), "%s.Y": leaf("ky")}, "deep": {"C": br("c"), "C.%s": leaf("k", instantiate=False)}, "nested": {"C": br("c", instances=["P", "%s"]), "C.%s": br("k", instantiate=False)},
        }
        for decl in clash:
            for k, name in itertools.product(kids, ("L", "R", "Row1", "Row2", "Row5", "Row7")):
                d = {"A": br("root"), "A.B": br("b", instances=decl), "A.B.X": leaf("x")}
                for q, v in kids[k].items():
                    q = "A.B." + (q % name if "%" in q else q)
                    d[q] = {**v, "instances": ["P", name]} if "instances" in v else v
                if k in ("leaf", "keepleaf", "br") or name in ("L", "Row1", "Row5"):
                    yield from self.mk(f"clash:{ref.val(decl)}:{k}:{name}", d)
        # two nested instantiated branches, optional branch in between, optional kept child
        forms = [ENTRIES[2], ["L", "R"], [["L", "R"]], ["Row[1,2]", ["L", "R"]], [["L"], "M"], ["Row[1,2]", "Col[1,2]"], ["One[1,1]", "Z"]]
        for f1, f2 in itertools.product(forms, repeat=2):
            for mid in (False, True):
                for flag in (None, False, True):
                    d = {"A": br("root"), "A.B": br("b", instances=f1)}
                    p = "A.B"
                    if mid:
                        p += ".M1"
                        d[p] = br("mid")
                    p += ".C"
                    d[p] = br("c", instances=f2)
                    if flag is not None:
                        d[p]["instantiate"] = flag
                    d[p + ".X"] = leaf("x")
                    d["A.B.Y"] = leaf("y")
                    d["A.B.K"] = leaf("k", instantiate=False)
                    yield from self.mk(f"nest:{ref.val(f1)}:{ref.val(f2)}:{mid}:{flag}", d)
        for f1, f2, f3 in itertools.product(forms[:4], repeat=3):
            d = {
                "A": br("root"), "A.B": br("b", instances=f1), "A.B.C": br("c", instances=f2),
                "A.B.C.D": br("d", instances=f3), "A.B.C.D.X": leaf("x"), "A.B.C.Y": leaf("y"),
            }  # fmt: skip
            yield from self.mk(f"nest3:{ref.val(f1)}:{ref.val(f2)}:{ref.val(f3)}", d)
        # longer chains of instantiated branches, with and without plain branches in between
        for n in (4, 5, 6):
            for fs in itertools.product(["L", "Row[1,2]"] if n == 4 or tier != "quick" else ["One[1,1]"], repeat=n):
                for gap in (False, True):
                    d, p = {"A": br("root")}, "A"
                    for i, f in enumerate(fs):
                        if gap:
                            p += f".G{i}"
                            d[p] = br(f"g{i}")
                        p += f".B{i}"
                        d[p] = br(f"b{i}", instances=f)
                        d[p + ".X"] = leaf(f"x{i}")
                        d[p + ".K"] = leaf(f"k{i}", instantiate=False)
                    yield from self.mk(f"chain:{ref.val(fs)}:{gap}", d)
        # many levels and many labels in one declaration
        big = [["L%d" % i] for i in range(6)], ["L%d" % i for i in range(25)], [["L%d" % i for i in range(25)]], "Row[1,120]", ["Row[98,101]", "Col[0,11]"]
        big += (["A[1,2]", "B[1,2]", "C[1,2]", "D[1,2]", "E[1,2]"], ["A[1,2]", ["L", "R"], "C[1,1]", "D", "E"])
        for f in big:
            for bname in ("leaf", "keepbranch", "nested", "two", "ext", "falsy"):
                d = {"A": br("root"), "A.B": br("b", instances=f, comment="c", ext={"a": 0}, deprecation="d", fka=["A.Old"])}
                for k, v in BELOW[bname].items():
                    d[f"A.B.{k}"] = v
                yield from self.mk(f"big:{ref.val(f)}:{bname}", d)
        for key, main, _ in scale.sweep(24 if tier == "thorough" else 16, structs=False):
            if ":inst" in key:
                yield from self.mk(key, main)
        # sibling instantiated branches, and one below the other's name
        for f1, f2 in itertools.product(forms, repeat=2):
            d = {
                "A": br("root"), "A.B": br("b", instances=f1), "A.B.X": leaf("bx"), "A.C": br("c", instances=f2),
                "A.C.X": leaf("cx"), "A.C.Y": leaf("cy", instantiate=False),
            }  # fmt: skip
            yield from self.mk(f"siblings:{ref.val(f1)}:{ref.val(f2)}", d)
        # the root itself
        for f in forms:
            for bname, below in BELOW.items():
                d = {"A": br("root", instances=f)}
                for k, v in below.items():
                    d[f"A.{k}"] = v
                yield from self.mk(f"root:{ref.val(f)}:{bname}", d)
        # the declaration is changed by an overlay
        for f1, f2 in itertools.product(forms + [[], None], repeat=2):
            base = {"A": br("root"), "A.B": br("b", instances=f1), "A.B.X": leaf("x")}
            yield from self.mk(f"over:{ref.val(f1)}:{ref.val(f2)}", None, True, [base, {"A.B": {"type": "branch", "instances": f2}}])
        # attributes of the branch are copied to the instances
        for attr in ({"comment": "c"}, {"deprecation": "d"}, {"ext": {"a": {"b": 1}}}, {"fka": ["A.Old"]}, {"constUID": "0x00000001"}, {"aggregate": True}):
            for f in forms:
                d = {"A": br("root"), "A.B": br("b", instances=f, **attr), "A.B.X": leaf("x", **{k: v for k, v in attr.items() if k != "aggregate"})}
                yield from self.mk(f"attr:{ref.val(attr)}:{ref.val(f)}", d)


CHECK = C03
