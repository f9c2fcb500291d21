"""C01: composition of base, includes and overlays."""

import itertools
import os
import json

from . import ref
from .modelcheck import ModelCheck, argv

BASE = {
    "A": {"type": "branch", "description": "root"},
    "A.X": {
        "type": "sensor",
        "datatype": "int8",
        "description": "x",
        "comment": "c0",
        "ext": {"p": {"q": 1}, "l": [1, 2]},
    },
    "A.B": {"type": "branch", "description": "b"},
}

# the operation alphabet: each is one file that writes some attributes
OPS = {
    "com1": {"A.X": {"comment": "c1"}},
    "com2": {"A.X": {"comment": "c2", "deprecation": "d2"}},
    "min": {"A.X": {"min": 0}},
    "minmax": {"A.X": {"min": -5, "max": 5}},
    "all1": {"A.X": {"allowed": [1, 2]}},
    "all2": {"A.X": {"allowed": [3], "default": 3}},
    "nomin": {"A.X": {"min": None, "max": None}},
    "mapa": {"A.X": {"ext": {"p": {"r": 2}}}},
    "mapb": {"A.X": {"ext": {"l": [3], "p": {"q": {"deep": 1}}}}},
    "scal": {"A.X": {"ext": 7}},
    "new": {"A.B.N": {"type": "attribute", "datatype": "string", "description": "n", "comment": "n1"}},
    "new2": {"A.B.N": {"datatype": "uint8", "ext": {"z": 0}}},
    "kind": {"A.X": {"type": "actuator", "datatype": "float"}},
    "brn": {"A": {"description": "root2", "comment": "rc"}, "A.B": {"comment": "bc", "ext": False}},
    "two": {"A.X": {"description": "x2"}, "A.B": {"description": "b2"}},
}

WL = ["-e", "ext"]


def strip(d):
    """Writes relative to prefix A: for a file that is included with prefix A"""
    return {k[2:]: v for k, v in d.items() if k.startswith("A.")}


def layout(kind, seq):
    """(files, overlay args, layers in load order) for a sequence of operations"""
    ops = [OPS[o] for o in seq]
    files = {}
    if kind == "overlays":
        files["m.vspec"] = ref.text(BASE)
        for i, o in enumerate(ops):
            files[f"o{i}.vspec"] = ref.text(o)
        return files, [f"o{i}.vspec" for i in range(len(ops))], [BASE] + ops
    if kind == "includes":  # siblings
        files["m.vspec"] = ref.text(BASE, [f"#include o{i}.vspec" for i in range(len(ops))])
        for i, o in enumerate(ops):
            files[f"o{i}.vspec"] = ref.text(o)
        return files, [], [BASE] + ops
    if kind == "chain":  # nested
        files["m.vspec"] = ref.text(BASE, ["#include o0.vspec"])
        for i, o in enumerate(ops):
            files[f"o{i}.vspec"] = ref.text(o, [f"#include o{i+1}.vspec"] if i + 1 < len(ops) else [])
        return files, [], [BASE] + ops
    if kind == "mixed":  # first op by include of the base, the others as includes of an overlay
        files["m.vspec"] = ref.text(BASE, ["#include o0.vspec"])
        files["o0.vspec"] = ref.text(ops[0])
        if len(ops) > 1:
            files["o1.vspec"] = ref.text(ops[1], [f"#include o{i}.vspec" for i in range(2, len(ops))])
            for i in range(2, len(ops)):
                files[f"o{i}.vspec"] = ref.text(ops[i])
            return files, ["o1.vspec"], [BASE] + ops
        return files, [], [BASE] + ops
    if kind == "prefixed":  # overlay file included with prefix A
        files["m.vspec"] = ref.text(BASE, [f"#include o{i}.vspec A" for i in range(len(ops))])
        layers = [BASE]
        for i, o in enumerate(ops):
            files[f"o{i}.vspec"] = ref.text(strip(o))
            layers.append(ref.prefixed(strip(o), "A"))
        return files, [], layers
    raise ValueError(kind)


class C01(ModelCheck):
    id = "C01"
    rule = (
        "every sequence (with repetition) of <=3 (thorough 4) attribute-writing files over a 15 letter alphabet, combined as "
        "overlays, sibling includes, nested includes, mixed and prefixed includes; every include topology with prefixes "
        "over 3 files; every placement of an included file in the search path; equal statements that resolve differently per "
        "including file; histories of <=16 (24) files; yaml aliases; malformed statements. "
        "state = distinct exported model, transition = one CLI run"
    )
    assumptions = ["YAML files without duplicate keys", "include cycles are outside the space"]

    def cases(self, tier):
        depth = 4 if tier == "thorough" else 3
        for n in range(0, depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                if n <= 2 or (n == 3 and tier == "thorough"):
                    kinds = ["overlays", "includes", "chain", "mixed", "prefixed"]
                elif n == 3:
                    kinds = ["overlays", "mixed"]
                else:
                    kinds = ["overlays"]
                if n == 0:
                    kinds = ["overlays"]
                for kind in kinds:
                    files, ov, layers = layout(kind, seq)
                    yield {
                        "key": f"{kind}:{'+'.join(seq)}",
                        "files": files,
                        "runs": [{"argv": argv("yaml", overlays=ov, extra=WL), "read": ["o.out"]}],
                        "model": {"layers": layers, "whitelist": ["ext"]},
                    }
        # long histories
        for n in range(depth + 1, 25 if tier == "thorough" else 17):
            for k in range(len(OPS)):
                for step in (1, 4):
                    seq = [list(OPS)[(k + step * i) % len(OPS)] for i in range(n)]
                    for kind in ("overlays", "includes", "chain", "mixed", "prefixed"):
                        if kind == "chain" and n > 12:
                            continue
                        files, ov, layers = layout(kind, seq)
                        yield {
                            "key": f"long:{kind}:{n}:{k}:{step}", "files": files, "runs": [{"argv": argv("yaml", overlays=ov, extra=WL), "read": ["o.out"]}],
                            "model": {"layers": layers, "whitelist": ["ext"]},
                        }  # fmt: skip
        for n in range(1, 13):  # the file is in the i-th of n directories, and in all later ones
            for i in range(n):
                main = {"A": {"type": "branch", "description": "a"}}
                g = lambda j: {"A.G": {"type": "sensor", "datatype": "int8", "description": f"from {j}"}}  # noqa: E731
                files = {"m.vspec": ref.text(main, ["#include g.vspec"]), **{f"i{j}/keep.txt": "" for j in range(n)}, **{f"i{j}/g.vspec": ref.text(g(j)) for j in range(i, n)}}
                yield {
                    "key": f"longsearch:{n}:{i}", "files": files, "model": {"layers": [main, g(i)]},
                    "runs": [{"argv": argv("yaml", extra=[x for j in range(n) for x in ("-I", f"i{j}")]), "read": ["o.out"]}],
                }  # fmt: skip
        for n in range(2, 10):  # nested prefixes
            main, files, layers = {"A": {"type": "branch", "description": "a"}}, {}, []
            for i in range(n):
                f = {f"B{i}": {"type": "branch", "description": f"b{i}"}, f"X{i}": {"type": "sensor", "datatype": "int8", "description": f"x{i}"}}
                files[f"f{i}.vspec"] = ref.text(f, [f"#include f{i+1}.vspec B{i}"] if i + 1 < n else [])
                layers.append(ref.prefixed(f, ".".join(["A"] + [f"B{j}" for j in range(i)])))
            files["m.vspec"] = ref.text(main, ["#include f0.vspec A"])
            yield {"key": f"longprefix:{n}", "files": files, "runs": [{"argv": argv("yaml"), "read": ["o.out"]}], "model": {"layers": [main] + layers}}
        yield from self.aliases(tier)
        yield from self.topologies()
        yield from self.search()
        yield from self.same_target(tier)
        yield from self.values()
        yield from self.spread(tier)
        yield from self.malformed()

    def aliases(self, tier):
        """Nodes and attribute values that are YAML aliases of each other are still different nodes and values."""
        x = {"type": "sensor", "datatype": "int8", "description": "x", "comment": "c0", "ext": {"p": {"q": 1}, "l": [1, 2]}}
        texts = {
            "node": ("A: {type: branch, description: root}\nA.B: {type: branch, description: b}\nA.X: &x %s\nA.Y: *x\nA.B.N: *x\n", {"A.X": x, "A.Y": x, "A.B.N": x}),
            "merge": (
                "A: {type: branch, description: root}\nA.B: {type: branch, description: b}\nA.X: &x %s\nA.Y: {<<: *x, comment: cy}\nA.B.N: {<<: *x, description: n}\n",
                {"A.X": x, "A.Y": {**x, "comment": "cy"}, "A.B.N": {**x, "description": "n"}},
            ),
            "value": (
                "A: {type: branch, description: root, ext: &e %s}\nA.B: {type: branch, description: b, ext: *e}\nA.X: {type: sensor, datatype: int8, description: x, ext: *e, ext2: *e}\n"
                "A.Y: {type: sensor, datatype: int8, description: y, ext: {p: *e, l: *e}}\n",
                {"A.X": {"type": "sensor", "datatype": "int8", "description": "x", "ext": x["ext"], "ext2": x["ext"]},
                 "A.Y": {"type": "sensor", "datatype": "int8", "description": "y", "ext": {"p": x["ext"], "l": x["ext"]}}},
            ),
        }  # fmt: skip
        wl = ["-e", "ext", "-e", "ext2"]
        more = {"ext2": {"A.X": {"ext2": {"p": {"s": 1}, "n": 2}}}}
        for name, (text, nodes) in texts.items():
            e = {"ext": x["ext"]} if name == "value" else {}
            base = {"A": {"type": "branch", "description": "root", **e}, "A.B": {"type": "branch", "description": "b", **e}, **nodes}
            base = json.loads(json.dumps(base))  # nothing shared in the reference
            text = text % ref.val(x["ext"] if name == "value" else x)
            ops = [(o, w) for o, w in {**OPS, **more}.items() if "A.B.N" not in w or name != "value"]
            seqs = [(o,) for o in ops] + list(itertools.product(ops, repeat=2))
            for seq in seqs:
                for target in ("A.X", "A.Y", "A.B.N"):
                    if target not in nodes or len(seq) == 2 and tier == "quick" and target != "A.Y":
                        continue
                    writes = [{target if k == "A.X" else k: v for k, v in w.items()} for _, w in seq]
                    for kind in ("overlay", "include") if len(seq) == 1 or tier == "thorough" else ("overlay",):
                        files = {f"o{i}.vspec": ref.text(w) for i, w in enumerate(writes)}
                        files["m.vspec"] = text + ("" if kind == "overlay" else "".join(f"#include o{i}.vspec\n" for i in range(len(writes))))
                        ov = list(files)[:-1] if kind == "overlay" else []
                        yield {
                            "key": f"alias:{name}:{target}:{kind}:{'+'.join(o for o, _ in seq)}", "files": files,
                            "runs": [{"argv": argv("yaml", overlays=ov, extra=wl), "read": ["o.out"]}], "model": {"layers": [base] + writes, "whitelist": ["ext", "ext2"]},
                        }  # fmt: skip
        # one file below two prefixes, one of the copies changed afterwards
        f = {"F": x, "G": {"type": "branch", "description": "g", "ext": {"p": {"q": 1}}}, "G.H": x}
        main = {"A": {"type": "branch", "description": "root"}, "A.B": {"type": "branch", "description": "b"}}
        main, f = json.loads(json.dumps([main, f]))
        for o, w in OPS.items():
            if "A.X" not in w:
                continue
            for where in ("A.F", "A.B.F", "A.G.H", "A.B.G.H", "A.G", "A.B.G"):
                if where.endswith("G") and "datatype" in w["A.X"]:
                    continue
                write = json.loads(json.dumps({where: {k: v for k, v in w["A.X"].items() if not where.endswith("G") or k in ("comment", "ext", "deprecation", "description")}}))
                for order in itertools.permutations(["A", "A.B"]):
                    for how in ("file", "link"):
                        files = {"m.vspec": ref.text(main, [f"#include f.vspec {order[0]}", f"#include {'f' if how == 'file' else 'g'}.vspec {order[1]}"]), "f.vspec": ref.text(f), "g.vspec": ref.text({}, ["#include f.vspec"]), "o.vspec": ref.text(write)}
                        yield {
                            "key": f"aliasfile:{o}:{where}:{order[0]}:{how}", "files": files,
                            "runs": [{"argv": argv("yaml", overlays=["o.vspec"], extra=WL), "read": ["o.out"]}],
                            "model": {"layers": [main, *json.loads(json.dumps([ref.prefixed(f, order[0]), ref.prefixed(f, order[1])])), write], "whitelist": ["ext"]},
                        }  # fmt: skip

    def topologies(self):
        """main -> f (prefix p) -> g (prefix q); optionally g also from main (prefix r); f twice."""
        leaf = lambda d: {"type": "sensor", "datatype": "int8", "description": d}  # noqa: E731
        br = lambda d: {"type": "branch", "description": d}  # noqa: E731
        main = {"A": br("a"), "A.B": br("b"), "A.B.C": br("c"), "A.C": br("ac"), "A.B.B": br("bb")}
        f = {"F": leaf("f"), "G": leaf("f-g")}
        g = {"G": leaf("g"), "H": leaf("h"), "F": {"comment": "from g"}}
        prefixes = [None, "A", "A.B", "B"]
        for p, q, r, order in itertools.product(prefixes, [None, "C", "B", "B.C"], ["-"] + prefixes, ("fg", "gf")):
            inc_f = "#include f.vspec" + (f" {p}" if p else "")
            inc_g = "#include g.vspec" + (f" {q}" if q else "")
            inc_r = [] if r == "-" else ["#include g.vspec" + (f" {r}" if r else "")]
            if r == "-" and order == "gf":
                continue
            files = {
                "m.vspec": ref.text(main, [inc_f] + inc_r if order == "fg" else inc_r + [inc_f]),
                "f.vspec": "  " + inc_g + "\n" + ref.text(f),
                "g.vspec": ref.text(g),
            }
            pq = ".".join(x for x in (p, q) if x)
            lf = [ref.prefixed(f, p), ref.prefixed(g, pq)]
            lr = [] if r == "-" else [ref.prefixed(g, r)]
            layers = [main] + (lf + lr if order == "fg" else lr + lf)
            yield {
                "key": f"topo:{p}/{q}/{r}/{order}",
                "files": files,
                "runs": [{"argv": argv("yaml", extra=WL), "read": ["o.out"]}],
                "model": {"layers": layers, "whitelist": ["ext"]},
            }
        # the same file below two different prefixes
        for p, q in itertools.permutations(["A", "A.B", "A.C", "A.B.C"], 2):
            layers = [main, ref.prefixed(f, p), ref.prefixed(f, q)]
            yield {
                "key": f"twice:{p}/{q}",
                "files": {"m.vspec": ref.text(main, [f"#include f.vspec {p}", f"#include f.vspec {q}"]), "f.vspec": ref.text(f)},
                "runs": [{"argv": argv("yaml", extra=WL), "read": ["o.out"]}],
                "model": {"layers": layers, "whitelist": ["ext"]},
            }

    def search(self):
        """Which of several files of the same name is included."""
        main = {"A": {"type": "branch", "description": "a"}, "A.B": {"type": "branch", "description": "b"}}
        places = ["spec", "i1", "i2", "spec/sub"]
        for user in ("main", "nested", "overlay"):
            for mask in range(16):
                have = [pl for i, pl in enumerate(places) if mask >> i & 1]
                for dirs in ([], ["i1"], ["i1", "i2"], ["i2", "i1"], ["i2", "i1", "i2"]):
                    files = {}
                    for pl in have:
                        files[f"{pl}/g.vspec"] = ref.text(
                            {"A.G": {"type": "sensor", "datatype": "int8", "description": f"from {pl}"}}
                        )
                    # keep the directories alive
                    for pl in places:
                        files.setdefault(f"{pl}/keep.txt", "")
                    ov = []
                    layers = [main]
                    if user == "main":
                        files["spec/m.vspec"] = ref.text(main, ["#include g.vspec"])
                        order = ["spec"] + dirs
                    elif user == "nested":
                        files["spec/m.vspec"] = ref.text(main, ["#include sub/f.vspec"])
                        files["spec/sub/f.vspec"] = ref.text({"A.F": {"type": "branch", "description": "f"}}, ["#include g.vspec"])
                        layers = layers + [{"A.F": {"type": "branch", "description": "f"}}]
                        order = ["spec"] + dirs + ["spec/sub"]
                    else:
                        files["spec/m.vspec"] = ref.text(main)
                        files["spec/sub/ov.vspec"] = ref.text({"A.F": {"type": "branch", "description": "f"}}, ["#include g.vspec"])
                        layers = layers + [{"A.F": {"type": "branch", "description": "f"}}]
                        ov = ["spec/sub/ov.vspec"]
                        order = ["spec/sub"] + dirs
                    win = next((o for o in order if o in have), None)
                    if win is None:
                        layers = [{"A": None}]  # reject
                    else:
                        layers = layers + [{"A.G": {"type": "sensor", "datatype": "int8", "description": f"from {win}"}}]
                    extra = list(itertools.chain(*[["-I", x] for x in dirs]))
                    yield {
                        "key": f"search:{user}:{'+'.join(have)}:{'+'.join(dirs)}",
                        "files": files,
                        "runs": [{"argv": argv("yaml", spec="spec/m.vspec", overlays=ov, extra=extra), "read": ["o.out"]}],
                        "model": {"layers": layers},
                    }

    def values(self):
        """Every kind of value over every other one, at the attribute itself and inside of it, by overlay and by include."""
        vals = [[], [1], [1, 2], [[1]], [[1], [2]], [{"a": 1}], [{"a": 2}, 3], {}, {"a": [1]}, {"a": [[1], [2]]}, {"a": {"b": []}}, {"b": 1}, {"a": None}, "", "s", None, 0, False]
        for i, j in itertools.product(range(len(vals)), repeat=2):
            for wrap in (lambda v: v, lambda v: {"k": v}, lambda v: {"k": {"l": v}, "m": 1}, lambda v: [v]):
                base = {"A": {"type": "branch", "description": "a"}, "A.X": {"type": "sensor", "datatype": "int8", "description": "x", "ext": wrap(vals[i])}}
                over = {"A.X": {"ext": wrap(vals[j])}}
                tag = ref.val(wrap("v"))
                yield {
                    "key": f"value:{i}:{j}:{tag}:o", "files": {"m.vspec": ref.text(base), "o.vspec": ref.text(over)}, "model": {"layers": [base, over], "whitelist": ["ext"]},
                    "runs": [{"argv": argv("yaml", overlays=["o.vspec"], extra=WL), "read": ["o.out"]}],
                }  # fmt: skip
                yield {
                    "key": f"value:{i}:{j}:{tag}:i", "files": {"m.vspec": ref.text(base, ["#include o.vspec"]), "o.vspec": ref.text(over)}, "model": {"layers": [base, over], "whitelist": ["ext"]},
                    "runs": [{"argv": argv("yaml", extra=WL), "read": ["o.out"]}],
                }  # fmt: skip
        inst = [[], "L", ["L"], ["L", "R"], [["L", "R"]], [["L"], ["R", "S"]], "Row[1,2]", ["Row[1,2]", ["L"]], None]
        for a, b, c in itertools.product(range(len(inst)), range(len(inst)), [None, 0, 3, 5]):
            lay = [{"A": {"type": "branch", "description": "a"}, "A.B": {"type": "branch", "description": "b", "instances": inst[a]}, "A.B.X": {"type": "sensor", "datatype": "int8", "description": "x"}}]
            lay += [{"A.B": {"type": "branch", "instances": inst[k]}} for k in (b, c) if k is not None]
            yield {
                "key": f"instances:{a}:{b}:{c}", "files": {"m.vspec": ref.text(lay[0]), **{f"o{k}.vspec": ref.text(x) for k, x in enumerate(lay[1:])}}, "model": {"layers": lay},
                "runs": [{"argv": argv("yaml", overlays=[f"o{k}.vspec" for k in range(len(lay) - 1)]), "read": ["o.out"]}],
            }  # fmt: skip

    def spread(self, tier):
        """Overlays in several directories: equal file names, one file given several times, all orders."""
        ops = {"a": OPS["com1"], "b": OPS["com2"], "c": {"A.X": {"comment": "c3", "min": 1}}}
        where = {
            "flat": ("a.vspec", "b.vspec", "c.vspec"), "samename": ("p/o.vspec", "q/o.vspec", "o.vspec"), "mixed": ("z/a.vspec", "b.vspec", "z/c.vspec"),
            "desc": ("c/a.vspec", "b/b.vspec", "a/c.vspec"), "ext": ("o.vspec", "o.yaml", "o.yml"), "long": ("o10.vspec", "o9.vspec", "o.vspec"), "main": ("x/m.vspec", "m.vspec.vspec", "M.vspec"),
        }  # fmt: skip
        for wn, paths in where.items():
            loc = dict(zip("abc", paths))
            for n in range(1, 5 if tier == "quick" else 6):
                for seq in itertools.product("abc", repeat=n):
                    for style in ("-l", "--overlays="):
                        if style != "-l" and n > 2:
                            continue
                        c = {
                            "key": f"spread:{wn}:{''.join(seq)}:{style}", "files": {"m.vspec": ref.text(BASE), **{loc[k]: ref.text(ops[k]) for k in "abc"}},
                            "runs": [{"argv": argv("yaml", overlays=[loc[k] for k in seq], extra=WL), "read": ["o.out"]}],
                            "model": {"layers": [BASE] + [ops[k] for k in seq], "whitelist": ["ext"]},
                        }  # fmt: skip
                        if style != "-l":
                            a = []
                            it = iter(c["runs"][0]["argv"])
                            for x in it:
                                a.append("--overlays=" + next(it) if x == "-l" else x)
                            c["runs"][0]["argv"] = a
                        yield c
            for seq in itertools.product("abc", repeat=3):  # as includes of the main file
                yield {
                    "key": f"spreadinc:{wn}:{''.join(seq)}", "files": {"m.vspec": ref.text(BASE, [f"#include {loc[k]}" for k in seq]), **{loc[k]: ref.text(ops[k]) for k in "abc"}},
                    "runs": [{"argv": argv("yaml", extra=WL), "read": ["o.out"]}], "model": {"layers": [BASE] + [ops[k] for k in seq], "whitelist": ["ext"]},
                }  # fmt: skip

    def same_target(self, tier):
        """Statements of the same text in several files, which mean different files depending on who includes."""

        def add(key, texts, spec, ov, dirs):
            # texts: path -> (data, [(target, prefix)])
            def expand(path, root, prefix, out):
                data, incs = texts[path]
                out.append(ref.prefixed(data, prefix))
                for target, p in incs:
                    here = path.rsplit("/", 1)[0]
                    hit = next((x for x in (os.path.normpath(f"{d}/{target}") for d in [root] + dirs + [here]) if x in texts), None)
                    if hit is None:
                        return False
                    if not expand(hit, root, ".".join(x for x in (prefix, p) if x), out):
                        return False
                return True

            layers, ok = [], True
            for s in [spec] + ov:
                ok = ok and expand(s, s.rsplit("/", 1)[0], "", layers)
            files = {path: ref.text(data, ["#include " + " ".join(x for x in i if x) for i in incs]) for path, (data, incs) in texts.items()}
            for d in dirs:
                files.setdefault(f"{d}/keep.txt", "")
            return {
                "key": key, "files": files, "model": {"layers": layers if ok else [{"A": None}]},
                "runs": [{"argv": argv("yaml", spec=spec, overlays=ov, extra=[x for d in dirs for x in ("-I", d)]), "read": ["o.out"]}],
            }  # fmt: skip

        br = lambda d: {"type": "branch", "description": d}  # noqa: E731
        leaf = lambda d: {"type": "sensor", "datatype": "int8", "description": d}  # noqa: E731
        base = {"A": br("a"), "A.B": br("b"), "A.C": br("c")}
        places = ["s", "s/x", "s/y", "s/x/x", "i"]
        for user in ("main", "overlays", "prefixed"):
            for mask in range(1, 32):
                have = [p for i, p in enumerate(places) if mask >> i & 1]
                for dirs in ([], ["i"]):
                    for deep in (False, True):
                        texts = {}
                        for p in have:
                            texts[f"{p}/g.vspec"] = ({"G" if user == "prefixed" else "A.G": leaf(f"g in {p}"), ("" if user == "prefixed" else "A.") + "G" + p.replace("/", "").upper(): leaf(p)},
                                                     [("x/h.vspec", None)] if deep and p != "s/x/x" else [])  # fmt: skip
                            texts[f"{p}/h.vspec"] = ({("" if user == "prefixed" else "A.") + "H": leaf(f"h in {p}")}, [])
                        for p in ("s/x", "s/y", "s/x/x"):
                            texts[f"{p}/f.vspec"] = ({("" if user == "prefixed" else "A.") + "F" + p[-1].upper() + str(len(p)): leaf(p)}, [("g.vspec", None)])
                        subs = ["x/f.vspec", "y/f.vspec", "x/x/f.vspec"]
                        if user == "main":
                            for order in itertools.permutations(subs, 2):
                                t = {**texts, "s/m.vspec": (base, [(o, None) for o in order])}
                                yield add(f"same:{user}:{mask}:{len(dirs)}:{deep}:{'+'.join(order)}", t, "s/m.vspec", [], dirs)
                        elif user == "overlays":
                            for order in itertools.permutations(subs, 2):
                                t = {**texts, "s/m.vspec": (base, [])}
                                yield add(f"same:{user}:{mask}:{len(dirs)}:{deep}:{'+'.join(order)}", t, "s/m.vspec", ["s/" + o for o in order], dirs)
                        else:
                            for order in itertools.permutations(subs, 2):
                                t = {**texts, "s/m.vspec": (base, [(o, p) for o, p in zip(order, ("A.B", "A.C"))])}
                                yield add(f"same:{user}:{mask}:{len(dirs)}:{deep}:{'+'.join(order)}", t, "s/m.vspec", [], dirs)

        # include directories whose names look alike
        alike = ["a/i", "b/i", "b/a/i", "a", "ab/i", "b/I", "i"]
        for dirs in itertools.permutations(alike, 2):
            for have in (dirs, dirs[1:], dirs[:1], ()):
                for spell in ("{}", "./{}", "{}/", "b/../{}", "{}/."):
                    texts = {f"{p}/g.vspec": ({"A.G": leaf(p)}, []) for p in have}
                    texts["s/m.vspec"] = (base, [("g.vspec", None)])
                    c = add(f"alike:{'+'.join(have)}:{'+'.join(dirs)}:{spell}", texts, "s/m.vspec", [], list(dirs))
                    c["files"].setdefault("b/keep.txt", "")
                    c["runs"][0]["argv"] = [spell.format(x) if x in dirs else x for x in c["runs"][0]["argv"]]
                    yield c

    def malformed(self):
        main = {"A": {"type": "branch", "description": "a"}}
        for i, st in enumerate(["#include", "#include ", "   #include", "#include nothere.vspec", "#include nothere.vspec A"]):
            for where in ("main", "overlay", "nested"):
                files = {"m.vspec": ref.text(main), "o.vspec": ref.text({"A": {"comment": "c"}}), "f.vspec": ref.text({})}
                if where == "main":
                    files["m.vspec"] = ref.text(main, [st])
                elif where == "overlay":
                    files["o.vspec"] += st + "\n"
                else:
                    files["m.vspec"] = ref.text(main, ["#include f.vspec"])
                    files["f.vspec"] = st + "\n"
                yield {
                    "key": f"malformed:{i}:{where}",
                    "files": files,
                    "runs": [{"argv": argv("yaml", overlays=["o.vspec"]), "read": ["o.out"]}],
                    "model": {"layers": [{"A": None}]},
                }


CHECK = C01
