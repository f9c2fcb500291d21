"""C09: datatypes that name structs resolve to the intended definition."""

import itertools
import os
import subprocess
import sys

from . import core, ref, scale
from .modelcheck import ModelCheck, argv

B = {"type": "branch", "description": "b"}
S = {"type": "struct", "description": "s"}


def prop(dt, d="p"):
    return {"type": "property", "datatype": dt, "description": d}


def sig(dt, d="x"):
    return {"type": "sensor", "datatype": dt, "description": d}


MAIN = {"V": B, "V.X": sig("uint8")}


class C09(ModelCheck):
    id = "C09"
    rule = (
        "every subset of a universe of structs whose names and namespaces share textual prefixes x every place a reference can stand "
        "(each struct, a signal, a signal in a tree with the same root name) x every reference spelling (bare, full, partial, branch, "
        "property, undefined; scalar and array); every definition order of five mutually referring structs; nested structs; every "
        "assignment of definitions and redefinitions to up to three type files; every iteration order of the registry that hash seeds "
        "can produce for three names. state = distinct exported tree or rejection, transition = one CLI run"
    )
    assumptions = [
        "struct names that equal a predefined datatype are not in the space",
        "the order of an unordered registry is explored through PYTHONHASHSEED (all orders of three elements)",
    ]

    def case(self, key, main, types, seeds=None, kind="run"):
        files = {"m.vspec": ref.text(main)}
        extra = []
        for i, t in enumerate(types):
            files[f"t{i}.vspec"] = ref.text(t)
            extra += ["-t", f"t{i}.vspec"]
        runs = [{"argv": argv("yaml", extra=extra), "read": ["o.out"]}]
        return {"key": key, "files": files, "runs": runs, "seeds": seeds, "model": {"layers": [main], "types": types}}

    def cases(self, tier):
        # ---- many structs, many files
        for key, main, types in scale.sweep(24 if tier == "thorough" else 16, instances=False):
            if types is None or key == "scale:sink":
                continue
            yield self.case(key, main, [types])
            yield self.case("reverse:" + key, main, [dict(reversed(list(types.items())))])
            if len(types) < 40:
                yield self.case("files:" + key, main, [{k: v} for k, v in types.items()])
                yield self.case("halves:" + key, main, [dict(list(types.items())[::2]), dict(list(types.items())[1::2])])
            if key.split(":")[1] == "structchain":
                bare = {k: {**v, "datatype": v["datatype"].replace("T.", "")} if "datatype" in v else v for k, v in types.items()}
                yield self.case("bare:" + key, main, [bare])
                for k in [k for k in types if types[k]["type"] == "struct"]:
                    yield self.case(f"without:{k}:{key}", main, [{x: v for x, v in bare.items() if not (x + ".").startswith(k + ".")}])
        # ---- subsets x places x spellings
        uni = ["T.S", "T.A.S", "T.A.SX", "T.A.B.S", "T.AB.S", "T.A.R"]
        branches = {"T": B, "T.A": B, "T.A.B": B, "T.AB": B}
        names = ["S", "SX", "R", "A.S", "N", "T", "T.A", "T.A.S.p", "T.A.B", "AB.S", ".S", "S[", "s"] + uni
        arrays = ["S", "SX", "N", "T.S", "T.A.SX", "T.A"]
        spell = names + [f"{n}[]" for n in arrays] + ["S[][]"]
        for mask in range(1, 2 ** len(uni)):
            present = [u for i, u in enumerate(uni) if mask >> i & 1]
            places = present + ["V", "T", "T.A"]
            for place in places:
                for name in spell:
                    types = dict(branches)
                    for u in present:
                        types[u] = S
                        types[f"{u}.p"] = prop("uint8")
                    main = dict(MAIN)
                    if place in present:
                        types[f"{place}.q"] = prop(name)
                    elif place == "V":
                        main["V.Y"] = sig(name)
                    elif tier == "quick" and mask % 5:
                        continue
                    else:
                        # the signal tree has the same root name (and branch) as the types tree
                        main = {"T": B, "T.A": B, f"{place}.Y": sig(name)}
                    yield self.case(f"ref:{','.join(present)}:{place}:{name}", main, [types])
        # ---- structs in structs
        uni = ["T.N", "T.S", "T.S.N", "T.S.NX", "T.S.N.M", "T.SX"]
        for mask in range(1, 2 ** len(uni)):
            present = [u for i, u in enumerate(uni) if mask >> i & 1]
            if "T.S" not in present and any(u.startswith("T.S.") for u in present):
                continue
            if "T.S.N" not in present and "T.S.N.M" in present:
                continue
            for place in present:
                for name in ["N", "NX", "M", "S", "SX", "T.S.N", "T.N", "N[]"]:
                    for first in (True, False):
                        types = {"T": B}
                        for u in present:
                            if first and u == place:
                                types[f"{u}.q"] = prop(name)
                            types[u] = S
                        if not first:
                            types[f"{place}.q"] = prop(name)
                        yield self.case(f"nested:{','.join(present)}:{place}:{name}:{first}", MAIN, [types])
        # ---- definition orders
        items = [
            {"T.A": B, "T.A.S": S, "T.A.S.p": prop("R"), "T.A.S.q": prop("T.AB.S[]")},
            {"T.A.R": S, "T.A.R.p": prop("S"), "T.A.R.q": prop("T.A.R")},
            {"T.AB": B, "T.AB.S": S, "T.AB.S.p": prop("SX")},
            {"T.AB.SX": S, "T.AB.SX.p": prop("S[]"), "T.AB.SX.q": prop("boolean")},
            {"T.S": S, "T.S.p": prop("T.A.S"), "T.S.q": prop("uint8[]")},
        ]
        for perm in itertools.permutations(range(len(items))):
            for rev in (False, True):
                types = {"T": B}
                for i in perm:
                    its = list(items[i].items())
                    types.update(reversed(its) if rev else its)
                yield self.case(f"order:{perm}:{rev}", {"V": B, "V.X": sig("T.A.S"), "V.Y": sig("T.AB.SX[]")}, [types])
        # ---- several type files: who defines what
        base = {"T": B, "T.A": B, "T.A.S": S, "T.A.S.p": prop("uint8"), "T.A.S.q": prop("R"), "T.A.R": S, "T.A.R.p": prop("string")}
        chunks = {
            "newprop": {"T.A.S.n": prop("boolean")},
            "redt": {"T.A.S.p": prop("uint16", "new")},
            "redesc": {"T.A.S": {"type": "struct", "description": "changed"}},
            "comment": {"T.A.R.p": {"comment": "only this"}},
            "newstruct": {"T.A.N": S, "T.A.N.p": prop("S")},
            "uselater": {"T.A.S.q": prop("N")},
            "tobranch": {"T.A.R": {"type": "branch"}},
            "foreign": {"U": B, "U.S": S, "U.S.p": prop("uint8")},
            "newbranch": {"T.B": B, "T.B.S": S, "T.B.S.p": prop("T.A.S[]")},
            "orphan": {"T.X.S": S},
            "baddt": {"T.A.S.p": prop("nothing")},
        }
        sigs = {"V": B, "V.X": sig("T.A.S"), "V.Y": sig("T.A.R[]")}
        heads = {"": {}, "T": {"T": B}, "TA": {"T": B, "T.A": B}, "T2": {"T": {"type": "branch", "description": "other"}}}
        for hn, head in heads.items():
            for n, c in chunks.items():
                yield self.case(f"files:{hn}:{n}", sigs, [base, {**head, **c}])
                yield self.case(f"files-rev:{hn}:{n}", sigs, [{**head, **c}, base])
            for a, b in itertools.permutations(chunks, 2):
                yield self.case(f"files3:{hn}:{a},{b}", sigs, [base, {**head, **chunks[a]}, {**head, **chunks[b]}])
                yield self.case(f"files2:{hn}:{a},{b}", sigs, [base, {**head, **chunks[a], **chunks[b]}])
            if tier == "thorough":
                for a, b, c in itertools.permutations(chunks, 3):
                    lst = [base] + [{**head, **chunks[x]} for x in (a, b, c)]
                    yield self.case(f"files4:{hn}:{a},{b},{c}", sigs, lst)
        # type files in several directories, equal names, one file several times
        for wn, paths in {"same": ("p/t.vspec", "q/t.vspec", "t.vspec"), "mixed": ("z/a.vspec", "b.vspec", "z/c.vspec"), "desc": ("c/a.vspec", "b/b.vspec", "a/c.vspec"), "as main": ("x/m.vspec", "y/m.vspec", "M.vspec")}.items():
            over = [{**base}, {"T": B, "T.A": B, "T.A.S.p": prop("uint16", "b"), "T.A.S.n": prop("boolean", "b")}, {"T": B, "T.A": B, "T.A.S.p": prop("int8", "c"), "T.A.S.n": prop("R[]", "c")}]
            for n in (1, 2, 3, 4):
                for seq in itertools.product(range(3), repeat=n):
                    c = self.case(f"dirs:{wn}:{seq}", sigs, [over[i] for i in seq])
                    c["files"] = {"m.vspec": c["files"]["m.vspec"], **{paths[i]: ref.text(over[i]) for i in range(3)}}
                    c["runs"] = [{"argv": argv("yaml", extra=[x for i in seq for x in ("-t", paths[i])]), "read": ["o.out"]}]
                    yield c
        # every split of the definitions over two files
        keys = [k for k in base if k != "T"]
        for mask in range(2 ** len(keys)):
            parts = [{"T": B}, {"T": B}]
            for i, k in enumerate(keys):
                parts[mask >> i & 1][k] = base[k]
            yield self.case(f"split:{mask}", sigs, parts)
        yield from self.includes()
        # ---- hash orders
        triples = [
            (["T.S", "T.A.S", "T.A.B.S"], "T.A.B.Z.q", "S"),
            (["T.A.S", "T.A.SX", "T.AB.S"], "T.AB.Z.q", "S"),
            (["T.S", "T.A.S", "T.AB.S"], "T.A.Z.q", "S[]"),
        ]
        if tier == "thorough":
            triples += [
                (["T.S", "T.AB.S", "T.A.B.S"], "T.AB.Z.q", "S"),
                (["T.A.S", "T.A.B.S", "T.A.B.SX"], "T.A.B.Z.q", "S"),
            ]
        for structs, place, name in triples:
            types = {**branches, place.rsplit(".", 1)[0]: S}
            for s in structs:
                types[s] = S
                types[f"{s}.p"] = prop("uint8")
            types[place] = prop(name)
            for seed in seeds_for(structs + [place.rsplit(".", 1)[0]], structs):
                yield self.case(f"hash:{','.join(structs)}:{name}:{seed}", MAIN, [types], seeds=[seed])

    def includes(self):
        """Types that are spread over included files: plain, below a prefix, nested, from include directories, and next to their includer."""
        sub = {"A": B, "A.S": S, "A.S.p": prop("uint8", "from {}"), "A.S.q": prop("R"), "A.R": S, "A.R.p": prop("{}")}

        def part(where, dt):
            return {k: {a: v.format(dt if a == "datatype" else where) for a, v in d.items()} for k, d in sub.items()}

        def run(key, files, layers, main, targs, dirs=()):
            extra = [x for t in targs for x in ("-t", t)] + [x for d in dirs for x in ("-I", d)]
            return {"key": key, "files": files, "runs": [{"argv": argv("yaml", spec="s/m.vspec", extra=extra), "read": ["o.out"]}], "seeds": None, "model": {"layers": [main], "types": layers}}

        places = ["s", "t", "u", "i"]
        for mask in range(16):
            have = [p for i, p in enumerate(places) if mask >> i & 1]
            for dirs in ([], ["i"]):
                for targs in (["t/t.vspec"], ["s/t.vspec"], ["t/t.vspec", "u/t.vspec"], ["u/t.vspec", "s/t.vspec"]):
                    for prefixes in (["T"], ["T", "T.A"], ["T.A", "T"], ["T.A.B", "T.B"]):
                        files = {f"{p}/keep.txt": "" for p in places}
                        for i, p in enumerate(have):
                            files[f"{p}/g.vspec"] = ref.text(part(p, ["uint16", "string", "boolean", "A.S"][i]))
                        layers, ok, names = [], True, []
                        for n, t in enumerate(targs):
                            head = {"T": B, "T.A": B, "T.A.B": B, "T.B": B, f"T.Z{n}": S, f"T.Z{n}.z": prop("S")}
                            files[t] = ref.text(head, [f"#include g.vspec {p}" for p in prefixes])
                            layers.append(head)
                            win = next((o for o in [t.split("/")[0]] + dirs if o in have), None)
                            ok = ok and win is not None
                            for p in prefixes:
                                layers.append(ref.prefixed(part(win, ["uint16", "string", "boolean", "A.S"][have.index(win)]), p) if win else {"T": None})
                                names.append(p + ".A.S")
                        main = {"V": B, "V.X": sig(names[0]), "V.Y": sig(names[-1].replace(".S", ".R") + "[]")}
                        files["s/m.vspec"] = ref.text(main)
                        yield run(f"include:{'+'.join(have)}:{len(dirs)}:{'+'.join(targs)}:{'+'.join(prefixes)}", files, layers, main, targs, dirs)

    def evaluate(self, case, d):
        if not case["seeds"]:
            return super().evaluate(case, d)
        # fresh interpreters, one per hash seed
        core.wipe(d)
        core.write_files(d, case["files"])
        bads, states = [], []
        for seed in case["seeds"]:
            env = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONPATH": str(core.REPO / "src")}
            p = subprocess.run(
                [sys.executable, "-X", "utf8", "-c", "from vss_tools.vspec.cli import cli; cli()", "--log-level", "ERROR"]
                + case["runs"][0]["argv"],
                cwd=d, env=env, capture_output=True, text=True, timeout=120,
            )  # fmt: skip
            o = os.path.join(d, "o.out")
            out = {"rc": p.returncode, "log": p.stdout + p.stderr, "out": {"o.out": open(o, "rb").read() if os.path.exists(o) else None}}
            b, s = self.judge(case, [out])
            bads += b
            states += s
        return bads, states, len(case["seeds"]), sum(1 for s in states if s != "reject")


_SEEDS = {}


def seeds_for(names, of):
    """Hash seeds that realise every iteration order of `of` within a set of `names` (searched, smallest first)."""
    want = 1
    for i in range(2, len(of) + 1):
        want *= i
    found = {}
    code = "import sys; n=sys.argv[1].split(','); o=sys.argv[2].split(','); s=set(); [s.add(x) for x in n]; print([x for x in s if x in o])"
    for seed in range(1, 60):
        r = subprocess.run(
            [sys.executable, "-S", "-c", code, ",".join(names), ",".join(of)],
            env={"PYTHONHASHSEED": str(seed)}, capture_output=True, text=True,
        ).stdout  # fmt: skip
        found.setdefault(r, seed)
        if len(found) == want:
            break
    return sorted(found.values())


CHECK = C09
