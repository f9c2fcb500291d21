"""C18: searching a binary tree, and the leaf and UUID lists."""

import itertools
import json
import os

from . import binlib, ref
from .c16 import br, shapes, sig
from .core import Check, h, run_case, wipe

NAMES = "XYZUVW"
ACC = [None, "write-only", "read-write", "write-only+consent", "read-write+consent"]


class C18(Check):
    id = "C18"
    chunk = 1
    rule = (
        "all ordered trees of <=6 (thorough 7) nodes with four typings (leaves of all signal types, childless branches, structs) and access "
        "control on the nodes; per tree every search path of <= depth+1 segments over its names, an unknown name and '*', x any-depth x "
        "leaf-only x limits {0,1,2,5,50} from the root, from every inner node, and with every single and some pairs of scope limits; deep and "
        "wide trees, long names, similar names; all sequences of <=4 of leaf list, UUID list, search (two result files). "
        "state = distinct (tree, results), transition = one search in one library"
    )
    assumptions = [
        "a trailing '*' stands for one level, with any-depth for one or more levels; without leaf-only the nodes on the way to a match are "
        "part of the result, as the metadata search of the test parsers relies on it",
        "if the limit cuts the result off, the access control may be that of the returned or of all matching nodes",
    ]

    def setup(self):
        binlib.build()

    def mk(self, key, d, plan, uuid=True):
        a = ["export", "binary", "-s", "m.vspec", "-o", "o.bin", "-e", "validate"] + (["--uuid"] if uuid else [])
        return {"key": key, "files": {"m.vspec": ref.text(d)}, "runs": [{"argv": a, "read": ["o.bin"]}], "model": d, "plan": plan, "uuid": uuid}

    def tree(self, sh, kind, acc):
        d = {}
        cnt = itertools.count()

        def put(t, path, depth, j):
            i = next(cnt)
            if kind == "struct" and depth > 0:
                typ = "struct" if t or j % 2 == 1 or depth == 1 else "property"
            elif t or depth == 0 or (kind == "empty" and j % 2 == 0):
                typ = "branch"
            else:
                typ = ("sensor", "actuator", "attribute")[i % 3]
            d[path] = {"type": typ, "description": "d"}
            if typ not in ("branch", "struct"):
                d[path]["datatype"] = "uint8"
            v = ACC[(i * acc + (acc > 2) * depth) % 5] if acc else None
            if v:
                d[path]["validate"] = v
            for n, k in enumerate(t):
                put(k, f"{path}.{NAMES[n]}", depth + 1, n)

        put(sh, "R", 0, 0)
        return d

    def cases(self, tier):
        for c in self.cases_(tier):
            yield c
            if "patterns" in c["plan"] and c["key"] != "odd":
                yield {**c, "key": "list:" + c["key"], "plan": {"hist": [("l1", "u1", "u2"), ("u1", "l2", "l1")]}}
        from . import scale

        for key, d, types in scale.sweep(24 if tier == "thorough" else 16, instances=False):
            if types is None and key != "scale:sink":
                yield self.mk("list:" + key, d, {"hist": [("l1", "u1", "u2"), ("u1", "l2", "l1")]})

    def cases_(self, tier):
        top = 7 if tier == "quick" else 8
        for n in range(1, top):
            for si, sh in enumerate(shapes(n)):
                for kind, acc in (("plain", 1), ("plain", 2), ("empty", 3), ("struct", 4), ("plain", 0)):
                    if n == top - 1 and (kind, acc) not in (("plain", 1), ("struct", 4)):
                        continue
                    yield self.mk(f"tree:{n}:{si}:{kind}:{acc}", self.tree(sh, kind, acc), {"patterns": "all"}, uuid=acc != 2)
        # names that are parts of each other, names that look special
        for names in (("A", "AA", "AB"), ("B", "A", "R"), ("a", "A", "Aa"), ("X1", "X10", "X"), ("Ä", "A", "Ö"), ("R", "R2", "RR")):
            d = {"R": br(validate="write-only")}
            for x in names:
                d[f"R.{x}"] = br()
                for y in names:
                    d[f"R.{x}.{y}"] = sig(validate="read-write" if x == y else None) if x != y else br()
                    if x == y:
                        d[f"R.{x}.{y}.{names[0]}"] = sig(validate="write-only+consent")
            for p in [k for k in d if d[k].get("validate", 1) is None]:
                del d[p]["validate"]
            yield self.mk(f"names:{names}", d, {"patterns": "all"})
        # deep
        for depth in (5, 20, 21, 25, 60, 99, 100, 101, 102, 120, 250):
            p, d = "R", {"R": br()}
            for i in range(depth):
                p += ".N" if depth < 200 else ".N"
                d[p] = br(validate=ACC[i % 5] or "") if i < depth - 1 else sig()
                if depth < 130:
                    d[p + "a"] = sig()
            if len(p) > 505:
                continue
            pats = ["*", "R.*", p, p + ".N", p + ".*", "R" + ".*" * depth, "R" + ".*" * (depth - 1), "R" + ".*" * (depth + 1), "*" + ".N" * depth]
            pats += ["R" + ".N" * (depth - 1) + ".*", "R" + ".*" * (depth - 1) + ".Na", "*" + ".*" * (depth - 1) + ".N", "R" + ".N.*" * (depth // 2), "R" + ".N" * 3 + ".*"]
            yield self.mk(f"deep:{depth}", d, {"patterns": sorted(set(pats)), "starts": [0, 1], "limits": [0, 1, 3, 1500]})
        # wide, many matches, long names
        for width in (1, 254, 255):
            d = {"R": br(), "R.W": br(), **{f"R.W.X{i}": sig() for i in range(width)}, "R.V": br(), **{f"R.V.X{i}": sig() for i in range(width)}}
            pats = ["*", "R.*", "R.*.*", "R.*.X0", f"R.*.X{width - 1}", "R.W.*", "R.V.X1", "R.*.Nope", "*.V.*", "R.X0"]
            yield self.mk(f"wide:{width}", d, {"patterns": pats, "starts": [0, 1], "limits": [0, 1, width, width + 1, 2 * width, 1500]})
        for ln in (1, 49, 50, 98, 99, 100, 101, 127, 128, 200, 254, 255):
            x, y = "L" * ln, "L" * (ln - 1) + "M"
            d = {"R": br(), f"R.{x}": br(), f"R.{x}.{y}": sig(), f"R.{y}": br(), f"R.{y}.{x}": sig()} if 2 * ln + 3 < 512 else {"R": br(), f"R.{x}": sig(), f"R.{y}": sig()}
            pats = ["*", "R.*", f"R.{x}", f"R.{x}.{y}", f"R.{x}.*", f"R.*.{x}", f"R.{y}.{x}", f"R.{x}L", f"R.{x}L.{y}", "R." + "L" * 600, "R." + "L" * 2000 + ".*", f"*.{y}.*"]
            yield self.mk(f"long:{ln}", d, {"patterns": sorted(set(pats)), "starts": [0, 1], "limits": [0, 1, 50]})
        # texts that are no proper search path
        d = self.tree(((((),), ()), ((), ())), "plain", 1)
        odd = ["", ".", "..", "R.", ".R", "R..X", "*.", ".*", "R.*.", "R X", "r", "R.x", "**", "R.**", "R.X.", "R.X..", "*" * 30, "." * 30, "R" + "." * 30, "R.*" + ".*" * 40]
        yield self.mk("odd", d, {"patterns": odd, "starts": [0, 1], "limits": [0, 50]})
        # histories of lists and searches
        for i, d in enumerate((self.tree((((), ()), ()), "plain", 1), self.tree(((),), "struct", 1), {"R": br()}, {"R": br(), "R.B": br(), "R.X": sig(description="q", validate="write-only")})):
            for n in (1, 2, 3, 4):
                seqs = list(itertools.product(("l1", "l2", "u1", "u2", "s1", "s2"), repeat=n))
                for uuid in (True, False):
                    for b in range(0, len(seqs), 60):
                        yield self.mk(f"hist:{i}:{n}:{uuid}:{b // 60}", d, {"hist": seqs[b : b + 60]}, uuid)

    def commands(self, root, plan):
        nodes = list(root.walk())
        cmds = []
        if plan["patterns"] != "all":
            for s, p, any_, leaf, lim in itertools.product(plan["starts"], plan["patterns"], (0, 1), (0, 1), plan["limits"]):
                if s < len(nodes):
                    cmds.append((nodes[s], any_, leaf, lim, p, ()))
            return nodes, cmds
        names = sorted({n.name for n in nodes})
        depth = max(n.path.count(".") for n in nodes) + 1
        alpha = names + ["*", "Q"]
        big = len(nodes) > 5
        for ln in range(1, depth + 2):
            for segs in itertools.product(alpha, repeat=ln):
                # a path whose first segment is neither the root nor '*' finds nothing, whatever follows
                if ln > 1 and segs[0] not in ("*", root.name) or (ln > 3 and "Q" in segs[:-1]):
                    continue
                if ln > 4 and len(alpha) > 6 and "*" not in segs:
                    continue
                p = ".".join(segs)
                for any_ in (0, 1):
                    for leaf in (0, 1):
                        for lim in (50, 1, 2) if big else (50, 0, 1, 2, 5):
                            cmds.append((root, any_, leaf, lim, p, ()))
        for start in nodes[1:]:
            for ln in range(1, 4):
                for segs in itertools.product(alpha, repeat=ln):
                    if ln > 1 and segs[0] not in ("*", start.name) or ln > 2 and start.leaf:
                        continue
                    for any_, leaf in itertools.product((0, 1), repeat=2):
                        cmds.append((start, any_, leaf, 50, ".".join(segs), ()))
        paths = [n.path for n in nodes]
        pats = ["*", root.name + ".*", root.name + ".*.*"] + paths
        scopes = [(p,) for p in paths] + [(a, b) for a, b in itertools.combinations(paths, 2) if len(nodes) < 5] + [("Q",), (paths[-1], "Q.Q")]
        for p in pats:
            for sc in scopes:
                for any_, leaf in itertools.product((0, 1), repeat=2):
                    cmds.append((root, any_, leaf, 50, p, sc))
        return nodes, cmds

    def evaluate(self, case, d):
        out = run_case(case, d)[0]
        if out["rc"] == 1 and case["key"].startswith("list:scale:"):
            return [], ["reject"], 1, 0  # whether the model fits the format is judged by C16
        if out["rc"] != 0 or out["out"]["o.bin"] is None:
            return [("rejected", f"status {out['rc']}\n{out['log'][-600:]}")], ["BAD"], 1, 0
        root = binlib.from_model(ref.evaluate([case["model"]], whitelist=["validate"]).root, None, case["uuid"])
        if "hist" in case["plan"]:
            return self.history(case, d, root)
        nodes, cmds = self.commands(root, case["plan"])
        pos = {id(n): i for i, n in enumerate(nodes)}
        lines_in = [("R", "o.bin")] + [("S", pos[id(s)], a, l, m, p) + tuple(sc) for s, a, l, m, p, sc in cmds]
        results = {lib: binlib.drive(lib, lines_in, d) for lib in binlib.LIBS}
        exp = []
        for s, a, l, m, p, sc in cmds:
            cnt, hits, acc = binlib.search(nodes, s, bool(a), bool(l), m, p, sc)
            tail = "".join(f" {i}:{path}" for i, path in hits)
            exp.append((f"S {cnt} ", acc, tail))
        bads = []
        for lib, (rc, lines, err) in results.items():
            lines = lines[1:]
            for (pre, acc, tail), got, c in zip(exp, lines, cmds):
                if not any(got == f"{pre}{v}{tail}" for v in acc):
                    s, a, l, m, p, sc = c
                    bads.append((f"search-{lib}", f"{lib} library, tree {[n.path + ':' + n.type[:3] + ':' + n.validate for n in nodes][:12]}\nsearch {p[:200]!r} from {s.path[:50]} any-depth={a} leaf-only={l} limit={m} scopes={sc}\nexpected {pre}{sorted(acc)}{tail[:300]}\ngot      {got[:400]}"))
                    break
            if rc:
                k = min(len(lines), len(cmds) - 1)
                c = cmds[k]
                bads.append((f"status-{lib}", f"{lib} library: status {rc} about at search {c[4][:200]!r} from {c[0].path[:50]} any-depth={c[1]} leaf-only={c[2]} limit={c[3]}\n{err[:700]}"))
            elif len(lines) != len(cmds):
                bads.append((f"status-{lib}", f"{lib} library: {len(lines)} results for {len(cmds)} searches"))
        return bads, [h([case["key"], [e[2] for e in exp][:2000]])], 2 * len(cmds) + 1, len(cmds)

    def history(self, case, d, root):
        nodes = list(root.walk())
        leaves = [n for n in nodes if n.leaf]
        want_l = {"leafpaths": [n.path for n in leaves]}
        want_u = {"leafuuids": [{"path": n.path, "uuid": n.uuid} for n in leaves]}
        bads = []
        with open(os.path.join(d, "o.bin"), "rb") as f:
            data = f.read()
        for seq in case["plan"]["hist"]:
            for lib in binlib.LIBS:
                wipe(d)
                with open(os.path.join(d, "o.bin"), "wb") as f:
                    f.write(data)
                with open(os.path.join(d, "2.json"), "wb") as f:
                    f.write(b"\xff" * 3000)
                cmds, want = [("R", "o.bin")], {}
                lines_exp = [f"R {len(nodes)}"]
                for op in seq:
                    if op[0] == "s":
                        p = "*" if op[1] == "1" else "R.*"
                        cmds.append(("S", 0, 1, 1, 50, p))
                        cnt, hits, acc = binlib.search(nodes, root, True, True, 50, p)
                        lines_exp.append(f"S {cnt} {min(acc)}" + "".join(f" {i}:{path}" for i, path in hits))
                    else:
                        cmds.append((op[0].upper(), op[1] + ".json", 0))
                        want[op[1] + ".json"] = want_l if op[0] == "l" else want_u
                        lines_exp.append(f"{op[0].upper()} {len(leaves)}")
                rc, lines, err = binlib.drive(lib, cmds, d)
                if rc or lines != lines_exp:
                    bads.append((f"hist-{lib}", f"{lib} library, {seq}: status {rc}\nexpected {lines_exp}\ngot      {lines}\n{err[:500]}"))
                for n, w in want.items():
                    p = os.path.join(d, n)
                    raw = open(p, "rb").read() if os.path.exists(p) else b""
                    try:
                        got = json.loads(raw)
                    except ValueError:
                        got = raw
                    if got != w:
                        bads.append((f"list-{lib}", f"{lib} library, {seq}: {n}\nexpected {json.dumps(w)[:500]}\ngot      {raw[:500]!r}"))
            if bads:
                break
        return bads, [case["key"]], 2 * len(case["plan"]["hist"]) + 1, len(case["plan"]["hist"])


CHECK = C18
