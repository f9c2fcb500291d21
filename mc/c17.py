"""C17: writing a binary tree back reproduces the file."""

import itertools
import os

from . import binlib, c16, ref
from .core import Check, h, run_case

br, sig = c16.br, c16.sig


class C17(Check):
    id = "C17"
    chunk = 4
    rule = (
        "every accepted model of the C16 space (values, text lengths, list sizes, access control, trees, field combinations): both libraries "
        "read the file and write it back to a new file, again, over a longer and over a shorter existing file, over the file it was read "
        "from; additionally all sequences of <=4 (thorough 5) of the operations read file 1/2, write to target 1/2, search, leaf list, UUID "
        "list. state = distinct (file, history), transition = one library process"
    )
    assumptions = ["only files written by the exporter are valid binary files"]

    def setup(self):
        binlib.build()

    def cases(self, tier):
        for c in c16.C16().cases(tier):
            k = c["key"]
            if tier == "quick" and k.startswith(("val:", "list:", "minmax:")) and ("sensor" not in k or ":uint16" not in k and ":string" not in k and ":float" not in k):
                continue
            yield c
        for i, (d1, d2) in enumerate(self.pairs()):
            for uuid in (False, True):
                for ops in self.sequences(4 if tier == "quick" else 5):
                    c = self.pair_case(f"hist:{i}:{uuid}:{'-'.join(ops)}", d1, d2, uuid)
                    c["ops"] = ops
                    yield c

    def pairs(self):
        a = {"A": br(validate="read-write+consent"), "A.X": sig(allowed=["a", "bb"], default="a"), "A.Y": sig(validate="write-only", datatype="uint8", min=0, max=9)}
        b = {"B": br(), "B.S": {"type": "struct", "description": "st"}, "B.S.P": {"type": "property", "datatype": "uint8[]", "description": "é" * 30}}
        yield a, b

    def sequences(self, n):
        ops = ("r1", "r2", "w1", "w2", "s", "l", "u")
        for k in range(2, n + 1):
            for seq in itertools.product(ops, repeat=k):
                # something is read first and the last operation is a write
                if seq[0][0] == "r" and seq[-1][0] == "w":
                    yield seq

    def pair_case(self, key, d1, d2, uuid):
        e = ["--uuid"] if uuid else []
        return {
            "key": key, "files": {"m.vspec": ref.text(d1), "n.vspec": ref.text(d2)}, "pre": None, "layers": [d1], "units": [], "uuid": uuid,
            "runs": [],
            "exports": [["export", "binary", "-s", s, "-o", o, "-e", "validate"] + e for s, o in (("m.vspec", "f1.bin"), ("n.vspec", "f2.bin"))],
            "models": [d1, d2],
        }  # fmt: skip

    _files: dict = {}

    def history(self, case, d):
        from .core import run_cli, wipe, write_files

        wipe(d)
        key = (repr(case["models"]), case["uuid"])
        if key not in self._files:
            write_files(d, case["files"])
            data = []
            for a, name in zip(case["exports"], ("f1.bin", "f2.bin")):
                rc, log = run_cli(a, d)
                if rc:
                    return [("rejected", log[-500:])], ["BAD"], 1, 0
                data.append(open(os.path.join(d, name), "rb").read())
            self._files[key] = data
        f = self._files[key]
        for i in (0, 1):
            with open(os.path.join(d, f"f{i + 1}.bin"), "wb") as o:
                o.write(f[i])
        bads = []
        for lib in binlib.LIBS:
            cmds, cur, exp = [], None, {}
            for op in case["ops"]:
                if op[0] == "r":
                    cur = int(op[1]) - 1
                    cmds.append(("R", f"f{op[1]}.bin"))
                elif op[0] == "w":
                    cmds.append(("W", f"t{op[1]}.bin"))
                    exp[f"t{op[1]}.bin"] = f[cur]
                elif op == "s":
                    cmds.append(("S", 0, 1, 1, 10, "A.*"))
                else:
                    cmds.append((op.upper(), "list.json", 0))
            rc, lines, err = binlib.drive(lib, cmds, d)
            if rc:
                bads.append((f"status-{lib}", f"{lib} library: status {rc}\n{err[:700]}"))
            for n, content in exp.items():
                p = os.path.join(d, n)
                got = open(p, "rb").read() if os.path.exists(p) else None
                if got != content:
                    bads.append((f"history-{lib}", f"{lib} library, {case['ops']}: {n} is not the file that was read\nexpected {content!r}\ngot      {got!r}"))
                if got is not None:
                    os.unlink(p)
        return bads, [case["key"]], 2, 1

    def evaluate(self, case, d):
        if "ops" in case:
            return self.history(case, d)
        out = run_case(case, d)[0]
        got = out["out"]["o.bin"]
        if out["rc"] != 0 or got is None:
            return [], ["reject"], 1, 0
        bads = []
        longer = got + b"\xee" * 300
        for lib in binlib.LIBS:
            for name, content in (("long.bin", longer), ("short.bin", got[: len(got) // 2])):
                with open(os.path.join(d, name), "wb") as f:
                    f.write(content)
            with open(os.path.join(d, "self.bin"), "wb") as f:
                f.write(got)
            cmds = [("R", "o.bin"), ("D",), ("W", "new.bin"), ("W", "long.bin"), ("W", "short.bin"), ("W", "new.bin"), ("R", "new.bin"), ("D",)]
            cmds += [("W", "again.bin"), ("R", "self.bin"), ("W", "self.bin"), ("R", "self.bin"), ("D",)]
            rc, lines, err = binlib.drive(lib, cmds, d)
            if rc:
                bads.append((f"status-{lib}", f"{lib} library: status {rc}\n{err[:700]}"))
                continue
            dumps = [[]]
            for line in lines:
                if line.startswith("R "):
                    dumps.append([])
                elif line.startswith("N "):
                    dumps[-1].append(line)
            dumps = [x for x in dumps if x]
            if len(dumps) != 3 or not (dumps[0] == dumps[1] == dumps[2]):
                bads.append((f"reread-{lib}", f"{lib} library reads something else from the file it has written"))
            for name in ("new.bin", "long.bin", "short.bin", "again.bin", "self.bin"):
                p = os.path.join(d, name)
                w = open(p, "rb").read() if os.path.exists(p) else None
                if w != got:
                    n = next((i for i, (a, b) in enumerate(zip(got, w or b"")) if a != b), min(len(got), len(w or b"")))
                    bads.append((f"write-{lib}", f"{lib} library, {name}: {len(w or b'')} instead of {len(got)} bytes, first difference at {n}\nexpected {got[max(0, n - 40):n + 40]!r}\ngot      {(w or b'')[max(0, n - 40):n + 40]!r}"))
                    break
        return bads, [h(got.hex())], 3, 1


CHECK = C17
