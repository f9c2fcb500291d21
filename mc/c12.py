"""C12: output depends only on the inputs of the run."""

import itertools
import os
import subprocess
import sys

from . import core, ops
from .core import h

KM = "km: {definition: k, quantity: length, unit: kilometer, allowed-datatypes: [numeric]}\n"
LEN = "length: {definition: l}\n"
ROOT = "A: {type: branch, description: root}\n"

BASE = ROOT + """A.B: {type: branch, description: b, instances: ["Row[1,2]", [L, R]]}
A.B.S: {type: sensor, datatype: uint8, unit: km, min: 0, max: 5, description: s}
A.B.E: {type: actuator, datatype: string, allowed: [X, Y], default: X, description: e}
A.B.Row1: {type: branch, description: r1}
A.B.Row1.L: {type: branch, description: l}
A.B.Row1.L.N: {type: sensor, datatype: float, description: only there}
A.W: {type: attribute, datatype: "uint8[]", arraysize: 2, default: [0, 1], description: "w \u00e9"}
"""
TYPES = """Types: {type: branch, description: t}
Types.N: {type: branch, description: n}
Types.N.P: {type: struct, description: p}
Types.N.P.X: {type: property, datatype: uint8, description: x}
Types.N.P.Y: {type: property, datatype: "Q[]", arraysize: 2, description: y}
Types.N.Q: {type: struct, description: q}
Types.N.Q.X: {type: property, datatype: uint8, unit: km, description: x}
"""
TYPES2 = """Types: {type: branch, description: t}
Types.M: {type: branch, description: m}
Types.M.Q: {type: struct, description: q}
Types.M.Q.Z: {type: property, datatype: string, description: z}
Types.M.R1: {type: struct, description: r}
Types.M.R1.Z: {type: property, datatype: string, description: z}
"""

SPECS = {
    # accepted
    "plain": {"s.vspec": BASE, "units.yaml": KM, "quantities.yaml": LEN},
    "other": {
        "s.vspec": ROOT
        + "A.B: {type: branch, description: other b}\n"
        + "A.B.S: {type: attribute, datatype: string, description: other s, default: x}\n"
        + "A.B.IsE: {type: actuator, datatype: boolean, unit: m, description: bool}\n"
        + "A.Zz: {type: sensor, datatype: double, unit: metre, description: z}\n",
        "units.yaml": "m: {definition: k, quantity: dist, unit: metre, allowed-datatypes: [numeric, boolean]}\n",
        "quantities.yaml": "dist: {definition: l}\n",
    },
    "root2": {
        "s.vspec": "Vehicle: {type: branch, description: v}\n"
        "Vehicle.Speed: {type: sensor, datatype: float, description: s}\n"
        "Vehicle.B: {type: branch, description: s}\n"
        "Vehicle.B.Speed: {type: sensor, datatype: float, description: s}\n"
    },
    "types": {
        "s.vspec": BASE + 'A.V: {type: sensor, datatype: Types.N.P, description: v}\n'
        'A.U: {type: sensor, datatype: "Types.N.Q[]", description: u}\n',
        "t.vspec": TYPES, "units.yaml": KM, "quantities.yaml": LEN,
    },
    "types2": {
        "s.vspec": ROOT + "A.V: {type: sensor, datatype: Types.M.Q, description: v}\n"
        "A.U: {type: sensor, datatype: Types.M.R1, description: v}\n",
        "t.vspec": TYPES2,
    },
    "overlay": {
        "s.vspec": BASE, "units.yaml": KM, "quantities.yaml": LEN,
        "l.vspec": "A.B.S: {type: sensor, datatype: uint8, delete: true}\nA.X: {type: sensor, datatype: int8, description: x}\n",
    },
    "explicit": {
        "s.vspec": ROOT + "A.S: {type: sensor, datatype: float, unit: km, description: s}\n",
        "u2.yaml": "km: {definition: k, quantity: other, unit: kilometer, allowed-datatypes: [float]}\n",
        "q2.yaml": "other: {definition: l}\n",
    },
    # rejected in a fresh process, by something another specification defines
    "x-unit": {"s.vspec": BASE, "units.yaml": "m: {definition: k, quantity: length, unit: metre}\n", "quantities.yaml": LEN},
    "x-nounits": {"s.vspec": BASE},
    "x-unitname": {
        "s.vspec": ROOT + "A.S: {type: sensor, datatype: float, unit: kilometer, description: s}\n",
        "units.yaml": "km: {definition: k, quantity: length, unit: other, allowed-datatypes: [numeric]}\n", "quantities.yaml": LEN,
    },
    "x-unitdt": {
        "s.vspec": BASE,
        "units.yaml": "km: {definition: k, quantity: length, unit: kilometer, allowed-datatypes: [string]}\n", "quantities.yaml": LEN,
    },
    "x-quantity": {"s.vspec": BASE, "units.yaml": KM, "quantities.yaml": "dist: {definition: d}\n"},
    "x-type": {
        "s.vspec": ROOT + "A.V: {type: sensor, datatype: Types.N.P, description: v}\n", "t.vspec": TYPES2,
    },
    "x-notype": {"s.vspec": ROOT + "A.V: {type: sensor, datatype: Types.M.Q, description: v}\n"},
    "x-bare": {
        "s.vspec": ROOT,
        "t.vspec": "Types: {type: branch, description: t}\nTypes.N: {type: branch, description: n}\n"
        "Types.N.O: {type: struct, description: q}\nTypes.N.O.X: {type: property, datatype: Q, description: x}\n",
    },
    "bare": {
        "s.vspec": ROOT + "A.V: {type: sensor, datatype: Types.N.O, description: v}\n",
        "t.vspec": "Types: {type: branch, description: t}\nTypes.N: {type: branch, description: n}\n"
        "Types.N.O: {type: struct, description: q}\nTypes.N.O.X: {type: property, datatype: Q, description: x}\n"
        "Types.N.Q: {type: struct, description: q}\nTypes.N.Q.Y: {type: property, datatype: uint8, description: y}\n",
    },
    "bare2": {
        "s.vspec": ROOT + "A.V: {type: sensor, datatype: Types.M.O, description: v}\n",
        "t.vspec": "Types: {type: branch, description: t}\nTypes.N: {type: branch, description: n}\nTypes.M: {type: branch, description: n}\n"
        "Types.N.O: {type: struct, description: q}\nTypes.N.O.X: {type: property, datatype: 'R[]', description: x}\n"
        "Types.N.R: {type: struct, description: q}\nTypes.N.R.Y: {type: property, datatype: uint8, description: y}\n"
        "Types.M.O: {type: struct, description: q}\nTypes.M.O.X: {type: property, datatype: Q, description: x}\n"
        "Types.M.Q: {type: struct, description: q}\nTypes.M.Q.Y: {type: property, datatype: string, description: y}\n",
    },
    "x-bare2": {  # Q is defined, but not in this branch
        "s.vspec": ROOT,
        "t.vspec": "Types: {type: branch, description: t}\nTypes.N: {type: branch, description: n}\nTypes.M: {type: branch, description: n}\n"
        "Types.N.O: {type: struct, description: q}\nTypes.N.O.X: {type: property, datatype: Q, description: x}\n"
        "Types.M.Q: {type: struct, description: q}\nTypes.M.Q.Y: {type: property, datatype: string, description: y}\n",
    },
    "x-late": {
        "s.vspec": BASE + "A.Late: {type: sensor, datatype: nope, description: x}\n", "units.yaml": KM, "quantities.yaml": LEN,
    },
    "x-typelate": {
        "s.vspec": ROOT, "t.vspec": TYPES + "Types.N.Q.Bad: {type: property, datatype: nope, description: x}\n",
    },
    "x-orphan": {"s.vspec": ROOT + "A.Q.S: {type: sensor, datatype: uint8, description: x}\n"},
    "x-rootstruct": {"s.vspec": ROOT, "t.vspec": "T: {type: struct, description: t}\nT.X: {type: property, datatype: uint8, description: x}\n"},
    "x-extra": {"s.vspec": ROOT, "t.vspec": "Types: {type: branch, description: t, extra: 1}\n"},
}

GARBAGE = ("garbage \u00e9 {}[]:\n" * 2000).encode()


def variants():
    for e, (_, _, vs) in ops.EXPORTERS.items():
        for v in range(len(vs)):
            yield e, v


def op(spec, exporter, variant=0):
    return [spec, exporter, variant]


def step(o, extra=()):
    spec, e, v = o
    files = SPECS[spec]
    return {"files": files, "argv": ops.argv(e, files, v) + list(extra), "wipe": ["oapi"]}


class C12(core.Check):
    id = "C12"
    preload = ()  # a warm-up run would be a history of its own
    chunk = 16
    rule = (
        "all ordered pairs (thorough: also triples) of export operations in one process over 7 accepted and 13 rejected "
        "specifications x 14 exporters with option variants (quick: pairs that share specification, exporter or loading), "
        "same file and output names with changed contents; x pre-existing outputs (garbage, empty, earlier run) and repeats "
        "in separate processes; x hash seeds in fresh interpreters; oracle: bytes of a single fresh run"
    )
    assumptions = ["one specification = one set of small files; outputs are compared bytewise"]

    def setup(self):
        self._fresh = {}
        core.load_cli(())
        import rdflib.plugins.serializers.turtle  # noqa: F401  third party, stateless
        import importlib

        for e in ops.EXPORTERS:
            importlib.import_module("vss_tools.vspec.vssexporters." + ("vss2samm.vss2samm" if e == "samm" else f"vss2{e}"))

    # --------------------------------------------------------------- cases
    def cases(self, tier):
        good = [s for s in SPECS if not s.startswith("x-")]
        every = list(SPECS)
        load = [op(s, e) for s in every for e in ("yaml", "id")]
        b = [op(s, e, v) for s in ("plain", "other", "root2", "types", "types2") for e, v in variants()]
        if tier == "thorough":
            allops = [op(s, e, v) for s in every for e, v in variants()]
            pairs = [(x, y) for x in load + b for y in allops] + [(x, y) for x in allops for y in load + b]
        else:
            pairs = [(x, y) for x in load for y in load]
            pairs += [(x, y) for x in b for y in b if x[1] == y[1]]
            pairs += [(op(s, "yaml"), y) for s in ("plain", "types", "other") for y in b]
            pairs += [(x, op(s, "yaml")) for x in b for s in ("types2", "x-unit", "x-notype")]
            one = [op("types", e) for e in ops.EXPORTERS] + [op("plain", e) for e in ops.EXPORTERS]
            pairs += [(x, y) for x in one for y in one]
        seen = set()
        for x, y in pairs:
            k = f"seq {x[0]}/{x[1]}{x[2]} -> {y[0]}/{y[1]}{y[2]}"
            if k in seen:
                continue
            seen.add(k)
            yield {"key": k, "kind": "seq", "ops": [x, y], "files": {}, "runs": [0, 0]}
        tr = [op(s, e) for s in (every if tier == "thorough" else ("plain", "types", "types2", "other", "x-unit", "x-late")) for e in ("yaml",)]
        for t in itertools.product(tr, repeat=3):
            yield {"key": "seq3 " + " -> ".join(x[0] for x in t), "kind": "seq", "ops": list(t), "files": {}, "runs": [0] * 3}
        for e, v in variants():
            for s in ("plain", "types", "root2"):
                o = op(s, e, v)
                yield {"key": f"repeat {s}/{e}{v}", "kind": "seq", "ops": [o, o, o], "files": {}, "runs": [0] * 3}
        # left-over outputs, separate processes
        for e, v in variants():
            for s in good if tier == "thorough" else ("plain", "types", "types2", "other"):
                for pre in ("garbage", "empty", "same", "other", "root2"):
                    yield {"key": f"left {pre} {s}/{e}{v}", "kind": "left", "op": op(s, e, v), "pre": pre, "files": {}, "runs": [0, 0]}
        # log level, working directory
        for e, v in variants():
            for s in ("plain", "types"):
                for env in ("debug", "quiet", "logfile", "cwd", "tz"):
                    yield {"key": f"env {env} {s}/{e}{v}", "kind": "env", "op": op(s, e, v), "env": env, "files": {}, "runs": [0]}
        # hash seeds
        for hs in (("1", "2", "3", "4", "5") if tier == "thorough" else ("1", "2")):
            for e, v in variants():
                for s in good if tier == "thorough" else ("types", "plain"):
                    if s == "plain" and v:
                        continue
                    yield {"key": f"hash {hs} {s}/{e}{v}", "kind": "hash", "op": op(s, e, v), "hs": hs, "files": {}, "runs": [0]}

    def sample(self, case):
        return {k: case[k] for k in case if k not in ("files", "runs")}

    # --------------------------------------------------------------- execution
    def fresh(self, o, d):
        k = tuple(o)
        if k not in self._fresh:
            core.wipe(d)
            res, log = ops.run_sequence([step(o)], d)
            self._fresh[k] = res[0] if res else (99, {})
        return self._fresh[k]

    def compare(self, bads, what, o, ref, got):
        rc0, f0 = ref
        rc, f = got
        if (rc0 == 0) != (rc == 0):
            bads.append((f"{what}-status", f"{o}: exit status {rc}, in a fresh process {rc0}"))
            return
        if rc0:
            return
        for n in sorted(f0):
            if f.get(n) != f0[n]:
                a, b = f0[n], f.get(n)
                bads.append(
                    (f"{what}-output", f"{o}: {n} differs from a fresh run\nfresh: {a[:600]!r}\nnow:   {b[:600] if b is not None else None!r}")
                )
                return

    def evaluate(self, case, d):
        bads, states = [], []
        kind = case["kind"]
        validated = 0
        if kind == "seq":
            refs = [self.fresh(o, d) for o in case["ops"]]
            core.wipe(d)
            res, log = ops.run_sequence([step(o) for o in case["ops"]], d)
            if res is None:
                bads.append(("crash", "the process ended during the sequence\n" + log[-2000:]))
            else:
                for o, ref, got in zip(case["ops"], refs, res):
                    if ref[0] == 0:
                        validated += 1
                    self.compare(bads, "seq", o, ref, got)
                    if bads:
                        bads[-1] = (bads[-1][0], bads[-1][1] + "\nlog: " + log[-1500:])
                        break
                states = [h([r[0], sorted((n, core.h(b.hex())) for n, b in r[1].items())]) for r in res[-1:]]
        else:
            o = case["op"]
            ref = self.fresh(o, d)
            core.wipe(d)
            st = step(o)
            if kind == "left":
                pre = case["pre"]
                if pre in ("garbage", "empty"):
                    for n in ref[1]:
                        if n.startswith("oapi"):
                            continue
                        core.write_files(d, {n: GARBAGE if pre == "garbage" else b""})
                else:
                    other = o[0] if pre == "same" else pre
                    ops.run_sequence([step([other, o[1], o[2]])], d)
                res, log = ops.run_sequence([st], d)
                res = res and res[0]
            elif kind == "env":
                res, log = self.run_env(case["env"], st, d)
            else:
                core.write_files(d, st["files"])
                env = dict(os.environ, PYTHONHASHSEED=case["hs"], PYTHONPATH=str(core.REPO / "src"))
                p = subprocess.run(
                    [sys.executable, "-X", "utf8", "-c", "from vss_tools.vspec.cli import cli; cli()", "--log-level", "ERROR"] + st["argv"],
                    cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                )
                res, log = (p.returncode, ops.snapshot(d, ops.INPUTS)), p.stdout.decode("utf-8", "replace")
            if res is None:
                bads.append(("crash", "no result\n" + log[-2000:]))
            else:
                validated = int(ref[0] == 0)
                self.compare(bads, kind, o, ref, res)
                states = [h([res[0], sorted((n, core.h(b.hex())) for n, b in res[1].items())])]
        return bads, states, len(case["runs"]), validated

    def run_env(self, env, st, d):
        if env == "cwd":
            # started in another directory with absolute paths
            core.write_files(d, st["files"])
            names = set(st["files"]) | {"o.out", "ot.out", "otypes", "oapi", "osamm"}
            argv = [os.path.join(d, a) if a in names else a for a in st["argv"]]
            sub = os.path.join(d, "sub")
            os.mkdir(sub)
            rc, log = core.run_cli(argv, sub)
            return (rc, ops.snapshot(d, ops.INPUTS)), log
        if env == "tz":
            core.write_files(d, st["files"])
            rc, log = core.run_cli(st["argv"], d, env={"TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8", "COLUMNS": "40", "HOME": d})
            return (rc, ops.snapshot(d, ops.INPUTS)), log
        if env == "logfile":
            core.write_files(d, st["files"])
            rc, log = core.run_cli(["--log-level", "DEBUG", "--log-file", "log.txt"] + st["argv"], d, log_level=None)
            return (rc, ops.snapshot(d, ops.INPUTS)), log
        res, log = ops.run_sequence([st], d, log_level={"debug": "DEBUG", "quiet": "CRITICAL"}[env])
        return res and res[0], log


CHECK = C12
