"""C25: a failed run is visible and leaves no output behind."""

import ctypes
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from . import core, ops
from .c12 import BASE, KM, LEN, ROOT, SPECS, TYPES
from .core import h

GOOD = {"s.vspec": BASE + 'A.V: {type: sensor, datatype: Types.N.P, description: v}\n', "t.vspec": TYPES, "units.yaml": KM, "quantities.yaml": LEN, "l.vspec": "A.B.S: {type: sensor, datatype: uint8, description: new}\nA.X: {type: sensor, datatype: int8, description: x}\n"}
PLAIN = {"s.vspec": BASE, "units.yaml": KM, "quantities.yaml": LEN, "l.vspec": GOOD["l.vspec"]}


def bad_inputs():
    """-> name: (files changed, extra arguments, needs types option)"""
    leafs = {
        "nodatatype": "type: sensor, description: x",
        "nodescription": "type: sensor, datatype: uint8",
        "notype": "datatype: uint8, description: x",
        "badtype": "type: sensorr, datatype: uint8, description: x",
        "baddatatype": "type: sensor, datatype: uint7, description: x",
        "badstruct": "type: sensor, datatype: Types.N.Nope, description: x",
        "badunit": "type: sensor, datatype: uint8, unit: nope, description: x",
        "unitdt": "type: sensor, datatype: string, unit: km, description: x",
        "unitarr": "type: sensor, datatype: uint8, unit: [km], description: x",
        "badmin": "type: sensor, datatype: uint8, min: a, description: x",
        "defrange": "type: attribute, datatype: uint8, default: 256, description: x",
        "deftype": "type: attribute, datatype: boolean, default: 3, description: x",
        "defarr": 'type: attribute, datatype: "uint8[]", default: 3, description: x',
        "defsize": 'type: attribute, datatype: "uint8[]", arraysize: 2, default: [1], description: x',
        "arraysize": "type: attribute, datatype: uint8, arraysize: 2, description: x",
        "defallowed": "type: attribute, datatype: string, allowed: [a], default: b, description: x",
        "allowedtype": "type: attribute, datatype: uint8, allowed: [a], description: x",
        "allowedmin": "type: attribute, datatype: uint8, allowed: [1], min: 1, description: x",
        "allowedscalar": "type: attribute, datatype: uint8, allowed: 1, description: x",
        "branchdt": "type: branch, datatype: uint8, description: x",
        "property": "type: property, datatype: uint8, description: x",
        "scalar": None,
    }
    res = {}
    for n, v in leafs.items():
        res[f"leaf-{n}"] = ({"s.vspec": BASE + ("A.Bad: 5\n" if v is None else f"A.Bad: {{{v}}}\n")}, [], False)
    for n in ("nodatatype", "badtype", "badunit", "defallowed", "branchdt"):
        res[f"overlay-{n}"] = ({"l.vspec": f"A.Bad: {{{leafs[n]}}}\n"}, [], False)
        if n != "branchdt":
            res[f"types-{n}"] = ({"t.vspec": TYPES + f"Types.N.Q.Bad: {{{leafs[n].replace('sensor', 'property').replace('attribute', 'property')}}}\n"}, [], True)
    more = {
        "yaml": {"s.vspec": BASE + "A.Bad: {type: sensor\n"}, "yaml2": {"s.vspec": BASE + "\tA.Bad: 1\n"}, "list": {"s.vspec": "- A\n- B\n"}, "empty": {"s.vspec": ""}, "latin1": {"s.vspec": (BASE + "A.Bad: {type: sensor, datatype: uint8, description: '\u00e9'}\n").encode("latin-1")},
        "noinclude": {"s.vspec": BASE + "#include nope.vspec A\n"}, "badinclude": {"s.vspec": BASE + "#include inc.vspec A\n", "inc.vspec": "X: {type: sensor\n"}, "inclleaf": {"s.vspec": BASE + "#include inc.vspec A\n", "inc.vspec": "Inc: {type: sensor, description: d}\n"},
        "orphan": {"s.vspec": BASE + "A.Q.S: {type: sensor, datatype: uint8, description: x}\n"}, "roots": {"s.vspec": BASE + "Z: {type: branch, description: z}\n"},
        "belowleaf": {"s.vspec": BASE + "A.W.S: {type: sensor, datatype: uint8, description: x}\n"}, "instances": {"s.vspec": BASE + 'A.I: {type: branch, description: i, instances: "R[2,1]"}\nA.I.X: {type: sensor, datatype: uint8, description: x}\n'},
        "instancedup": {"s.vspec": BASE + "A.I: {type: branch, description: i, instances: [L, L]}\nA.I.X: {type: sensor, datatype: uint8, description: x}\n"}, "overlayyaml": {"l.vspec": "A.Bad: {type\n"}, "overlayorphan": {"l.vspec": "A.Q.S: {type: sensor, datatype: uint8, description: x}\n"},
        "overlaytype": {"l.vspec": "A.B: {type: sensor, datatype: uint8, description: x}\n"}, "unitsyaml": {"units.yaml": "km: {definition: k\n"}, "unitsquantity": {"units.yaml": KM.replace("length", "nope")}, "unitskey": {"units.yaml": KM.replace("definition: k, ", "")}, "unitsdt": {"units.yaml": KM.replace("[numeric]", "[nope]")},
        "unitslist": {"units.yaml": "- km\n"}, "quantitiesyaml": {"quantities.yaml": "length: {definition\n"}, "quantitieskey": {"quantities.yaml": "length: {remark: l}\n"}, "quantitieslist": {"quantities.yaml": "- l\n"},
        "nounits": {"units.yaml": None},
    }  # fmt: skip
    for n, f in more.items():
        res[n] = (f, [], False)
    for n, f in {
        "typesyaml": TYPES + "Types.N.Q.Z: {type\n", "typesorphan": TYPES + "Types.M.Q.Z: {type: property, datatype: uint8, description: x}\n", "typesroots": TYPES + "Other: {type: branch, description: o}\n",
        "typesprop": TYPES + "Types.N.Z: {type: property, datatype: uint8, description: x}\n", "typesmissing": "Types: {type: branch, description: t}\n",
    }.items():  # fmt: skip
        res[n] = ({"t.vspec": f}, [], True)
    for n, a in {
        "a-strict": ["--strict"], "a-abortattr": ["-a", "unknown-attribute"], "a-abortname": ["-a", "name-style"], "a-abort": ["-a", "nope"],
    }.items():  # fmt: skip
        res[n] = ({"s.vspec": BASE + "A.bad_name: {type: sensor, datatype: uint8, description: x, unknown: 1}\n"}, a, False)
    for n, a in {
        "o-option": ["--nope"], "o-overlay": ["-l", "nope.vspec"], "o-units": ["-u", "nope.yaml"], "o-quantities": ["-q", "nope.yaml"], "o-spec": ["-s", "nope.vspec"], "o-include": ["-I", "nopedir"], "o-extra": ["surplus"],
    }.items():  # fmt: skip
        res[n] = ({}, a, False)
    res["o-types"] = ({}, ["-t", "nope.vspec"], True)
    return res


# inputs that only one exporter cannot express
EXPORTER_SPECIFIC = {
    "protobuf": {
        "uid": ({"s.vspec": ROOT + "A.X: {type: sensor, datatype: uint8, description: x, staticUID: '0x10'}\nA.Y: {type: sensor, datatype: uint8, description: x}\n"}, ["--static-uid", "-e", "staticUID"]),
        "uidclash": ({"s.vspec": ROOT + "A.X: {type: sensor, datatype: uint8, description: x, staticUID: '0x10'}\nA.Y: {type: sensor, datatype: uint8, description: x, staticUID: '0x11'}\n"}, ["--static-uid", "-e", "staticUID"]),
        "uidrange": ({"s.vspec": ROOT + "A.X: {type: sensor, datatype: uint8, description: x, staticUID: '0x4'}\n"}, ["--static-uid", "-e", "staticUID"]),
        "uidbad": ({"s.vspec": ROOT + "A.X: {type: sensor, datatype: uint8, description: x, staticUID: 'zz'}\n"}, ["--static-uid", "-e", "staticUID"]),
        "names": ({"s.vspec": ROOT + "A.AB: {type: branch, description: b}\nA.A: {type: branch, description: b}\nA.A.B: {type: branch, description: b}\n"}, []),
        "circle": ({"s.vspec": ROOT, "t.vspec": TYPES + "Types.M: {type: branch, description: m}\nTypes.M.S: {type: struct, description: s}\nTypes.M.S.X: {type: property, datatype: Types.N.P, description: x}\nTypes.N.T: {type: struct, description: s}\nTypes.N.T.X: {type: property, datatype: Types.M.S, description: x}\n"}, []),
    },
    "graphql": {"empty": ({"s.vspec": ROOT}, []), "names": ({"s.vspec": ROOT + "A.AB: {type: sensor, datatype: int8, description: b}\nA.a_b: {type: sensor, datatype: int8, description: b}\n"}, [])},
    "go": {"names": ({"s.vspec": ROOT + "A.AB: {type: branch, description: b}\nA.A: {type: branch, description: b}\nA.A.B: {type: branch, description: b}\n"}, ["--no-short-names"]), "keyword": ({"s.vspec": ROOT + "A.func: {type: sensor, datatype: int8, description: b}\n"}, [])},
    "binary": {
        "text": ({"s.vspec": ROOT + f"A.X: {{type: sensor, datatype: uint8, description: {'x' * 70000}}}\n"}, []),
        "children": ({"s.vspec": ROOT + "".join(f"A.X{i}: {{type: sensor, datatype: uint8, description: x}}\n" for i in range(300))}, []),
    },
    "apigear": {"names": ({"s.vspec": ROOT + "A.X_Deprecated: {type: sensor, datatype: int8, description: b}\nA.X: {type: sensor, datatype: int8, description: b, deprecation: y}\n"}, [])},
    "id": {
        "uidbad": ({"s.vspec": ROOT + "A.X: {type: sensor, datatype: uint8, description: x, constUID: 'zz'}\n"}, []),
        "uidclash": ({"s.vspec": ROOT + "A.X: {type: sensor, datatype: uint8, description: x, constUID: '0x00000001'}\nA.Y: {type: sensor, datatype: uint8, description: x, constUID: '0x00000001'}\n"}, []),
        "validation": ({"val.vspec": "A: {type\n"}, ["--validate-static-uid", "val.vspec"]),
        "novalidation": ({}, ["--validate-static-uid", "nope.vspec"]),
        "emptyvalidation": ({"val.vspec": ""}, ["--validate-static-uid", "val.vspec"]),
    },
    "samm": {"signals": ({}, ["-sigf", "nope.txt"])},
    "yaml": {"typesout": ({}, ["--types-output", "nodir/x.yaml"])},
    "json": {"typesout": ({}, ["--types-output", "nodir/x.json"])},
    "csv": {"typesout": ({}, ["--types-output", "nodir/x.csv"])},
}

# jsonschema does not promise to support struct types
EXPORTERS = {e: (t and e != "jsonschema", o, v) for e, (t, o, v) in ops.EXPORTERS.items()}
LIB = None


def snapshot(d, inputs):
    """Files and directories below d"""
    res = ops.snapshot(d, inputs)
    for base, dirs, _ in os.walk(d):
        for n in dirs:
            res[os.path.relpath(os.path.join(base, n), d) + "/"] = b""
    return res


def files_of(snap):
    return {k: v for k, v in snap.items() if not k.endswith("/")}


class C25(core.Check):
    id = "C25"
    preload = ("yaml",)
    rule = (
        "14 exporters with their option variants x ~85 classes of invalid input (specification, overlay, types, units, quantities, options; exporter specific ones) x {no outputs yet, outputs of an "
        "earlier run, foreign contents}: non-zero exit and unchanged directory; 14 exporters x {with, without types} x every single file operation (open, read, write, close, mkdir) of a valid "
        "export x {fails, this and all later ones fail, partial write then failure, process killed before, process killed after a partial write}: non-zero exit or complete outputs, untouched outputs "
        "if an input could not be read, and complete outputs when the killed run is repeated. state = distinct outcome, transition = one CLI run"
    )
    assumptions = ["file operations are intercepted at the libc interface (LD_PRELOAD)", "a directory left by a killed ApiGear export makes the next one fail, as documented by its message"]
    chunk = 4

    def setup(self):
        """Build the fault shim and start again with it preloaded"""
        global LIB
        so = os.environ.get("MC_FAULTSHIM")
        if not so:
            d = tempfile.mkdtemp(prefix="mcshim", dir=core.scratch_base())
            so = f"{d}/faultshim.so"
            rc = 1
            try:
                subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", so, str(Path(__file__).parent / "drivers" / "faultshim.c"), "-ldl"], check=True)
                env = {**os.environ, "MC_FAULTSHIM": so, "LD_PRELOAD": so}
                rc = subprocess.run([sys.executable, *sys.orig_argv[1:]], env=env).returncode
            finally:
                shutil.rmtree(d, ignore_errors=True)
                sys.stdout.flush()
                shutil.rmtree(core._BASE or "/nonexistent/x", ignore_errors=True)
                os._exit(rc if rc in (0, 1) else 3)
        LIB = ctypes.CDLL(so)
        LIB.fi_log.restype = LIB.fi_path.restype = ctypes.c_char_p
        for f in ("fi_count", "fi_kind"):
            getattr(LIB, f).restype = ctypes.c_long
        LIB.fi_arm.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_char_p]
        # count the operations of every export
        self.counts = {}
        d = tempfile.mkdtemp(prefix="mcfi", dir=core.scratch_base())
        try:
            for e, v, types in self.exports():
                case = self.fault_case(e, v, types, 0, 0)
                core.wipe(d)
                core.write_files(d, case["files"])
                rc, log, n, _, ops_ = self.run_armed(case["argv"], d, 0, 0)
                if rc == 0 and n < 4:
                    raise SystemExit(f"HARNESS: {e} {v} {types}: {n} operations\n{log}")
                n = n if rc == 0 else 1  # the case reports that the valid export fails
                self.counts[e, v, types] = (n, ops_)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run_armed(self, argv, d, k, mode):
        core.load_cli(self.preload)
        LIB.fi_arm(k, mode, d.encode())
        try:
            rc, log = core.run_cli(argv, d)
        finally:
            LIB.fi_disarm()
        return rc, log, LIB.fi_count(), chr(LIB.fi_kind() or 32), LIB.fi_log().decode()

    def exports(self):
        for e, (types, _, vs) in EXPORTERS.items():
            for v in range(len(vs)):
                for t in (False, True) if types else (False,):
                    yield e, v, t

    def fault_case(self, e, v, types, k, mode, prior="none"):
        files = GOOD if types else PLAIN
        return {"key": f"fault:{e}:{v}:{'types' if types else 'plain'}:{k}:{mode}:{prior}", "kind": "fault", "files": files, "argv": ops.argv(e, files, v), "exporter": e, "k": k, "mode": mode, "prior": prior, "runs": [{"argv": ops.argv(e, files, v)}]}

    def cases(self, tier):
        thorough = tier == "thorough"
        bad = bad_inputs()
        for e, (types, out, vs) in EXPORTERS.items():
            for v in range(len(vs)):
                for name, (change, extra, needs_types) in bad.items():
                    if needs_types and not types:
                        continue
                    if name.startswith("instance") and (e == "samm" or "--no-expand" in vs[v]):
                        continue  # not expanded, not judged
                    for base, files in (("types", GOOD), ("plain", PLAIN)):
                        if (base == "types" and not types) or (needs_types and base == "plain"):
                            continue
                        if v and not thorough and base == "plain" and types:
                            continue
                        for prior in ("none", "earlier", "garbage"):
                            if prior == "garbage" and not thorough and v:
                                continue
                            yield self.bad_case(e, v, name, base, files, change, extra, prior)
            for name, (change, extra) in EXPORTER_SPECIFIC.get(e, {}).items():
                for base, files in (("types", GOOD), ("plain", PLAIN)):
                    if base == "types" and not types:
                        continue
                    for prior in ("none", "earlier", "garbage"):
                        if name == "circle" and base == "plain" or name == "typesout" and base == "plain":
                            continue
                        yield self.bad_case(e, 0, "own-" + name, base, files, change, extra, prior)
            # outputs that cannot be written
            for where, v in itertools.product(("nodir/x", "adir", "units.yaml/x"), range(len(vs))):
                files = GOOD if types else PLAIN
                for prior in ("none", "earlier"):
                    a = ops.argv(e, files, v)
                    o = out[0]
                    if e in ("samm", "apigear"):
                        continue
                    a[a.index(o) + 1] = where
                    yield {"key": f"bad:{e}:{v}:out-{where}:{prior}", "kind": "bad", "files": files, "argv": a, "good": ops.argv(e, files, v), "exporter": e, "prior": prior, "mkdirs": ["adir"], "runs": [{"argv": a}]}
        for (e, v, t), (n, kinds) in self.counts.items():
            if v and not thorough and e not in ("yaml", "json", "csv"):
                continue
            for k in range(1, n + 1):
                for mode in range(5):
                    if mode in (2, 4) and kinds[k - 1 : k] not in ("w", ""):
                        continue  # the partial modes apply to writes
                    for prior in ("none", "earlier") if e != "apigear" else ("none",):
                        if prior == "earlier" and not thorough and mode in (1, 2):
                            continue
                        yield self.fault_case(e, v, t, k, mode, prior)

    def bad_case(self, e, v, name, base, files, change, extra, prior):
        new = {k: f for k, f in {**files, **change}.items() if f is not None}
        return {"key": f"bad:{e}:{v}:{base}:{name}:{prior}", "kind": "bad", "files": new, "argv": ops.argv(e, new, v) + list(extra), "good": ops.argv(e, files, v), "goodfiles": files, "exporter": e, "prior": prior, "runs": [{"argv": ops.argv(e, new, v) + list(extra)}]}

    # ------------------------------------------------------------------
    def prepare(self, case, d):
        """-> snapshot of the outputs before the run"""
        core.wipe(d)
        for p in case.get("mkdirs", ()):
            os.makedirs(os.path.join(d, p))
        if case["prior"] != "none":
            good = case.get("goodfiles", case["files"])
            core.write_files(d, good)
            rc, log = core.run_cli(case.get("good", case["argv"]), d)
            if rc != 0:
                return None, log
            for n in good:
                os.unlink(os.path.join(d, n))
            if case["prior"] == "garbage":
                for n in ops.snapshot(d):
                    with open(os.path.join(d, n), "wb") as f:
                        f.write(b"garbage \xff {}[]\n" * 2000)
            if case["kind"] == "fault":  # contents that the valid run has to replace
                for n in ops.snapshot(d):
                    with open(os.path.join(d, n), "ab") as f:
                        f.write(b"\nold\n")
        core.write_files(d, case["files"])
        return snapshot(d, tuple(case["files"])), ""

    def evaluate(self, case, d):
        inputs = tuple(case["files"])
        if case["kind"] == "bad":
            before, log = self.prepare(case, d)
            if before is None:
                return [("good", f"the valid export fails: {log[-400:]}")], ["BAD"], 1, 0
            rc, log = core.run_cli(case["argv"], d)
            after = snapshot(d, inputs)
            bads = []
            if rc == 0:
                bads.append(("status", f"exit status 0\n{log[-600:]}"))
            elif rc >= 256:
                bads.append(("signal", f"exit status {rc}\n{log[-600:]}"))
            if after != before:
                bads.append(("touched", f"exit status {rc}, {describe(before, after)}\n{log[-300:]}"))
            return bads, [h([rc, sorted(after)])], 1 + (case["prior"] != "none"), int(not bads)
        # fault: the undisturbed outcome first
        clean = dict(case, prior="none")
        self.prepare(clean, d)
        rc, log = core.run_cli(case["argv"], d)
        want = files_of(snapshot(d, inputs))
        if rc != 0:
            return [("good", f"the valid export fails: {log[-400:]}")], ["BAD"], 1, 0
        before, log = self.prepare(case, d)
        if before is None:
            return [("good", f"the valid export fails: {log[-400:]}")], ["BAD"], 1, 0
        rc, log, n, kind, _ = self.run_armed(case["argv"], d, case["k"], case["mode"])
        after = snapshot(d, inputs)
        bads = []
        if rc == 0 and files_of(after) != want:
            bads.append(("incomplete", f"operation {case['k']} ({kind}) fails, exit status 0, {describe(want, files_of(after))}"))
        if rc >= 256:
            bads.append(("signal", f"exit status {rc}\n{log[-600:]}"))
        if rc != 0 and kind in "or" and case["mode"] == 0 and after != before:
            bads.append(("touched", f"reading fails (operation {case['k']}), exit status {rc}, {describe(before, after)}"))
        trans = 2
        if case["mode"] >= 3 and rc != 0:
            rc2, log = core.run_cli(case["argv"], d)
            trans += 1
            if rc2 == 0 and files_of(snapshot(d, inputs)) != want:
                bads.append(("rerun", f"killed at operation {case['k']} ({kind}), then repeated: {describe(want, files_of(snapshot(d, inputs)))}"))
            if rc2 != 0 and not (case["exporter"] == "apigear" and os.path.isdir(os.path.join(d, "oapi"))):
                bads.append(("rerun", f"killed at operation {case['k']} ({kind}), then repeated: exit status {rc2}\n{log[-400:]}"))
        return bads, [h([rc, kind, case["mode"], case["exporter"], sorted(after)])], trans, int(not bads)


def describe(a, b):
    new, gone = sorted(set(b) - set(a)), sorted(set(a) - set(b))
    diff = sorted(k for k in a if k in b and a[k] != b[k])
    return f"new {new}, missing {gone}, changed {[(k, len(a[k]), len(b[k])) for k in diff]}"


CHECK = C25
