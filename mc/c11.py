"""C11: the YAML export is itself a specification of the same model."""

import importlib
import os

from . import core, ref
from .c10 import fqn_uuid
from .core import h, run_cli
from .modelcheck import expectation, tail, yload

# which families of the other checks' spaces are re-imported (all cases of the family)
POOL = {
    "c10": None,
    "c03": ("nest", "nest3", "siblings", "root", "over", "attr"),
    "c04": ("range", "list", "string", "inbase", "outside", "noexpand"),
    "c05": ("inst3", "nested", "structure", "noexpand"),
    "c06": ("default", "arraydefault", "minmax", "defallowed"),
    "c07": ("spelling", "name", "struct", "property"),
    "c08": ("one", "typename", "overlay"),
    "c09": ("order", "split", "files2"),
    "c01": ("prefixed", "topo", "twice"),
}
THOROUGH = {
    "c03": None, "c04": None, "c05": None, "c06": None, "c08": None, "c09": None, "c01": None, "c02": None, "c10": None, "c07": None,
}  # fmt: skip


def parse(argv):
    """The parts of a yaml/json export command line that describe the input."""
    keep, spec, types, flags = [], None, False, []
    it = iter(argv[2:])
    for a in it:
        if a in ("-s", "--vspec"):
            spec = next(it)
        elif a in ("-o", "--output", "--types-output", "--attr"):
            next(it)
        elif a in ("-l", "--overlays", "-t", "--types"):
            types = types or a in ("-t", "--types")
            keep += [a, next(it)]
        elif a in ("-I", "-u", "-q", "-e", "-a", "--include-dirs", "--units", "--quantities", "--extended-attributes", "--aborts"):
            flags += [a, next(it)]
        elif a == "--pretty":
            pass
        else:
            flags.append(a)
    return keep, spec, types, flags


class C11(core.Check):
    id = "C11"
    rule = (
        "all cases of the listed families of the spaces of C01-C10 (layers, includes, instances, deletions, values, names, types, whitelists): "
        "export as YAML, re-import the export, compare bytes; with UUIDs; unexpanded export re-imported and expanded against the direct "
        "expansion. state = distinct exported file, transition = one CLI run"
    )
    assumptions = [
        "the expansion commutes with the re-import only where no information outside of the YAML export (instantiate: false, deletion marks, "
        "explicit nulls) is involved"
    ]

    def cases(self, tier):
        for mod, fams in (THOROUGH if tier == "thorough" else POOL).items():
            chk = importlib.import_module(f"mc.{mod}").CHECK()
            for case in chk.cases("quick"):
                if fams is not None and case["key"].split(":")[0] not in fams:
                    continue
                if case.get("seeds") or ("model" in case and expectation(case)[0] is None):
                    continue
                run = next((r for r in case["runs"] if r["argv"][1] == "yaml"), None)
                if run is None:
                    continue
                yield {"key": f"{mod}/{case['key']}", "files": case["files"], "runs": [{"argv": run["argv"]}]}

    def evaluate(self, case, d):
        core.wipe(d)
        core.write_files(d, case["files"])
        keep, spec, types, flags = parse(case["runs"][0]["argv"])
        sd = os.path.dirname(spec)
        n = [0]

        def export(spec, keep, flags):
            n[0] += 1
            o = os.path.join(sd, f"o{n[0]}.vspec")
            t = os.path.join(sd, f"t{n[0]}.out")
            rc, log = run_cli(["export", "yaml", "-s", spec, "-o", o] + keep + flags + (["--types-output", t] if types else []), d)
            res = []
            for name in (o, t):
                p = os.path.join(d, name)
                res.append(open(p, "rb").read() if os.path.exists(p) else None)
            return rc, log, o, t, res

        rc, log, o, t, first = export(spec, keep, flags)
        if rc != 0:
            return [], ["reject"], 1, 0
        bads = []
        again = ["-t", t] if types else []
        rc, log, o2, t2, second = export(o, again, flags)
        if rc != 0:
            bads.append(("reimport-rejected", f"the export is not accepted as specification:\n{tail(log)}\n{first[0].decode()[:800]}"))
        elif second != first:
            bads.append(("reimport-differs", self.diff(first, second)))
        if "--uuid" in flags and first[0]:
            doc = {k: v for k, v in yload(first[0]).items() if k != "ComplexDataTypes"}
            wrong = [k for k, v in doc.items() if v.get("uuid") != fqn_uuid(k)]
            if wrong:
                bads.append(("uuid", f"UUIDs of {wrong[:5]}"))
        blob = "".join(x for x in case["files"].values() if isinstance(x, str))
        if not any(w in blob for w in ("instantiate", "delete", "null")) and "instances" in blob:
            ex = [f for f in flags if f != "--no-expand"]
            rc, log, o3, t3, third = export(spec, keep, ex + ["--no-expand"])
            if rc == 0:
                rc4, log4, _, _, direct = export(spec, keep, ex)
                rc5, log5, _, _, late = export(o3, ["-t", t3] if types else [], ex)
                if rc4 != rc5:
                    bads.append(("late-expansion-status", f"direct {rc4}, via unexpanded export {rc5}:\n{tail(log5)}"))
                elif direct != late:
                    bads.append(("late-expansion-differs", self.diff(direct, late)))
        return bads, [h([repr(x) for x in first])], n[0], 1

    def diff(self, a, b):
        out = []
        for x, y in zip(a, b):
            if x == y:
                continue
            try:
                out.append(ref.diff(yload(x), yload(y)) or "same content, different bytes")
            except Exception as e:
                out.append(f"{type(e).__name__} {e}")
        return "\n".join(out)


CHECK = C11
