"""Shared base of the code generator checks: one CLI export per case, all written files are observed."""

import os

from . import core, exmodels as X, ops, ref
from .core import Check, h
from .modelcheck import expectation, tail


class ExportCheck(Check):
    exporter = ""
    out_args = ("-o", "o.out")
    has_types = True

    def make(self, key, main, types=None, opts=(), whitelist=(), **info):
        units, unit_files = X.units_for(main, types) if info.pop("all_units", True) else (X.UNITS, X.UNIT_FILES)
        files = {"m.vspec": ref.text(main), **unit_files}
        a = ["export", self.exporter, "-s", "m.vspec", *self.out_args, *opts]
        for w in whitelist:
            a += ["-e", w]
        if types is not None:
            files["t.vspec"] = ref.text(types)
            a += ["-t", "t.vspec"]
        model = {"layers": [main], "types": [types] if types is not None else [], "units": units, "expand": info.pop("expand", True), "whitelist": list(whitelist)}
        return {"key": key, "files": files, "runs": [{"argv": a}], "model": model, "opts": list(opts), "info": info}

    def evaluate(self, case, d):
        core.wipe(d)
        core.write_files(d, case["files"])
        for p in case.get("mkdirs", ()):
            os.makedirs(os.path.join(d, p))
        rc, log = core.run_cli(case["runs"][0]["argv"], d)
        outs = ops.snapshot(d, tuple(case["files"]))
        model, reason = expectation(case)
        if model is None:
            if rc == 0:
                return [("accepted", f"expected rejection ({reason})")], ["BAD"], 1, 0
            return [], ["reject"], 1, 0
        want = self.unexportable(case, model)
        if want and want.startswith("?"):
            if rc != 0:
                return [], ["reject"], 1, 0
            want = None
        if want:
            if rc == 0:
                return [("accepted", f"expected rejection ({want})\n{tail(''.join(v.decode('utf-8', 'replace') for v in outs.values()))}")], ["BAD"], 1, 0
            return [], ["reject"], 1, 0
        if rc != 0:
            return [("rejected", f"expected acceptance, exit status {rc}:\n{tail(log)}")], ["BAD"], 1, 0
        try:
            bads = list(self.check(case, model, {k: v.decode("utf-8") for k, v in outs.items()}) or ())
        except Malformed as e:
            bads = [("malformed", str(e) + "\n" + tail("\n".join(f"=== {k}\n{v.decode('utf-8', 'replace')}" for k, v in outs.items()), 1500))]
        return bads, [h({k: v.decode("utf-8", "replace") for k, v in outs.items()})], 1, 1

    def unexportable(self, case, model):
        """A reason why the (valid) model cannot be expressed in the target format, or None; with a leading ? it may be exported as well"""
        return None

    def check(self, case, model, outs):
        raise NotImplementedError


class Malformed(Exception):
    """The generated text is not a document of the target language"""
