"""Shared base: a case = specification files, expectation = reference model, observation = YAML export."""

from __future__ import annotations

import yaml

from . import ref
from .core import Check, h

try:
    _Loader = yaml.CSafeLoader
except AttributeError:  # pragma: no cover
    _Loader = yaml.SafeLoader


def yload(b):
    return yaml.load(b.decode("utf-8"), Loader=_Loader)


def argv(fmt, spec="m.vspec", out="o.out", overlays=(), extra=()):
    a = ["export", fmt, "-s", spec, "-o", out]
    for o in overlays:
        a += ["-l", o]
    return a + list(extra)


def expectation(case):
    """-> (model or None, reason)"""
    m = case["model"]
    try:
        return (
            ref.evaluate(
                m["layers"],
                m.get("types", ()),
                m.get("units"),
                m.get("expand", True),
                m.get("strict", False),
                m.get("aborts", ()),
                m.get("whitelist", ()),
            ),
            None,
        )
    except ref.Reject as e:
        return None, str(e)


def split_types(doc):
    doc = dict(doc)
    t = doc.pop("ComplexDataTypes", None)
    return doc, t


class ModelCheck(Check):
    """runs[0] is the YAML export of the case's specification."""

    def compare(self, case, out, model, reason):
        """Compare one YAML export run with the reference model."""
        return compare_yaml(case, out, model, reason)

    def judge(self, case, outs):
        model, reason = expectation(case)
        bads = []
        states = []
        for run, out in zip(case["runs"], outs):
            b, s = self.compare(case, out, model, reason)
            bads += b
            states += s
        return bads, states


def tail(log, n=600):
    return log[-n:]


def compare_yaml(case, out, model, reason, name="o.out"):
    m = case["model"]
    got = out["out"].get(name)
    if model is None:
        if out["rc"] == 0:
            return [("accepted", f"expected rejection ({reason}) but it was accepted:\n{(got or b'').decode()[:800]}")], [
                "BAD-ACCEPT"
            ]
        return [], ["reject"]
    if out["rc"] != 0:
        return [("rejected", f"expected acceptance, exit status {out['rc']}:\n{tail(out['log'])}")], ["BAD-REJECT"]
    if got is None:
        return [("no-output", "exit status 0 but no output")], ["BAD"]
    try:
        doc = yload(got)
    except Exception as e:
        return [("unreadable", f"output is not YAML: {e}")], ["BAD"]
    doc, types = split_types(doc)
    exp = ref.flat(model.root, m.get("whitelist", ()), m.get("all_ext", False))
    bads = []
    if not ref.same(exp, doc):
        bads.append(("differs", ref.diff(exp, doc)))
    if model.types is not None and not m.get("types_output"):
        texp = ref.flat(model.types, m.get("whitelist", ()), m.get("all_ext", False))
        if not ref.same(texp, types):
            bads.append(("types-differ", ref.diff(texp, types or {})))
    elif types is not None:
        bads.append(("types-unexpected", "ComplexDataTypes in the output"))
    return bads, [h([doc, types])]
