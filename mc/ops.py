"""Exporter operations shared by the history (C12) and failure (C25) checks."""

import os
import pickle
import signal
import logging
import sys

from . import core

# exporter -> (has types option, output arguments, extra option variants)
O = ["-o", "o.out"]
EXPORTERS = {
    "yaml": (True, O, [[], ["--extend-all-attributes", "--uuid"], ["--no-expand"], ["--types-output", "ot.out"]]),
    "json": (True, O, [[], ["--pretty", "--uuid"], ["--types-output", "ot.out"]]),
    "csv": (True, O, [[], ["--types-output", "ot.out"]]),
    "tree": (True, O, [[], ["--attr", "datatype"]]),
    "id": (True, O, [[], ["--case-sensitive"]]),
    "jsonschema": (True, O, [[], ["--extend-all-attributes", "--require-all-properties", "-e", "extra"]]),
    "franca": (False, O, [[], ["--uuid"]]),
    "ddsidl": (True, O, [[], ["--all-idl-features", "--uuid"]]),
    "protobuf": (True, O + ["--types-out-dir", "otypes"], [[], ["--add-optional"]]),
    "graphql": (False, O, [[], ["-g", "extra,Extra field"]]),
    "go": (True, O, [[], ["--no-short-names"]]),
    "binary": (False, O, [[], ["--uuid"]]),
    "apigear": (True, ["--output-dir", "oapi"], [[], ["--apigear-template-qt5-path", "qq"]]),
    "samm": (True, ["-tf", "osamm"], [[], ["--no-split", "--target-namespace", "org.other"], ["-spld", "2"]]),
}


def argv(exporter, files, variant=0):
    types, out, variants = EXPORTERS[exporter]
    a = ["export", exporter, "-s", "s.vspec"] + out + variants[variant]
    if types and "t.vspec" in files:
        a += ["-t", "t.vspec"]
    if types and "t2.vspec" in files:
        a += ["-t", "t2.vspec"]
    if "l.vspec" in files:
        a += ["-l", "l.vspec"]
    if "u2.yaml" in files:
        a += ["-u", "u2.yaml"]
    if "q2.yaml" in files:
        a += ["-q", "q2.yaml"]
    return a


def snapshot(d, skip=()):
    res = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, d)
            if rel in skip:
                continue
            with open(p, "rb") as f:
                res[rel] = f.read()
    return res


INPUTS = ("s.vspec", "t.vspec", "t2.vspec", "l.vspec", "units.yaml", "quantities.yaml", "u2.yaml", "q2.yaml", "val.vspec")


def run_sequence(steps, d, timeout=120, log_level="ERROR"):
    """Run several exports in ONE process.

    steps: list of {"files", "argv", "wipe": [paths]}; before each step the input files of earlier
    steps are replaced.  Returns per step (rc, snapshot of the non-input files)."""
    core.load_cli()
    res_path = os.path.join(d, "..", os.path.basename(d) + ".res")
    log_path = os.path.join(d, "..", os.path.basename(d) + ".log")
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(timeout)
            fd = os.open(log_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.chdir(d)
            root = logging.getLogger()
            for h in list(root.handlers):
                root.removeHandler(h)
            root.addHandler(logging.StreamHandler(os.fdopen(os.dup(fd), "w", errors="replace")))
            out = []
            for st in steps:
                for n in INPUTS:
                    if os.path.exists(n):
                        os.unlink(n)
                for n in st.get("wipe", ()):
                    core.wipe(n) if os.path.isdir(n) else None
                    if os.path.isdir(n):
                        os.rmdir(n)
                core.write_files(d, st["files"])
                rc = 0
                try:
                    core._CLI(["--log-level", log_level] + list(st["argv"]), standalone_mode=True)
                except SystemExit as e:
                    rc = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
                except BaseException as e:
                    rc = 1
                    print("EXC", type(e).__name__, e, file=sys.stderr, flush=True)
                out.append((rc, snapshot(d, INPUTS)))
            with open(res_path, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        with open(res_path, "rb") as f:
            res = pickle.load(f)
        os.unlink(res_path)
    except OSError:
        res = None
    log = ""
    try:
        with open(log_path, errors="replace") as f:
            log = f.read()
        os.unlink(log_path)
    except OSError:
        pass
    return res, log
