"""Exploration engine: runs the real vss-tools on every case of an enumerated space.

A *case* is a plain JSON-able dict

    {"key":   unique, human readable name of the point in the space,
     "files": {relative name: text},                 # materialised in a scratch directory
     "runs":  [{"argv": [...], "read": [names]}],    # CLI invocations, one process each
     ...}                                            # whatever the oracle needs

Every run is executed in a freshly forked child of a warmed-up parent, so that one
run == one process, as for a user of the command line.  The oracle (`judge`) sees, per
run, the exit status, the exception/log text and the bytes of the output files.
Nothing is sampled: the whole list of cases is executed, in a deterministic order.
"""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VSS_REPO", "/repo"))
NPROC = int(os.environ.get("MC_NPROC", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CASE_TIMEOUT = int(os.environ.get("MC_CASE_TIMEOUT", "60"))
# A run that already has violations ends after this time: code that hangs must not keep it from answering
STOP_AFTER = float(os.environ.get("MC_STOP", "500"))


def scratch_base() -> str:
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


# --------------------------------------------------------------------------- running

_CLI = None


def load_cli(preload=("yaml",)):
    """Import the command line entry point of the working tree and warm it up."""
    global _CLI
    if _CLI is not None:
        return _CLI
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    mod = importlib.import_module("vss_tools.vspec.cli")
    where = Path(mod.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise SystemExit(f"HARNESS: vss_tools imported from {where}, not from {REPO}")
    _CLI = mod.cli
    d = tempfile.mkdtemp(prefix="mcwarm", dir=scratch_base())
    cwd = os.getcwd()
    so, se = os.dup(1), os.dup(2)
    try:
        os.chdir(d)
        Path("w.vspec").write_text("W: {type: branch, description: w}\n")
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        os.close(dn)
        for name in preload:
            try:
                _CLI(["--log-level", "ERROR", "export", name, "-s", "w.vspec", "-o", "w.out"])
            except BaseException:
                pass
    finally:
        os.dup2(so, 1)
        os.dup2(se, 2)
        os.close(so)
        os.close(se)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    gc.collect()
    gc.freeze()
    return _CLI


def _child(argv, cwd, logfd, env, pre):
    os.chdir(cwd)
    os.dup2(logfd, 1)
    os.dup2(logfd, 2)
    # a plain log format instead of rich's wrapped columns
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    h = logging.StreamHandler(os.fdopen(os.dup(logfd), "w", encoding="utf-8", errors="replace"))
    h.setFormatter(logging.Formatter("%(levelname)s %(message)s"))
    root.addHandler(h)
    gc.disable()
    for k, v in (env or {}).items():
        os.environ[k] = v
    rc = 70
    try:
        if pre:
            pre()
        _CLI(list(argv), standalone_mode=True)
        rc = 0
    except SystemExit as e:
        if e.code is None:
            rc = 0
        elif isinstance(e.code, int):
            rc = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            rc = 1
    except BaseException:
        traceback.print_exc()
        rc = 1  # an uncaught exception ends the interpreter with status 1
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
            h.flush()
        except Exception:
            pass
        os._exit(rc)


def run_cli(argv, cwd, env=None, log_level="ERROR", pre=None, timeout=None):
    """One CLI invocation in its own (forked) process -> (exit status, log text)."""
    load_cli()
    fd, path = tempfile.mkstemp(prefix="mclog", dir=scratch_base())
    try:
        full = (["--log-level", log_level] if log_level else []) + list(argv)
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(timeout or CASE_TIMEOUT)
                _child(full, cwd, fd, env, pre)
            finally:
                os._exit(71)
        _, st = os.waitpid(pid, 0)
        rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 256 + os.WTERMSIG(st)
        os.lseek(fd, 0, 0)
        log = b""
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                break
            log += b
        return rc, log.decode("utf-8", "replace")
    finally:
        os.close(fd)
        os.unlink(path)


def wipe(d: str) -> None:
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def write_files(d, files):
    for name, text in files.items():
        p = os.path.join(d, name)
        dn = os.path.dirname(p)
        if dn != d:
            os.makedirs(dn, exist_ok=True)
        if isinstance(text, bytes):
            with open(p, "wb") as f:
                f.write(text)
        else:
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)


def run_case(case, d):
    """Execute all runs of a case in the (emptied) scratch directory d."""
    wipe(d)
    write_files(d, case["files"])
    outs = []
    for run in case["runs"]:
        rc, log = run_cli(run["argv"], d, env=run.get("env"), log_level=run.get("log", "ERROR"))
        res = {"rc": rc, "log": log, "out": {}}
        for name in run.get("read", []):
            p = os.path.join(d, name)
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    res["out"][name] = f.read()
            else:
                res["out"][name] = None
        outs.append(res)
    return outs


# --------------------------------------------------------------------------- exploring


class Bad(Exception):
    """Raised by an oracle: the property is broken in this case."""

    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig
        self.msg = msg


_CHECK = None
_DIR = None


def _init(check):
    global _CHECK, _DIR
    _CHECK = check
    _DIR = tempfile.mkdtemp(prefix=f"mc{os.getpid()}_", dir=_BASE)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(chunk):
    res = []
    for idx, case in chunk:
        try:
            bads, states, trans, validated = _CHECK.evaluate(case, _DIR)
        except Exception:
            bads = [("harness", "HARNESS ERROR " + traceback.format_exc())]
            states, trans, validated = [], 0, 0
        res.append((idx, bads, states, trans, validated))
    return res


_BASE = None


class Check:
    """One property.  Subclasses define cases(tier) and judge(case, outs)."""

    id = "C00"
    preload: tuple = ("yaml",)
    level = "model_checking"
    rule = ""
    assumptions: list = []
    chunk = 8
    nproc = NPROC

    def cases(self, tier):
        raise NotImplementedError

    def judge(self, case, outs):
        """Return (list of (sig, message), list of observable states (strings))."""
        raise NotImplementedError

    def setup(self):
        pass

    def evaluate(self, case, d):
        outs = run_case(case, d)
        bads, states = self.judge(case, outs)
        return bads, states, len(case["runs"]), sum(1 for s in states if s != "reject")

    def sample(self, case):
        return {k: case[k] for k in ("key", "files", "runs") if k in case}

    # ------------------------------------------------------------------ driver
    def main(self, argv=()):
        global _BASE
        t0 = time.time()
        tier = "thorough" if TIER == "thorough" else "quick"
        _BASE = tempfile.mkdtemp(prefix="mcrun_", dir=scratch_base())
        try:
            return self._main(list(argv), tier, t0)
        finally:
            shutil.rmtree(_BASE, ignore_errors=True)

    def _main(self, argv, tier, t0):
        self.setup()
        load_cli(self.preload)
        if argv and argv[0] == "--replay":
            return self.replay(argv[1])
        known = load_known(self.id)
        seen_keys = set()
        ncases = trans = validated = 0
        states = set()
        first_samples = []
        violations = []
        known_hit = {}
        harness_errors = []

        case_index = {}

        gen_error = []
        stopped = False

        def chunks():
            # runs in a thread of the pool: an exception there would block the pool for ever
            try:
                yield from chunks_()
            except BaseException:
                if not stopped:
                    gen_error.append(traceback.format_exc())

        def chunks_():
            nonlocal ncases
            buf = []
            for i, case in enumerate(self.cases(tier)):
                k = case["key"]
                if k in seen_keys:
                    raise RuntimeError(f"HARNESS: duplicate case key {k}")
                seen_keys.add(k)
                ncases += 1
                if len(first_samples) < 400:
                    first_samples.append(case)
                elif i % 997 == 0 and len(first_samples) < 800:
                    first_samples.append(case)
                case_index[i] = case
                buf.append((i, case))
                if len(buf) >= self.chunk:
                    yield buf
                    buf = []
            if buf:
                yield buf

        ctx = mp.get_context("fork")
        with ctx.Pool(self.nproc, initializer=_init, initargs=(self,)) as pool:
            for part in pool.imap_unordered(_work, chunks(), chunksize=1):
                for idx, bads, st, tr, va in part:
                    states.update(st)
                    trans += tr
                    validated += va
                    case = case_index.pop(idx)
                    for sig, msg in bads:
                        if sig == "harness":
                            harness_errors.append((idx, case, msg))
                            continue
                        full = f"{case['key']} :: {sig}"
                        if full in known:
                            known_hit.setdefault(full, msg)
                        else:
                            violations.append((idx, case, sig, msg))
                if violations and time.time() - t0 > STOP_AFTER:
                    stopped = True
                    break
        wall = time.time() - t0
        if gen_error and not violations:
            print("HARNESS ERROR in the case generator\n" + gen_error[0])
            return 3
        if harness_errors and not violations:
            harness_errors.sort(key=lambda x: x[0])
            print(f"HARNESS ERROR in case {harness_errors[0][1]['key']}\n{harness_errors[0][2]}")
            violations_exit = 3
        else:
            violations_exit = 0
        violations.sort(key=lambda v: (v[0], v[2]))
        samples = [self.sample(c) for c in (first_samples[:2] + first_samples[-1:])]
        cov = {
            "states": len(states),
            "transitions": trans,
            "traces_validated_against_impl": validated,
            "exhaustive": not stopped,
            "rule": self.rule,
            "samples": samples,
        }
        cov.update(self.extra_coverage())
        write_evidence(self.id, tier, self.level, cov, wall, len(violations), self.assumptions)
        print(
            f"{self.id} [{tier}] cases={ncases} executions={trans} distinct_outcomes={len(states)} "
            f"validated={validated} violations={len(violations)} known={len(known_hit)} wall={wall:.1f}s"
        )
        for full in sorted(known_hit):
            print(f"KNOWN-FINDING: property={self.id} {full} -- {known[full]}")
        if violations:
            rdir = VERIF / "evidence" / "replay"
            rdir.mkdir(parents=True, exist_ok=True)
            groups = {}
            for idx, case, sig, msg in violations:
                groups.setdefault(sig, []).append((idx, case, msg))
            for n, (sig, lst) in enumerate(groups.items()):
                idx, case, msg = lst[0]
                if n < 12:
                    path = rdir / f"{self.id}_{hashlib.sha1((case['key'] + sig).encode()).hexdigest()[:10]}.json"
                    path.write_text(
                        json.dumps({"property": self.id, "sig": sig, "message": msg, "case": case}, indent=1, default=repr)
                    )
                    print(f"--- {sig} ({len(lst)} case(s)), first: {case['key']}\n{msg[:1500]}")
                    print(f"VIOLATION property={self.id} replay={path.relative_to(VERIF)}")
            if len(groups) > 12:
                print(f"... {len(groups) - 12} further violation classes")
            dump = os.environ.get("MC_DUMP")
            if dump:
                with open(dump, "w") as f:
                    for idx, case, sig, msg in violations:
                        f.write(json.dumps({"full": f"{case['key']} :: {sig}", "msg": msg}) + "\n")
            return 1
        return violations_exit

    def extra_coverage(self):
        return {}

    def replay(self, path):
        rec = json.loads(Path(path).read_text())
        case = rec["case"]
        global _DIR
        _DIR = tempfile.mkdtemp(prefix="mcreplay_", dir=_BASE)
        r1 = self.evaluate(case, _DIR)
        r2 = self.evaluate(case, _DIR)
        if [b[0] for b in r1[0]] != [b[0] for b in r2[0]]:
            print("HARNESS: replay diverged")
            return 3
        known = load_known(self.id)
        bads = [b for b in r1[0] if f"{case['key']} :: {b[0]}" not in known]
        for sig, msg in r1[0]:
            print(f"{sig}\n{msg}")
        if bads:
            print(f"VIOLATION property={self.id} replay={path}")
            return 1
        print("no violation")
        return 0


def load_known(pid):
    p = VERIF / "KNOWN_FINDINGS.json"
    if not p.exists():
        return {}
    data = json.loads(p.read_text())
    return {e["fails"]: e["what"] for e in data.get("findings", []) if e["property"] == pid}


def write_evidence(pid, tier, level, coverage, wall, nviol, assumptions):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    rec = {
        "property": pid,
        "tier": tier,
        "seed": SEED,
        "level": level,
        "coverage": coverage,
        "assumptions": list(assumptions),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    tmp = d / f".{pid}.json.tmp"
    tmp.write_text(json.dumps(rec, indent=1, default=repr, ensure_ascii=False))
    os.replace(tmp, d / f"{pid}.json")


def h(obj) -> str:
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]
