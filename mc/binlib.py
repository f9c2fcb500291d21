"""The two parser libraries of the binary format: building drivers, reference encoding and search."""

from __future__ import annotations

import os
import shutil
import struct
import subprocess
import tempfile
import uuid as _uuid
from pathlib import Path

from . import core

HERE = Path(__file__).resolve().parent
ACCESS = {"write-only": 1, "read-write": 2, "write-only+consent": 11, "read-write+consent": 12}
PATH_MAX = 512
LIBS = ("c", "go")
_bin: dict = {}


def build():
    """Compile both drivers against the libraries of the working tree."""
    d = tempfile.mkdtemp(prefix="mcbin", dir=core._BASE)
    cdir = core.REPO / "binary" / "c_parser"
    cc = ["cc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", str(cdir)]
    cc += [str(HERE / "drivers" / "bindrv.c"), str(cdir / "cparserlib.c"), "-o", f"{d}/cdrv"]
    subprocess.run(cc, check=True, capture_output=True)
    shutil.copytree(core.REPO / "binary" / "go_parser", f"{d}/go_parser")
    os.makedirs(f"{d}/go_parser/mcdriver")
    shutil.copy(HERE / "drivers" / "go" / "main.go", f"{d}/go_parser/mcdriver/main.go")
    env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly -buildvcs=false", GOCACHE=f"{d}/gocache", GOPATH=f"{d}/gopath")
    p = subprocess.run(["go", "build", "-o", f"{d}/godrv", "./mcdriver"], cwd=f"{d}/go_parser", env=env, capture_output=True, text=True)
    if p.returncode:
        raise SystemExit("HARNESS: go build failed\n" + p.stderr)
    shutil.rmtree(f"{d}/gocache", ignore_errors=True)
    _bin.update(c=f"{d}/cdrv", go=f"{d}/godrv")


def drive(lib, commands, d, timeout=20):
    """Run one driver process -> (exit status, [result lines], diagnostics)."""
    cmd, res = os.path.join(d, f"cmd.{lib}"), os.path.join(d, f"res.{lib}")
    with open(cmd, "w") as f:
        for c in commands:
            f.write("\t".join(str(x) for x in c) + "\n")
    env = {"PATH": os.environ["PATH"], "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=171:max_malloc_fill_size=65536:hard_rss_limit_mb=400:detect_stack_use_after_return=0", "GOMAXPROCS": "1"}
    try:
        p = subprocess.run([_bin[lib], cmd, res], cwd=d, env=env, capture_output=True, timeout=timeout)
        rc, err = p.returncode, (p.stderr or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, err = 124, "timeout"
    lines = []
    if os.path.exists(res):
        with open(res, encoding="utf-8", errors="surrogateescape") as f:
            lines = f.read().split("\n")[:-1]
        os.unlink(res)
    os.unlink(cmd)
    if not lines or lines[-1] != "END":
        rc = rc or 125
    return rc, lines[:-1] if rc == 0 else lines, err


# ------------------------------------------------------------------- trees


class BNode:
    """What a node of the binary format carries, as text."""

    FIELDS = ("name", "type", "uuid", "description", "datatype", "min", "max", "unit", "allowed", "default", "validate")

    def __init__(self, name, attrs, parent=None, uuid=False):
        self.name, self.parent, self.kids = name, parent, []
        self.path = name if parent is None else parent.path + "." + name
        a = attrs
        self.type = a["type"]
        self.uuid = ""
        if uuid:
            ns = _uuid.uuid5(_uuid.NAMESPACE_OID, "vehicle_signal_specification")
            self.uuid = _uuid.uuid5(ns, self.path).hex
        self.description = a["description"]
        t = lambda k: "" if a.get(k) is None else str(a[k])  # noqa: E731
        self.datatype, self.min, self.max, self.unit, self.default = t("datatype"), t("min"), t("max"), t("unit"), t("default")
        self.allowed = [str(x) for x in a.get("allowed") or []]
        self.validate = t("validate")
        if parent is not None:
            parent.kids.append(self)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    @property
    def access(self):
        return ACCESS.get(self.validate, 0)

    @property
    def leaf(self):
        return self.type not in ("branch", "struct")


def from_model(node, parent=None, uuid=False):
    """ref.Node -> BNode"""
    b = BNode(node.name, node.attrs, parent, uuid)
    for c in node.kids.values():
        from_model(c, b, uuid)
    return b


def misfit(root):
    """Why a tree cannot be represented (None if it can)."""
    for n in root.walk():
        for k in ("name", "type", "uuid", "datatype", "min", "max", "unit", "default", "validate"):
            if len(getattr(n, k).encode()) > 255:
                return f"{k} of more than 255 bytes"
        if len(n.description.encode()) > 65535:
            return "description of more than 65535 bytes"
        for a in n.allowed:
            if len(a.encode()) > 255:
                return "allowed value of more than 255 bytes"
        if sum(2 + len(a.encode()) for a in n.allowed) > 65535:
            return "allowed list of more than 65535 bytes"
        if len(n.allowed) > 255:
            return "more than 255 allowed values"
        if len(n.kids) > 255:
            return "more than 255 children"
        if n.validate and n.validate not in ACCESS:
            return "unknown access control value"
        if len(n.path.encode()) > PATH_MAX - 1:
            return "path longer than the buffer of the C library"
        for k in BNode.FIELDS:
            v = getattr(n, k)
            if "\0" in (v if isinstance(v, str) else "".join(v)):
                return "NUL character"
    return None


def encode(n):
    def s8(s):
        b = s.encode()
        return struct.pack("B", len(b)) + b

    def s16(b):
        return struct.pack("<H", len(b)) + b

    out = s8(n.name) + s8(n.type) + s8(n.uuid) + s16(n.description.encode()) + s8(n.datatype) + s8(n.min) + s8(n.max) + s8(n.unit)
    out += s16(b"".join(b"%02X" % len(a.encode()) + a.encode() for a in n.allowed))
    out += s8(n.default) + s8(n.validate) + struct.pack("B", len(n.kids))
    return out + b"".join(encode(k) for k in n.kids)


def dump(root):
    """The lines both drivers print for the command D."""
    nodes = list(root.walk())
    pos = {id(n): i for i, n in enumerate(nodes)}

    def hx(s):
        return s.encode().hex() or "-"

    res = []
    for n in nodes:
        f = ["N", str(pos[id(n)]), str(pos[id(n.parent)] if n.parent else -1), str(len(n.kids)), n.type]
        f += [hx(x) for x in (n.name, n.uuid, n.description, n.datatype, n.min, n.max, n.unit, n.default)]
        f += [str(n.access), str(len(n.allowed))] + [hx(a) for a in n.allowed]
        res.append(" ".join(f))
    return res


# ------------------------------------------------------------------- searching


def strictest(values):
    values = list(values)
    return max([v % 10 for v in values] or [0]) + 10 * max([v // 10 for v in values] or [0])


def search(nodes, start, any_depth, leaf_only, limit, pattern, scopes=()):
    """-> (number, list of (index, path), admissible access values)

    `nodes`: pre-order list.  A node matches fully if its path below `start` equals the pattern
    segment by segment ('*' matches any name; with any-depth a trailing '*' stands for one or more
    names).  leaf-only: the matching leaves.  Otherwise: the matching nodes and the nodes on the way
    to them.  Nothing below a path of `scopes` is visited."""
    pos = {id(n): i for i, n in enumerate(nodes)}
    segs = pattern.split(".")
    hits = []

    def seg(i):
        if i < len(segs):
            return segs[i]
        return "*" if any_depth and segs[-1] == "*" else None

    def go(n, depth, path):
        """pre-order list of (node, path, full match)"""
        s = seg(depth)
        if s is None or (s != "*" and s != n.name):
            return []
        path = n.name if depth == 0 else path + "." + n.name
        full = depth + 1 >= len(segs) and (n.leaf or not leaf_only)
        below = []
        if path not in scopes:
            for k in n.kids:
                below += go(k, depth + 1, path)
        if not full and not below:
            return []
        return [(n, path, full)] + below

    way = go(start, 0, "")
    hits = [(pos[id(n)], p) for n, p, full in way if n.leaf or not leaf_only]
    total = strictest(n.access for n, _, _ in way)
    if len(hits) <= limit:
        return len(hits), hits, {total}
    # cut off: the requirement of the returned ones or of all of them
    cut = hits[:limit]
    on_way = set()
    for i, _ in cut:
        n = nodes[i]
        while True:
            on_way.add(id(n))
            if n is start:
                break
            n = n.parent
    return limit, cut, {total, strictest(n.access for n in nodes if id(n) in on_way)}
