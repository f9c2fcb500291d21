"""Reference model of the vspec semantics: plain dictionaries, no cleverness.

Input: the layers (files after include prefixing, in load order) as dictionaries
       path -> attributes.  Output: the expected flat model, or Reject.
"""

from __future__ import annotations

import copy
import json
import re

SEP = "."
KINDS_SIGNAL = ("sensor", "actuator", "attribute", "property")
KINDS = ("branch", "struct") + KINDS_SIGNAL

COMMON = {"type", "description", "comment", "delete", "deprecation", "constUID", "fka", "instantiate"}
BRANCH = COMMON | {"instances", "aggregate"}
SIGNAL = COMMON | {"datatype", "arraysize", "min", "max", "unit", "allowed", "default"}
INTERNAL = {"fqn", "is_instance"}
CORE = BRANCH | SIGNAL | INTERNAL
NOT_EXPORTED = {"delete", "instantiate", "fqn", "arraysize", "aggregate", "is_instance"}

INT_RANGES = {}
for _b in (8, 16, 32, 64):
    INT_RANGES[f"uint{_b}"] = (0, 2**_b - 1)
    INT_RANGES[f"int{_b}"] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)
SCALARS = tuple(INT_RANGES) + ("boolean", "float", "double", "string", "numeric")

SUBTYPES = {
    "uint8": [], "int8": [], "boolean": [], "float": [], "double": [], "string": [],
    "uint16": ["uint8"], "uint32": ["uint16", "uint8"], "uint64": ["uint32", "uint16", "uint8"],
    "int16": ["int8"], "int32": ["int16", "int8"], "int64": ["int32", "int16", "int8"],
    "numeric": ["int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "float", "double"],
}  # fmt: skip


class Reject(Exception):
    pass


# ----------------------------------------------------------------- writing specifications


def val(v):
    s = json.dumps(v, ensure_ascii=False)
    # line breaks of YAML that are none in JSON
    s = re.sub("[\x7f-\x9f\u2028\u2029\ufeff]", lambda m: f"\\u{ord(m.group(0)):04x}", s)
    # YAML 1.1 floats need a dot in the mantissa
    return re.sub(r'(?<![\w".])(-?\d+)e([+-]\d+)', r"\1.0e\2", s)


def text(d, includes=()):
    """A vspec file: one line per node; `includes` are include statements put at the end."""
    out = [f"{k}: {val(v)}" for k, v in d.items()]
    out += list(includes)
    return "\n".join(out) + "\n"


# ----------------------------------------------------------------- composition


def prefixed(d, prefix):
    return {f"{prefix}.{k}": v for k, v in d.items()} if prefix else dict(d)


def merge_attrs(base, new):
    """In place: later wins per key, mappings are merged, everything else is replaced."""
    for k, v in new.items():
        if isinstance(v, dict) and isinstance(base.get(k), dict):
            merge_attrs(base[k], v)
        else:
            base[k] = copy.deepcopy(v)


def compose(layers):
    eff: dict = {}
    for layer in layers:
        for path, attrs in layer.items():
            if attrs is None:
                raise Reject(f"{path} has no body")
            if path in eff:
                merge_attrs(eff[path], attrs)
            else:
                eff[path] = copy.deepcopy(attrs)
    return eff


# ----------------------------------------------------------------- trees


class Node:
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.kids = {}
        self.is_instance = False

    def clone(self):
        n = Node(self.name, copy.deepcopy(self.attrs))
        n.is_instance = self.is_instance
        for k, c in self.kids.items():
            n.kids[k] = c.clone()
        return n

    def walk(self, prefix=""):
        p = f"{prefix}.{self.name}" if prefix else self.name
        yield p, self
        for c in self.kids.values():
            yield from c.walk(p)


def build(eff, auto=True):
    roots = {p.split(SEP)[0] for p in eff if SEP not in p}
    if len(roots) != 1:
        raise Reject(f"{len(roots)} roots")
    (rname,) = roots
    root = Node(rname, copy.deepcopy(eff[rname]))
    for path in sorted(eff, key=lambda p: p.count(SEP)):
        parts = path.split(SEP)
        if parts[0] != rname:
            raise Reject(f"{path} is not below {rname}")
        if any(not p for p in parts):
            raise Reject(f"{path} has an empty segment")
        if len(parts) == 1:
            continue
        cur = root
        for i, part in enumerate(parts[1:-1]):
            if part not in cur.kids:
                if not auto:
                    raise Reject(f"{path} has no parent")
                cur.kids[part] = Node(part, {"type": "branch"})  # has no description: must be filled by an instance
            cur = cur.kids[part]
        last = parts[-1]
        cur.kids[last] = Node(last, copy.deepcopy(eff[path]))
    return root


# ----------------------------------------------------------------- instances

RANGE = re.compile(r"^(.*)\[(\d+),(\d+)\](.*)$")


def labels(s):
    """-> (names, is_range)"""
    m = RANGE.match(str(s))
    if not m:
        return [str(s)], False
    lo, hi = int(m.group(2)), int(m.group(3))
    if lo > hi:
        raise Reject("empty instance range")
    return [f"{m.group(1)}{i}{m.group(4)}" for i in range(lo, hi + 1)], True


def merge_node(dst, src):
    merge_attrs(dst.attrs, src.attrs)
    for k, c in src.kids.items():
        if k in dst.kids:
            merge_node(dst.kids[k], c)
        else:
            dst.kids[k] = c.clone()


def out_of_range(name, inst):
    """A child named like an instance of a declared range (RowN) although N is outside of the range."""
    for e in inst if isinstance(inst, list) else [inst]:
        e = e if isinstance(e, list) else [e]
        if any(name in labels(s)[0] for s in e):
            continue
        for s in e:
            m = RANGE.match(str(s))
            if m and re.fullmatch(re.escape(m.group(1)) + r"\d+" + re.escape(m.group(4)), name):
                return True
    return False


def expand(node):
    inst = node.attrs.get("instances")
    if node.attrs.get("type") == "branch" and isinstance(inst, (str, list)) and inst and "description" in node.attrs:
        entries = [inst] if isinstance(inst, str) else inst
        old = node.kids
        node.kids = {}
        template = {k: v for k, v in node.attrs.items() if k != "instances"}
        node.attrs = dict(template)
        for k, c in old.items():
            if c.attrs.get("instantiate", True) is False:
                node.kids[k] = c
        roots = [node]
        generated = []
        for e in entries:
            names = []
            deeper = isinstance(e, list)
            for s in e if isinstance(e, list) else [e]:
                n, is_range = labels(s)
                names += n
                deeper = deeper or is_range
            new = []
            for n in names:
                for r in roots:
                    c = Node(n, copy.deepcopy(template))
                    c.is_instance = True
                    if n in r.kids:
                        raise Reject(f"instance {n} declared twice")
                    r.kids[n] = c
                    new.append(c)
            generated += new
            if deeper:
                roots = new
        leaves = [g for g in generated if not g.kids]
        rest = {k: c for k, c in old.items() if c.attrs.get("instantiate", True) is not False}
        specific = {k: c for k, c in rest.items() if k in node.kids}
        apart = {k: c for k, c in rest.items() if k not in specific and out_of_range(k, inst)}
        for k, c in rest.items():
            if k in specific or k in apart:
                continue
            for leaf in leaves:
                leaf.kids[k] = c.clone()
        for k, c in apart.items():
            node.kids[k] = c
        for k, c in specific.items():
            merge_node(node.kids[k], c)
    for c in node.kids.values():
        expand(c)


# ----------------------------------------------------------------- validation


def split_array(dt):
    return (dt[:-2], True) if dt.endswith("[]") else (dt, False)


def is_value(v, base):
    if base in INT_RANGES:
        lo, hi = INT_RANGES[base]
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v <= hi
    if base in ("float", "double", "numeric"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if base == "boolean":
        return isinstance(v, bool)
    if base == "string":
        return isinstance(v, str)
    return False


def visible_structs(structs, fqn):
    """bare name -> full name of the structs that may be named without path from node fqn"""
    res = {}
    for s in structs:
        if fqn == s or fqn.startswith(s + SEP):
            continue  # a struct cannot refer to itself (or an enclosing one) by its bare name
        ns = s.rsplit(SEP, 1)[0]
        if fqn.startswith(ns + SEP):
            name = s.rsplit(SEP, 1)[1]
            # the closest namespace wins
            if name not in res or len(s) > len(res[name]):
                res[name] = s
    return res


def resolve_dt(dt, fqn, structs):
    base, arr = split_array(dt)
    if base in SCALARS:
        return dt
    if base in structs:
        return dt
    vis = visible_structs(structs, fqn)
    if base in vis:
        return vis[base] + ("[]" if arr else "")
    raise Reject(f"{fqn}: unknown datatype {dt}")


def check_signal(a, fqn, structs, units):
    dt = a.get("datatype")
    if not isinstance(dt, str):
        raise Reject(f"{fqn}: datatype missing")
    rdt = resolve_dt(dt, fqn, structs)
    base, arr = split_array(rdt)
    default, allowed = a.get("default"), a.get("allowed")
    size = a.get("arraysize")
    if size is not None and not arr:
        raise Reject(f"{fqn}: arraysize without array")
    if default is not None:
        if arr != isinstance(default, list):
            raise Reject(f"{fqn}: default is not of the right shape")
        if arr and size and len(default) != size:
            raise Reject(f"{fqn}: default has the wrong size")
        for v in default if arr else [default]:
            if not is_value(v, base):
                raise Reject(f"{fqn}: default {v!r} is not a {base}")
            if allowed and v not in allowed:
                raise Reject(f"{fqn}: default {v!r} is not allowed")
    if allowed is not None:
        if not isinstance(allowed, list):
            raise Reject(f"{fqn}: allowed is no list")
        for v in allowed:
            if not is_value(v, base):
                raise Reject(f"{fqn}: allowed value {v!r} is not a {base}")
        if a.get("min") is not None or a.get("max") is not None:
            raise Reject(f"{fqn}: allowed and min/max")
    unit = a.get("unit")
    if unit is not None:
        if unit not in units:
            raise Reject(f"{fqn}: unknown unit")
        if base not in SCALARS:
            raise Reject(f"{fqn}: unit on complex datatype")
        if not any(base == u or base in SUBTYPES.get(u, []) for u in units[unit]):
            raise Reject(f"{fqn}: datatype {base} not allowed for unit {unit}")
    return rdt


def check_tree(root, structs, units):
    for fqn, n in root.walk():
        a = n.attrs
        if a.get("type") == "branch" and not isinstance(a.get("instances"), (str, list, type(None))):
            raise Reject(f"{fqn}: instances {a['instances']!r}")
        if a.get("type") not in KINDS:
            raise Reject(f"{fqn}: type {a.get('type')!r}")
        if not isinstance(a.get("description"), str):
            raise Reject(f"{fqn}: description missing")
        cu = a.get("constUID")
        if cu is not None and not isinstance(cu, str):
            raise Reject(f"{fqn}: constUID is no string")
        if cu is not None and not re.fullmatch(r"0x[0-9A-Fa-f]{8}", cu):
            raise Reject(f"{fqn}: constUID malformed")
        if a["type"] in KINDS_SIGNAL:
            a["datatype"] = check_signal(a, fqn, structs, units)
    return root


def check_parents(root):
    for fqn, n in root.walk():
        for c in n.kids.values():
            t, p = c.attrs["type"], n.attrs["type"]
            ok = {"property": ("struct",), "struct": ("struct", "branch")}.get(t, ("branch",))
            if p not in ok:
                raise Reject(f"{fqn}.{c.name}: {t} below {p}")


def delete(node):
    node.kids = {k: c for k, c in node.kids.items() if c.attrs.get("delete") is not True}
    for c in node.kids.values():
        delete(c)


# ----------------------------------------------------------------- policies


def unknown_attrs(n):
    known = {"branch": BRANCH, "struct": COMMON}.get(n.attrs["type"], SIGNAL)
    return [k for k in n.attrs if k not in known]


def name_ok(n):
    if not re.fullmatch(r"[A-Z][A-Za-z0-9]*", n.name):
        return False
    if n.attrs.get("datatype") == "boolean" and not n.name.startswith(("Is", "Has")):
        return False
    return True


# ----------------------------------------------------------------- everything together


class Model:
    def __init__(self, root, types=None):
        self.root = root
        self.types = types

    def nodes(self):
        return dict(self.root.walk())

    def type_nodes(self):
        return dict(self.types.walk()) if self.types else {}


def structs_of(types_layers):
    if not types_layers:
        return None, []
    troot = build(compose(types_layers), auto=False)
    structs = [f for f, n in troot.walk() if n.attrs.get("type") == "struct"]
    for s in structs:
        if SEP not in s:
            raise Reject("struct as root")
    return troot, structs


def evaluate(layers, types_layers=(), units=None, do_expand=True, strict=False, aborts=(), whitelist=()):
    units = units or {}
    troot, structs = structs_of(list(types_layers))
    if troot is not None:
        check_tree(troot, structs, units)
    root = build(compose(layers))
    if do_expand:
        expand(root)
    check_tree(root, structs, units)
    if root.attrs.get("delete") is True:
        pass  # the root cannot be detached; outside of the stated behaviour
    delete(root)
    check_parents(root)
    if troot is not None:
        check_parents(troot)
    for r, force in ((root, strict or "unknown-attribute" in aborts), (troot, True)):
        if r is None:
            continue
        for fqn, n in r.walk():
            for k in unknown_attrs(n):
                if k in whitelist:
                    continue
                if force or k in CORE:
                    raise Reject(f"{fqn}: unknown attribute {k}")
    if strict or "name-style" in aborts:
        for fqn, n in root.walk():
            if not name_ok(n):
                raise Reject(f"{fqn}: name style")
    return Model(root, troot)


# ----------------------------------------------------------------- expected exports


def export_attrs(n, whitelist=(), all_ext=False):
    unknown = set(unknown_attrs(n))
    out = {}
    for k, v in n.attrs.items():
        if k in NOT_EXPORTED:
            continue
        if k in unknown and not (all_ext or k in whitelist):
            continue
        if k not in whitelist and k not in unknown and (v is None or (v == [] and k != "default")):
            continue
        out[k] = v
    if "instances" in out:
        i = out["instances"]
        out["instances"] = [i] if isinstance(i, str) else i
    return out


def flat(root, whitelist=(), all_ext=False):
    return {f: export_attrs(n, whitelist, all_ext) for f, n in root.walk()}


def nested(node, whitelist=(), all_ext=False):
    d = export_attrs(node, whitelist, all_ext)
    if node.kids:
        d["children"] = {k: nested(c, whitelist, all_ext) for k, c in node.kids.items()}
    return {node.name: d}[node.name]


def flatten_json(d):
    """A JSON export as flat dict (without the ComplexDataTypes part)."""
    out = {}

    def rec(path, node):
        a = {k: v for k, v in node.items() if k != "children"}
        out[path] = a
        for k, c in node.get("children", {}).items():
            rec(f"{path}.{k}", c)

    for k, v in d.items():
        rec(k, v)
    return out


def same(a, b):
    """Equality that keeps bool/int/float apart."""
    return json.dumps(a, sort_keys=True, ensure_ascii=False) == json.dumps(b, sort_keys=True, ensure_ascii=False)


def diff(exp, got, limit=6):
    lines = []
    for k in exp:
        if k not in got:
            lines.append(f"missing {k}: expected {json.dumps(exp[k], ensure_ascii=False)[:200]}")
        elif not same(exp[k], got[k]):
            lines.append(
                f"{k}: expected {json.dumps(exp[k], sort_keys=True, ensure_ascii=False)[:300]} got {json.dumps(got[k], sort_keys=True, ensure_ascii=False, default=repr)[:300]}"
            )
    for k in got:
        if k not in exp:
            lines.append(f"unexpected {k}: {json.dumps(got[k], ensure_ascii=False, default=repr)[:200]}")
    return "\n".join(lines[:limit]) + (f"\n... {len(lines)} differences" if len(lines) > limit else "")
