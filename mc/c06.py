"""C06: signal value constraints."""

import itertools

from . import ref
from .modelcheck import ModelCheck, argv

BASES = list(ref.SCALARS)
DTS = BASES + [b + "[]" for b in BASES]
LIMITS = sorted({v for lo, hi in ref.INT_RANGES.values() for v in (lo - 1, lo, hi, hi + 1)})
SCAL = [0, 1, -1, 2] + LIMITS + [0.0, -0.5, 1.5, 1e300, 255.0, True, False, "", "a", "b", "0", "True", "é „x“\n\t'\"#: {"]
SCAL = list({repr(v): v for v in SCAL}.values())
LISTS = [[], [0], [1, 2], ["a"], ["a", "b"], [True], [False, True], [1.5], [0, 1.5], [1, "a"], ["a", None], [[1]], [300, 1], [1, 300], [-1, 0], [""]]
ODD = ["int128", "", "uint8[][]", "uint8 []", "UINT8", "uint8[3]", "[]", "bool", "Types.Unknown", "Types.S", "Types.S[]", "S", "Types.S2", "Types"]

TYPES = {
    "Types": {"type": "branch", "description": "t"},
    "Types.S": {"type": "struct", "description": "s"},
    "Types.S.P": {"type": "property", "datatype": "uint8", "description": "p"},
}


class C06(ModelCheck):
    id = "C06"
    rule = (
        "datatype (26 + 14 odd ones) x default (all integer limits and limit+-1, floats, booleans, strings, falsy values, lists); datatype x "
        "allowed (all single values, value pairs); datatype x (default, allowed) pairs; min/max x allowed; arraysize x default; for sensors, and on a "
        "reduced alphabet for the other kinds and struct properties. state = distinct exported node or rejection, transition = one CLI run"
    )

    def mk(self, key, attrs, kind="sensor"):
        a = {"type": kind, "description": "d", **attrs}
        m = {"A": {"type": "branch", "description": "a"}}
        types = None
        if kind == "property":
            types = {
                "T": {"type": "branch", "description": "t"},
                "T.S": {"type": "struct", "description": "s"},
                "T.S.P": a,
            }
        else:
            m["A.X"] = a
            if "Types" in str(attrs.get("datatype")) or attrs.get("datatype") == "S":
                types = TYPES
        files = {"m.vspec": ref.text(m)}
        extra = []
        model = {"layers": [m]}
        if types:
            files["t.vspec"] = ref.text(types)
            extra = ["-t", "t.vspec"]
            model["types"] = [types]
        return {"key": key, "files": files, "runs": [{"argv": argv("yaml", extra=extra), "read": ["o.out"]}], "model": model}

    def cases(self, tier):
        seen = set()

        def emit(prefix, attrs, kind="sensor"):
            key = f"{prefix}:{kind}:{ref.val(attrs)}"
            if key in seen:
                return
            seen.add(key)
            yield self.mk(key, attrs, kind)

        for dt in DTS + ODD:
            yield from emit("plain", {"datatype": dt})
            for v in SCAL + LISTS + [{"a": 1}, None]:
                yield from emit("default", {"datatype": dt, "default": v})
        # array defaults around each limit, first and last position
        for b in BASES:
            for v in SCAL:
                for lst in ([v], [v, v]) + (([0, v], [v, 0], ["a", v]) if tier == "thorough" else ()):
                    yield from emit("arraydefault", {"datatype": b + "[]", "default": lst})
        few = [0, 1, 255, 256, -1, -129, 1.5, True, False, "", "a"]
        for dt in DTS:
            for v in SCAL:
                yield from emit("allowed1", {"datatype": dt, "allowed": [v]})
            for v, w in itertools.product(few, repeat=2):
                if v is not w:
                    yield from emit("allowed2", {"datatype": dt, "allowed": [v, w]})
            for v in (None, [], "a", 1, {"a": 1}, [None], [[1]]):
                yield from emit("allowedodd", {"datatype": dt, "allowed": v})
        # default against allowed
        lists = {"num": [[0], [1], [0, 1], [1, 2, 3], [5, 0]], "str": [["a"], ["a", "b"], ["", "a"], ["b"]], "bool": [[True], [False], [True, False]]}
        for dt in DTS + ["Types.S"]:
            base = dt.replace("[]", "")
            ls = lists["str" if base == "string" else "bool" if base == "boolean" else "num"]
            if base in ("float", "double", "numeric"):
                ls = ls + [[0.0, 1.5], [1.5]]
            scal = [0, 1, 3, 4, 0.0, 1.5, True, False, "", "a", "b", "c"]
            for al in ls + [[]]:
                for v in scal:
                    yield from emit("defallowed", {"datatype": dt, "default": v, "allowed": al})
                for v in [[], [0], [1], [1, 2], [1, 4], [4, 1], [0, 0], ["a"], ["a", "b"], ["a", "c"], ["c", "a"], [""], [True], [False], [False, True], [1.5, 0.0]]:
                    yield from emit("defallowed", {"datatype": dt, "default": v, "allowed": al})
        # min/max with allowed
        for dt in ("uint8", "int8", "float", "double[]", "string", "numeric", "boolean"):
            al = {"string": ["a"], "boolean": [True]}.get(dt, [1, 2])
            for mn, mx, a in itertools.product(["-", None, 0, 1, -5, 1.5], ["-", None, 0, 7, 2.5], ["-", None, [], al]):
                d = {"datatype": dt}
                for k, v in (("min", mn), ("max", mx), ("allowed", a)):
                    if v != "-":
                        d[k] = v
                yield from emit("minmax", d)
                yield from emit("minmax", {**d, "default": 1})
        # array size
        for dt in ("uint8", "uint8[]", "string", "string[]", "float[]", "boolean[]", "Types.S", "Types.S[]"):
            one = {"string": "a", "boolean": False}.get(dt.replace("[]", ""), 0)
            for size in (None, 1, 2, 3):
                for dflt in ("-", None, one, [], [one], [one, one], [one, one, one]):
                    d = {"datatype": dt, "arraysize": size}
                    if dflt != "-":
                        d["default"] = dflt
                    yield from emit("arraysize", d)
                    if isinstance(dflt, list) and "Types" not in dt:
                        yield from emit("arraysize", {**d, "allowed": [one]})
        # long lists: the only offending element at each position
        top = 40 if tier == "thorough" else 24
        for n in list(range(1, top + 1)) + [63, 64, 65, 100, 127, 128, 255, 256, 257]:
            for base, good, other, bad in (
                ("uint8", lambda i: i % 250, lambda i: 251, lambda i: 256), ("string", lambda i: f"v{i}", lambda i: "w", lambda i: i),
                ("float", lambda i: i + 0.5, lambda i: -1.5, lambda i: "x"), ("int64", lambda i: -i, lambda i: 7, lambda i: 2**63),
                ("boolean", lambda i: i % 2 == 0, lambda i: None, lambda i: 1),
            ):  # fmt: skip
                lst = [good(i) for i in range(n)]
                al = [v for i, v in enumerate(lst) if v not in lst[:i]]
                for i in [-1] + (list(range(n)) if n <= 12 else [0, 1, 7, 8, 9, n // 2, n - 2, n - 1]):
                    a, d, w = list(al), list(lst), list(lst)
                    if i >= 0:
                        d[i], w[i] = other(i), bad(i)
                        a[i % len(a)] = bad(i)
                        if base != "boolean":
                            yield from emit("long", {"datatype": base + "[]", "default": d, "allowed": al})
                            yield from emit("long", {"datatype": base, "default": good(i), "allowed": al})
                            yield from emit("long", {"datatype": base, "default": good(i), "allowed": [x for x in al if x != good(i)]})
                    yield from emit("long", {"datatype": base + "[]", "default": w})
                    yield from emit("long", {"datatype": base + "[]", "default": w, "arraysize": n})
                    yield from emit("long", {"datatype": base, "allowed": a})
                    yield from emit("long", {"datatype": base + "[]", "allowed": a})
                for size in (n - 1, n, n + 1):
                    if size > 0:
                        yield from emit("long", {"datatype": base + "[]", "default": lst, "arraysize": size})
                        yield from emit("long", {"datatype": base + "[]", "default": lst, "arraysize": size, "allowed": al})
        for dt in ("Types.S", "Types.S[]"):
            for v in (0, "a", True, 1.5):
                yield from emit("struct", {"datatype": dt, "allowed": [v]})
                yield from emit("struct", {"datatype": dt, "default": v})
                yield from emit("struct", {"datatype": dt, "default": [v]})
                if v in (0, 1.5):
                    yield from emit("struct", {"datatype": dt, "min": v})
        # the other kinds
        for kind in ("actuator", "attribute", "property"):
            for dt in DTS + ODD[:6]:
                yield from emit("kind", {"datatype": dt}, kind)
                for v in (few if tier == "quick" else SCAL) + [[0], [300], ["a"], []]:
                    yield from emit("kind", {"datatype": dt, "default": v}, kind)
                for v in (few if tier == "quick" else SCAL):
                    yield from emit("kind", {"datatype": dt, "allowed": [v]}, kind)
            for attrs in (
                {"datatype": "uint8", "default": 0, "allowed": [1]},
                {"datatype": "uint8", "default": 1, "allowed": [1]},
                {"datatype": "uint8", "min": 0, "allowed": [1]},
                {"datatype": "uint8", "max": 0, "allowed": [1]},
                {"datatype": "uint8", "arraysize": 2},
                {"datatype": "uint8[]", "arraysize": 2, "default": [1]},
                {"datatype": "uint8[]", "arraysize": 2, "default": [1, 2]},
            ):
                yield from emit("kindrule", attrs, kind)


CHECK = C06
