"""Families that grow in one dimension at a time: what the small exhaustive spaces cannot show is a bound,
a sort order or a width inside the implementation that only matters beyond a handful of elements.

sweep() yields (key, main specification, types specification or None) with identifier names throughout."""

from . import exmodels as X
from .exmodels import B, leaf

DTS = ("uint8", "string", "boolean", "float", "int64", "double", "uint16", "uint64", "int8", "int16", "int32", "uint32")
KINDS = ("sensor", "actuator", "attribute")
S = {"type": "struct", "description": "s"}
LETTERS = "BCDEFGHIJKLMNOPQRSTUVWXYZ"


def nm(i, dt):
    return f"IsX{i}" if dt == "boolean" else f"X{i}"


def one(i, **kw):
    """The i-th signal of a model: all kinds and datatypes occur, each with a description of its own"""
    dt = DTS[i % len(DTS)]
    return nm(i, dt), leaf(dt + ("[]" if i % 5 == 4 else ""), KINDS[i % 3], description=f"signal {i}", **kw)


def sweep(limit=16, instances=True, structs=True):
    some = [n for n in (*range(1, limit + 1), 26, 27, 33, 64, 65, 100, 128, 130) if n <= max(limit, 130)]
    deep = list(range(1, limit + 1))
    for n in deep:  # nesting depth
        m, p = {"A": B}, "A"
        for i in range(n):
            p += "." + LETTERS[i % 25] + (str(i) if i > 24 else "")
            m[p] = {**B, "description": f"level {i}"}
            k, v = one(i)
            m[f"{p}.{k}"] = v
        yield f"scale:depth:{n}", m, None
        p2 = "A" + ".A" * n
        m = {"A" + ".A" * i: {**B, "description": f"level {i}"} for i in range(n + 1)}
        m[p2 + ".X"] = leaf()
        yield f"scale:same:{n}", m, None
    for n in deep:  # two chains which differ in one name only, at the top or at the bottom
        for j, (a, b, c) in enumerate((("Left", "Right", "LongBranchName"), ("L", "R", "C"), ("Same", "Samf", "Name"))):
            m = {"A": B}
            for i, t in enumerate((a, b)):
                p = f"A.{t}"
                m[p] = {**B, "description": t}
                for k in range(n):
                    p += f".{c}{k}"
                    m[p] = {**B, "description": f"{t} {k}"}
                m[p + ".Signal"] = leaf("uint8" if i else "string", description=f"of {t}")
                m[p + f".Only{t}"] = leaf("float", description=f"only {t}")
            yield f"scale:twins:{n}:{j}", m, None
            m, p = {"A": B}, "A"
            for k in range(n):
                p += f".{c}{k}"
                m[p] = {**B, "description": f"{k}"}
            for i, t in enumerate((a, b)):
                m[f"{p}.{t}"] = {**B, "description": t}
                m[f"{p}.{t}.Signal"] = leaf("uint8" if i else "string", description=f"of {t}")
            yield f"scale:ends:{n}:{j}", m, None
    for n in some:  # number of siblings
        m = {"A": B, "A.First": leaf("string")}
        m["A.W"] = B
        for i in range(n):
            k, v = one(i)
            m[f"A.W.{k}"] = v
        m["A.Last"] = leaf("float")
        yield f"scale:leaves:{n}", m, None
        m = {"A": B}
        for i in range(n):
            m[f"A.B{i}"] = {**B, "description": f"branch {i}"}
            k, v = one(i)
            m[f"A.B{i}.{k}"] = v
        yield f"scale:branches:{n}", m, None
        # descending, as sorted and unsorted orders coincide otherwise
        m = {"A": B}
        for i in reversed(range(n)):
            k, v = one(i)
            m[f"A.{k}"] = v
        yield f"scale:reverse:{n}", m, None
    for a, b in ((2, 4), (3, 3), (4, 3), (6, 2)):  # bushy trees
        m, last = {"A": B}, ["A"]
        for lv in range(b):
            new = []
            for p in last:
                for i in range(a):
                    q = f"{p}.{LETTERS[i]}{lv}"
                    m[q] = {**B, "description": q} if lv + 1 < b else leaf(DTS[i], KINDS[lv % 3], description=q) if DTS[i] != "boolean" else leaf("int8", description=q)
                    new.append(q)
            last = new
        yield f"scale:bushy:{a}:{b}", m, None
    for n in (*range(1, 34), 50, 63, 64, 65, 100, 127, 128, 200, 250):  # length of a name
        for c in ("x", "Xy"):
            k = ("N" + c * n)[:n]
            yield f"scale:name:{c}:{n}", {"A": B, f"A.{k}": {**B, "description": "long"}, f"A.{k}.{k}": leaf(), f"A.{k}.{k}e": leaf("string"), "A.Z": leaf("float")}, None
    for n in (*range(1, limit + 1), 70, 75, 76, 77, 78, 79, 80, 81, 82, 90, 99, 100, 101, 127, 128, 160, 200, 255, 256, 1000, 4095, 4096, 5000):  # length of a text
        for c in ("x", "ab "):
            t = (c * n)[:n].rstrip() or "x"
            yield f"scale:text:{c}:{n}", {"A": {**B, "description": t}, "A.X": leaf("string", "attribute", description=t, comment=t, default=t), "A.Y": leaf(description="after")}, None
    for n in (*range(1, limit + 1), 32, 33, 64, 65, 100):  # number of allowed values, elements of a default
        strs = [f"V{i}" for i in range(n)]
        yield f"scale:allowed:{n}", {"A": B, "A.X": leaf("string", allowed=strs, default=strs[-1]), "A.Y": leaf("uint8", allowed=list(range(n)), default=n - 1), "A.Z": leaf("string[]", allowed=strs, default=strs)}, None
        yield f"scale:default:{n}", {"A": B, "A.X": leaf("uint16[]", "attribute", default=[i * 7 % 65536 for i in range(n)], arraysize=n), "A.Y": leaf("string[]", "attribute", default=[f"d{i}" for i in range(n)]), "A.Z": leaf()}, None
    for k in range(1, 65):  # numbers of every width
        for dt, v in (("uint64", 2**k - 1), ("int64", -(2 ** (k - 1))), ("double", 2.0**-k), ("double", 10.0**k), ("double", -k - 10.0 ** -min(k, 15))):
            yield f"scale:number:{dt}:{v!r}", {"A": B, "A.X": leaf(dt, min=v), "A.Y": leaf(dt, max=v), "A.Z": leaf(dt, "attribute", default=v), "A.V": leaf(dt, allowed=[v])}, None
    if instances:
        for n in (*range(1, limit + 1), 26, 33, 99, 100, 101):
            for j, inst in enumerate((f"Row[1,{n}]", f"P[0,{n}]", f"Q[{n},{n + 2}]", [f"L{i}" for i in range(n)], ["L", f"R[1,{n}]"] if n < 20 else None)):
                if inst is not None:
                    yield f"scale:inst:{n}:{j}", {"A": B, "A.B": {**B, "instances": inst}, "A.B.X": leaf(), "A.B.C": B, "A.B.C.Y": leaf("string"), "A.Z": leaf("float")}, None
        for n in range(1, 6):
            yield f"scale:instlevels:{n}", {"A": B, "A.B": {**B, "instances": [["L", "R"], *[f"Row{i}[1,2]" for i in range(n - 1)]]}, "A.B.X": leaf(), "A.B.C": B, "A.B.C.Y": leaf("string")}, None
            m, p = {"A": B}, "A"
            for i in range(n):
                p += f".{LETTERS[i]}"
                m[p] = {**B, "instances": ["L", f"R{i}"]}
                k, v = one(i)
                m[f"{p}.{k}"] = v
            yield f"scale:instnested:{n}", m, None
    if structs:
        for n in (*range(1, limit + 1), 33, 65, 130):
            t, m = {"T": B}, {"A": B}
            for i in range(n):
                t[f"T.S{i}"] = {**S, "description": f"struct {i}"}
                k, v = one(i)
                t[f"T.S{i}.{k}"] = {**v, "type": "property"}
                m[f"A.Y{i}"] = leaf(f"T.S{i}" + ("[]" if i % 2 else ""), KINDS[i % 3])
            yield f"scale:structs:{n}", m, t
            t = {"T": B, "T.S": S}
            for i in range(n):
                k, v = one(i)
                t[f"T.S.{k}"] = {**v, "type": "property"}
            yield f"scale:props:{n}", {"A": B, "A.X": leaf("T.S"), "A.Y": leaf()}, t
            if n <= limit:
                t, p = {"T": B}, "T"
                for i in range(n):
                    p += f".N{i}"
                    t[p] = {**B, "description": f"namespace {i}"}
                    t[f"{p}.S"] = S
                    t[f"{p}.S.P"] = leaf(DTS[i % len(DTS)] if DTS[i % len(DTS)] != "boolean" else "int8", "property")
                yield f"scale:namespaces:{n}", {"A": B, "A.X": leaf(f"{p}.S"), "A.Y": leaf("T.N0.S[]")}, t
                for rev in (False, True):
                    order = list(range(n))
                    t = {"T": B}
                    for i in reversed(order) if rev else order:
                        t[f"T.S{i}"] = S
                        t[f"T.S{i}.P"] = leaf("uint8", "property")
                        if i:
                            t[f"T.S{i}.R"] = leaf(f"T.S{i - 1}" + ("[]" if i % 2 else ""), "property")
                    yield f"scale:structchain:{n}:{rev}", {"A": B, "A.X": leaf(f"T.S{n - 1}")}, t
    yield "scale:sink", SINK, SINK_TYPES if structs else None


SINK = {  # one of everything
    "A": {**B, "comment": "root comment"},
    "A.Speed": leaf("float", "sensor", unit="km", min=0, max=250.5, description="speed"),
    "A.IsOpen": leaf("boolean", "actuator", description="open", default=False),
    "A.Mode": leaf("string", "actuator", allowed=["ON", "OFF"], default="OFF", description="mode"),
    "A.Codes": leaf("string[]", "attribute", default=["a", "b"], description="codes"),
    "A.Cabin": {**B, "description": "cabin"},
    "A.Cabin.Door": {**B, "instances": ["Row[1,2]", ["Left", "Right"]], "description": "door"},
    "A.Cabin.Door.IsLocked": leaf("boolean", "actuator", description="locked"),
    "A.Cabin.Door.Window": {**B, "description": "window"},
    "A.Cabin.Door.Window.Position": leaf("uint8", "actuator", unit="percent", min=0, max=100, description="position"),
    "A.Cabin.Door.Count": leaf("uint8", "attribute", instantiate=False, default=4, description="count"),
    "A.Cabin.Temp": leaf("int8", "sensor", min=-50, max=50, description="temp", deprecation="old"),
    "A.Power": {**B, "description": "power"},
    "A.Power.Cells": leaf("uint16[]", "sensor", arraysize=4, description="cells"),
    "A.Power.Level": leaf("double", "sensor", description="level", comment="c"),
    "A.Empty": {**B, "description": "no children"},
}
SINK_TYPES = {
    "T": B, "T.N": B, "T.N.Pos": S, "T.N.Pos.Lat": leaf("double", "property", min=-90, max=90), "T.N.Pos.Lon": leaf("double", "property", default=0.0),
    "T.Path": S, "T.Path.Points": leaf("T.N.Pos[]", "property"), "T.Path.Name": leaf("string", "property"),
}  # fmt: skip


def with_units(main, units=X.UNITS):
    return all(v.get("unit") in (None, *units) for v in main.values())
