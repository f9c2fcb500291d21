"""C26: the SAMM export is valid Turtle and describes every signal of the selection exactly once."""

import itertools
import json
import re
from decimal import Decimal, InvalidOperation

from . import exmodels as X, ref, scale
from .exmodels import B, leaf
from .exportcheck import ExportCheck, Malformed

BASE = "urn:samm:org.eclipse.esmf.samm:"
SAMM, SAMMC, UNIT = (f"{BASE}{p}:2.1.0#" for p in ("meta-model", "characteristic", "unit"))
XSD = "http://www.w3.org/2001/XMLSchema#"
TYPES = {
    "uint8": "unsignedByte", "int8": "byte", "uint16": "unsignedShort", "int16": "short", "uint32": "unsignedInt", "int32": "int", "uint64": "unsignedLong", "int64": "long",
    "boolean": "boolean", "float": "float", "double": "double", "string": "string",
}  # fmt: skip
UNITS = {"km": "kilometre", "percent": "percent", "m": "metre", "s": "secondUnitOfTime", "V": "volt", "A": "ampere", "kg": "kilogram", "celsius": "degreeCelsius", "km/h": "kilometrePerHour", "Nm": "newtonMetre", "rpm": "revolutionsPerMinute", "furlong": "blank"}
UNIT_YAML = "".join(f"{u}: {{definition: d, unit: '{u} long', quantity: q, allowed-datatypes: {list(ref.SCALARS)}}}\n" for u in [*UNITS, "iso8601"])

# Further units whose meaning in SAMM is beyond doubt; everything else may become a unit of the same kind or "blank"
SAMM_UNITS = {
    "cm3": "cubicCentimetre", "cm^3": "cubicCentimetre", "kw": "kilowatt", "kW": "kilowatt", "kWh": "kilowattHour", "l": "litre", "mm": "millimetre", "inch": "inch", "Ah": "ampereHour",
    "N.m": "newtonMetre", "cm/s": "centimetrePerSecond", "degree": "degreeUnitOfAngle", "degrees": "degreeUnitOfAngle", "degrees/s": "degreePerSecond", "g/s": "gramPerSecond", "kpa": "kilopascal", "kPa": "kilopascal",
    "l/h": "litrePerHour", "m/s": "metrePerSecond", "m/s2": "metrePerSecondSquared", "m/s^2": "metrePerSecondSquared", "mbar": "millibar", "min": "minuteUnitOfTime", "ml": "millilitre", "pa": "pascal", "Pa": "pascal",
    "percentage": "percent", "h": "hourUnitOfTime", "W": "watt",
}  # fmt: skip


def lower(name):
    return name.replace(" ", "").lower()


def deprecated(n):
    return bool((n.attrs.get("deprecation") or "").strip())


def signals(n):
    """Whether there is a signal to export below"""
    if deprecated(n):
        return False
    return n.attrs["type"] != "branch" or any(signals(c) for c in n.kids.values())


def instance_paths(inst):
    """-> set of paths (tuples of labels) of the innermost instances, or Reject"""
    tree = {}
    roots = [tree]
    for e in [inst] if isinstance(inst, str) else inst:
        names, deeper = [], isinstance(e, list)
        for s in e if isinstance(e, list) else [e]:
            n, is_range = ref.labels(s)
            names += n
            deeper = deeper or is_range
        new = []
        for r in roots:
            for n in names:
                if lower(n) in map(lower, r):
                    raise ref.Reject(f"instance {n} declared twice")
                r[n] = {}
                new.append(r[n])
        if deeper:
            roots = new

    def leaves(t, p):
        if not t:
            yield p
        for k, c in t.items():
            yield from leaves(c, (*p, lower(k)))

    return set(leaves(tree, ()))


def number(lex):
    try:
        return Decimal(str(lex))
    except InvalidOperation:
        return None


class Reader:
    def __init__(self, texts, ns):
        from rdflib import Graph, URIRef

        self.ns, self.ref = ns, URIRef
        self.files = {}
        self.g = Graph()
        for f, t in texts.items():
            g = Graph()
            try:
                g.parse(data=t, format="turtle")
            except Exception as e:
                raise Malformed(f"{f} is not Turtle: {str(e)[:300]}")
            self.files[f] = g
            for x in g:
                self.g.add(x)

    def all(self, s, p):
        return list(self.g.objects(s, self.ref(p)))

    def one(self, s, p, need=True):
        v = self.all(s, p)
        if len(v) > 1 or (need and not v):
            raise Malformed(f"{self.name(s)}: {len(v)} values of {p.split('#')[1]}")
        return v[0] if v else None

    def type(self, s, g=None):
        t = [str(x) for x in (g or self.g).objects(s, self.ref("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"))]
        if len(t) != 1:
            raise Malformed(f"{self.name(s)}: types {t}")
        return t[0]

    def need(self, s, *types):
        t = self.type(s)
        if t not in types:
            raise Malformed(f"{self.name(s)}: {t}, not {types}")
        return t

    def list(self, s, p):
        from rdflib.namespace import RDF

        head = self.one(s, p, False)
        if head is None:
            return None
        if head != RDF.nil and not list(self.g.objects(head, RDF.first)):
            raise Malformed(f"{self.name(s)}: {p.split('#')[1]} is no list: {head!r}")
        return list(self.g.items(head))

    def name(self, s):
        return str(s).replace(self.ns, ":")

    def properties(self, entity):
        """-> [(property, payload name or None, optional)]"""
        from rdflib import URIRef

        res = []
        for x in self.list(entity, SAMM + "properties") or []:
            if isinstance(x, URIRef):
                res.append((x, None, False))
            else:
                pn = self.one(x, SAMM + "payloadName", False)
                opt = self.one(x, SAMM + "optional", False)
                if opt is not None and str(opt) not in ("true", "1"):
                    raise Malformed(f"optional {opt!r}")
                res.append((self.one(x, SAMM + "property"), None if pn is None else str(pn), opt is not None))
        return res


class C26(ExportCheck):
    id = "C26"
    exporter = "samm"
    preload = ("yaml", "samm")
    rule = (
        "every rooted tree up to 4 (thorough 5) nodes and every name pair that derived element names may confuse x {split depth 1, 2, 9, no split}, every datatype x array x kind x constraint, every text as description, "
        "comment and default, allowed lists, instances up to 3 levels, units, structs, every set of deprecated nodes (<=2, thorough 3), every list of up to 2 (3) selected paths, versions: the files are "
        "parsed as Turtle, followed from the root aspect and compared with the reference model. state = distinct output, transition = one CLI run"
    )

    def setup(self):
        # imported once, before the runs are forked
        import rdflib.plugins.parsers.notation3
        import rdflib.plugins.serializers.turtle

        g = rdflib.Graph()
        g.parse(data='<urn:a> <urn:b> ( "c" 1 [ <urn:d> true ] ) .', format="turtle")
        g.serialize(format="turtle")

    def make(self, key, main, types=None, opts=(), sig=None, ns="com.covesa.vss.spec", version="1.0.0", **info):
        self.out_args = ("-tf", "out")
        case = super().make(key, main, types, opts, expand=False, ns=ns, version=version, sig=sig, **info)
        extra, files = X.units_for(main, types)
        own = [*UNITS, "iso8601"]
        case["files"]["units.yaml"] = UNIT_YAML + "".join(x + "\n" for x in files["units.yaml"].splitlines() if x[0] == '"' and json.loads(x[: x.index(": {")]) not in own)
        case["model"]["units"] = {u: list(ref.SCALARS) for u in [*own, *extra]}
        if sig is not None:
            case["files"]["sig.txt"] = sig
            case["runs"][0]["argv"] += ["-sigf", "sig.txt"]
        return case

    def cases(self, tier):
        thorough = tier == "thorough"
        splits = (["--no-split"], ["-spld", "1"], ["-spld", "2"], ["-spld", "9"])
        for key, main, _ in X.shapes(5 if thorough else 4):
            for s in splits:
                yield self.make(f"{key}:{s}", main, opts=s)
        for key, main, _ in X.shapes(4 if thorough else 3, names=("Vehicle", "A", "VehicleA", "AVehicle"), root="Vehicle"):
            for s in splits[:3]:
                yield self.make(f"veh:{key}:{s}", main, opts=s)
        for key, main, _ in X.shapes(4 if thorough else 3, names=("B", "BCharacteristic", "BEntity", "BTrait", "BInstance", "BConstraint", "BBaseCharacteristic"), leaves=(leaf(min=0, max=9), B)):
            for s in splits[:2]:
                yield self.make(f"derived:{key}:{s}", main, opts=s)
        for fam in (X.datatypes(), X.instances(), X.allowed(), X.allowed(("attribute",)), X.structs(), scale.sweep(24 if thorough else 16)):
            for key, main, types in fam:
                if main and key.startswith(("struct", "prop")) and not thorough and key.count(",") > 1:
                    continue
                yield self.make(key, main, types)
        for key, main, types in X.texts([*X.STRINGS, 'end "( ', ' )" ', ' "()" ', "xsd:anyURI", "#V2E-ESC-CHAR#", "Description: x", "VSS path : A.Q"]):
            yield self.make(key, main, types)
        for dt in ref.SCALARS:
            for u in (*UNITS, *SAMM_UNITS):
                for kind in ("sensor", "attribute"):
                    yield self.make(f"unit:{dt}:{u}:{kind}", {"A": B, "A.X": leaf(dt, kind, unit=u), "A.Y": leaf(dt + "[]", kind, unit=u)})
        for d in (None, "2020-01-01T00:00:00Z", "0000-01-01T00:00Z"):
            m = {"A": B, "A.X": leaf("string", "attribute", unit="iso8601", **({"default": d} if d else {}))}
            yield self.make(f"iso:{d}", m, iso=True)
        insts = ["L", ["L", "R"], "Row[1,2]", "Row[0,1]", "Row[2,4]", "R[1,2]ow", "R[3,1]", ["L", "L"], ["Row[1,2]", "L"], ["Row[1,2]", "L", "R"], [["L", "R"]], ["Row[1,3]", ["L", "R"]], [["L", "R"], "Row[1,2]"], ["Row[1,2]", "Col[1,2]"], ["Row[1,2]", ["L", "R"], ["A", "B"]], [["L"], ["M"], ["N"]],
                 ["L", "Row[1,2]"], ["L", "Row[1,2]", ["P"]], [1, 2], [[1, 2], ["a", "b"]], ["Row1", "Row2", ["Row1"]], [["Row1", "Row2"], ["Pos1", "Pos2"]], [["A", "AB"], ["BC", "C"]], [["A1", "B1"], ["A1", "B2"]], [], ["Row[1,2]", ["L", "R"], "Pos[1,2]", ["X", "Y"]], ["B", "BB"], "Instance", ["BInstance", "BRow"]]  # fmt: skip
        for i, inst in enumerate(insts):
            for j, (extra, s) in enumerate(itertools.product(("", "L", "Row", "Row1", "Row1L", "Instance", "Q"), splits[:3])):
                m = {"A": B, "A.B": {**B, "instances": inst}, "A.B.X": leaf()}
                if extra == "Q":
                    m["A.B.Q"] = {**B, "instances": inst}
                    m["A.B.Q.X"] = leaf("string")
                    m["A.B.Q.N"] = leaf("string", instantiate=False)
                elif extra:
                    m[f"A.B.{extra}"] = B
                    m[f"A.B.{extra}.X"] = leaf("string")
                    m[f"A.B{extra}"] = leaf("float")
                yield self.make(f"inst2:{i}:{j}", m, opts=s)
                if j < 3:
                    yield self.make(f"inst3:{i}:{j}", {"A": B, "A.B": {**B, "instances": inst}}, opts=s)
                    yield self.make(f"inst4:{i}:{j}", {"A": {**B, "instances": inst}, "A.X": leaf()}, opts=s)
        # deprecated nodes
        t = {"A": B, "A.X": leaf(), "A.B": B, "A.B.X": leaf("string"), "A.B.C": B, "A.B.C.X": leaf("int8"), "A.B.C.Y": leaf(), "A.D": B, "A.D.Z": leaf()}
        for r in range(1, 4 if thorough else 3):
            for ps in itertools.combinations(t, r):
                for s in splits[:3]:
                    for d in ("V1", " "):
                        m = {p: {**v, "deprecation": d} if p in ps else v for p, v in t.items()}
                        yield self.make(f"depr:{ps}:{s}:{d}", m, opts=s)
        # selections
        t = {"A": B, "A.B": B, "A.B.C": leaf(), "A.B.CD": leaf("string"), "A.BC": leaf("float"), "A.BC1": B, "A.BC1.D": leaf("int8"), "A.B.E": B, "A.B.E.C": leaf("boolean"), "A.E": {**B, "instances": ["L", "R"]}, "A.E.C": leaf("uint16"), "A.F": leaf("uint32")}
        lines = [*t, "A.B.X", "B.C", "C", "a.b", "A.", "", " ", "A.B.C ", "A.BC1.D.E", "AB"]
        for r in (1, 2, 3) if thorough else (1, 2):
            for sel in itertools.permutations(lines, r) if r < 3 else itertools.combinations(lines, r):
                if not any(x.strip() for x in sel):
                    continue
                for nl in ("\n", "\r\n") if r == 1 else ("\n",):
                    for end in ("", nl, nl + nl):
                        if end != nl and r > 1 and "A.B.C" not in sel:
                            continue
                        for s in splits[:2] if r < 3 else splits[1:2]:
                            yield self.make(f"sel:{sel}:{nl!r}:{end!r}:{s}", t, opts=s, sig=nl.join(sel) + end)
        # versions
        for v in itertools.product((None, 0, 1, 2, 11), repeat=3):
            m = {"A": B, "A.X": leaf(), "A.VersionVSS": B, "A.VersionVSS.Label": leaf("string", "attribute", default="")}
            for n, x in zip(("Major", "Minor", "Patch"), v):
                m[f"A.VersionVSS.{n}"] = leaf("uint32", "attribute", **({} if x is None else {"default": x}))
            yield self.make(f"version:{v}", m, version=".".join(str(b if x is None else x) for x, b in zip(v, (1, 0, 0))))
        for ns in ("a", "org.x.y"):
            yield self.make(f"ns:{ns}", {"A": B, "A.X": leaf(), "A.B": B, "A.B.X": leaf()}, opts=["-tns", ns], ns=ns)

    # ------------------------------------------------------------------
    def unexportable(self, case, model):
        self.select(case, model)
        for f, n in model.root.walk():
            if n.attrs.get("instances"):
                try:
                    instance_paths(n.attrs["instances"])
                except ref.Reject as e:
                    return ("" if signals(n) else "?") + str(e)
        return None

    @staticmethod
    def select(case, model):
        sig = case["info"]["sig"]
        if sig is None:
            return
        sel = [x.strip() for x in sig.splitlines() if x.strip()]

        def cut(n, path):
            if n.attrs["type"] != "branch":
                return any(path == s or path.startswith(s + ".") for s in sel)
            n.kids = {k: c for k, c in n.kids.items() if cut(c, f"{path}.{k}")}
            return bool(n.kids)

        cut(model.root, model.root.name)
        case["info"]["sig"] = None

    def check(self, case, model, outs):
        info = case["info"]
        base = f"out/{info['ns']}/{info['version']}/"
        if bad := [f for f in outs if not (f.startswith(base) and f.endswith(".ttl"))]:
            yield "files", f"{bad}, expected {base}*.ttl"
            return
        self.n = model.root
        r = self.r = Reader({f[len(base) : -4]: t for f, t in outs.items()}, f"urn:samm:{info['ns']}:{info['version']}#")
        if not signals(model.root) and not outs:
            return
        # references
        for s, p, o in r.g:
            if str(o).startswith(r.ns) and (o, None, None) not in r.g and isinstance(o, r.ref):
                raise Malformed(f"{r.name(s)} refers to {r.name(o)}, which is not defined")
        # one aspect per file
        aspects = {}
        for f, g in r.files.items():
            a = [s for s in set(g.subjects()) if str(next(g.objects(s, r.ref("http://www.w3.org/1999/02/22-rdf-syntax-ns#type")), "")) == SAMM + "Aspect"]
            if len(a) != 1:
                raise Malformed(f"{f}: {len(a)} aspects")
            if r.name(a[0]) != ":" + f:
                yield "aspect", f"{f}.ttl contains the aspect {r.name(a[0])}"
            props = r.properties(a[0])
            if len(props) != 1:
                yield "aspect", f"{f}: {len(props)} properties"
                return
            for p in ("operations", "events"):
                if r.list(a[0], SAMM + p) != []:
                    yield "aspect", f"{f}: {p}"
            # an aspect file defines everything but what other aspects define
            aspects[props[0][0]] = f
        self.aspects, self.visited, self.used = aspects, {}, set()
        split = next((int(case["opts"][1]) for o in case["opts"] if o == "-spld"), 0 if "--no-split" in case["opts"] else 1)
        roots = [p for p in aspects if not list(r.g.subjects(r.ref(SAMM + "property"), p))]
        if len(roots) != 1:
            yield "root", f"{len(roots)} root aspects among {sorted(aspects.values())}"
            return
        yield from self.node(roots[0], model.root, model.root.name, 0, split, aspects[roots[0]])
        if rest := {f for p, f in aspects.items() if p not in self.used}:
            yield "aspect", f"additional files {sorted(rest)}"
        props = {s for s in r.g.subjects(r.ref("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"), r.ref(SAMM + "Property"))}
        if rest := props - set(self.visited):
            yield "additional", f"properties without node: {sorted(map(r.name, rest))}"

    def node(self, p, n, path, depth, split, file):
        r = self.r
        if p in self.visited:
            yield "shared", f"{path} and {self.visited[p]} are both {r.name(p)}"
            return
        self.visited[p] = path
        r.need(p, SAMM + "Property")
        if depth <= split and n.attrs["type"] == "branch" or depth == 0:
            if p not in self.aspects:
                yield "split", f"{path} is no aspect"
            else:
                file = self.aspects[p]
        elif p in self.aspects:
            yield "split", f"{path} is an aspect"
        self.used.add(p)
        if (p, None, None) not in r.files[file]:
            yield "file", f"{path} is not in {file}.ttl"
        c = r.one(p, SAMM + "characteristic")
        if n.attrs["type"] == "branch":
            inst = n.attrs.get("instances") or []
            if inst:
                got = {}
                yield from self.instances(c, (), got, path)
                if set(got) != instance_paths(inst):
                    yield "instances", f"{path}: {sorted(got)} instead of {sorted(instance_paths(inst))}"
                    return
                if len(set(got.values())) != 1:
                    yield "instances", f"{path}: characteristics {got}"
                    return
                c = next(iter(got.values()))
            r.need(c, SAMM + "Characteristic")
            yield from self.text(c, n, path)
            e = r.one(c, SAMM + "dataType")
            r.need(e, SAMM + "Entity")
            kids = {lower(k): k for k, x in n.kids.items() if not deprecated(x)}
            seen = set()
            for q, name, opt in r.properties(e):
                key = None if name is None else name.lower()
                if key not in kids or key in seen or opt:
                    yield "children", f"{path}: unexpected property {name} {opt}"
                    continue
                seen.add(key)
                k = kids[key]
                yield from self.node(q, n.kids[k], f"{path}.{k}", depth + 1, split, file)
            if miss := [k for x, k in kids.items() if x not in seen and signals(n.kids[k])]:
                yield "missing", f"{path}: no property for {miss}"
            return
        yield from self.leaf(p, c, n, path)

    def instances(self, c, prefix, got, path):
        r = self.r
        if r.need(c, SAMMC + "SingleEntity", SAMM + "Characteristic") == SAMM + "Characteristic":
            got[prefix] = c
            return
        e = r.one(c, SAMM + "dataType")
        r.need(e, SAMM + "Entity")
        for q, name, opt in r.properties(e):
            r.need(q, SAMM + "Property")
            if self.visited.setdefault(q, f"instance of {path}") != f"instance of {path}":
                yield "shared", f"{r.name(q)} is an instance of {path} and {self.visited[q]}"
                continue
            if name is None or not opt or (*prefix, lower(name)) in got:
                yield "instances", f"{path}: property {name} {opt}"
                continue
            yield from self.instances(r.one(q, SAMM + "characteristic"), (*prefix, lower(name)), got, path)

    def text(self, c, n, path):
        want = r"\nVSS path\s*: " + re.escape(path)
        for label, attr in (("Description", "description"), ("Comment", "comment"), ("Unit", "unit")):
            v = n.attrs.get(attr)
            if v and v.strip():
                want += rf"\n\n{label}\s*: " + re.escape(v)
        got = str(self.r.one(c, SAMM + "description"))
        if not re.fullmatch(want, got):
            yield "text", f"{path}: {got!r} instead of {want!r}"

    def leaf(self, p, c, n, path):
        r, a = self.r, n.attrs
        dt, arr = ref.split_array(a["datatype"])
        lo, hi = a.get("min"), a.get("max")
        if a.get("unit") == "iso8601":
            dt = "iso"
        xsd = XSD + {**TYPES, "iso": "dateTimeStamp"}.get(dt, "anyURI")

        def value(lit, want):
            if isinstance(want, bool):
                return str(lit) in ("true", "false") and (str(lit) == "true") == want
            if isinstance(want, str):
                return str(lit) == want
            return number(lit) == number(want) and number(lit) is not None

        def typed(lit, what):
            if str(lit.datatype or XSD + "string") != xsd and not (isinstance(what, str) and lit.datatype is None):
                return [("datatype", f"{path}: {lit!r} is not of type {xsd}")]
            return []

        if a["type"] in ("sensor", "actuator") and (lo is not None or hi is not None):
            r.need(c, SAMMC + "Trait")
            k = r.one(c, SAMMC + "constraint")
            r.need(k, SAMMC + "RangeConstraint")
            for what, v in (("minValue", lo), ("maxValue", hi)):
                got = r.one(k, SAMMC + what, False)
                if (got is None) != (v is None) or v is not None and not value(got, v):
                    yield "range", f"{path}: {what} {got!r} instead of {v}"
                elif v is not None:
                    yield from typed(got, v)
            c = r.one(c, SAMMC + "baseCharacteristic")
        yield from self.text(c, n, path)
        if str(r.one(c, SAMM + "dataType")) != xsd:
            yield "datatype", f"{path}: {r.one(c, SAMM + 'dataType')} instead of {xsd}"
        default = a.get("default")
        allowed = a.get("allowed")
        shown = None
        if allowed:
            state = default is not None and not isinstance(default, list)
            r.need(c, SAMMC + ("State" if state else "Enumeration"))
            got = r.list(c, SAMMC + "values")
            if got is None or len(got) != len(allowed) or not all(map(value, got, allowed)):
                yield "allowed", f"{path}: {got} instead of {allowed}"
            else:
                for g, w in zip(got, allowed):
                    yield from typed(g, w)
            if state:
                d = r.one(c, SAMMC + "defaultValue")
                if not value(d, default):
                    yield "default", f"{path}: {d!r} instead of {default!r}"
                yield from typed(d, default)
        elif arr:
            r.need(c, SAMMC + "List")
        elif a.get("unit") and dt != "iso":
            r.need(c, SAMMC + "Measurement")
            if str(r.one(c, SAMMC + "unit")) != UNIT + UNITS.get(a["unit"], SAMM_UNITS.get(a["unit"], "blank")):
                yield "unit", f"{path}: {r.one(c, SAMMC + 'unit')} for {a['unit']}"
            shown = default
        else:
            r.need(c, SAMM + "Characteristic")
            shown = default
            if dt == "iso" and default and default.startswith("0000"):
                shown = None
        got = r.one(p, SAMM + "exampleValue", False)
        if (got is None) != (shown is None) or shown is not None and not value(got, shown):
            yield "default", f"{path}: {got!r} instead of {shown!r}"
        elif shown is not None:
            yield from typed(got, shown)


CHECK = C26
