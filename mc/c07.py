"""C07: units and quantities."""

import itertools

from . import ref
from .modelcheck import ModelCheck, argv

BASES = list(ref.SCALARS)
DTS = BASES + [b + "[]" for b in BASES]
REJECT = [{"A": None}]


def udef(quantity="q", allowed=("numeric",), unit="shown", key="allowed-datatypes", definition="d"):
    d = {}
    if definition is not None:
        d["definition"] = definition
    if unit != "-":
        d["unit"] = unit
    if quantity is not None:
        d["quantity"] = quantity
    if allowed is not None:
        d[key] = list(allowed)
    return d


def known_units(defs):
    """file contents (merged) -> unit name/key -> allowed datatypes"""
    out = {}
    for k, v in defs.items():
        al = v.get("allowed-datatypes", v.get("allowed_datatypes")) or []
        if v.get("unit") is not None:
            out[v["unit"]] = al
        out[k] = al
    return out


class C07(ModelCheck):
    id = "C07"
    rule = (
        "26 datatypes x every single allowed datatype and every pair of allowed scalars, by key and by name; every presence combination of "
        "default/explicit unit and quantity files and which of them defines the unit/quantity; malformed and redefined entries; several "
        "kinds of nodes. state = distinct export or rejection, transition = one CLI run"
    )
    assumptions = ["two different unit entries never show the same unit name"]

    def mk(self, key, spec, files, args, units, reject=False, types=None, spec_path="m.vspec"):
        f = {spec_path: ref.text(spec), **files}
        model = {"layers": REJECT if reject else [spec], "units": units}
        extra = list(args)
        if types:
            f["t.vspec"] = ref.text(types)
            extra += ["-t", "t.vspec"]
            model["types"] = [types]
        return {"key": key, "files": f, "runs": [{"argv": argv("yaml", spec=spec_path, extra=extra), "read": ["o.out"]}], "model": model}

    def sig(self, dt, unit, kind="sensor", **kw):
        return {"A": {"type": "branch", "description": "a"}, "A.X": {"type": kind, "datatype": dt, "description": "x", "unit": unit, **kw}}

    def cases(self, tier):
        Q = ref.text({"q": {"definition": "a quantity"}})
        # datatype against allowed datatypes
        alls = [(b,) for b in DTS] + [()] + list(itertools.combinations(BASES, 2))
        for al in alls:
            if len(al) == 2 and tier == "quick":
                dts = [b for b in BASES] + ["uint8[]", "string[]", "double[]"]
            else:
                dts = DTS
            defs = {"k": udef(allowed=al)}
            for i, dt in enumerate(dts):
                for use in ("k", "shown") if len(al) < 2 else (("k", "shown")[i % 2],):
                    yield self.mk(
                        f"dt:{dt}:{'+'.join(al)}:{use}", self.sig(dt, use), {"units.yaml": ref.text(defs), "quantities.yaml": Q}, [], known_units(defs)
                    )
        # spellings of the restriction, missing restriction
        for keyname in ("allowed-datatypes", "allowed_datatypes"):
            for al in (None, ["uint8"], ["uint8", "string"], ["nonsense"], ["uint8", "uint9"], "uint8"):
                for dt in ("uint8", "string", "float", "uint8[]"):
                    d = udef(allowed=None)
                    if al is not None:
                        d[keyname] = al
                    bad = al is not None and (isinstance(al, str) or any(a not in DTS for a in al))
                    yield self.mk(
                        f"spelling:{keyname}:{al}:{dt}", self.sig(dt, "k"), {"units.yaml": ref.text({"k": d}), "quantities.yaml": Q}, [],
                        {} if bad else known_units({"k": d}), reject=bad,
                    )  # fmt: skip
        # which names are units
        defs = {"k": udef(), "l": udef(unit="long"), "m": udef(unit=None), "percent": udef(unit="%")}
        for use in ("k", "shown", "l", "long", "m", "percent", "%", "None", "", "K", "Shown", "kl", "q", "d", None, "k ", 5, ["k"]):
            for kind in ("sensor", "actuator", "attribute"):
                bad = not isinstance(use, (str, type(None)))
                yield self.mk(
                    f"name:{use!r}:{kind}", self.sig("uint8", use, kind), {"units.yaml": ref.text(defs), "quantities.yaml": Q}, [], known_units(defs), reject=bad
                )
        # where files come from: default unit/quantity file and up to two explicit ones, each with or without the definition we use
        for du, e1, e2 in itertools.product((None, True, False), repeat=3):
            if e1 is None and e2 is not None:
                continue
            for dq, f1 in itertools.product((None, True, False), repeat=2):
                for loc in ("m.vspec", "dir/m.vspec"):
                    pre = loc.rsplit("/", 1)[0] + "/" if "/" in loc else ""
                    files, args = {}, []
                    used_u, used_q = {}, {}
                    content = lambda tag, has: {("k" if has else f"other{tag}"): udef(unit=f"n{tag}")}  # noqa: E731
                    if du is not None:
                        files[pre + "units.yaml"] = ref.text(content("d", du))
                        if e1 is None:
                            used_u.update(content("d", du))
                    bad = False
                    for tag, e in (("1", e1), ("2", e2)):
                        if e is not None:
                            files[f"u{tag}.yaml"] = ref.text(content(tag, e))
                            args += ["-u", f"u{tag}.yaml"]
                            for k, v in content(tag, e).items():
                                bad = bad or k in used_u
                                used_u[k] = v
                    if dq is not None:
                        files[pre + "quantities.yaml"] = ref.text({"q" if dq else "qother": {"definition": "d"}})
                        if f1 is None:
                            used_q["q" if dq else "qother"] = 1
                    if f1 is not None:
                        files["q1.yaml"] = ref.text({"q" if f1 else "qother": {"definition": "d"}})
                        args += ["-q", "q1.yaml"]
                        used_q["q" if f1 else "qother"] = 1
                    if used_u and "q" not in used_q:
                        bad = True
                    for use in ("k", None):
                        spec = self.sig("uint8", use) if use else {"A": {"type": "branch", "description": "a"}}
                        yield self.mk(f"files:{du}/{e1}/{e2}/{dq}/{f1}/{loc}/{use}", spec, files, args, known_units(used_u), reject=bad, spec_path=loc)
        # malformed entries
        good = udef()
        bads = {
            "nodef": udef(definition=None), "noquantity": udef(quantity=None), "nounit": udef(unit="-"), "null": None, "badquantity": udef(quantity="zz"),
            "quantitynumber": {**good, "quantity": 5}, "definitionlist": {**good, "definition": ["a"]}, "extra": {**good, "more": 1},
        }  # fmt: skip
        for name, b in bads.items():
            for pos in ("used", "unused", "second"):
                defs = {"k": b} if pos == "used" else {"k": good, "z": b}
                files = {"units.yaml": ref.text(defs), "quantities.yaml": Q}
                args = []
                if pos == "second":
                    files = {"u1.yaml": ref.text({"k": good}), "u2.yaml": ref.text({"z": b}), "quantities.yaml": Q}
                    args = ["-u", "u1.yaml", "-u", "u2.yaml"]
                yield self.mk(f"malformed:{name}:{pos}", self.sig("uint8", "k"), files, args, known_units({"k": good}), reject=name != "extra")
        for name, qb in {"nodef": {"comment": "c"}, "null": None, "full": {"definition": "d", "comment": "c", "remark": "r"}, "number": {"definition": 5}}.items():
            for pos in ("used", "unused"):
                qs = {"q": qb} if pos == "used" else {"q": {"definition": "d"}, "z": qb}
                files = {"units.yaml": ref.text({"k": good}), "quantities.yaml": ref.text(qs)}
                yield self.mk(f"quantity:{name}:{pos}", self.sig("uint8", "k"), files, [], known_units({"k": good}), reject=name != "full")
        # redefinitions across files, in every pair of positions out of three files
        for what in ("unit", "quantity"):
            for i, j in [(0, 1), (0, 2), (1, 2), (None, None)]:
                for differ in (False, True):
                    files, args = {"units.yaml": ref.text({"k": good}), "quantities.yaml": Q}, []
                    used = {}
                    for n in range(3):
                        nm = "dup" if n in (i, j) else f"n{n}"
                        if what == "unit":
                            d = {nm: udef(unit=f"s{n}" if differ else "same"), "k" if n == 0 else f"kk{n}": udef(unit=f"t{n}")}
                            if not differ and i is None:
                                d = {nm: udef(unit=f"s{n}"), "k" if n == 0 else f"kk{n}": udef(unit=f"t{n}")}
                            files[f"f{n}.yaml"] = ref.text(d)
                            args += ["-u", f"f{n}.yaml"]
                            used.update(d)
                        else:
                            d = {nm: {"definition": f"d{n}" if differ else "d"}, "q" if n == 0 else f"qq{n}": {"definition": "d"}}
                            files[f"f{n}.yaml"] = ref.text(d)
                            args += ["-q", f"f{n}.yaml"]
                            used = {"k": good}
                    yield self.mk(f"redefined:{what}:{i}/{j}:{differ}", self.sig("uint8", "k"), files, args, known_units(used), reject=i is not None)
        # many units, quantities and files: the i-th of n is used, by key and by name
        for n in range(1, 13):
            for i in range(n):
                defs = {f"k{j}": udef(unit=f"s{j}", quantity=f"q{j}", allowed=["uint8"] if j == i else ["string"]) for j in range(n)}
                one = {"units.yaml": ref.text(defs), "quantities.yaml": ref.text({f"q{j}": {"definition": "d"} for j in range(n)})}
                many = {f"u{j}.yaml": ref.text({f"k{j}": defs[f"k{j}"]}) for j in range(n)} | {f"qs{j}.yaml": ref.text({f"q{j}": {"definition": "d"}}) for j in range(n)}
                args = [x for j in range(n) for x in ("-u", f"u{j}.yaml")] + [x for j in range(n) for x in ("-q", f"qs{j}.yaml")]
                for use in (f"k{i}", f"s{i}"):
                    for dt in ("uint8", "string"):
                        yield self.mk(f"many:{n}:{use}:{dt}:one", self.sig(dt, use), one, [], known_units(defs))
                        yield self.mk(f"many:{n}:{use}:{dt}:many", self.sig(dt, use), many, args, known_units(defs))
                lacking = {"units.yaml": one["units.yaml"], "quantities.yaml": ref.text({f"q{j}": {"definition": "d"} for j in range(n) if j != i} or {"z": {"definition": "d"}})}
                yield self.mk(f"lacking:{n}:{i}", self.sig("string", "k0" if i else "k1"), lacking, [], {}, reject=True)
                dup = {**many, f"u{n}.yaml": ref.text({f"k{i}": defs[f"k{i}"]})}
                yield self.mk(f"dup:{n}:{i}", self.sig("uint8", f"k{i}"), dup, args + ["-u", f"u{n}.yaml"], {}, reject=True)
        # unit and quantity files at places that are not looked at
        places = ["a/b", "a", ".", "a/b/c", "inc", "ov", "ty"]
        for um, qm in itertools.product(range(2 ** len(places)), (0, 1, 2, 0b1111110, 0b1111111) if tier == "quick" else range(2 ** len(places))):
            if tier == "quick" and bin(um).count("1") not in (0, 1, 2, len(places), len(places) - 1):
                continue
            files = {f"{p}/keep.txt": "" for p in places}
            for i, p in enumerate(places):
                if um >> i & 1:
                    files[f"{p}/units.yaml".removeprefix("./")] = ref.text({"k": good} if p == "a/b" else {"k": good, f"k{i}": udef(unit=f"s{i}")})
                if qm >> i & 1:
                    files[f"{p}/quantities.yaml".removeprefix("./")] = Q
            files["ov/o.vspec"] = ref.text({"A.X": {"comment": "c"}})
            files["inc/i.vspec"] = ref.text({"A.Y": {"type": "sensor", "datatype": "int8", "description": "y"}})
            for use in ("k", "k1"):
                base = self.sig("uint8", use)
                c = self.mk(f"decoy:{um}:{qm}:{use}", base, files, ["-l", "ov/o.vspec", "-I", "inc"], known_units({"k": good}) if um & 1 else {}, spec_path="a/b/m.vspec")
                c["files"]["a/b/m.vspec"] += "#include i.vspec\n"
                c["model"]["layers"] = [base, {"A.Y": {"type": "sensor", "datatype": "int8", "description": "y"}}, {"A.X": {"comment": "c"}}] if not um & 1 or qm & 1 else REJECT
                yield c
        # complete entries defined twice, with and without a difference in one attribute
        fullq = {"definition": "d", "comment": "c", "remark": "r"}
        fullu = {"definition": "d", "unit": "shown", "quantity": "q", "allowed-datatypes": ["uint8"]}
        for diff in (None, "definition", "comment", "remark", "unit", "allowed"):
            for names in (("dup", "dup"), ("dup", "Dup"), ("dup", "dup2")):
                for gap in (0, 1, 3):
                    for what in "uq":
                        d1 = dict(fullu if what == "u" else fullq)
                        d2 = {**d1, "unit": "other"} if what == "u" and (diff == "unit" or names[0] != names[1]) else dict(d1)
                        if diff == "allowed":
                            d2["allowed_datatypes"] = d2.pop("allowed-datatypes", ["uint8"])
                        elif diff in d2:
                            d2[diff] = "different"
                        if what == "q" and diff in ("unit", "allowed"):
                            continue
                        files, args = {"units.yaml": ref.text({"k": good}), "quantities.yaml": Q}, []
                        seq = [{names[0]: d1}] + [{f"gap{g}": {**d1, **({"unit": f"gap {g}"} if what == "u" else {})}} for g in range(gap)] + [{names[1]: d2}]
                        rest = {"k": udef(unit="kk")} if what == "u" else {"q": fullq}
                        for n, x in enumerate([rest] + seq):
                            files[f"f{n}.yaml"] = ref.text(x)
                            args += ["-" + what, f"f{n}.yaml"]
                        yield self.mk(f"fulldup:{diff}:{names}:{gap}:{what}", self.sig("uint8", "k"), files, args, known_units({"k": good}), reject=names[0] == names[1])
        # the same file twice, empty files
        for what, opt, fn in (("unit", "-u", "units.yaml"), ("quantity", "-q", "quantities.yaml")):
            files = {"units.yaml": ref.text({"k": good}), "quantities.yaml": Q, "empty.yaml": "", "comment.yaml": "# nothing\n"}
            yield self.mk(f"twice:{what}", self.sig("uint8", "k"), files, [opt, fn, opt, fn], {}, reject=True)
            for e in ("empty.yaml", "comment.yaml"):
                yield self.mk(f"empty:{what}:{e}", self.sig("uint8", "k"), files, [opt, e, opt, fn], known_units({"k": good}))
                yield self.mk(f"emptyonly:{what}:{e}", self.sig("uint8", "k"), files, [opt, e], {}, reject=True)
        # units on struct typed signals and on properties
        types = {
            "T": {"type": "branch", "description": "t"}, "T.S": {"type": "struct", "description": "s"},
            "T.S.P": {"type": "property", "datatype": "uint8", "description": "p"},
        }  # fmt: skip
        files = {"units.yaml": ref.text({"k": good}), "quantities.yaml": Q}
        for dt in ("T.S", "T.S[]", "uint8"):
            yield self.mk(f"struct:{dt}", self.sig(dt, "k"), files, [], known_units({"k": good}), types=types)
        for dt, use in itertools.product(("uint8", "string", "float[]"), ("k", "shown", "zz")):
            t = {**types, "T.S.P": {"type": "property", "datatype": dt, "description": "p", "unit": use}}
            yield self.mk(f"property:{dt}:{use}", {"A": {"type": "branch", "description": "a"}}, files, [], known_units({"k": good}), types=t)
        # overlays change unit or datatype
        for dt0, u0, dt1, u1 in itertools.product(("uint8", "string"), ("k", "s", None), ("uint8", "string", None), ("k", "s", None)):
            defs = {"k": udef(), "s": udef(allowed=["string"], unit="text")}
            base = self.sig(dt0, u0)
            ov = {"A.X": {}}
            if dt1:
                ov["A.X"]["datatype"] = dt1
            if u1:
                ov["A.X"]["unit"] = u1
            c = self.mk(f"overlay:{dt0}/{u0}/{dt1}/{u1}", base, {"units.yaml": ref.text(defs), "quantities.yaml": Q, "o.vspec": ref.text(ov)}, ["-l", "o.vspec"], known_units(defs))
            c["model"]["layers"] = [base, ov]
            yield c


CHECK = C07
