"""C14: two nodes never silently share a static UID."""

import itertools
import re

from . import idref, ref, scale
from .c13 import UNIT_FILES, UNITS, B, C13
from .modelcheck import expectation

S = {"type": "sensor", "datatype": "uint8", "description": "s"}

# node names below A whose identity strings collide under the documented hash (s: as uint8 sensor, b: as branch)
COLLIDING = {
    False: [("Niliagu", "s", "Ng54jvq", "s"), ("N0wuvy5", "s", "Noe5x21", "s"), ("Nrpw1my", "b", "Ny0cvvn", "b"), ("Nrgp0tf", "s", "Nyzxxos", "b"), ("N4gjs3s", "s", "Nbzh1zm", "b")],
    True: [("Npcttyl", "s", "Nekivst", "s"), ("Nv015ox", "s", "Nt2wobw", "s"), ("Nxb21kf", "b", "Nvrn3s2", "b"), ("Nkcur32", "s", "N3zz0l3", "b")],
}  # fmt: skip
KIND = {"s": S, "b": B}


class C14(C13):
    id = "C14"
    rule = (
        "every pair of nodes in a relation that gives equal, nearly equal or different UIDs (hash collisions, constUIDs in every letter case "
        "spelling, constUID equal to a generated UID, formerly-known-as names, names that differ in letter case, instances) x placement in the tree x definition "
        "order x case sensitivity; triples with one colliding pair; malformed UIDs. state = distinct export, transition = one CLI run"
    )

    def place(self, n1, b1, n2, b2):
        """(tag, specification) for two named nodes; the UID relation may depend on the path"""
        fill = {"A.F1": S, "A.F2": B, "A.F2.G": S}
        yield "sib", {"A": B, f"A.{n1}": b1, f"A.{n2}": b2}
        yield "rev", {"A": B, f"A.{n2}": b2, f"A.{n1}": b1}
        yield "apart", {"A": B, f"A.{n1}": b1, **fill, f"A.{n2}": b2}
        if b1["type"] == "branch":
            yield "below", {"A": B, f"A.{n1}": b1, f"A.{n1}.K": S, f"A.{n2}": b2}
        if b2["type"] == "branch":
            yield "below2", {"A": B, f"A.{n2}": b2, f"A.{n2}.K": B, f"A.{n2}.K.L": S, f"A.{n1}": b1}
        yield "deep", {"A": B, "A.D": B, "A.D.E": B, f"A.D.E.{n1}": b1, **fill, f"A.{n2}": b2}

    def cases(self, tier):
        for cs in (False, True):
            for use in (False, True):
                for n1, k1, n2, k2 in COLLIDING[use]:
                    for tag, m in self.place(n1, KIND[k1], n2, KIND[k2]):
                        yield self.case(f"hash:{use}:{n1}:{n2}:{tag}:{cs}", [m], cs)
                    # one of them changed in an identity attribute: no collision any more
                    for ch in ({"description": "other"}, {"datatype": "int8"} if k1 == "s" else {"comment": "c"}, {"fka": ["A.Old"]}, {"constUID": "0x00000001"}):
                        for tag, m in self.place(n1, {**KIND[k1], **ch}, n2, KIND[k2]):
                            yield self.case(f"hash-changed:{use}:{n1}:{n2}:{tag}:{cs}:{ch}", [m], cs)
            # constUIDs against each other
            spell = ["0xabcdef01", "0xABCDEF01", "0xAbCdEf01", "0xabcdef02", "0x00000000", "0xFFFFFFFF", "0xffffffff"]
            for u1, u2 in itertools.product(spell, repeat=2):
                for k1, k2 in itertools.product("sb", repeat=2):
                    for tag, m in self.place("X", {**KIND[k1], "constUID": u1}, "Y", {**KIND[k2], "constUID": u2}):
                        yield self.case(f"const:{u1}:{u2}:{k1}{k2}:{tag}:{cs}", [m], cs)
            # constUID against a generated one
            for k1, k2 in itertools.product("sb", repeat=2):
                for tag, m in self.place("X", KIND[k1], "Y", KIND[k2]):
                    for victim in m:
                        g = idref.uid(victim, m[victim], cs)
                        for u in dict.fromkeys((g, g.lower(), "0x" + g[2:].lower().capitalize(), f"0x{int(g, 16) ^ 1:08X}")):
                            for holder in m:
                                if holder != victim and (tier == "thorough" or holder[-1] in "XYGA"):
                                    m2 = {**m, holder: {**m[holder], "constUID": u}}
                                    yield self.case(f"gen:{k1}{k2}:{tag}:{victim}:{u}:{holder}:{cs}", [m2], cs)
            # former names
            for f1, f2 in itertools.product([None, ["A.X"], ["A.Y"], ["A.x"], ["A.Old"], ["A.Old", "A.X"], ["A.X", "A.Old"], ["a.old"]], repeat=2):
                for k1, k2 in itertools.product("sb", repeat=2):
                    b1 = {**KIND[k1], **({"fka": f1} if f1 else {})}
                    b2 = {**KIND[k2], **({"fka": f2} if f2 else {})}
                    for tag, m in self.place("X", b1, "Y", b2):
                        if tag in ("sib", "rev", "apart"):
                            yield self.case(f"fka:{f1}:{f2}:{k1}{k2}:{tag}:{cs}", [m], cs)
            # names that differ in letter case
            for n1, n2 in itertools.permutations(["Ab", "aB", "AB", "Abc", "Äb", "äb"], 2):
                for k1, k2 in itertools.product("sb", repeat=2):
                    for tag, m in self.place(n1, KIND[k1], n2, KIND[k2]):
                        yield self.case(f"case:{n1}:{n2}:{k1}{k2}:{tag}:{cs}", [m], cs)
            # one definition for several instances
            for inst in ("L", ["L", "R"], "Row[1,2]"):
                for expand in (True, False):
                    for where in ("A.B", "A.B.X", "A.B.C"):
                        for ch in ({"constUID": "0x00000001"}, {"fka": ["A.Q"]}, {}):
                            m = {"A": B, "A.B": {**B, "instances": inst}, "A.B.X": S, "A.B.C": B}
                            m[where] = {**m[where], **ch}
                            yield self.case(f"inst:{inst}:{expand}:{where}:{ch}:{cs}", [m], cs, expand=expand)
                            m2 = {**m, "A.B.L.X": {**S, "constUID": "0x00000002"}, "A.Z": {**S, "constUID": "0x00000002"}}
                            yield self.case(f"inst2:{inst}:{expand}:{where}:{ch}:{cs}", [m2], cs, expand=expand)
        # any two nodes of large trees
        for key, main, _ in scale.sweep(24 if tier == "thorough" else 16, instances=False, structs=False):
            if key.split(":")[1] not in ("depth", "leaves", "branches", "bushy", "reverse"):
                continue
            ks = list(main)
            yield self.case(key, [main])
            some = itertools.combinations(range(len(ks)), 2) if len(ks) <= 12 else [(0, len(ks) - 1), (1, len(ks) - 1), (0, 1), (0, len(ks) // 2), (len(ks) // 2, len(ks) - 1), (3, 9), (5, len(ks) - 2)]
            for i, j in some:
                yield self.case(f"pair:{i}:{j}:{key}", [{**main, ks[i]: {**main[ks[i]], "constUID": "0xABCDEF01"}, ks[j]: {**main[ks[j]], "constUID": "0xabcdef01"}}])
                g = idref.uid(ks[i], main[ks[i]], False)
                yield self.case(f"given:{i}:{j}:{key}", [{**main, ks[j]: {**main[ks[j]], "constUID": g}}])
        # three nodes, at most one pair equal
        uids = ["0x00000001", "0x0000000a", "0x0000000A", "0x0000000b"]
        for a, b, c, d in itertools.product(uids, repeat=4):
            m = {"A": {**B, "constUID": a}, "A.B": {**B, "constUID": b}, "A.B.X": {**S, "constUID": c}, "A.Y": {**S, "constUID": d}}
            yield self.case(f"four:{a}:{b}:{c}:{d}", [m])
        # format
        bad = ["", "0x", "0x1", "0x1234567", "0x123456789", "0X12345678", "12345678", "0x1234567g", " 0x12345678", "0x12345678 ", "0x12345678\n", "x12345678", "0x１2345678", 305419896, 0, None, "0x1234567\n", "\n0x12345678", "0x_1234567", "-0x1234567", ["0x12345678"]]
        for i, u in enumerate(bad):
            for k in "sb":
                for where in ("A", "A.X"):
                    m = {"A": dict(B), "A.X": dict(KIND[k])}
                    m[where]["constUID"] = u
                    yield self.case(f"format:{i}:{k}:{where}", [m])

    def judge(self, case, outs):
        bads, states = super().judge(case, outs)
        out = outs[0]
        if out["rc"] != 0 and out["out"]["o.out"] is not None:
            bads.append(("output-after-failure", "the export failed but wrote an output file"))
        if out["rc"] == 0 and out["out"]["o.out"]:
            from .modelcheck import yload

            doc = yload(out["out"]["o.out"])
            for k, v in doc.items():
                if not isinstance(v.get("staticUID"), str) or not re.fullmatch("0x[0-9a-fA-F]{8}", v["staticUID"], re.ASCII):
                    bads.append(("malformed", f"{k}: {v.get('staticUID')!r}"))
                    break
        return bads, states


CHECK = C14
