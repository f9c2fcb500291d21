"""Reference for static UIDs (documented FNV-1 hash), independent of the tool's code."""


def fnv1(data: bytes) -> int:
    v = 0x811C9DC5
    for b in data:
        v = ((v * 0x01000193) % (1 << 32)) ^ b
    return v


def ascii_lower(b: bytes) -> bytes:
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def identity(name, a):
    def txt(v):
        return "" if v is None else str(v)

    allowed = a.get("allowed") or ""
    return (
        f"{name}: unit: {txt(a.get('unit'))}, datatype: {txt(a.get('datatype'))}, type: {a['type']}"
        f"allowed: {allowed}min: {txt(a.get('min'))}max: {txt(a.get('max'))}"
    )


def uid(fqn, a, case_sensitive=False, name=None):
    if name is None:
        if a.get("constUID"):
            return a["constUID"]
        fka = a.get("fka")
        if isinstance(fka, str):
            fka = [fka]
        name = fka[0] if fka else fqn
    b = identity(name, a).encode("utf-8")
    if not case_sensitive:
        b = ascii_lower(b)
    return f"0x{fnv1(b):08X}"


def export(root, case_sensitive=False):
    """Expected id export of a reference model tree: fqn -> attributes."""
    out = {}
    for fqn, n in root.walk():
        a = n.attrs
        d = {"staticUID": uid(fqn, a, case_sensitive), "description": a["description"], "type": a["type"]}
        for k in ("unit", "datatype", "allowed", "fka", "deprecation"):
            if a.get(k):
                d[k] = [a[k]] if k == "fka" and isinstance(a[k], str) else a[k]
        for k in ("min", "max"):
            if a.get(k) is not None:
                d[k] = a[k]
        out[fqn] = d
    return out


def collides(exported):
    seen = {}
    for fqn, d in exported.items():
        n = int(d["staticUID"], 16)
        if n in seen:
            return seen[n], fqn
        seen[n] = fqn
    return None
