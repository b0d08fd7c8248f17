"""Archives and operations on them (spec Archive, harness archive)."""
import io, itertools, random, struct, warnings, zipfile, zlib

warnings.simplefilter("ignore")
ABS = "@" * 200  # replaced by the harness by an absolute path of its own, of the same length


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() or "."


def body(k, n):
    r = random.Random(k)
    return bytes(r.choice(b"abcdefgh\n\x00\xff") for _ in range(min(n, 997))) * (n // 997) + bytes(r.choice(b"xyz") for _ in range(n % 997)) if n >= 997 \
        else bytes(r.choice(b"abcdefgh\n\x00\xff") for _ in range(n))


def summary(b):
    return [len(b), zlib.crc32(b) & 0x3fffffff]


def make(entries):
    """entries: list of (name, bytes, options)"""
    f = io.BytesIO()
    marks = []
    with zipfile.ZipFile(f, "w") as z:
        for name, data, opt in entries:
            zi = zipfile.ZipInfo("x")
            zi.filename = name
            zi.compress_type = zipfile.ZIP_DEFLATED if "z" in opt else zipfile.ZIP_STORED
            if "l" in opt:
                zi.external_attr = 0o120777 << 16  # marked as a symbolic link
            z.writestr(zi, data)
            marks.append((zi.header_offset, zi.compress_size, len(name.encode())))
    raw = bytearray(f.getvalue())
    for (off, size, nl), (name, data, opt) in zip(marks, entries):
        if "x" in opt and data:  # flip a bit of the stored data
            raw[off + 30 + nl + size // 2] ^= 0x10
    return bytes(raw)


def scenario(name, entries, ops, limit=None, valid=1):
    es = []
    for n, data, opt in entries:
        over = limit is not None and len(data) > limit
        es.append({"abs": int(n.startswith("/") or n.startswith("@")), "segs": (n.lstrip("/") if n.startswith("/") else n).split("/"), "c": summary(data),
                   "bad": int(("x" in opt and len(data) > 0) or over), "name": n, "isdir": int(n.endswith("/") and not data)})
    return (name, {"entries": es, "valid": valid}, ["zip " + hx(make(entries))] + ops)


def names(segs, n):
    return ["/".join(t) for k in range(1, n + 1) for t in itertools.product(segs, repeat=k)]


def exhaustive(n, step=1):
    """every name on its own, among harmless others"""
    out = []
    for i, nm in enumerate(names(["a", "b", ".", "..", ""], n)):
        if not nm or i % step:
            continue
        if nm.startswith("/"):
            nm = ABS + nm
        if nm.count("..") > 5:
            continue
        es = [("a/f", b"one", ""), (nm, b"two" if not nm.endswith("/") else b"", "z"), ("c", b"three", "")]
        out.append(scenario("ex%d" % i, es, ["mkdir " + hx("t"), "mkdir " + hx("b"), "file %s 7" % hx("a"), "fs", "open", "extract"]))
    return out


def rnd(seed, n):
    out = []
    for i in range(n):
        r = random.Random("%s-arch-%d" % (seed, i))
        pool = ["a", "b", "c", "d d", "e.txt", "..", ".", "", "...", "..a", "a..", "..\\x", "\\", "modelDescription.xml", "resources"]
        w = [6, 6, 4, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]
        nasty = r.random() < 0.35
        es = []
        limit = r.choice([None] * 5 + [0, 10, 100, 8191, 70000])
        for _ in range(r.randint(0, 7)):
            k = r.randint(1, 4)
            segs = r.choices(pool, weights=w if nasty else [x if p not in ("..", ".", "") else 0 for p, x in zip(pool, w)], k=k)
            if es and r.random() < 0.4:
                # beside, below or above an earlier one
                o = r.choice(es)[0].split("/")
                segs = o[:r.randint(1, len(o))] + (segs if r.random() < 0.7 else [])
            nm = "/".join(segs)[:150]
            if r.random() < 0.25:
                nm += "/"
            if nm.startswith("/"):
                nm = ABS + nm if nasty else nm.lstrip("/")
            if nm.count("..") > 5 or (not nm and not nasty):
                continue
            data = b"" if nm.endswith("/") and r.random() < 0.9 else body(r.randrange(1 << 30), r.choice([0, 1, 5, 50, 500, 9000, 65536, 65537, 140000]))
            opt = r.choice(["", "z", "z"]) + ("l" if r.random() < 0.1 else "") + ("x" if r.random() < 0.04 and not limit else "")
            if "x" in opt:
                opt = opt.replace("z", "")
            es.append((nm, data, opt))
        ops = ["mkdir " + hx("t")] if r.random() < 0.95 else []
        if ops and r.random() < 0.3 and es:
            o = [x for x in r.choice(es)[0].split("/") if x not in ("", ".", "..") and "@" not in x]
            if o:
                ops.append("mkdir " + hx("t/" + "/".join(o[:-1] or ["old"])))
                if r.random() < 0.6:
                    ops.append("file %s %s" % (hx("t/" + "/".join(o)), "z" * r.choice([3, 100])))
        ops += ["file %s 1" % hx("b"), "mkdir " + hx("c"), "fs", "open"]
        if r.random() < 0.3:
            ops.append("move")
        ops.append("count")
        for k, e in enumerate(es):
            if "@" in e[0] or not e[0]:
                continue
            if r.random() < 0.3:
                ops.append("name %d" % k)
            if r.random() < 0.3:
                ops.append("find " + hx(e[0]))
        if r.random() < 0.3:
            ops.append("find " + hx(r.choice(["nothing", "a", "a/", "modelDescription.xml"])))
        if limit is None and r.random() < 0.4 and es:
            for _ in range(r.randint(1, 3)):
                ops.append("to %d" % r.randrange(len(es)))
        ops.append("extract" if limit is None else "extract %d" % limit)
        if r.random() < 0.2:
            ops.append("extract" if limit is None else "extract %d" % limit)
        out.append(scenario("arch%d" % i, es, ops, limit))
    return out


def broken(seed, n):
    """files that are no archives"""
    out = []
    for i in range(n):
        r = random.Random("%s-broken-%d" % (seed, i))
        raw = make([("a", body(i, 3000), ""), ("b/c", b"x", "")])
        cut = r.randint(1, len(raw) - 23)
        out.append(("broken%d" % i, {"entries": [], "valid": 0}, ["zip " + hx(raw[:cut] if i % 3 else body(i, 50)), "mkdir " + hx("t"), "fs", "open"]))
    return out
