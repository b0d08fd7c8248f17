"""Scenarios for the URI functions (spec Uri, harness uri)."""
import itertools, random


def hx(b):
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() or "."


UNRES = "abzAZ09-_.~"
SUB = "!$&'()*+,;="


def pchar(r, extra=""):
    x = r.random()
    if x < 0.15:
        return "%" + r.choice("0123456789abcdefABCDEF") + r.choice("0123456789abcdefABCDEF")
    return r.choice(UNRES + UNRES + SUB + ":@" + extra)


def word(r, n, extra=""):
    return "".join(pchar(r, extra) for _ in range(r.randint(0, n)))


def path(r, absolute=None, n=6):
    segs = [r.choice([".", "..", "..", "", "a", "b", word(r, 3), "...", ".a", "a.", "..b"]) for _ in range(r.randint(0, n))]
    p = "/".join(segs)
    if absolute is True or (absolute is None and r.random() < 0.5):
        p = "/" + p
    return p


def scheme(r):
    return r.choice(["http", "file", "x", "fmu-proxy", "A1+.", "urn", "proxyfmu"])


def authority(r):
    return r.choice(["", "h", "localhost", "user@example.com:1234", "[::1]:80", "a%20b", "127.0.0.1"])


def comps(r, absolute=False, valid=True):
    c = scheme(r) if absolute or r.random() < 0.4 else None
    a = authority(r) if r.random() < 0.5 else None
    p = path(r, absolute=None if a is None else (True if r.random() < 0.8 else None))
    if a is not None and p and p[0] != "/":
        p = "/" + p
    if a is None and p.startswith("//"):
        p = p[1:]
    while a is None and p.startswith("//"):
        p = p[1:]
    if c is None and a is None and ":" in p.split("/")[0]:
        p = "./" + p
    q = word(r, 5, "/?") if r.random() < 0.4 else None
    f = word(r, 4, "/?") if r.random() < 0.3 else None
    return c, a, p, q, f


def text(c):
    s, a, p, q, f = c
    return (s + ":" if s is not None else "") + ("//" + a if a is not None else "") + p + \
        ("?" + q if q is not None else "") + ("#" + f if f is not None else "")


def chunks(lines, n, name):
    return [("%s%d" % (name, i // n), {}, lines[i:i + n]) for i in range(0, len(lines), n)]


def exhaustive(plen, slen):
    out = []
    for n in range(slen + 1):
        for t in itertools.product("a./:?#", repeat=n):
            out.append("parse " + hx("".join(t)))
    bases = ["http://h/b/c", "x:", "x://h", "x:y/z?k#f", "rel/x"]
    for n in range(plen + 1):
        for t in itertools.product("a./", repeat=n):
            p = "".join(t)
            out.append("resolve %s %s" % (hx(bases[0]), hx(p)))
            if n <= plen - 2:
                for b in bases[1:]:
                    out.append("resolve %s %s" % (hx(b), hx(p)))
                out.append("resolve %s %s" % (hx("s:" + p), hx("..")))
                out.append("touri " + hx(p))
    return chunks(out, 250, "exh")


def decoding():
    out = []
    for n in range(5):
        for t in itertools.product("a%4Fz", repeat=n):
            out.append("dec " + hx("".join(t)))
    for b in range(256):
        out.append("enc %s ." % hx(bytes([b])))
        out.append("enc %s %s" % (hx(bytes([b, 47, b])), hx(bytes([47, b]) if b else b"/")))
        out.append("dec " + hx("%%%02X" % b))
        out.append("dec " + hx("x%%%02xyz" % b))
        out.append("dec " + hx("%%%02Xy" % b))
        if b:
            out.append("touri " + hx(b"/" + bytes([b])))
    return chunks(out, 250, "code")


def rnd(seed, n):
    r = random.Random("%s-uri" % seed)
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.2:
            out.append("parse " + hx(text(comps(r))))
        elif k < 0.25:
            out.append("parse " + hx(bytes(r.choice(b"a:/?#%.@ 1_+") for _ in range(r.randint(0, 10)))))
        elif k < 0.55:
            out.append("resolve %s %s" % (hx(text(comps(r, absolute=r.random() < 0.97))), hx(text(comps(r)))))
        elif k < 0.7:
            c = list(comps(r))
            if r.random() < 0.4:
                j = r.randrange(5)
                w = r.choice(["", "#", "?", "/", "a#b", "a?b", "/a/b", "a b", ":", "a:b"])
                c[j] = w if j == 2 or r.random() < 0.9 else None
            if c[2] is None:
                c[2] = ""
            out.append("compose " + " ".join(hx(x) for x in c))
        elif k < 0.75:
            c = [bytes(r.choice(b"ab /?#%+:@&=;\xff\xc3") for _ in range(r.randint(0, 5))) if r.random() < 0.7 else None for _ in range(5)]
            if c[2] is None:
                c[2] = b""
            if r.random() < 0.6:
                c[0] = r.choice([None, b"http", b"a+b"])
            if c[1] is not None and r.random() < 0.8:
                c[2] = b"/" + c[2]
            out.append("encuri " + " ".join(hx(x) for x in c))
        elif k < 0.8:
            out.append("enc %s %s" % (hx(bytes(r.randrange(256) for _ in range(r.randint(0, 12)))),
                                      hx(bytes(r.choice(b"/:+@ %~a") for _ in range(r.randint(0, 4))))))
        elif k < 0.9:
            s = ""
            for _ in range(r.randint(0, 8)):
                s += pchar(r, "/") if r.random() < 0.9 else chr(r.randrange(1, 256)).replace("%", "x")
            out.append("dec " + hx(s))
        elif k < 0.95:
            p = path(r, True)
            p = p.replace("a", r.choice(["a", " ", "\xe6", "#", "?", "%", "%20", "+", "c:", "\\", "&"]))
            if r.random() < 0.1:
                p = p[1:]
            out.append("touri " + hx(p))
        else:
            c = list(comps(r))
            if r.random() < 0.8:
                c[0] = "file"
            if r.random() < 0.8:
                c[1] = r.choice(["", "localhost"])
                if c[2] and c[2][0] != "/":
                    c[2] = "/" + c[2]
            out.append("topath " + hx(text(c)))
    return chunks(out, 250, "rnd")
