"""Containers built from the terms of the container model, read and written by
the real code."""
import functools
import hashlib
import os
import random
import zlib

from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas

REPO = os.environ["PYTHONPATH"].split(":")[0]


@functools.lru_cache(None)
def payload(cls):
    r = random.Random(cls)
    if cls == "empty":
        return b""
    if cls == "one":
        return b"\x78"
    if cls == "zero":
        return b"\0"
    if cls == "text":
        return b"GVAS some payload text, some payload text and 1234567890 more\0\0\0\0"
    if cls == "magic":
        return b"PlZ1PlZ2" * 3
    if cls == "header":
        return b"\x78\x9c\x03\x00\x00\x00\x00"   # looks like a stream, is none
    if cls == "random":
        return r.randbytes(1000)
    if cls == "random64k":
        return r.randbytes(70001)
    if cls == "zeros1m":
        return b"\0" * 1000003
    if cls == "big":
        return (b"abcdefgh" * 2097152) + b"xyz12"   # more than 24 bits of length
    if cls == "noise":
        return r.randbytes(17000000)   # more than 24 bits of compressed length
    if cls.startswith("len"):
        return r.randbytes(8) * (int(cls[3:]) // 8) + r.randbytes(int(cls[3:]) % 8)
    if cls == "save":
        with open(os.path.join(REPO, "tests/testdata/WorldOption.sav"), "rb") as f:
            return zlib.decompress(f.read()[12:])
    raise KeyError(cls)


def freeze(t):
    return tuple(freeze(x) if isinstance(x, list) else x for x in t)


class NoSuch(Exception):
    pass


@functools.lru_cache(4096)
def data(t):
    kind = t[0]
    if kind == "P":
        return payload(t[1])
    if kind == "Z":
        return zlib.compress(data(t[2]), t[1]) if t[1] >= 0 else zlib.compress(data(t[2]))
    b = data(t[2])
    if kind == "cut":
        if t[1] > 1000:
            return b""
        if t[1] > len(b):
            raise NoSuch
        return b[:len(b) - t[1]]
    if kind == "tail":
        return b + bytes(range(1, t[1] + 1))
    if kind == "flip":
        n = len(b)
        i = {"first": 0, "second": 1, "third": 2, "middle": n // 2, "adler4": n - 4, "adler1": n - 1}[t[1]]
        if not 0 <= i < n:
            raise NoSuch
        return b[:i] + bytes([b[i] ^ 0x5A]) + b[i + 1:]
    raise KeyError(kind)


def length(d):
    return len(data(freeze(d[0]))) + d[1]


def subterms(t, out):
    if isinstance(t, tuple) and t and t[0] in ("P", "Z", "cut", "tail", "flip"):
        out.add(t)
        if t[0] != "P":
            subterms(t[2], out)


def build(c):
    body = data(freeze(c["body"]))
    ul, cl = length(c["ulen"]), length(c["clen"])
    if ul < 0 or cl < 0:
        raise NoSuch
    magic = {"nul": b"\0\0\0"}.get(c["magic"], c["magic"].encode())
    out = ul.to_bytes(4, "little") + cl.to_bytes(4, "little") + magic + bytes([c["type"]])
    for _ in range(c["chunk"]):
        out = (len(body) + 12).to_bytes(4, "little") + b"\x07\0\0\0" + b"CNK" + b"\x30" + out
    if c["head"] >= 0:
        return out[:c["head"]] if c["head"] < len(out) else out
    return out + body


def coincides(c):
    """Do terms the model takes for different have equal lengths here?"""
    ts = set()
    for t in (c["body"], c["ulen"][0], c["clen"][0]):
        subterms(freeze(t), ts)
    lens = {}
    for d in [(t, 0) for t in ts] + [(freeze(c["ulen"][0]), c["ulen"][1]), (freeze(c["clen"][0]), c["clen"][1])]:
        lens.setdefault(len(data(d[0])) + d[1], set()).add(d)
    return any(len(s) > 1 for s in lens.values())


def intact(b):
    try:
        zlib.decompress(b)
        return True
    except zlib.error:
        return False


def really_damaged(t):
    """A changed byte counts as damage only where zlib itself can tell."""
    t = freeze(t)
    while t[0] != "P":
        if t[0] == "flip" and intact(data(t)):
            return False
        t = t[2]
    return True


def attempt(b):
    try:
        p, ty = decompress_sav_to_gvas(b)
    except Exception as e:
        return "no", None, "%s: %s" % (type(e).__name__, e)
    return "yes", (bytes(p), ty), ""


def faults(vec):
    _, k, c, want = vec
    try:
        raw = build(c)
        skip = coincides(c)
    except NoSuch:
        return {"bad": [], "n": {"no such container": 1}}
    got, val, err = attempt(raw)
    bad = []
    if want[0] == "no":
        if got == "yes":
            if skip or not really_damaged(c["body"]):
                return {"bad": [], "n": {"coincidence": 1}}
            bad.append(["refuse", "accepted: %s" % describe(c)])
    elif got == "no":
        if want[0] == "ok":
            bad.append(["accept", "an intact container was refused (%s): %s" % (err, describe(c))])
    elif val != (data(freeze(want[1])), c["type"]):
        bad.append(["accept", "another payload or save type was returned: %s" % describe(c)])
    return {"bad": bad, "n": {got if want[0] != "any" else "unspecified": 1}}


def describe(c):
    return "chunk headers %d, magic %s, type 0x%02x, payload length %s, compressed length %s, body %s%s" % (
        c["chunk"], c["magic"], c["type"], c["ulen"], c["clen"], c["body"],
        ", cut to %d bytes" % c["head"] if c["head"] >= 0 else "")


def cycle(vec):
    """The container is made by the tool where the model says so, then read."""
    _, k, c, want = vec
    p = data(freeze(want[1]))
    bad = []
    if c["body"][1] == -1:
        raw = compress_gvas_to_sav(p, c["type"])
        again = compress_gvas_to_sav(p, c["type"])
        if type(raw) is not bytes or raw != again:
            bad.append(["layout", "compressing the same payload twice differs"])
        body = raw[12:]
        try:
            once = body if c["type"] == 0x31 else zlib.decompress(body)
            inner = zlib.decompress(once)
        except zlib.error as e:
            return {"bad": [["layout", "written body is no stream: %s (%s)" % (e, describe(c))]], "n": {}}
        if raw[:12] != len(p).to_bytes(4, "little") + len(once).to_bytes(4, "little") + b"PlZ" + bytes([c["type"]]):
            bad.append(["layout", "written header is %s for %s" % (raw[:12].hex(), describe(c))])
        if inner != p:
            bad.append(["layout", "written body holds another payload: %s" % describe(c)])
    else:
        raw = build(c)
    got, val, err = attempt(raw)
    if got == "no":
        bad.append(["read", "refused (%s): %s" % (err, describe(c))])
    elif val != (p, c["type"]):
        bad.append(["read", "another payload or save type: %s" % describe(c)])
    return {"bad": bad, "n": {"containers": 1}}


def every_byte(vec):
    """Every single byte of a small container changed, and every prefix of it."""
    _, k, c, want = vec
    raw = build(c)
    p = data(freeze(want[1]))
    start = 12 * (1 + c["chunk"])
    bad, n = [], 0
    free = set(range(8)) | {11} if c["chunk"] else set()     # the chunk header's own numbers carry no check
    for i in range(len(raw)):
        for m in (1, 2, 4, 8, 16, 32, 64, 128, 0xFF, 0x21):
            b = raw[:i] + bytes([raw[i] ^ m]) + raw[i + 1:]
            got, val, _ = attempt(b)
            n += 1
            if got == "no" or (i in free and val == (p, c["type"])):
                continue
            if i >= start and val == (p, c["type"]) and still(b[start:], c["type"], p):
                continue
            bad.append(["refuse", "byte %d changed from %02x to %02x: accepted (%s)" % (i, raw[i], b[i], describe(c))])
        got, val, _ = attempt(raw[:i])
        if got == "yes":
            bad.append(["refuse", "cut to %d of %d bytes: accepted (%s)" % (i, len(raw), describe(c))])
    return {"bad": bad[:3], "n": {"single byte changes": n}}


def still(b, ty, p):
    try:
        x = zlib.decompress(b)
        return (zlib.decompress(x) if ty == 0x32 else x) == p
    except zlib.error:
        return False
