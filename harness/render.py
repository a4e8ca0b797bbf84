"""Turns what the specification says about an exported document into plain data,
and compares it with what the real code exported."""
import base64
import math
import struct

SIGNED = {"i8", "i16", "i32", "i64"}


class Ordered(dict):
    """An object whose member order is part of the format."""


class Num(float):
    """A number given as the exact value of a coordinate (int or float is the same)."""


def text(units):
    return struct.pack("<%dH" % len(units), *units).decode("utf-16-le", "surrogatepass")


def guid(b):
    h = bytes(b[i] for i in (3, 2, 1, 0, 7, 6, 5, 4, 11, 10, 9, 8, 15, 14, 13, 12)).hex()
    return "-".join((h[0:8], h[8:12], h[12:16], h[16:20], h[20:32]))


def integer(prim, b):
    return int.from_bytes(bytes(b), "little", signed=prim in SIGNED)


def real(prim, b):
    return struct.unpack("<f" if prim == "f32" else "<d", bytes(b))[0]


def packed(width, scaled, b, scale=1):
    v = int.from_bytes(bytes(b), "little") & ((1 << width) - 1)
    if v >> (width - 1):
        v -= 1 << width
    return v / scale if scaled else v


def key(n):
    return n[1] if n[0] == "c" else text(n[1])


TIMES = 1  # how often the list of a bulk document is repeated


def render(n):
    t = n[0]
    if t == "rep":
        return [render(x) for x in n[1]] * TIMES
    if t == "yrep":
        return list(n[1]) * TIMES
    if t == "o":
        return {key(k): render(v) for k, v in n[1]}
    if t == "O":
        return Ordered((key(k), render(v)) for k, v in n[1])
    if t == "a":
        return [render(x) for x in n[1]]
    if t == "i":
        return integer(n[1], n[2])
    if t == "f":
        return real(n[1], n[2])
    if t == "g":
        return guid(n[1])
    if t == "s":
        return text(n[1])
    if t == "c":
        return n[1]
    if t == "b":
        return bool(n[1])
    if t == "n":
        return None
    if t == "y":
        return list(n[1])
    if t == "B":
        return base64.b64encode(bytes(n[1])).decode()
    if t == "q":
        return integer("u16", n[1]) * 45 / 8192
    if t == "v":
        return Num(packed(n[1], n[2], n[3]))
    raise AssertionError("the specification refuses this document: %r" % (n,))


def plain(v):
    """Plain JSON data (what a user would have in a file)."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, Num):
        return float(v)
    return v


def differ(got, want, path="$"):
    """None if got is the document want, otherwise where and how they differ."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: %r is not an object" % (path, short(got))
        if set(got) != set(want):
            return "%s: members %s, expected %s" % (path, sorted(got)[:40], sorted(want)[:40])
        if isinstance(want, Ordered) and list(got) != list(want):
            return "%s: member order %s, expected %s" % (path, list(got)[:40], list(want)[:40])
        for k in want:
            d = differ(got[k], want[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(want, list):
        if not isinstance(got, list):
            return "%s: %r is not a list" % (path, short(got))
        if len(got) != len(want):
            return "%s: %d items, expected %d" % (path, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            d = differ(g, w, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if want is None or isinstance(want, (bool, str)):
        if type(got) is not type(want) or got != want:
            return "%s: %r, expected %r" % (path, short(got), short(want))
        return None
    if isinstance(want, Num) or isinstance(want, float):
        if isinstance(got, bool) or not isinstance(got, (int, float)):
            return "%s: %r, expected %r" % (path, short(got), want)
        if math.isnan(want):
            return None if math.isnan(got) else "%s: %r, expected NaN" % (path, got)
        if got != want or (want == 0 and not isinstance(want, Num) and math.copysign(1, got) != math.copysign(1, want)):
            return "%s: %r, expected %r" % (path, got, want)
        return None
    if type(got) is not int or got != want:
        return "%s: %r, expected %r" % (path, short(got), want)
    return None


def short(v):
    r = repr(v)
    return r if len(r) < 200 else r[:200] + "..."
