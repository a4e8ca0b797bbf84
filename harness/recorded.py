"""Pieces of the saves the game wrote, for the specification to read.  Only names,
types and declared sizes are looked at here."""
import glob
import json
import os
import struct
import zlib

import pool
import tlc


def payload(path):
    with open(path, "rb") as f:
        raw = f.read()
    data = zlib.decompress(raw[12:])
    return zlib.decompress(data) if raw[11] == 0x32 else data


def text(s):
    return struct.pack("<i", len(s) + 1) + s.encode() + b"\0"


def fstring(b, p):
    (n,) = struct.unpack_from("<i", b, p)
    if n >= 0:
        return b[p + 4:p + 3 + n].decode("latin1") if n else "", p + 4 + n
    return b[p + 4:p + 2 - 2 * n].decode("utf-16-le"), p + 4 - 2 * n


def world_properties(b):
    """(name, kind, body) of the maps and arrays of structures of a world."""
    at = b.find(text("worldSaveData") + text("StructProperty"))
    if at < 0:
        return
    p = at + len(text("worldSaveData") + text("StructProperty")) + 8
    _, p = fstring(b, p)
    p += 17
    while True:
        name, p = fstring(b, p)
        if name == "None":
            return
        kind, p = fstring(b, p)
        (size,) = struct.unpack_from("<Q", b, p)
        p += 8
        body = p
        if kind == "MapProperty":
            _, p = fstring(b, p)
            _, p = fstring(b, p)
            p += 1 + size
        elif kind == "ArrayProperty":
            sub, p = fstring(b, p)
            p += 1 + size
            kind += sub
        elif kind == "StructProperty":
            _, p = fstring(b, p)
            p += 17 + size
        elif kind == "BoolProperty":
            p += 2
        else:
            p += 1 + size
        yield name, {"MapProperty": "map", "ArrayPropertyStructProperty": "array"}.get(kind), b[body:p]


def pieces(most_whole, most_body):
    for f in sorted(glob.glob(os.path.join(pool.REPO, "tests", "testdata", "**", "*.sav"), recursive=True)):
        b = payload(f)
        if len(b) <= most_whole:
            yield {"kind": "whole", "name": os.path.relpath(f, os.path.join(pool.REPO, "tests", "testdata")), "body": list(b)}
        for name, kind, body in world_properties(b):
            if kind:
                yield {"kind": kind, "name": name, "body": list(body[:most_body])}


def runs(kinds, quick):
    """Runs of the specification on the recorded pieces.  Quick: each kind of property once."""
    def run(p, n, span):
        return lambda: tlc.Run("Recorded", {"WANT": n, "SPAN": span}, invariants=["Reproduced", "SomeFound", "Emit"],
                               extra_files={"piece.json": json.dumps(p)})
    found = [p for p in pieces(6000 if quick else 30000, 12000 if quick else 100000) if p["kind"] in kinds]
    if quick:
        best = {}
        for p in found:
            if p["kind"] == "whole" or len(p["body"]) > len(best.get(p["name"], {"body": ""})["body"]):
                best[p["name"]] = p
        found = list(best.values())
    return [run(p, 8 if quick else 60, 4) for p in found]
