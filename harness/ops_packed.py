"""Compact coordinates and rotations replayed in the reader and the writer."""
import json
import math
import struct
from fractions import Fraction

from palworld_save_tools.archive import FArchiveReader, FArchiveWriter
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.rawdata import foliage_model_instance

from ops_docs import brief

TAIL = b"\x9a\xbc\xde"
GUID = bytes(range(1, 17))


def number(bits):
    n = sum(b << i for i, b in enumerate(bits))
    return n - (1 << len(bits)) if bits[-1] else n


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and math.isnan(a)
    return not isinstance(a, bool) and a == b and (a != 0 or isinstance(a, int) or math.copysign(1, a) == math.copysign(1, b))


def read(fn, data, nan=True):
    r = FArchiveReader(data + TAIL, allow_nan=nan)
    v = fn(r)
    rest = r.read_to_end()
    if rest != TAIL:
        return "position: %d bytes left after the value, expected %d" % (len(rest), len(TAIL))
    return v


def written(fn):
    w = FArchiveWriter()
    w.write(b"\x77")
    fn(w)
    w.write(TAIL)
    b = w.bytes()
    return b[1:-3] if b[:1] == b"\x77" and b[-3:] == TAIL else b


def instance(rot, pos):
    return GUID + rot + pos + struct.pack("<f", 1.5) + struct.pack("<i", -3)


def through_foliage(rot, pos, bad, values, where):
    """the same bytes inside a foliage instance, through JSON text"""
    blob = instance(rot, pos)
    d = foliage_model_instance.decode_bytes(FArchiveReader(b""), list(blob))
    t = d["world_transform"]
    got = [t[where][k] for k in (("x", "y", "z") if where == "location" else ("pitch", "yaw", "roll"))]
    if not all(same(g, v) for g, v in zip(got, values)):
        bad.append(["packed", "foliage instance decoded %s as %s, expected %s" % (blob.hex(), got, values)])
    back = foliage_model_instance.encode_bytes(json.loads(json.dumps(d, cls=CustomEncoder)))
    if bytes(back) != blob:
        bad.append(["packed", "foliage instance %s written back as %s" % (blob.hex(), bytes(back).hex())])


def packed(vec):
    bad = []
    kind = vec[0]
    try:
        if kind == "packed":
            _, scale, form, comps, stored = vec
            data = bytes(stored)
            if form == "full":
                values = [struct.unpack("<d", bytes(c))[0] for c in comps]
            elif form == "scaled":
                values = [float(Fraction(number(c), scale)) for c in comps]
            else:
                values = [number(c) for c in comps]
            got = read(lambda r: r.packed_vector(scale), data)
            if isinstance(got, str) or len(got) != 3 or not all(same(g, v) for g, v in zip(got, values)):
                bad.append(["packed", "scale %d: %s decoded as %s, expected %s" % (scale, data.hex(), got, values)])
            for vs in (values, [float(v) for v in values], json.loads(json.dumps(values))):
                b = written(lambda w: w.packed_vector(scale, *vs))
                if b != data:
                    bad.append(["packed", "scale %d: %s written as %s, expected %s" % (scale, vs, b.hex(), data.hex())])
                    break
            if form == "scaled" and all(number(k) % scale == 0 and number(k) // scale == v for k, v in zip(comps, values)):
                b = written(lambda w: w.packed_vector(scale, *[int(v) for v in values]))
                if b != data:
                    bad.append(["packed", "scale %d: whole numbers %s written as %s, expected %s" % (scale, values, b.hex(), data.hex())])
            nulled = [v if math.isfinite(v) else None for v in values]
            got = read(lambda r: r.packed_vector(scale), data, nan=False)
            if isinstance(got, str) or not all(same(g, v) for g, v in zip(got, nulled)):
                bad.append(["packed", "scale %d: %s decoded without NaN as %s, expected %s" % (scale, data.hex(), got, nulled)])
            if scale == 1 and not bad:
                through_foliage(b"\0\0\0", data, bad, values, "location")
        elif kind == "near":
            _, scale, quarters, whole, stored = vec
            values = [float(Fraction(q, 4 * scale)) for q in quarters]
            b = written(lambda w: w.packed_vector(scale, *values))
            if b != bytes(stored):
                bad.append(["packed", "scale %d: %s written as %s, expected %s (%s)" % (scale, values, b.hex(), bytes(stored).hex(), whole)])
        else:
            for rot, stored in zip(vec[1], vec[2]):
                data = bytes(stored)
                values = [float(Fraction(a * 45, 8192)) for a in rot]
                got = read(lambda r: r.compressed_short_rotator(), data)
                if isinstance(got, str) or len(got) != 3 or not all(same(g, v) for g, v in zip(got, values)):
                    bad.append(["packed", "rotation %s decoded as %s, expected %s" % (data.hex(), got, values)])
                for turn in (0, -360):
                    vs = [v + turn if v else v for v in values]
                    b = written(lambda w: w.compressed_short_rotator(*vs))
                    if b != data:
                        bad.append(["packed", "rotation %s written as %s, expected %s" % (vs, b.hex(), data.hex())])
                if rot[0] % 64 < 3:
                    through_foliage(data, struct.pack("<I", 64 | 1) + b"\0\0\0", bad, values, "rotator")
                if bad:
                    break
    except Exception as e:
        bad.append(["packed", "%s (%s)" % (brief(e), str(vec)[:300])])
    return {"bad": bad, "n": {}}
