"""Archive histories replayed on the writer and the reader."""
import math
import struct
import uuid

from palworld_save_tools.archive import FArchiveReader, FArchiveWriter, UUID, instance_id_reader, instance_id_writer, uuid_reader, uuid_writer

from ops_docs import brief

PERM = [3, 2, 1, 0, 7, 6, 5, 4, 11, 10, 9, 8, 15, 14, 13, 12]
SIGNED = {"i16": 2, "i32": 4, "i64": 8}
UNSIGNED = {"u16": 2, "u32": 4, "u64": 8, "byte": 1, "u": 1}


class Dbl(float):
    pass


def text(units):
    return b"".join(struct.pack("<H", u) for u in units).decode("utf-16-le", "surrogatepass")


def doubles(b):
    return [struct.unpack("<d", bytes(b[i:i + 8]))[0] for i in range(0, len(b), 8)]


def ident(b, as_):
    u = UUID(bytes(b))
    if as_ == 1:
        return uuid.UUID(bytes=bytes(b[i] for i in PERM))
    if as_ == 2:
        return str(uuid.UUID(bytes=bytes(b[i] for i in PERM)))
    return u


def xyz(d):
    return {"x": d[0], "y": d[1], "z": d[2]}


def xyzw(d):
    return {"x": d[0], "y": d[1], "z": d[2], "w": d[3]}


def value(t, v, how=0):
    if t in SIGNED:
        return int.from_bytes(bytes(v), "little", signed=True)
    if t in UNSIGNED:
        return int.from_bytes(bytes(v), "little")
    if t == "float":
        return struct.unpack("<f", bytes(v))[0]
    if t == "double":
        return doubles(v)[0]
    if t == "bool":
        return bool(v)
    if t == "fstring":
        return text(v)
    if t in ("guid", "uuid"):
        return ident(v, how)
    if t == "optional_guid":
        return ident(v, how) if v else None
    if t in ("vector", "quat"):
        return tuple(doubles(v))
    if t == "vector_dict":
        return xyz(doubles(v))
    if t == "quat_dict":
        return xyzw(doubles(v))
    if t == "ftransform":
        d = doubles(v)
        return {"rotation": xyzw(d[:4]), "translation": xyz(d[4:7]), "scale3d": xyz(d[7:])}
    if t == "instance_id":
        return {"guid": ident(v[:16], how), "instance_id": ident(v[16:], how)}
    if t == "tarray":
        return [value(v[0], x, how) for x in v[1]]
    raise KeyError(t)


def put(w, t, v, how):
    x = value(t, v, how) if t != "raw" else bytes(v)
    if t == "raw":
        return w.write(x)
    if t in ("vector", "quat"):
        return getattr(w, t)(*x)
    if t == "instance_id":
        return instance_id_writer(w, x)
    if t == "uuid":
        return uuid_writer(w, x)
    if t == "tarray":
        return w.tarray(lambda w, e: (getattr(w, v[0])(*e) if v[0] in ("vector", "quat") else getattr(w, v[0])(e)), x)
    return getattr(w, t)(x)


def get(r, t, e):
    if t == "u":
        t = "byte"
    if t == "instance_id":
        return instance_id_reader(r)
    if t == "uuid":
        return uuid_reader(r)
    if t == "tarray":
        return r.tarray(lambda r: getattr(r, e)())
    return getattr(r, t)()


def same(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(b, float):
        if math.isnan(b):
            return isinstance(a, float) and math.isnan(a)
        return isinstance(a, float) and a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
    if isinstance(b, UUID):
        return isinstance(a, UUID) and bytes(a.raw_bytes) == bytes(b.raw_bytes)
    if b is None:
        return a is None
    return type(a) is type(b) and a == b


def unfit(w, t):
    """a number that does not fit is refused"""
    if t in SIGNED:
        k = SIGNED[t] * 8 - 1
        return [1 << k, -(1 << k) - 1]
    if t in UNSIGNED:
        return [1 << (UNSIGNED[t] * 8), -1]
    return []


def archive(vec):
    _, wlog, data, rlog = vec
    bad = []
    step = None
    try:
        for how in (0, 1, 2):
            out = b""
            with FArchiveWriter({"marker": 1}) as w:
                for step in wlog:
                    if step[0] == "put":
                        n = put(w, step[1], step[2], how)
                        if step[1] == "fstring" and n != step[3]:
                            bad.append(["archive", "writing text %r returned length %r, %d bytes expected" % (step[2], n, step[3])])
                    elif step[0] == "peek":
                        out = bytes(w.bytes())
                        if out != bytes(step[1]) or bytes(w.bytes()) != out:
                            bad.append(["archive", "bytes written so far are %s, expected %s" % (out.hex(), bytes(step[1]).hex())])
                    else:
                        c = w.copy()
                        if c.bytes() != b"" or c.custom_properties != {"marker": 1}:
                            bad.append(["archive", "a fresh writer from a writer holds %r, %r" % (c.bytes(), c.custom_properties)])
                        c.u32(1)
                        if bytes(w.bytes()) != bytes(step[1]):
                            bad.append(["archive", "writing to a fresh writer changed the first one"])
                step = "end"
                whole = bytes(w.bytes())
            if whole[:len(data)] != bytes(data):
                bad.append(["archive", "wrote %s, expected %s" % (whole.hex(), bytes(data).hex())])
        for given in (bytes(data), bytearray(data), memoryview(bytes(data))):
            with FArchiveReader(given) as r:
                for step in rlog:
                    kind, want = step[0], step[-1]
                    failed = False
                    try:
                        if kind == "get":
                            got = get(r, step[1], step[2])
                        elif kind == "read":
                            got = list(r.read(step[1]))
                        elif kind == "list":
                            got = list(r.byte_list(step[1]))
                        elif kind == "skip":
                            got = r.skip(step[1])
                        elif kind == "rest":
                            got = list(r.read_to_end())
                        elif kind == "eof":
                            got = r.eof()
                    except Exception as e:
                        failed, got = True, e
                    if want == ["fail"]:
                        if not failed:
                            bad.append(["archive", "%s past the end returned %r (data %s, steps %s)" % (step[:3], got, bytes(data).hex(), [s[0] for s in rlog])])
                        break
                    if failed:
                        bad.append(["archive", "%s failed: %s (data %s, steps %s)" % (step[:3], brief(got), bytes(data).hex(), [s[:3] for s in rlog])])
                        break
                    if kind == "get":
                        want = value("byte" if step[1] == "u" else step[1], want[1])
                    if kind == "skip":
                        continue
                    if not same(got, want):
                        bad.append(["archive", "%s returned %r, expected %r (data %s, steps %s)" % (step[:3], got, want, bytes(data).hex(), [s[:3] for s in rlog])])
                        break
            if bad:
                break
        if len(wlog) == 1 and wlog[0][0] == "put":
            for x in unfit(None, wlog[0][1]):
                w = FArchiveWriter()
                try:
                    getattr(w, wlog[0][1])(x)
                    bad.append(["archive", "%s accepts %d and writes %s" % (wlog[0][1], x, w.bytes().hex())])
                except Exception:
                    pass
    except Exception as e:
        bad.append(["archive", "%s at %s (writes %s)" % (brief(e), str(step)[:200], str(wlog)[:300])])
    return {"bad": bad, "n": {}}
