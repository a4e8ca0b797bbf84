"""Identifiers asked in the order the model gives."""
import json
import uuid

from palworld_save_tools.archive import FArchiveReader, FArchiveWriter, UUID, instance_id_reader, instance_id_writer, uuid_reader, uuid_writer
from palworld_save_tools.json_tools import CustomEncoder

from ops_docs import brief


def make(how, b, text):
    if how == "bytes":
        return UUID(b)
    if how == "text":
        return UUID.from_str(text)
    if how == "upper":
        return UUID.from_str(text.upper())
    if how == "guid":
        return FArchiveReader(b + b"\xbb").guid()
    if how == "optional":
        return FArchiveReader(b"\1" + b + b"\xbb").optional_guid()
    if how == "reader":
        return uuid_reader(FArchiveReader(b + b"\xbb"))
    if how == "instance":
        return instance_id_reader(FArchiveReader(b"\xcc" * 16 + b))["instance_id"]
    raise KeyError(how)


def written(*fn):
    w = FArchiveWriter()
    for f in fn:
        f(w)
    return list(w.bytes())


def guid(vec):
    _, vals, made, hist, texts, shown = vec
    vals = [bytes(v) for v in vals]
    bad = []
    try:
        ids = [make(made[0], vals[0], texts[0]), make(made[1], vals[1], texts[1])]
        std = [uuid.UUID(bytes=bytes(s)) for s in shown]
        hashes = {}

        def rep(r, p):
            return {"id": ids[p], "uuid": std[p], "text": texts[p], "upper": texts[p].upper(), "bare": texts[p].replace("-", ""), "bytes": vals[p]}[r]

        for q, want in hist:
            o = q[1] - 1
            x = ids[o]
            kind = q[0]
            if kind == "str":
                got = str(x)
            elif kind == "json":
                got = json.loads(json.dumps({"a": [x]}, cls=CustomEncoder))["a"][0]
                if json.loads(json.dumps(std[o], cls=CustomEncoder)) != texts[o]:
                    bad.append(["guid", "standard UUID exported as another text"])
            elif kind == "repr":
                got = want if want in repr(x) else repr(x)
            elif kind == "uuid":
                u = x.UUID()
                got = list(u.bytes)
                if not isinstance(u, uuid.UUID) or u != std[o]:
                    bad.append(["guid", "standard UUID %r, expected %r" % (u, std[o])])
            elif kind == "raw":
                got = list(x.raw_bytes)
            elif kind == "write":
                got = written(lambda w: w.guid(x))
                if got != written(lambda w: uuid_writer(w, x)):
                    bad.append(["guid", "guid and uuid_writer differ"])
                both = written(lambda w: instance_id_writer(w, {"guid": x, "instance_id": texts[o]}))
                if both != got + got:
                    bad.append(["guid", "instance id written as %s" % bytes(both).hex()])
            elif kind == "writetext":
                got = written(lambda w: w.guid(texts[o]))
            elif kind == "writeupper":
                got = written(lambda w: w.guid(texts[o].upper()))
            elif kind == "writeuuid":
                got = written(lambda w: w.guid(std[o]))
            elif kind == "optional":
                got = written(lambda w: w.optional_guid(x))
                for y in (std[o], texts[o]):
                    if written(lambda w: w.optional_guid(y)) != got:
                        bad.append(["guid", "optional identifier written differently from %r" % (y,)])
            elif kind == "eq":
                got = x == rep(q[2], q[3] - 1)
            elif kind == "req":
                got = rep(q[2], q[3] - 1) == x
            elif kind == "ne":
                got = x != rep(q[2], q[3] - 1)
            elif kind == "none":
                got = x == None or x == 0 or x == ""  # noqa: E711
            elif kind == "dict":
                got = ids[1] in {ids[0]: 1} and ids[0] in {ids[1]}
            elif kind == "hash":
                got = want
                h = hash(x)
                if hashes.setdefault(o, h) != h or hash(UUID(vals[o])) != h or hash(UUID.from_str(texts[o])) != h:
                    bad.append(["guid", "hash of %s is not stable or differs from that of an equal identifier" % texts[o]])
            if got != want or type(got) is not type(want):
                bad.append(["guid", "%s -> %r, expected %r (values %s, made %s, asked %s)" % (
                    q, got, want, texts, made, [h[0] for h in hist][:6])])
                break
        for o in (0, 1):
            if bytes(ids[o].raw_bytes) != vals[o] or str(ids[o]) != texts[o]:
                bad.append(["guid", "identifier changed to %s" % ids[o]])
    except Exception as e:
        bad.append(["guid", "%s (values %s, made %s, asked %s)" % (brief(e), texts, made, [h[0] for h in hist][:6])])
    return {"bad": bad, "n": {}}
