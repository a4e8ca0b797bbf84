"""Damaged input: refused, or kept byte for byte."""
import json

from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

import ops_files
from ops_docs import brief, hints_of, to_text, where


def outcome(data, hints=PALWORLD_TYPE_HINTS, custom=PALWORLD_CUSTOM_PROPERTIES):
    """"refused", "kept", or how the data was altered."""
    try:
        text = to_text(GvasFile.read(data, hints, custom))
        out = GvasFile.load(json.loads(text)).write(custom)
    except Exception:
        return "refused"
    return "kept" if out == data else "read and written back as something else: " + where(out, data)


def through_files(data):
    try:
        out = ops_files.encode(ops_files.export(data))
    except Exception:
        return "refused"
    return "kept" if out == data else "converted and converted back to something else: " + where(out, data)


def cut(vec):
    _, data, h = vec
    data = bytes(data)
    hints, custom = hints_of(h)
    bad, n = [], {"refused": 0, "kept": 0}
    for i in range(len(data)):
        o = outcome(data[:i], hints, custom)
        if o in n:
            n[o] += 1
        else:
            bad.append(["cut", "payload cut after %d of %d bytes: %s" % (i, len(data), o)])
    if outcome(data, hints, custom) != "kept":
        bad.append(["cut", "the whole payload is not kept"])
    for i in range(0, len(data), max(1, len(data) // 40)) if not h else ():
        o = through_files(data[:i])
        if o not in n:
            bad.append(["cut", "payload cut after %d of %d bytes: %s" % (i, len(data), o)])
    for tail in (b"\0", b"\xff" * 3, b"\0" * 50):
        o = outcome(data + tail, hints, custom)
        if o not in n:
            bad.append(["cut", "payload extended by %r: %s" % (tail, o)])
    return {"bad": bad, "n": n}


def blob(vec):
    _, kind, k, data, readable = vec
    o = outcome(bytes(data))
    if o in ("refused", "kept") and ops_files.chosen(bytes(data), 10):
        f = through_files(bytes(data))
        o = o if f in ("refused", "kept") else f
    bad = [] if o in ("refused", "kept") else [["blob", "damaged %s (case %d): %s" % (kind, k, o)]]
    return {"bad": bad, "n": {o: 1} if not bad else {}}


def foreign(vec):
    _, what, data = vec
    bad = []
    try:
        GvasFile.read(bytes(data), PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES)
        bad.append(["foreign", "unsupported %s was accepted" % what])
    except Exception:
        pass
    try:
        GvasFile.read(bytes(data), {}, {}, allow_nan=False)
        bad.append(["foreign", "unsupported %s was accepted without tables" % what])
    except Exception:
        pass
    if ops_files.chosen(bytes(data), 3):
        try:
            ops_files.export(bytes(data))
            bad.append(["foreign", "unsupported %s was converted" % what])
        except Exception:
            pass
    return {"bad": bad, "n": {"refused": 1}}


def dispatch(vec):
    return {"cut": cut, "blob": blob, "foreign": foreign}[vec[0]](vec)
