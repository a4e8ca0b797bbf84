"""Everything observable about a save, for comparison between configurations."""
import glob
import hashlib
import json
import os
import re
import uuid

from palworld_save_tools.archive import UUID
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

import ops_files
from ops_docs import hints_of

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
REPO = os.environ.get("VERIF_REPO", "/repo")
GUIDTEXT = re.compile(r'"([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})"')


def sha(x):
    return hashlib.sha256(x.encode("utf-8", "surrogatepass") if isinstance(x, str) else bytes(x)).hexdigest()[:16]


def attempt(fn):
    try:
        return fn()
    except RecursionError:
        raise
    except Exception:
        return None


def note(obs, name, x):
    obs.append([name, "refused" if x is None else sha(x)])
    return x


def text_of(doc, **kw):
    return json.dumps(doc.dump(), cls=CustomEncoder, **kw)


def other_ids(text, how):
    """the document with its identifiers spelt another way"""
    def spell(m):
        t = m.group(1)
        return '"%s"' % {"upper": t.upper(), "bare": t.replace("-", ""), "braces": "{" + t + "}", "urn": "urn:uuid:" + t, "short": t[:-1], "blank": " " + t, "letters": t[:-1] + "g"}[how]
    return GUIDTEXT.sub(spell, text)


def objects(x):
    """the document with its identifiers as identifier objects or standard UUIDs"""
    if isinstance(x, dict):
        return {k: objects(v) for k, v in x.items()}
    if isinstance(x, list):
        return [objects(v) for v in x]
    if isinstance(x, str) and GUIDTEXT.fullmatch('"' + x + '"'):
        return UUID.from_str(x) if x[0] < "8" else uuid.UUID(x)
    return x


def observe(data, hints, custom, full=True):
    obs = []
    text = note(obs, "export", attempt(lambda: text_of(GvasFile.read(data, hints, custom))))
    note(obs, "export with null", attempt(lambda: text_of(GvasFile.read(data, hints, custom, allow_nan=False), allow_nan=False)))
    note(obs, "write without JSON", attempt(lambda: GvasFile.read(data, hints, custom).write(custom)))
    if text is None:
        return obs
    note(obs, "write", attempt(lambda: GvasFile.load(json.loads(text)).write(custom)))
    if full:
        note(obs, "indented", attempt(lambda: text_of(GvasFile.read(data, hints, custom), indent="\t", ensure_ascii=False)))
        for how in ("upper", "bare", "braces", "urn", "short", "blank", "letters"):
            t = other_ids(text, how)
            if t != text:
                note(obs, "write " + how, attempt(lambda: GvasFile.load(json.loads(t)).write(custom)))
        note(obs, "write objects", attempt(lambda: GvasFile.load(objects(json.loads(text))).write(custom)))
        note(obs, "export of loaded", attempt(lambda: text_of(GvasFile.load(objects(json.loads(text))))))
    return obs


def document(vec):
    hints, custom = hints_of(vec[4])
    data = bytes(vec[2])
    obs = observe(data, hints, custom, THOROUGH or sum(vec[2]) % 4 == 0)
    if ops_files.chosen(data, 4):
        text = note(obs, "the converter, export", attempt(lambda: ops_files.export(data)))
        note(obs, "the converter, export with null", attempt(lambda: ops_files.export(data, "--convert-nan-to-null")))
        if text is not None:
            note(obs, "the converter, write", attempt(lambda: ops_files.encode(text)))
    return obs


def damaged(vec):
    if vec[0] == "cut":
        data = bytes(vec[1])
        hints, custom = hints_of(vec[2])
        out = []
        for i in range(0, len(data), 1 if THOROUGH else max(1, len(data) // 40)):
            out += [["cut at %d: %s" % (i, n), o] for n, o in observe(data[:i], hints, custom, False)]
        return out
    data = bytes(vec[3] if vec[0] == "blob" else vec[2])
    return observe(data, PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES, False)


def saves():
    return sorted(glob.glob(os.path.join(REPO, "tests", "testdata", "**", "*.sav"), recursive=True))


def save(arg):
    """a save the game itself wrote"""
    name, light = arg
    with open(name, "rb") as f:
        data = f.read()
    raw, kind = decompress_sav_to_gvas(data)
    obs = observe(raw, PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES, not light)
    if light:
        return obs
    some = {k: v for i, (k, v) in enumerate(PALWORLD_CUSTOM_PROPERTIES.items()) if i % 2}
    obs += [["half decoded, " + n, o] for n, o in observe(raw, PALWORLD_TYPE_HINTS, some, False)]
    obs += [["nothing decoded, " + n, o] for n, o in observe(raw, PALWORLD_TYPE_HINTS, {}, False)]
    note(obs, "container", compress_gvas_to_sav(raw, kind))
    obs.append(["type", kind])
    return obs


def guids(vec):
    import ops_guid
    return [["answers", ops_guid.guid(vec)["bad"] and "unexpected" or "expected"]]


def look(req):
    return {"document": document, "damaged": damaged, "save": save, "guid": guids}[req[0]](req[1])
