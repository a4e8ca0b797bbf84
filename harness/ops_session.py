"""Several documents in one process, in the order the model gives."""
import copy
import json
import os
import shutil
import tempfile

from palworld_save_tools.commands import convert
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

import render
from ops_docs import brief, to_text, where

SNAP = (dict(PALWORLD_TYPE_HINTS), dict(PALWORLD_CUSTOM_PROPERTIES))


def tables_changed():
    if dict(PALWORLD_TYPE_HINTS) != SNAP[0]:
        return "type hints"
    if dict(PALWORLD_CUSTOM_PROPERTIES) != SNAP[1] or list(PALWORLD_CUSTOM_PROPERTIES) != list(SNAP[1]):
        return "structure table"


def norm(v):
    if isinstance(v, (tuple, list)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(v)


def same(a, b):
    return json.dumps(norm(a)) == json.dumps(norm(b))


def patched(old, new):
    """old turned into new, keeping the objects that do not change"""
    if isinstance(old, dict) and isinstance(new, dict) and list(old) == list(new):
        for k in new:
            old[k] = patched(old[k], new[k])
        return old
    if isinstance(old, dict) and isinstance(new, dict):
        was = dict(old)
        old.clear()
        for k in new:
            old[k] = patched(was[k], new[k]) if k in was else new[k]
        return old
    if isinstance(old, list) and isinstance(new, list):
        old[:] = [patched(old[i], new[i]) if i < len(old) else new[i] for i in range(len(new))]
        return old
    return old if same(old, new) else new


def session(vec):
    """vec = [history, [[payload 0, payload 1, export 0, export 1], ...]]"""
    hist, docs = vec
    pay = [[bytes(d[0]), bytes(d[1])] for d in docs]
    exp = [[render.render(d[2]), render.render(d[3])] for d in docs]
    mem, texts = {}, {}
    bad = []
    done = []
    for op, d, v in hist:
        d -= 1
        done.append("%s %d" % (op, d + 1))
        what = None
        try:
            if op in ("read0", "read1"):
                mem[d] = GvasFile.read(pay[d][v], PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES)
            elif op in ("dump", "dumpwritten"):
                texts[d] = to_text(mem[d])
                if op == "dump":
                    what = render.differ(json.loads(texts[d]), exp[d][v])
            elif op == "load":
                mem[d] = GvasFile.load(json.loads(texts[d]))
            elif op == "write":
                out = mem[d].write(PALWORLD_CUSTOM_PROPERTIES)
                if out != pay[d][v]:
                    what = "written differently: " + where(out, pay[d][v])
            elif op == "edit":
                mem[d].header = type(mem[d].header).load(patched(mem[d].header.dump(), render.plain(exp[d][v])["header"]))
                mem[d].properties = patched(mem[d].properties, render.plain(exp[d][v])["properties"])
            elif op == "readcut":
                for cut in (len(pay[d][0]) // 2, len(pay[d][0]) - 30):
                    try:
                        GvasFile.read(pay[d][0][:cut], PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES)
                    except Exception:
                        pass
            elif op == "writebroken":
                doc = render.plain(exp[d][1])
                breakleaf(doc["properties"])
                try:
                    GvasFile.load(doc).write(PALWORLD_CUSTOM_PROPERTIES)
                except Exception:
                    pass
            elif op == "selected":
                custom = {p: PALWORLD_CUSTOM_PROPERTIES[p] for p in list(PALWORLD_CUSTOM_PROPERTIES)[::2]}
                t = to_text(GvasFile.read(pay[d][0], PALWORLD_TYPE_HINTS, custom))
                out = GvasFile.load(json.loads(t)).write(PALWORLD_CUSTOM_PROPERTIES)
                if out != pay[d][0]:
                    what = "with half of the structures decoded: written differently: " + where(out, pay[d][0])
            elif op == "nulls":
                GvasFile.load(GvasFile.read(pay[d][0], PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES, allow_nan=False).dump()).write(
                    PALWORLD_CUSTOM_PROPERTIES)
            elif op == "files":
                what = files(pay[d][0], exp[d][0])
        except Exception as e:
            what = "failed: " + brief(e)
        t = tables_changed()
        if t and not what:
            what = "changed the shared table of " + t
        if what:
            bad.append(["session", "after %s: %s: %s" % (", ".join(done[:-1]) or "nothing", done[-1], what)])
            break
    return {"bad": bad, "n": {}}


def breakleaf(props):
    """The last value of the document replaced by something that cannot be written"""
    node = props
    while True:
        kids = [k for k in (node if isinstance(node, dict) else range(len(node)))
                if isinstance(node[k], (dict, list)) and node[k]]
        if not kids:
            break
        node = node[kids[-1]]
    if isinstance(node, dict) and node:
        node[list(node)[-1]] = object()
    elif node:
        node[-1] = object()


def files(payload, want):
    d = tempfile.mkdtemp(prefix="vses_")
    try:
        a, j, b = (os.path.join(d, x) for x in ("a.sav", "a.json", "b.sav"))
        with open(a, "wb") as f:
            f.write(compress_gvas_to_sav(payload, 0x31))
        convert.convert_sav_to_json(a, j)
        with open(j, encoding="utf8") as f:
            diff = render.differ(json.load(f), want)
        if diff:
            return "through files: " + diff
        convert.convert_json_to_sav(j, b)
        with open(b, "rb") as f:
            out = decompress_sav_to_gvas(f.read())[0]
        if out != payload:
            return "through files: " + where(out, payload)
    except SystemExit as e:
        return "exited %s" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
