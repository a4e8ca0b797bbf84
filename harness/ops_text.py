"""Text in every place of a save."""
import json
import os
import shutil
import tempfile

from palworld_save_tools.archive import FArchiveReader, FArchiveWriter
from palworld_save_tools.commands import convert
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES

import ops_docs
import render
from ops_docs import brief, where


def text(vec):
    _, units, stored, data, node = vec
    s = render.text(units)
    stored, data = bytes(stored), bytes(data)
    bad = []
    # the archive primitives
    try:
        w = FArchiveWriter()
        w.u32(7)
        n = w.fstring(s)
        w.u32(9)
        if w.bytes() != b"\7\0\0\0" + stored + b"\x09\0\0\0":
            bad.append(["text", "written as %s" % w.bytes().hex()[:200]])
        if n != len(stored):
            bad.append(["text", "reported a size of %r, stored %d" % (n, len(stored))])
        r = FArchiveReader(b"\7\0\0\0" + stored + b"\x09\0\0\0")
        r.u32()
        got = r.fstring()
        if got != s or r.u32() != 9:
            bad.append(["text", "read as %r" % got[:100]])
        if len(stored) < 300:
            for i in range(len(stored)):
                try:
                    FArchiveReader(stored[:i]).fstring()
                    bad.append(["text", "cut text (%d of %d bytes) was read" % (i, len(stored))])
                    break
                except Exception:
                    pass
    except Exception as e:
        bad.append(["text", brief(e)])
    # the document, in memory
    a = ops_docs.conform([0, 0, vec[3], node, []])
    bad += a["bad"]
    # ... and through files
    want = render.render(node)
    d = tempfile.mkdtemp(prefix="vtext_")
    try:
        sav, js, back = (os.path.join(d, x) for x in ("a.sav", "a.sav.json", "b.sav"))
        with open(sav, "wb") as f:
            f.write(compress_gvas_to_sav(data, 0x31))
        convert.convert_sav_to_json(sav, js, minify=len(units) % 2 == 0)
        with open(js, "rb") as f:
            raw = f.read()
        got = json.loads(raw.decode("utf-8"))
        diff = render.differ(got, want)
        if diff:
            bad.append(["file", "JSON file: " + diff])
        convert.convert_json_to_sav(js, back)
        with open(back, "rb") as f:
            out = decompress_sav_to_gvas(f.read())[0]
        if out != data:
            bad.append(["file", "through files: payload changed: " + where(out, data)])
        # written by hand, unescaped where that is possible
        try:
            raw = json.dumps(render.plain(want), ensure_ascii=False).encode("utf-8")
        except UnicodeEncodeError:
            raw = None
        if raw is not None:
            with open(js, "wb") as f:
                f.write(raw)
            os.remove(back)
            convert.convert_json_to_sav(js, back)
            with open(back, "rb") as f:
                out = decompress_sav_to_gvas(f.read())[0]
            if out != data:
                bad.append(["file", "unescaped JSON file: payload differs: " + where(out, data)])
    except (Exception, SystemExit) as e:
        bad.append(["file", "through files: " + brief(e)])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"bad": [[x, "text %s: %s" % (units[:20], y)] for x, y in bad], "n": {}, "digest": a["digest"]}
