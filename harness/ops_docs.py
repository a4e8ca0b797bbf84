"""Conformance of documents: the real reader, exporter and writer against the
stored form and the export the specification gives."""
import hashlib
import json
import re

from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

import ops_files
import render


def hints_of(h):
    """The type hints of a vector; an empty list stands for the tool's own tables."""
    if not h:
        return PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES
    return {p: render.text(t) for p, t in h}, {}


def to_text(doc):
    return json.dumps(doc.dump(), cls=CustomEncoder)


def brief(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def where(a, b):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return "lengths %d and %d, first difference at %d: %s / %s" % (
        len(a), len(b), i, a[max(0, i - 8):i + 24].hex(), b[max(0, i - 8):i + 24].hex())


def conform(vec):
    """Aspects that fail, and a digest of everything observed."""
    suite, k, data, node, h = vec
    return conforms(bytes(data), render.render(node), h)


def bulk(arg):
    """A document of one very long list: conforms, and is written the same."""
    (suite, k, p0, p1, u, suffix, node, h), count, most = arg
    n = min(count // 3 + 1, max(most // len(u), 700))
    a, b = (int.from_bytes(bytes(p), "little") for p in (p0, p1))
    data = (a + n * (b - a)).to_bytes(len(p0), "little") + bytes(u) * n + bytes(suffix)
    render.TIMES = n
    want = render.render(node)
    return conforms(data, want, h)


def conforms(data, want, h):
    hints, custom = hints_of(h)
    bad = []
    seen = hashlib.sha256()
    text = None
    try:
        text = to_text(GvasFile.read(data, hints, custom))
    except Exception as e:
        bad.append(["read", "reading failed: " + brief(e)])
    if text is not None:
        seen.update(text.encode())
        got = json.loads(text)
        d = render.differ(got, want)
        if d:
            bad.append(["export", d])
        try:
            back = GvasFile.load(json.loads(text)).write(custom)
            seen.update(back)
            if back != data:
                bad.append(["roundtrip", "payload changed: " + where(back, data)])
        except Exception as e:
            bad.append(["roundtrip", "writing back failed: " + brief(e)])
    if not h and ops_files.chosen(data, 10):
        try:
            text = ops_files.export(data)
            d = render.differ(json.loads(text), want)
            if d:
                bad.append(["export", "the converter: " + d])
            back = ops_files.encode(text)
            if back != data:
                bad.append(["roundtrip", "the converter: payload changed: " + where(back, data)])
        except Exception as e:
            bad.append(["read", "the converter: " + brief(e)])
    try:
        out = GvasFile.load(json.loads(json.dumps(render.plain(want)))).write(custom)
        seen.update(out)
        if out != data:
            bad.append(["encode", "encoded differently: " + where(out, data)])
        else:
            again = json.loads(to_text(GvasFile.read(out, hints, custom)))
            d = render.differ(again, want)
            if d:
                bad.append(["encode", "does not read back as written: " + d])
    except Exception as e:
        bad.append(["encode", "encoding failed: " + brief(e)])
    return {"bad": bad, "digest": seen.hexdigest()}


# -- hand-written documents ----------------------------------------------------
def shuffled(v, r):
    """The same document with the members of unordered objects in another order."""
    if isinstance(v, render.Ordered):
        return {k: shuffled(x, r) for k, x in v.items()}
    if isinstance(v, dict):
        ks = list(v)
        r.shuffle(ks)
        return {k: shuffled(v[k], r) for k in ks}
    if isinstance(v, list):
        return [shuffled(x, r) for x in v]
    return render.plain(v)


def by_hand(v):
    """Null ids left out, whole numbers written without a fraction."""
    if isinstance(v, render.Ordered):
        return {k: by_hand(x) for k, x in v.items()}
    if isinstance(v, dict):
        prop = "type" in v and "value" in v
        return {k: by_hand(x) for k, x in v.items() if not (prop and k == "id" and x is None)}
    if isinstance(v, list):
        return [by_hand(x) for x in v]
    if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v) and (v != 0 or str(v) == "0.0"):
        return int(v)
    return render.plain(v)


ID = re.compile("[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
LOOKALIKE = "0f0e0d0c-0b0a-0908-0706-050403020100"  # Gen's text that only looks like an identifier


def capitals(v):
    """Identifiers spelled in capitals."""
    if isinstance(v, render.Ordered):
        return {k: capitals(x) for k, x in v.items()}
    if isinstance(v, dict):
        return {k: capitals(x) for k, x in v.items()}
    if isinstance(v, list):
        return [capitals(x) for x in v]
    if isinstance(v, str) and v != LOOKALIKE and ID.fullmatch(v):
        return v.upper()
    return render.plain(v)


def encode_variants(vec):
    """Writing the document however it was put on paper gives the prescribed payload."""
    suite, k, data, node, h = vec
    data = bytes(data)
    hints, custom = hints_of(h)
    want = render.render(node)
    bad = []
    import random
    docs = [("as exported", render.plain(want)), ("members reordered", shuffled(want, random.Random(len(data) + k))),
            ("written by hand", by_hand(want))]
    if k == 0 or len(data) % 4 == 0:
        docs.append(("identifiers in capitals", capitals(want)))
    for name, doc in docs:
        try:
            text = json.dumps(doc, indent="\t" if name == "members reordered" else None, ensure_ascii=name != "written by hand")
            if not h and ops_files.chosen(data, 10):
                try:
                    out = ops_files.encode(text)
                except UnicodeEncodeError:  # text that has to be escaped
                    out = GvasFile.load(json.loads(text)).write(custom)
            else:
                out = GvasFile.load(json.loads(text)).write(custom)
        except Exception as e:
            bad.append(["encode", "%s: encoding failed: %s" % (name, brief(e))])
            continue
        if out != data:
            bad.append(["encode", "%s: encoded differently: %s" % (name, where(out, data))])
    if not bad:
        try:
            d = render.differ(json.loads(to_text(GvasFile.read(data, hints, custom))), want)
            if d:
                bad.append(["encode", "reads back as another document: " + d])
        except Exception as e:
            bad.append(["encode", "does not read back: " + brief(e)])
    return {"bad": bad, "digest": ""}


def encode_old(vec):
    suite, k, data, node, h = vec
    bad = []
    try:
        out = GvasFile.load(json.loads(json.dumps(render.plain(render.render(node))))).write(PALWORLD_CUSTOM_PROPERTIES)
        if out != bytes(data):
            bad.append(["encode", "export of an earlier version: encoded differently: " + where(out, bytes(data))])
    except Exception as e:
        bad.append(["encode", "export of an earlier version: encoding failed: " + brief(e)])
    return {"bad": bad, "digest": ""}


# -- non-finite numbers ----------------------------------------------------------
def nonfinite(vec):
    suite, k, data, node, nulled, data2, h = vec
    data, data2 = bytes(data), bytes(data2)
    hints, custom = hints_of(h)
    bad = []
    try:
        text = to_text(GvasFile.read(data, hints, custom))
        d = render.differ(json.loads(text), render.render(node))
        if d:
            bad.append(["keep", "by default: " + d])
        out = GvasFile.load(json.loads(text)).write(custom)
        if out != data:
            bad.append(["keep", "by default: payload changed: " + where(out, data)])
    except Exception as e:
        bad.append(["keep", "by default: " + brief(e)])
    try:
        doc = GvasFile.read(data, hints, custom, allow_nan=False)
        try:
            text = json.dumps(doc.dump(), cls=CustomEncoder, allow_nan=False)
        except ValueError as e:
            bad.append(["null", "null option: not strictly valid JSON: " + brief(e)])
            text = None
        if text is not None:
            d = render.differ(json.loads(text), render.render(nulled))
            if d:
                bad.append(["null", "null option: " + d])
            out = GvasFile.load(json.loads(text)).write(custom)
            if out != data2:
                bad.append(["null", "null option: written back differently: " + where(out, data2)])
    except Exception as e:
        bad.append(["null", "null option: " + brief(e)])
    if not h and ops_files.chosen(data, 8):
        for aspect, options, want, stored in (("keep", [], node, data), ("null", ["--convert-nan-to-null"], nulled, data2)):
            try:
                text = ops_files.export(data, *options)
                d = render.differ(json.loads(text), render.render(want))
                if d:
                    bad.append([aspect, "the converter: " + d])
                out = ops_files.encode(text)
                if out != stored:
                    bad.append([aspect, "the converter: written back differently: " + where(out, stored)])
            except Exception as e:
                bad.append([aspect, "the converter: " + brief(e)])
        try:
            text, out = ops_files.called(data)
            d = render.differ(json.loads(text), render.render(node))
            if d:
                bad.append(["keep", "the converter's functions: " + d])
            if out != data:
                bad.append(["keep", "the converter's functions: written back differently: " + where(out, data)])
        except Exception as e:
            bad.append(["keep", "the converter's functions: " + brief(e)])
    return {"bad": bad, "digest": ""}


# -- selections --------------------------------------------------------------------
PATHS = list(PALWORLD_CUSTOM_PROPERTIES)
SPEC_PATHS = [
    ".worldSaveData.GroupSaveDataMap",
    ".worldSaveData.CharacterSaveParameterMap.Value.RawData",
    ".worldSaveData.ItemContainerSaveData.Value.RawData",
    ".worldSaveData.ItemContainerSaveData.Value.Slots.Slots.RawData",
    ".worldSaveData.CharacterContainerSaveData.Value.Slots.Slots.RawData",
    ".worldSaveData.DynamicItemSaveData.DynamicItemSaveData.RawData",
    ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.RawData",
    ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData",
    ".worldSaveData.BaseCampSaveData.Value.RawData",
    ".worldSaveData.BaseCampSaveData.Value.WorkerDirector.RawData",
    ".worldSaveData.BaseCampSaveData.Value.WorkCollection.RawData",
    ".worldSaveData.BaseCampSaveData.Value.ModuleMap",
    ".worldSaveData.WorkSaveData",
    ".worldSaveData.MapObjectSaveData",
]


def selections(vec):
    suite, k, data, sels = vec
    data = bytes(data)
    bad = []
    missing = set(SPEC_PATHS) - set(PATHS)
    if missing:
        bad.append(["select", "unknown paths: %s" % sorted(missing)])
    for idx, node in sels:
        names = [SPEC_PATHS[i - 1] for i in idx]
        try:
            custom = {n: PALWORLD_CUSTOM_PROPERTIES[n] for n in names if n in PALWORLD_CUSTOM_PROPERTIES}
            text = to_text(GvasFile.read(data, PALWORLD_TYPE_HINTS, custom))
            d = render.differ(json.loads(text), render.render(node))
            if d:
                bad.append(["select", "decoding only %s: %s" % (names, d)])
                continue
            out = GvasFile.load(json.loads(text)).write(PALWORLD_CUSTOM_PROPERTIES)
            if out != data:
                bad.append(["select", "decoding only %s: payload changed: %s" % (names, where(out, data))])
        except Exception as e:
            bad.append(["select", "decoding only %s: %s" % (names, brief(e))])
    return {"bad": bad, "digest": ""}


# -- the selection as it is typed ----------------------------------------------------
def choose(vec):
    """--custom-properties given as text, the converter run on files."""
    import contextlib
    import io
    import os
    import shutil
    import sys
    import tempfile
    from palworld_save_tools.commands import convert
    from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas
    suite, data, exports, cases = vec
    data = bytes(data)
    wants = [render.render(e) for e in exports]
    bad = []
    d = tempfile.mkdtemp(prefix="vsel_")
    argv = sys.argv
    try:
        a, j, b = (os.path.join(d, x) for x in ("a.sav", "a.json", "b.sav"))
        with open(a, "wb") as f:
            f.write(compress_gvas_to_sav(data, 0x32))
        written = {}
        for typed, i in cases:
            what = "--custom-properties %r" % typed[0] if typed else "no selection"
            try:
                sys.argv = ["prog", a, "--output", j, "--force", "--minify-json"] + (["--custom-properties=" + typed[0]] if typed else [])
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    convert.main()
            except SystemExit as e:
                if e.code:
                    bad.append(["select", "%s: exited %s" % (what, e.code)])
                    break
            except Exception as e:
                bad.append(["select", "%s: %s" % (what, brief(e))])
                break
            with open(j, encoding="utf8") as f:
                text = f.read()
            diff = render.differ(json.loads(text), wants[i - 1])
            if diff:
                bad.append(["select", "%s: %s" % (what, diff)])
                break
            if text not in written:
                try:
                    sys.argv = ["prog", j, "--output", b, "--force"]
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        convert.main()
                except (SystemExit, Exception) as e:
                    if not isinstance(e, SystemExit) or e.code:
                        bad.append(["select", "%s: converting back: %s" % (what, brief(e))])
                        break
                with open(b, "rb") as f:
                    written[text] = decompress_sav_to_gvas(f.read())[0]
                if written[text] != data:
                    bad.append(["select", "%s: payload changed: %s" % (what, where(written[text], data))])
                    break
    finally:
        sys.argv = argv
        shutil.rmtree(d, ignore_errors=True)
    return {"bad": bad, "n": {"typed selections": len(cases)}}
