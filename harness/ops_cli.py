"""The converter's command line, run as the model says, in a scratch directory."""
import io
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import zlib

from palworld_save_tools.commands import convert
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas

import render
from ops_docs import brief, where

NAMES = ["option", "world", "local", "player", "base", "store", "nan"]
DOCS = {}


def setup(vecs):
    """The documents: payload, export, export with nulls, payload after nulls."""
    for name, v in zip(NAMES, vecs):
        _, _, data, node, nulled, data2, _ = v
        DOCS[name] = (bytes(data), render.render(node), render.render(nulled))
        if name == "nan":
            DOCS["nanned"] = (bytes(data2), all_nan(render.render(node)), render.render(nulled))
        elif bytes(data2) != bytes(data):
            raise AssertionError(name)


def all_nan(v):
    if isinstance(v, dict):
        return type(v)((k, all_nan(x)) for k, x in v.items())
    if isinstance(v, list):
        return [all_nan(x) for x in v]
    return math.nan if isinstance(v, float) and not math.isfinite(v) else v


def pack(data, ty):
    z = zlib.compress(data)
    return len(data).to_bytes(4, "little") + len(z).to_bytes(4, "little") + b"PlZ" + bytes([ty]) + (zlib.compress(z) if ty == 0x32 else z)


def content(c):
    if c[0] == "sav":
        return pack(DOCS[c[1]][0], c[2])
    if c[0] == "json":
        return json.dumps(render.plain(DOCS[c[1]][2 if c[2] else 1]), indent=2).encode()
    kind = c[1]
    sav = pack(DOCS["option"][0], 0x31)
    js = json.dumps(render.plain(DOCS["option"][1]))
    if kind == "empty":
        return b""
    if kind == "text":
        return b"some text of the user's\n"
    if kind == "cut":
        return sav[:len(sav) // 2]
    if kind == "flipped":
        return sav[:60] + bytes([sav[60] ^ 0x55]) + sav[61:]
    if kind == "oldtype":
        return sav[:11] + b"\x30" + sav[12:]
    if kind == "brokenjson":
        return b'{"header": {"magic": '
    if kind == "cutjson":
        return js[:-5].encode()
    if kind == "notadocument":
        return b'{"properties": {}, "trailer": "AAAAAA=="}'
    if kind == "badvalue":
        d = json.loads(js)
        d["properties"]["Last"] = {"id": None, "value": "no number", "type": "IntProperty"}
        return json.dumps(d).encode()
    if kind == "zeros":
        return b"\0" * 200
    if kind == "foreign":
        return pack(b"XXXX" + DOCS["option"][0][4:], 0x31)
    if kind == "raw":
        return DOCS["option"][0]
    raise KeyError(kind)


def snapshot():
    out, dirs = {}, set()
    for root, ds, fs in os.walk("."):
        for d in ds:
            dirs.add(os.path.normpath(os.path.join(root, d)))
        for f in fs:
            p = os.path.normpath(os.path.join(root, f))
            with open(p, "rb") as h:
                out[p] = h.read()
    return out, dirs


def run_here(main, args, answers, encoding="ascii", errors="strict"):
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv, sys.stdin = ["prog"] + args, io.StringIO("".join(a + "\n" for a in answers))
    raw = io.BytesIO()
    # by default the narrowest of outputs
    sys.stdout = io.TextIOWrapper(raw, encoding=encoding, errors=errors, write_through=True)

    def said():
        return raw.getvalue().decode(encoding, "replace")
    try:
        main()
        return 0, said()
    except SystemExit as e:
        code = e.code
        return (0 if code is None else code if isinstance(code, int) else 1), said()
    except BaseException as e:
        return 1, said() + brief(e)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old


def calling(c):
    """The functions behind the command line, with their defaults for whatever is not asked for."""
    def go():
        ask = {"force": True} if c["force"] else {}
        if c["dir"] == "json":
            if c["minify"]:
                ask["minify"] = True
            if c["nulls"]:
                ask["allow_nan"] = False
            convert.convert_sav_to_json(named(c["in"]), named(c["out"]), **ask)
        else:
            convert.convert_json_to_sav(named(c["in"]), named(c["out"]), **ask)
    return go


def run_real(module, args, answers):
    env = dict(os.environ, PYTHONIOENCODING="ascii") if not "".join(args).isascii() else None
    p = subprocess.run([sys.executable, "-m", module] + args, input="".join(a + "\n" for a in answers).encode(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=50)
    return p.returncode, p.stdout.decode("utf8", "replace")


def wrong_content(c, data, minify):
    """None if data is the content c."""
    doc = DOCS[c[1]]
    if c[0] == "sav":
        try:
            p, ty = decompress_sav_to_gvas(data)
        except Exception as e:
            return "is no save: " + brief(e)
        if ty != c[2]:
            return "has save type 0x%02x, expected 0x%02x" % (ty, c[2])
        return None if p == doc[0] else "holds another payload: " + where(p, doc[0])
    try:
        text = data.decode("utf8")
        got = json.loads(text)
    except Exception as e:
        return "is no JSON: " + brief(e)
    d = render.differ(got, doc[2 if c[2] else 1])
    if d:
        return "holds another document: " + d
    if minify and "\n" in text.strip():
        return "is not minified"
    if not minify and "\n" not in text.strip():
        return "is not indented"
    return None


def named(n):
    """Cli's names: a letter and a byte an ASCII output cannot show."""
    return n.replace("@", "\u65e5").replace("%", "\udcff")


def cli(arg):
    vec, mode = arg
    _, family, start, hist = vec
    if not DOCS:
        raise AssertionError("no documents")
    bad = []
    start = [(named(n), c) for n, c in start]
    hist = [dict(h, args=[named(a) for a in h["args"]], changed=named(h["changed"]), fs=[(named(n), c) for n, c in h["fs"]]) for h in hist]
    d = tempfile.mkdtemp(prefix="vcli_")
    try:
        os.chdir(d)
        for n, c in start:
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(n), exist_ok=True)
            if c[0] == "dir":
                os.mkdir(n)
            else:
                with open(n, "wb") as f:
                    f.write(content(c))
        for h in hist:
            before, dirs = snapshot()
            if mode == "call" and h["call"]["dir"]:
                code, said = run_here(calling(h["call"]), h["args"], h["answers"], errors="backslashreplace")
            elif mode == "real":
                code, said = run_real("palworld_save_tools.commands.convert", h["args"], h["answers"])
            else:
                code, said = run_here(convert.main, h["args"], h["answers"])
            after, dirs2 = snapshot()
            what = "%s%s, answers %s, files %s: exit status %s" % ("called from Python, as with " if mode == "call" and h["call"]["dir"] else "", h["args"], h["answers"], {n: "/".join(map(str, c)) for n, c in start}, code)
            out = os.path.normpath(h["changed"]) if h["changed"] else None
            changed = sorted(n for n in before if after.get(n) != before[n])
            new = sorted(n for n in after if n not in before)
            # what was not allowed to be touched
            for n in changed:
                if n != out:
                    bad.append(["damage", "%s: file %s was %s" % (what, n, "removed" if n not in after else "changed")])
            if h["status"] != "zero" and new:
                bad.append(["damage", "%s: file %s was made" % (what, new)])
            if len(new) > 1 or dirs2 != dirs:
                bad.append(["damage", "%s: made %s %s" % (what, new, sorted(dirs2 ^ dirs))])
            # what had to be done
            if h["status"] == "zero":
                c = dict((n, c) for n, c in h["fs"])[h["changed"]]
                if code != 0:
                    bad.append(["result", "%s: expected success (%s)" % (what, said[-200:])])
                elif out not in after:
                    bad.append(["result", "%s: no output %s (new: %s)" % (what, out, new)])
                else:
                    w = wrong_content(c, after[out], h["minify"])
                    if w:
                        bad.append(["result", "%s: output %s %s" % (what, out, w)])
                if [n for n in new if n != out]:
                    bad.append(["result", "%s: wrote %s, expected %s" % (what, new, out)])
            elif h["status"] == "nonzero" and code == 0:
                bad.append(["result", "%s: expected failure" % what])
            if bad:
                break
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    return {"bad": bad, "n": {"runs": len(hist)}}
