"""The resave checker, run as the model says, in a scratch directory."""
import json
import os
import shutil
import tempfile

from palworld_save_tools.commands import resave_test
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

from ops_cli import pack, run_here, run_real, snapshot
from ops_docs import to_text


def truth(data, ty):
    """Does converting to JSON and back reproduce payload and save type?  Decided by
    the conversion itself; that it converts rightly is the matter of other properties."""
    try:
        doc = GvasFile.load(json.loads(to_text(GvasFile.read(data, PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES))))
        cls = doc.header.save_game_class_name
        want = 0x32 if "Pal.PalWorldSaveGame" in cls or "Pal.PalLocalWorldSaveGame" in cls else 0x31
        return doc.write(PALWORLD_CUSTOM_PROPERTIES) == data and want == ty
    except Exception:
        return False


def resave(arg):
    vec, real = arg
    _, (label, kind, payload, ty), (name, nargs, st_json, st_sav, answers), want = vec
    payload = bytes(payload)
    bad, n = [], {}
    d = tempfile.mkdtemp(prefix="vres_")
    try:
        os.chdir(d)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name))
        sav = pack(payload, ty)
        body = {"save": sav, "cutfile": sav[:-9], "emptyfile": b"", "textfile": b"hello there, this is some text\n",
                "badlength": (len(payload) + 1).to_bytes(4, "little") + sav[4:], "badsum": sav[:-1] + bytes([sav[-1] ^ 1])}.get(kind)
        if kind == "dir":
            os.mkdir(name)
        elif body is not None:
            with open(name, "wb") as f:
                f.write(body)
        files = {}
        for suffix, state in ((".resave.json", st_json), (".resave.sav", st_sav)):
            p = name + suffix
            if state == "dir":
                os.mkdir(p)
            elif state != "none":
                with open(p, "wb") as f:
                    if state == "copy" and suffix == ".resave.sav":
                        f.write(sav)
                    elif state == "copy":
                        f.write(to_text(GvasFile.read(payload, PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES)).encode())
                    else:
                        f.write(b"stale")
        before, dirs = snapshot()
        args = [name, "other.sav", "third.sav"][:nargs]
        code, said = run_real("palworld_save_tools.commands.resave_test", args, answers) if real else run_here(resave_test.main, args, answers)
        after, dirs2 = snapshot()
        what = "%s (%s, save type 0x%02x), files there already: %s %s, answers %s, arguments %d: exit status %s" % (
            label, kind, ty, st_json, st_sav, answers, nargs, code)
        norm = os.path.normpath(name)
        same = want["json"] and want["sav"] and truth(payload, ty)
        if same != want["same"]:
            n["conversion not as modelled"] = 1
        n["same" if same else "different or failed"] = 1
        if same and (code != 0 or "Files are the same!" not in said):
            bad.append(["resave", what + ", but the conversion reproduces the save"])
        if not same and code == 0:
            bad.append(["resave", what + ", but the conversion does not reproduce the save"])
        if not same and "Files are the same!" in said:
            bad.append(["resave", what + ", reported as the same"])
        for p in before:
            leave = {norm + ".resave.json": want["json"], norm + ".resave.sav": want["sav"]}.get(p, False)
            if after.get(p) != before[p] and not leave:
                bad.append(["resave", "%s: file %s was changed" % (what, p)])
        for p in after:
            if p not in before and p not in (norm + ".resave.json", norm + ".resave.sav"):
                bad.append(["resave", "%s: made %s" % (what, p)])
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    return {"bad": bad, "n": n}
