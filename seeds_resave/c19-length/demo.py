import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

import os, sys, subprocess, tempfile, shutil

import json, io
from palworld_save_tools.archive import *
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.palsav import *
from palworld_save_tools.paltypes import *
def through(doc): return json.loads(json.dumps(doc, cls=CustomEncoder))

def run(path):
    return subprocess.run([sys.executable, "-m", "palworld_save_tools.commands.resave_test", path], stdin=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=os.getcwd()), capture_output=True)
d = tempfile.mkdtemp()
try:
    raw, _ = decompress_sav_to_gvas(open("tests/testdata/WorldOption.sav", "rb").read())
    g = GvasFile.read(raw, PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES)
    w = FArchiveWriter(); g.header.write(w); head = w.bytes()
    def prop(name, text):
        w = FArchiveWriter(); w.properties({name: {"id": None, "value": text, "type": "StrProperty"}}); return w.bytes()[:-9]
    # pad to a block, then the same property twice, each exactly two blocks long: the first is dropped
    over = len(prop("pad", "x"))  - 1
    need = -(len(head) + over) % 4096
    if need < 1: need += 4096
    pad = prop("pad", "p" * need)
    n = 8192 - (len(prop("twice", "x")) - 1)
    twice = prop("twice", "y" * n)
    end = FArchiveWriter(); end.fstring("None")
    payload = head + pad + twice + twice + end.bytes() + bytes(4)
    assert (len(head) + len(pad)) % 4096 == 0 and len(twice) == 8192
    open(d + "/a.sav", "wb").write(compress_gvas_to_sav(payload, 0x31))
    r = run(d + "/a.sav")
    assert r.returncode != 0 and b"Files are the same" not in r.stdout, r
finally:
    shutil.rmtree(d)
