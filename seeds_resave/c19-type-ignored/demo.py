import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

import json, io
from palworld_save_tools.archive import *
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.palsav import *
from palworld_save_tools.paltypes import *
def through(doc): return json.loads(json.dumps(doc, cls=CustomEncoder))

import tempfile, shutil, subprocess
d = tempfile.mkdtemp()
try:
    raw, t = decompress_sav_to_gvas(open("tests/testdata/LevelMeta.sav", "rb").read())
    open(d + "/a.sav", "wb").write(compress_gvas_to_sav(raw, 0x63 - t))
    r = subprocess.run([sys.executable, "-m", "palworld_save_tools.commands.resave_test", d + "/a.sav"], capture_output=True)
    assert r.returncode != 0
finally:
    shutil.rmtree(d)
