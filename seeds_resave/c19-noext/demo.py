import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

import os, sys, subprocess, tempfile, shutil

import json, io
from palworld_save_tools.archive import *
from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.json_tools import CustomEncoder
from palworld_save_tools.palsav import *
from palworld_save_tools.paltypes import *
def through(doc): return json.loads(json.dumps(doc, cls=CustomEncoder))

d = tempfile.mkdtemp()
try:
    raw, _ = decompress_sav_to_gvas(open("tests/testdata/WorldOption.sav", "rb").read())
    data = compress_gvas_to_sav(raw, 0x32)
    open(d + "/save", "wb").write(data)
    r = subprocess.run([sys.executable, "-m", "palworld_save_tools.commands.resave_test", d + "/save"], input=b"y\ny\n", env=dict(os.environ, PYTHONPATH=os.getcwd()), capture_output=True)
    assert open(d + "/save", "rb").read() == data
    assert r.returncode != 0
finally:
    shutil.rmtree(d)
