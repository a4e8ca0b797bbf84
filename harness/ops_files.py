"""The converter itself, run in this process on files of a scratch directory."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile
import zlib

from palworld_save_tools.commands import convert

KINDS = (0x31, 0x32)


def pack(data, kind):
    """A container, made without the code under test."""
    once = zlib.compress(data)
    return len(data).to_bytes(4, "little") + len(once).to_bytes(4, "little") + b"PlZ" + bytes([kind]) + (
        once if kind == 0x31 else zlib.compress(once))


def unpack(sav):
    data = zlib.decompress(sav[12:])
    return zlib.decompress(data) if sav[11] == 0x32 else data


def run(*args):
    argv = sys.argv
    sys.argv = ["palworld-save-tools", *args]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            convert.main()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Exception("the converter exited with %r" % (e.code,)) from None
    finally:
        sys.argv = argv


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vfile_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def export(data, *options):
    """The text the converter makes of a payload."""
    with scratch() as d:
        a, j = os.path.join(d, "a.sav"), os.path.join(d, "a.sav.json")
        with open(a, "wb") as f:
            f.write(pack(data, KINDS[len(data) % 2]))
        run(a, *(["--minify-json"] if len(data) % 3 == 0 else []), *options)
        with open(j, "rb") as f:
            return f.read().decode("utf-8")


def encode(text):
    """The payload the converter makes of a document."""
    with scratch() as d:
        j, b = os.path.join(d, "a.json"), os.path.join(d, "b.sav")
        with open(j, "wb") as f:
            f.write(text.encode("utf-8"))
        run(j, "--output", b)
        with open(b, "rb") as f:
            return unpack(f.read())


def called(data):
    """Both conversions called from Python with nothing but the two file names: the text, and the payload it gives back."""
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        a, j, b = (os.path.join(d, x) for x in ("a.sav", "a.json", "b.sav"))
        with open(a, "wb") as f:
            f.write(pack(data, KINDS[len(data) % 2]))
        convert.convert_sav_to_json(a, j)
        convert.convert_json_to_sav(j, b)
        with open(j, "rb") as f, open(b, "rb") as g:
            return f.read().decode("utf-8"), unpack(g.read())


def chosen(data, every):
    return zlib.crc32(data) % every == 0
