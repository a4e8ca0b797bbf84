"""Runs in the project's own interpreter and drives the real code of /repo.

Protocol: one JSON request per line on stdin {"op": name, "arg": ...}, one JSON
answer per line on the original stdout.  Everything the code under test prints
goes to /dev/null."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.setrecursionlimit(20000)


class Absent:
    """The optional accelerator is not installed."""
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "recordclass":
            raise ModuleNotFoundError("No module named 'recordclass'", name="recordclass")


if os.environ.get("VERIF_ABSENT"):
    sys.meta_path.insert(0, Absent())


def main():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    # as narrow as an output can be: what the code says about the data must not stop it
    sys.stdout = open(os.devnull, "w", encoding="ascii")
    sys.stderr = open(os.devnull, "w")
    inp = os.fdopen(os.dup(0), "r")
    os.dup2(null, 0)
    ops = {}
    for line in inp:
        req = json.loads(line)
        try:
            name = req["op"]
            if name not in ops:
                mod, fn = name.split(":")
                ops[name] = getattr(importlib.import_module(mod), fn)
            ans = {"ok": ops[name](req["arg"])}
        except BaseException as e:
            # raised inside the code under test, or trouble of the harness itself
            inside = any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__))
            ans = {"raised" if inside else "error": traceback.format_exc()}
        out.write(json.dumps(ans) + "\n")
        out.flush()


main()
