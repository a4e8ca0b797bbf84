"""The class extraction script, run on exports laid out as the model says."""
import ast
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

from ops_cli import run_here
from ops_docs import brief

REPO = os.environ["PYTHONPATH"].split(":")[0]
SCRIPT = os.path.join(REPO, "scripts", "extract_map_object_concrete_classes.py")
NAMES = ["BP_BuildObject_ItemChest", "BP_C_Thing_C", "BP_MapObject_Égg", "bp_lower_case", "BP_PalClass", "Class"]


def spell(style, s):
    return {"asis": s, "lower": s.lower(), "upper": s.upper(), "swap": s.swapcase()}[style]


def name(i):
    return NAMES[i - 1] if i <= len(NAMES) else "BP_Chain_%d_Link" % i


def native(r):
    return {"nat": lambda: r[1], "like": lambda: name(r[1]), "likeC": lambda: name(r[1]) + "_C",
            "unknown": lambda: "DEFAULT_UNKNOWN_PalMapObjectConcreteModelBase", "gone": lambda: None}[r[0]]()


def ref(r, style):
    if r[0] in ("nat", "like", "likeC"):
        return {"ObjectName": "Class'%s'" % native(r), "ObjectPath": "/Script/Pal"}
    n = "BP_NotExported" if r[0] == "gone" else name(r[1])
    return {"ObjectName": "BlueprintGeneratedClass'%s_C'" % spell(style, n), "ObjectPath": "/Game/Pal/Blueprint/X"}


_main = None


def main():
    global _main
    if _main is None:
        spec = importlib.util.spec_from_file_location("extract_script", SCRIPT)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _main = m.main
    _main()


def listing(text):
    """The dictionary printed (the last one)."""
    for line in reversed(text.strip().split("\n")):
        try:
            v = ast.literal_eval(line)
        except Exception:
            continue
        if isinstance(v, dict):
            return v
    at = text.rfind("{")
    return ast.literal_eval(text[at:].strip())


def extract(arg):
    (_, family, style, bps, listed, lacks), real = arg
    s_table, s_file, s_obj, s_ref = style
    n = len(bps)
    bad = []
    d = tempfile.mkdtemp(prefix="vext_")
    try:
        pal = os.path.join(d, "Pal", "Content", "Pal")
        tab = os.path.join(pal, "DataTable", "MapObject")
        os.makedirs(tab)
        places = [os.path.join(pal, "Blueprint", *p) for p in ((), ("MapObject",), ("MapObject", "BuildObject", "Deep"))]
        for p in places:
            os.makedirs(p)
        rows, want = {}, {}
        for i in range(1, n + 1):
            b = bps[i - 1]
            nm = name(i)
            objs = [{"Type": "ImmutableGuid", "Name": "SomethingElse"},
                    {"Type": "SimpleConstructionScript", "Name": "SimpleConstructionScript_0", "Properties": {"ConcreteModelClass": {"ObjectName": "Class'Wrong'"}}},
                    {"Type": "BlueprintGeneratedClass", "Name": spell(s_obj, nm + "_C"), "SuperStruct": ref(b["super"], s_ref), "Properties": {}},
                    {"Type": nm + "_C", "Name": spell(s_obj, "Default__" + nm + "_C"), "Properties": {"Other": 1}}]
            if b["concrete"][0] != "no":
                objs[3]["Properties"]["ConcreteModelClass"] = ref(b["concrete"], s_ref)
            if lacks[i - 1]:
                del objs[{"class": 2, "default": 3}[lacks[i - 1]]]
            if i % 2:
                objs.reverse()
            with open(os.path.join(places[i % 3], spell(s_file, nm) + ".json"), "w") as f:
                json.dump(objs, f)
            for tag in ("Obj%d" % i, "Second_OBJ%d" % i):
                rows[tag] = {"BlueprintClassSoft": {"AssetPathName": "/Game/Pal/Blueprint/%s.%s_C" % (nm, nm)}, "BlueprintClassName": spell(s_table, nm)}
                if listed[i - 1][0] != "left out":
                    want[tag.lower()] = native(listed[i - 1])
        with open(os.path.join(places[1], "notes.txt"), "w") as f:
            f.write("not a blueprint")
        rows["Absent"] = {"BlueprintClassSoft": {"AssetPathName": "/Game/X.X_C"}, "BlueprintClassName": "BP_NotExported"}
        rows["Empty"] = {"BlueprintClassSoft": {"AssetPathName": "None"}, "BlueprintClassName": name(1)}
        with open(os.path.join(tab, "DT_MapObjectMasterDataTable.json"), "w") as f:
            json.dump([{"Type": "DataTable", "Rows": rows}], f)
        if real:
            p = subprocess.run([sys.executable, SCRIPT, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=50)
            code, said = p.returncode, p.stdout.decode("utf8", "replace")
        else:
            code, said = run_here(main, [d], [], "utf8")
        what = "blueprints %s, missing %s, spelling %s" % (json.dumps(bps), [x for x in lacks if x] and lacks, style)
        if code:
            bad.append(["extract", "%s: failed: %s" % (what, said[-300:])])
        else:
            try:
                got = listing(said)
            except Exception as e:
                return {"bad": [["extract", "%s: no listing: %s" % (what, brief(e))]], "n": {}}
            if set(got) != set(want):
                bad.append(["extract", "%s: lists %s, expected %s" % (what, sorted(got), sorted(want))])
            else:
                for k in want:
                    # a chain that leaves the export has no native class
                    if want[k] is not None and got[k] != want[k]:
                        bad.append(["extract", "%s: %s is listed as %r, expected %r" % (what, k, got[k], want[k])])
                        break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"bad": bad, "n": {"objects": len(want)}}
