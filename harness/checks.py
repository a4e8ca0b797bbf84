"""One function per property."""
import tlc
import recorded
from core import Given, docs_run

# the document state machine: suite -> edits
STRUCT = ["work1", "workall", "concrete", "camp", "item", "module", "group", "mapobj", "work2", "character", "slots", "foliage"]
BULK = [s for s in STRUCT if s != "foliage"]
STRUCT0 = ["names", "nameslower", "namesmixed", "pairs", "pairswork", "world"]
UNKNOWN0 = ["unkmodule", "unkmap", "unkitem", "unkwork"]
GENERIC0 = ["counts", "big", "maps", "header", "decoys"]


def doc_judge(c, aspects):
    def judge(vec, answers):
        c.count("suite " + vec[0])
        for config, a in answers.items():
            for aspect, what in a["bad"]:
                if aspect in aspects:
                    c.violation("%s (%s, suite %s, configuration %s)" % (what, aspect, vec[0], config),
                                {"suite": vec[0], "edits": vec[1], "payload": bytes(vec[2]).hex(), "vector": vec})
                    break
        if vec[1] == 0:
            c.sample({"suite": vec[0], "payload_bytes": len(vec[2]), "payload_head": bytes(vec[2][:64]).hex()})
    return judge


def sims(c, n_quick, n_thorough, depth=13, mode="std", suite="sim"):
    n = n_thorough if c.tier == "thorough" else n_quick
    par = 6 if c.tier == "thorough" else 2
    return [docs_run(suite, depth - 1, random=(n // par, depth), seed=c.seed * 1000 + i, mode=mode) for i in range(par)]


def texts(c):
    return "all" if c.tier == "thorough" else "short"


GENERIC3 = ["generic0", "generic1", "generic2"]


def lengths(c, struct=True, generic=True):
    """Every list and text at many lengths, many structures side by side."""
    q = c.tier == "quick"
    runs = [docs_run("many" if q else "manymore", 0)] if struct else []
    runs += [docs_run(s, 1, "grow" if q else "growmore") for s in STRUCT] if struct else []
    runs += [docs_run(s, 1, "growfew" if q else "growmore") for s in GENERIC3] if generic else []
    runs += [docs_run("maps", 1, "growfew")] if generic and not q else []
    return runs


def bulk(c, suites, aspects):
    """Every list of the suites with very many elements (fewer where elements are large)."""
    count, most = (100002, 4 << 20) if c.tier == "quick" else (300003, 30 << 20)

    def run(suite):
        return lambda: tlc.Run("Bulk", {"SUITE": suite, "K": 0, "RANDOM": False, "TEXTS": "short", "MODE": "std", "CHECKAT": 100},
                               init="BulkInit", next="BulkNext", invariants=["Law"], heap="4g")

    def judge(vec, answers):
        c.count("bulk " + vec[0])
        for config, a in answers.items():
            for aspect, what in a["bad"]:
                if aspect in aspects:
                    c.violation("up to %d elements in a list: %s (%s, suite %s, configuration %s)" % (count, what, aspect, vec[0], config),
                                {"suite": vec[0], "list": vec[1], "payload_head": bytes(vec[2]).hex(), "block": bytes(vec[4]).hex()})
                    break
        c.sample({"suite": vec[0], "list": vec[1], "elements": count, "block_bytes": len(vec[4])})
    c.drive([run(s) for s in suites], "ops_docs:bulk", judge, timeout=300, arg=lambda v: [v, count, most])


def c01(c):
    runs = lengths(c, generic=c.tier != "quick")
    runs += [docs_run(s, 0) for s in GENERIC0 + UNKNOWN0 + STRUCT0[3:]]
    runs += [docs_run(s, 1, texts(c)) for s in ["generic"] + STRUCT]
    runs += sims(c, 60, 3000)
    if c.tier != "quick":
        runs += recorded.runs({"whole", "map", "array"}, False)
    c.drive(runs, "ops_docs:conform", doc_judge(c, {"read", "roundtrip"}))
    bulk(c, ["generic"] + BULK + (["maps"] if c.tier != "quick" else []), {"read", "roundtrip"})


def c02(c):
    runs = lengths(c, struct=False) + [docs_run("generic", 1)] + [docs_run(s, 0) for s in GENERIC0]
    runs += sims(c, 200, 4000, suite="simgeneric")
    runs += recorded.runs({"whole"}, c.tier == "quick")
    c.drive(runs, "ops_docs:conform", doc_judge(c, {"read", "export"}))
    bulk(c, ["generic"] + (["maps"] if c.tier != "quick" else []), {"read", "export"})


def c03(c):
    runs = lengths(c, generic=False) + [docs_run(s, 1, texts(c)) for s in STRUCT] + [docs_run(s, 0) for s in STRUCT0]
    runs += sims(c, 30, 3000, suite="simstruct")
    runs += recorded.runs({"map", "array"}, c.tier == "quick")
    c.drive(runs, "ops_docs:conform", doc_judge(c, {"read", "export"}))
    bulk(c, BULK, {"read", "export"})


def c04(c):
    runs = [docs_run(s, 1, texts(c)) for s in ["generic"] + STRUCT] + [docs_run(s, 0) for s in ["counts", "world", "pairs", "unkwork", "big"]]
    runs += sims(c, 30, 3000)
    runs += lengths(c, generic=c.tier != "quick")
    c.drive(runs, "ops_docs:encode_variants", doc_judge(c, {"encode"}))
    runs = [docs_run(s, 1, "short", mode="old") for s in ["work1", "work2"] + (["workall"] if c.tier == "thorough" else [])]
    runs += [docs_run("pairswork", 0, mode="old")]
    c.drive(runs, "ops_docs:encode_old", doc_judge(c, {"encode"}))
    bulk(c, ["generic"] + BULK, {"encode"})


def c05(c):
    runs = [docs_run(s, 0) for s in UNKNOWN0]
    c.drive(runs, "ops_docs:conform", doc_judge(c, {"read", "export", "roundtrip", "encode"}))


def c09(c):
    runs = [docs_run("selworld", 0, mode="sel", seed=c.seed + i) for i in range(60 if c.tier == "thorough" else 3)]
    runs += [docs_run(s, 0, mode="sel") for s in ["unkmodule", "unkmap", "unkwork", "decoys", "generic"]]
    c.drive(runs, "ops_docs:selections", doc_judge(c, {"select"}))
    c.drive([docs_run("choose", 0, mode="choose")], "ops_docs:choose", generic_judge(c, "ops_docs:choose"), configs=("fast",), per_config=6)


def c10(c):
    runs = [docs_run(s, 1, "floats", mode="null") for s in ["generic", "floatmaps"] + STRUCT]
    runs += [docs_run("unkitem", 0, mode="null")]
    n = 300 if c.tier == "thorough" else 20
    runs += [docs_run("simstruct", 12, "floats", random=(n, 13), seed=c.seed * 100 + i, mode="null") for i in range(2)]
    c.drive(runs, "ops_docs:nonfinite", doc_judge(c, {"keep", "null"}))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C09": c09, "C10": c10}


def generic_judge(c, describe, kind=lambda v: str(v[0])):
    def judge(vec, answers):
        c.count(kind(vec))
        for config, a in answers.items():
            for key, n in a.get("n", {}).items():
                c.count(key, n)
            for aspect, what in a["bad"]:
                c.violation("%s (configuration %s)" % (what, config), {"vector": vec, "op": describe})
                break
        c.sample(str(vec)[:300])
    return judge


def damage_runs(c):
    q = c.tier == "quick"
    base = {"RANDOM": False, "TEXTS": "short", "MODE": "bytes"}

    def run(suite, k, fam):
        return lambda: tlc.Run("Damage", dict(base, SUITE=suite, K=k), init=fam + "Init", next=fam + "Next",
                               invariants=[fam + "Sound", fam + "Emit"])
    runs = [run("none", i, "Blob") for i in (4, 3, 1, 2)]
    runs += [run("none", 0, "Foreign")]
    runs += [run(s, 0, "Cut") for s in ["cutgeneric", "cutparts"] + ([] if q else ["maps", "pairs", "unkmap", "unkitem"])]
    return runs


def c06(c):
    c.drive(damage_runs(c), "ops_damage:dispatch", generic_judge(c, "ops_damage:dispatch"), timeout=120)


CHECKS["C06"] = c06


def sav_run(family, k, payloads):
    return lambda: tlc.Run("Palsav", {"FAMILY": family, "K": k, "PAYLOADS": payloads}, invariants=["Undamaged", "Consistent", "Emit"])


def c07(c):
    q = c.tier == "quick"
    c.drive([sav_run("cycle", 3 if q else 5, "all")], "ops_sav:cycle", generic_judge(c, "ops_sav:cycle"), configs=("fast",), per_config=6)


def c08(c):
    q = c.tier == "quick"
    c.drive([sav_run("faults", 1, "all"), sav_run("faults", 2, "one" if q else "some")], "ops_sav:faults",
            generic_judge(c, "ops_sav:faults"), configs=("fast",), per_config=6)
    c.drive([sav_run("cycle", 0, "some")], "ops_sav:every_byte", generic_judge(c, "ops_sav:every_byte"), configs=("fast",), per_config=6)


CHECKS.update(C07=c07, C08=c08)


def c11(c):
    q = c.tier == "quick"
    base = {"SUITE": "none", "RANDOM": False, "MODE": "std"}

    def run(fam, k, alphabet):
        return lambda: tlc.Run("Text", dict(base, K=k, TEXTS=alphabet), init=fam + "Init", next=fam + "Next",
                               invariants=["TextFaithful", "TextEmit"], heap="4g")
    runs = [run("Long", 1, "wide"), run("Long", 0, "wide"), run("Text", 2, "wide"), run("Text", 3, "narrow")]
    if not q:
        runs += [run("Text", 3, "wide"), run("Text", 4, "narrow")]
    c.drive(runs, "ops_text:text", generic_judge(c, "ops_text:text"))


CHECKS.update(C11=c11)


def c12(c):
    q = c.tier == "quick"
    inv = ["Injective", "Involution", "Emit"]
    runs = [lambda: tlc.Run("Guid", {"K": 0, "VALUES": "near"}, init="InitAll", next="NextNone", invariants=inv),
            lambda: tlc.Run("Guid", {"K": 2, "VALUES": "few" if q else "some"}, invariants=inv)]
    if not q:
        runs += [lambda: tlc.Run("Guid", {"K": 3, "VALUES": "few"}, invariants=inv)]
    c.drive(runs, "ops_guid:guid", generic_judge(c, "ops_guid:guid"))


CHECKS.update(C12=c12)


def bank(c, runs):
    """Pairs of documents one edit apart, from the document state machine."""
    pairs = []
    for make in runs:
        run, prev = make(), None
        try:
            for vec in run:
                if vec[4]:
                    continue
                if prev is not None and vec[1] == prev[1] + 1 and vec[0] == prev[0]:
                    pairs.append([prev[2], vec[2], prev[3], vec[3]])
                prev = vec
        finally:
            run.close()
            c.states += run.states
            c.transitions += run.transitions
    return pairs


def c13(c):
    import random
    q = c.tier == "quick"
    n = 25 if q else 400
    mk = [docs_run(s, 5, "short", random=(n, 6), seed=c.seed * 77 + i) for i, s in enumerate(["simstruct", "sim", "simgeneric"])]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        parts = list(ex.map(lambda r: bank(c, [r]), mk))
    pairs = [p for part in parts for p in part]
    small = sorted((p for p in pairs), key=lambda p: len(p[0]))[: max(20, len(pairs) * 3 // 4)]
    c.count("document pairs", len(pairs))
    r = random.Random(c.seed)

    def run(d, k, sim=None):
        args = ["-simulate", "num=%d" % sim, "-depth", str(k + 1), "-seed", str(c.seed)] if sim else []
        return lambda: tlc.Run("Session", {"D": d, "K": k, "RANDOM": bool(sim), "SCRIPTED": False}, invariants=["Alone", "Full"],
                               properties=[] if sim else ["Isolated"], args=args)
    runs = [run(2, 3), run(1, 4), run(3, 15, 1200 if q else 12000)]
    if not q:
        runs += [run(1, 5), run(2, 4)]

    def docs(vec):
        m = max(h[1] for h in vec[1])
        return [vec[1], [r.choice(small if len(vec[1]) < 10 else pairs) for _ in range(m)]]

    inner = generic_judge(c, "ops_session:session")
    c.drive(runs, "ops_session:session", inner, arg=docs)
    # one long behaviour on every document of the exhaustive part
    script = tlc.Run("Session", {"D": 3, "K": 23, "RANDOM": False, "SCRIPTED": True}, invariants=["Alone", "Full"], properties=["Isolated"])
    (hist,) = [v[1] for v in script]

    kinds = {}

    def on(vec):
        _, a, b, ja, jb = vec
        kinds.setdefault(vec[0], []).append([a, b, ja, jb])
        return [hist, [[a, b, ja, jb], [a, b, ja, jb], [b, a, jb, ja]]]
    runs = [docs_run(s, 1, "touch", mode="pair") for s in STRUCT + (["onepart"] if q else ["onepart", "generic", "maps"])]
    c.drive(runs, "ops_session:session", generic_judge(c, "ops_session:session", lambda v: "scripted " + v[0]), arg=on)
    threads(c, pairs, small, kinds)


def threads(c, pairs, small, kinds):
    """Two documents at once, in two threads that take turns as the model says."""
    import random
    q = c.tier == "quick"
    r = random.Random(c.seed + 1)

    def scheds(parts, bursts, mode):
        run = tlc.Run("Threads", {"PARTS": parts, "BURSTS": bursts, "MODE": mode}, invariants=["Alone", "Full"], properties=["Isolated"])
        got = [v[2] for v in run]
        c.states += run.states
        c.transitions += run.transitions
        return got
    quanta = scheds(1, 1, "robin")

    def judge(vec, answers):
        c.count("threads")
        for config, a in answers.items():
            for k, n in a["n"].items():
                c.count(k, n)
            for _, what in a["bad"]:
                c.violation("%s (configuration %s)" % (what, config), {"vector": vec})
                break

    def given(reqs):
        return [lambda: Given(reqs)]
    reqs = []
    for parts, bursts in [(3, 4)] if q else [(5, 4), (3, 5)]:
        todo = scheds(parts, bursts, "bursts")
        r.shuffle(todo)
        reqs += [[parts, todo[i:i + 12], r.choice(small)] for i in range(0, len(todo), 12)]
    c.count("schedules of turns", sum(len(x[1]) for x in reqs))
    r.shuffle(quanta)

    def some(i, n):
        return [quanta[(i * n + k) % len(quanta)] for k in range(n)]
    reqs += [[1, some(i, 12), p] for i, p in enumerate(r.sample(small, min(len(small), 40)) if q else pairs)]
    c.drive(given(reqs), "ops_threads:threads", judge, timeout=400)
    # every kind of structure, alternating
    step = 15 if q else 1
    reqs = [[1, some(i, 5), p] for i, p in enumerate(p for k in sorted(kinds) for p in sorted(kinds[k], key=repr)[::step])]
    c.drive(given(reqs), "ops_threads:threads", judge, timeout=400)
    # the first conversions of a process
    step = 25 if q else 3
    reqs = [[1, some(i, 2), p] for i, p in enumerate(p for k in sorted(kinds) for p in sorted(kinds[k], key=repr)[::step])]
    c.drive(given(reqs), "ops_threads:cold", judge, timeout=400)


CHECKS.update(C13=c13)


# -- the command line ---------------------------------------------------------------
def cli_docs(c):
    run = docs_run("cli", 0, mode="null")()
    try:
        vecs = list(run)
    finally:
        run.close()
        c.states += run.states
        c.transitions += run.transitions
    order = {cls: i for i, cls in enumerate(["PalWorldOptionSaveGame", "group", "PalLocalWorldSaveGame", "PalWorldPlayerSaveGame",
                                             "PalWorldBaseInfoSaveGame", "PalGlobalPalStorageSaveGame", "nan"])}

    def rank(v):
        b = bytes(v[2])
        for name, i in order.items():
            if name == "nan":
                return i
            if name == "group" and b"GroupSaveDataMap" in b or name.encode() in b:
                return i
    vecs.sort(key=rank)
    assert len(vecs) == 7, len(vecs)
    return vecs


def cli_run(family, k=1, sim=None, seed=1):
    args = ["-simulate", "num=%d" % sim, "-depth", str(k + 1), "-seed", str(seed)] if sim else []
    return lambda: tlc.Run("Cli", {"K": k, "FAMILY": family}, invariants=["Emit"], properties=[] if sim else ["NoDamage"], args=args)


def aspects_judge(c, aspects, op):
    def judge(vec, answers):
        c.count(str(vec[1]))
        for config, a in answers.items():
            for key, n in a.get("n", {}).items():
                c.count(key, n)
            for aspect, what in a["bad"]:
                if aspect in aspects:
                    c.violation("%s (configuration %s)" % (what, config), {"vector": vec, "op": op})
                    break
        c.sample(str(vec)[:300])
    return judge


def cli_mode(i, every):
    return "real" if i % every == 0 else "call" if i % 5 == 1 else "main"


def cli_check(c, aspects):
    q = c.tier == "quick"
    runs = [cli_run("direction"), cli_run("output"), cli_run("options"), cli_run("sequence", 5, 400 if q else 20000, c.seed)]
    n = iter(range(1 << 60))
    c.drive(runs, "ops_cli:cli", aspects_judge(c, aspects, "ops_cli:cli"), configs=("fast",), per_config=8, timeout=60,
            setup=("ops_cli:setup", cli_docs(c)), arg=lambda v: [v, cli_mode(next(n), 40 if q else 15)])


def c14(c):
    cli_check(c, {"damage"})


def c15(c):
    cli_check(c, {"result"})


CHECKS.update(C14=c14, C15=c15)


def c19(c):
    q = c.tier == "quick"
    run = lambda: tlc.Run("Resave", {"SUITE": "none", "K": 0, "RANDOM": False, "TEXTS": "short", "MODE": "std"}, init="RInit", next="RNext",
                          invariants=["Truthful", "REmit"])
    n = iter(range(1 << 60))
    c.drive([run], "ops_resave:resave", generic_judge(c, "ops_resave:resave"), configs=("fast",), per_config=8,
            arg=lambda v: [v, next(n) % (20 if q else 2) == 0])


CHECKS.update(C19=c19)


def c20(c):
    q = c.tier == "quick"

    def run(fam, n):
        return lambda: tlc.Run("Extract", {"N": n, "FAMILY": fam}, invariants=["OnlyNatives", "Emit"])
    runs = [run("names", 4), run("deep", 0), run("alike", 4), run("parts", 3), run("all", 2), run("all", 3)] + ([] if q else [run("all", 4)])
    n = iter(range(1 << 60))
    c.drive(runs, "ops_extract:extract", generic_judge(c, "ops_extract:extract"), configs=("fast",), per_config=8,
            arg=lambda v: [v, next(n) % 100 == 0])


CHECKS.update(C20=c20)


def c16(c):
    q = c.tier == "quick"

    def run(family, part, others="few", **kw):
        kw.setdefault("invariants", ["Faithful", "Emit"])
        return lambda: tlc.Run("Packed", {"FAMILY": family, "OTHERS": others, "PART": part}, **kw)
    runs = [run("scaled", i, "two" if q else "few", constraint="Within") for i in range(8)]
    runs += [run("whole", i, constraint="Within") for i in range(3)]
    runs += [run("full", i, "two" if q else "few") for i in range(3)]
    runs += [run("near", i, init="NInit", next="NNext", invariants=["NEmit"]) for i in range(3)]
    runs += [run("rotation", i, init="RInit", next="RNext", invariants=["RFaithful", "REmit"]) for i in range(6)]
    c.drive(runs, "ops_packed:packed", generic_judge(c, "ops_packed:packed", lambda v: " ".join(str(x) for x in v[:3] if not isinstance(x, list))))


CHECKS.update(C16=c16)


def c17(c):
    q = c.tier == "quick"

    def run(family, w, r, sim=None, seed=0):
        args = ["-simulate", "num=%d" % sim, "-depth", str(2 * w + r + 6), "-seed", str(seed)] if sim else []
        return lambda: tlc.Run("Archive", {"FAMILY": family, "W": w, "R": r, "SEED": seed}, invariants=["ReadsBack", "InData", "Emit"], args=args)
    runs = [run("one", 1, 2), run("few", 2, 2), run("few", 1, 3), run("few", 0, 2)] + ([] if q else [run("few", 2, 3), run("few", 3, 2)])
    runs += [run("random", 6, 9, 400 if q else 10000, c.seed * 10 + i) for i in range(2 if q else 4)]
    c.drive(runs, "ops_archive:archive", generic_judge(c, "ops_archive:archive", lambda v: "%d reads" % len(v[3])))


CHECKS.update(C17=c17)


def saves_feed(kind="save", light=50000, most=1 << 30):
    """The saves the game wrote, handed over like the states of a model."""
    import glob
    import os
    import pool

    class Feed:
        states = transitions = 0

        def __iter__(self):
            for f in sorted(glob.glob(os.path.join(pool.REPO, "tests", "testdata", "**", "*.sav"), recursive=True), key=os.path.getsize, reverse=True):
                if os.path.getsize(f) < most:
                    yield [kind, [f, os.path.getsize(f) > light]]

        def close(self):
            pass
    return Feed


def c18(c):
    q = c.tier == "quick"
    configs = ("fast", "stdlib", "absent")

    def judge(vec, answers):
        c.count(vec[0] if vec[0] != "document" else "suite " + vec[1][0])
        first = answers["fast"]
        c.count("observations", len(first))
        for config in configs[1:]:
            for a, b in zip(first, answers[config]):
                if a != b:
                    c.violation("%s: %s in configuration fast, %s in configuration %s" % (a[0], a[1], b[1], config), {"vector": vec})
                    return
            if len(first) != len(answers[config]):
                c.violation("%d observations in configuration fast, %d in configuration %s" % (len(first), len(answers[config]), config), {"vector": vec})
        c.sample(str(vec)[:300])

    def tagged(tag, make):
        class Tag:
            def __init__(self):
                self.run = make()

            def __iter__(self):
                for v in self.run:
                    yield [tag, v]

            def close(self):
                self.run.close()
                self.states, self.transitions = self.run.states, self.run.transitions
        return Tag
    runs = [saves_feed(light=50000 if q else 1 << 30, most=130000 if q else 1 << 30)]
    runs += [tagged("document", docs_run(s, 0)) for s in GENERIC0 + UNKNOWN0 + ["pairs", "pairswork", "world"]]
    runs += [tagged("document", r) for s in ["generic"] + STRUCT for r in [docs_run(s, 0 if q else 1, "short")]]
    runs += [tagged("document", r) for r in sims(c, 24, 1200)]
    runs += [tagged("damaged", r) for r in damage_runs(c)[3 if q else 0:]]
    runs += [tagged("guid", lambda: tlc.Run("Guid", {"K": 1, "VALUES": "some"}, invariants=["Emit"]))]
    runs += [tagged("guid", lambda: tlc.Run("Guid", {"K": 0, "VALUES": "near"}, init="InitAll", next="NextNone", invariants=["Emit"]))]
    c.drive(runs, "ops_both:look", judge, configs=configs, per_config=2 if q else 3, timeout=240)


CHECKS.update(C18=c18)
