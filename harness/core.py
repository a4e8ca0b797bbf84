"""What every check shares: running model suites, collecting verdicts, evidence."""
import hashlib
import json
import os
import queue
import sys
import threading
import time

import pool
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "5"))


class Stop(Exception):
    pass


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.violations, self.samples, self.counts = [], [], {}
        self.notes = []
        self.lock = threading.RLock()
        self.case = {}  # what the code was asked, for --replay

    # -- verdicts ---------------------------------------------------------
    def violation(self, what, detail):
        with self.lock:
            if len(self.violations) >= MAX_VIOLATIONS:
                return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            body = json.dumps(dict({"property": self.pid, "what": what, "detail": detail}, **self.case), indent=1, default=repr)
            path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha256(body.encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write(body)
            self.violations.append((what, path))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            print("  " + what[:1000], flush=True)

    def enough(self):
        return len(self.violations) >= MAX_VIOLATIONS

    def count(self, key, n=1):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples, "counts": self.counts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d states, %d validated against the code, %d violations, %.1f s" % (
            self.pid, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0), flush=True)
        return 1 if self.violations else 0

    # -- model suites driven into the real code ----------------------------
    def drive(self, runs, op, judge, configs=("fast", "stdlib"), parallel=6, timeout=60, per_config=3, arg=lambda v: v, setup=None):
        """runs: functions that start a tlc.Run.  Every value a run hands over is
        sent to op in every configuration; judge(vec, answers by configuration)
        is called when all have answered."""
        pending, plock = {}, threading.Lock()
        ids = iter(range(1 << 60))

        def on_result(tag, config, ans):
            with plock:
                vec, answers, asked = pending[tag]
                answers[config] = ans
                if len(answers) < len(configs):
                    return
                del pending[tag]
            for c, a in answers.items():
                if "error" in a:
                    raise RuntimeError("harness: " + a["error"])
            self.case = {"ask": {"op": op, "arg": asked, "configs": list(configs), "setup": setup, "timeout": timeout}}
            raised = [a["raised"] for a in answers.values() if "raised" in a]
            hung = [c for c, a in answers.items() if "hang" in a or "died" in a]
            if hung:
                self.violation("no result (%s) in configuration %s" % (answers[hung[0]], hung[0]), vec)
            elif raised:
                self.violation("the code failed unexpectedly: " + raised[0][-600:], vec)
            else:
                judge(vec, {c: a["ok"] for c, a in answers.items()})
            self.traces += 1

        p = pool.Pool(on_result, configs, per_config, timeout, setup)
        todo = queue.Queue()
        for r in runs:
            todo.put(r)
        failures, live = [], []

        def runner():
            while not self.enough() and not failures:
                try:
                    make = todo.get_nowait()
                except queue.Empty:
                    return
                run = make()
                live.append(run)
                try:
                    for vec in run:
                        if self.enough() or failures or p.errors:
                            p.cancelled = True
                            raise Stop
                        tag = next(ids)
                        with plock:
                            asked = arg(vec)
                            pending[tag] = (vec, {}, asked)
                        p.submit(op, asked, tag)
                except Stop:
                    pass
                except BaseException as e:
                    failures.append(e)
                finally:
                    run.close()
                    with self.lock:
                        self.states += run.states
                        self.transitions += run.transitions

        ts = [threading.Thread(target=runner, daemon=True) for _ in range(parallel)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.enough():
            p.cancelled = True
        p.close()
        if failures and not self.violations:
            raise failures[0]


class Given:
    """Vectors put together beforehand, in the place of a run of the model."""
    states = transitions = 0

    def __init__(self, vecs):
        self.vecs = vecs

    def __iter__(self):
        return iter(self.vecs)

    def close(self):
        pass


def docs_run(suite, k=1, texts="all", random=None, seed=1, heap="3g", mode="std"):
    """A function starting the document state machine on a suite."""
    def start():
        args = []
        if random:
            num, depth = random
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
        return tlc.Run("Docs", {"SUITE": suite, "K": k, "RANDOM": bool(random), "TEXTS": texts, "MODE": mode},
                       invariants=["StructuresFaithful", "RoundTripAndEmit"], args=args + ["-seed", str(seed)] * (not random), heap=heap)
    return start
