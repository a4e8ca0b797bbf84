"""Two conversions in two threads of one process, taking turns as the model says.

The threads really run one at a time: each counts the lines of the code under test it
runs, and hands the turn over at the counts the schedule gives.  How many lines an
operation has is measured while its thread runs alone."""
import json
import os
import sys
import threading

from palworld_save_tools.gvas import GvasFile
from palworld_save_tools.palsav import compress_gvas_to_sav, decompress_sav_to_gvas
from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

import render
from ops_docs import brief, to_text, where
from ops_session import tables_changed

CODE = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "palworld_save_tools") + os.sep
WORK = ["unpack", "read", "dump", "load", "write", "pack"]
PATIENCE = 10  # s: a thread that waits for the other inside the code under test gets its way


class Job:
    """One thread's conversion; step() is called at every line of the code under test"""

    def __init__(self, payload, export, save_type):
        self.payload, self.export, self.save_type = payload, export, save_type
        self.bad = None
        self.step = lambda: None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CODE):
            return None
        self.step()
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.step()
        return self.line

    def run(self, begun):
        sav = compress_gvas_to_sav(self.payload, self.save_type)
        sys.settrace(self.trace)
        try:
            mem = got = None
            for i, op in enumerate(WORK):
                begun(i)
                what = None
                if op == "unpack":
                    got = decompress_sav_to_gvas(sav)
                    if got != (self.payload, self.save_type):
                        what = "unpacked differently"
                elif op == "read":
                    mem = GvasFile.read(self.payload, PALWORLD_TYPE_HINTS, PALWORLD_CUSTOM_PROPERTIES)
                elif op == "dump":
                    text = to_text(mem)
                    sys.settrace(None)
                    what = render.differ(json.loads(text), self.export)
                    sys.settrace(self.trace)
                elif op == "load":
                    mem = GvasFile.load(json.loads(text))
                elif op == "write":
                    got = mem.write(PALWORLD_CUSTOM_PROPERTIES)
                    if got != self.payload:
                        what = "written differently: " + where(got, self.payload)
                else:
                    got = compress_gvas_to_sav(got, self.save_type)
                    if got != sav:
                        what = "packed differently"
                if what:
                    self.bad = "%s: %s" % (op, what)
                    return
            begun(len(WORK))
        except Exception as e:
            self.bad = "%s: failed: %s" % (op, brief(e))
        finally:
            sys.settrace(None)


def measure(job):
    """The line counts at which the operations begin, and at which the last ends"""
    marks, n = [], [0]

    def step():
        n[0] += 1
    job.step = step
    t = threading.Thread(target=job.run, args=(lambda i: marks.append(n[0]),))
    t.start()
    t.join()
    return marks


class Turns:
    """The turn goes from one thread to the other when the running one has used up its lines"""

    def __init__(self, jobs, turns):
        self.jobs, self.turns = jobs, iter(turns)
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.free = False
        self.left = 0
        self.who = 0
        self.switches = 0
        for i, job in enumerate(jobs):
            job.step = lambda i=i: self.step(i)

    def next(self):
        for who, n in self.turns:
            if not self.done[who] and n > 0:
                self.who, self.left = who, n
                return
        self.who, self.left = (0 if not self.done[0] else 1), 1 << 60

    def step(self, i):
        self.left -= 1
        if self.left < 0 and not self.free:
            self.next()
            self.left -= 1
            if self.who != i:
                self.switches += 1
                self.go[self.who].release()
                self.wait(i)

    def wait(self, i):
        if not self.go[i].acquire(timeout=PATIENCE):
            self.free = True

    def body(self, i):
        self.wait(i)
        try:
            self.jobs[i].run(lambda k: None)
        finally:
            self.done[i] = True
            if not self.done[1 - i] and not self.free:
                self.next()
                self.go[1 - i].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        self.next()
        self.go[self.who].release()
        for t in ts:
            t.join()


def robin(q0, q1, ahead):
    yield 0, ahead
    while True:
        yield 0, q0
        yield 1, q1


def turns_once(docs, sched, turns):
    """What goes wrong when both documents are converted with these turns, and how often the turn changed"""
    bad = []
    jobs = [Job(*d) for d in docs]
    s = Turns(jobs, turns)
    s.run()
    for i, j in enumerate(jobs):
        if j.bad:
            bad.append(["threads", "two threads, turns %s (0: alternating after so many lines, the first ahead by the last number): document %d: %s" % (
                sched[:8], i + 1, j.bad)])
    t = tables_changed()
    if t:
        bad.append(["threads", "turns %s: changed the shared table of %s" % (sched[:8], t)])
    return bad, s.switches


def threads(vec):
    """vec = [parts, schedules, [payload 0, payload 1, export 0, export 1]]"""
    parts, scheds, doc = vec
    docs = [(bytes(doc[v]), render.render(doc[2 + v]), 0x31 + v) for v in (0, 1)]
    bad, n = [], 0
    alone = [Job(*d) for d in docs]
    marks = [measure(j) for j in alone]
    for j in alone:
        if j.bad:
            return {"bad": [["threads", "alone: " + j.bad]], "n": {}}
    for sched in scheds:
        if sched[0][0] == 0:
            turns = robin(*sched[0][1:])
        else:
            at, turns = [0, 0], []

            def line(t, part):
                op, rest = divmod(part, parts)
                if op >= len(WORK):
                    return marks[t][-1] + 1
                return marks[t][op] + (marks[t][op + 1] - marks[t][op]) * rest // parts
            for t, k in sched:
                t -= 1
                turns.append((t, line(t, at[t] + k) - line(t, at[t])))
                at[t] += k
        more, k = turns_once(docs, sched, turns)
        bad += more
        n += k
        if bad:
            break
    return {"bad": bad, "n": {"switches": n, "schedules": len(scheds)}}


def cold(vec):
    """The same in a process that has done nothing yet.  The worker that answers this never
    runs the code under test itself: a child of it does, for every schedule anew."""
    parts, scheds, doc = vec
    total = {"bad": [], "n": {}}
    for sched in scheds:
        got, put = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(got)
                docs = [(bytes(doc[v]), render.render(doc[2 + v]), 0x31 + v) for v in (0, 1)]
                ans = {"ok": turns_once(docs, sched, robin(*sched[0][1:]))}
            except BaseException as e:
                ans = {"error": "%s: %s" % (type(e).__name__, e)}
            with os.fdopen(put, "w") as f:
                f.write(json.dumps(ans))
            os._exit(0)
        os.close(put)
        with os.fdopen(got) as f:
            text = f.read()
        os.waitpid(pid, 0)
        ans = json.loads(text)
        if "error" in ans:
            raise RuntimeError(ans["error"])
        bad, n = ans["ok"]
        total["n"]["cold switches"] = total["n"].get("cold switches", 0) + n
        total["n"]["cold schedules"] = total["n"].get("cold schedules", 0) + 1
        if bad:
            total["bad"] = [[a, "in a fresh process: " + b] for a, b in bad]
            break
    return total
