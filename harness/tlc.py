"""Runs TLC on a module of /verif/spec with given constants and streams what the
specification hands over."""
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    pass


class Run:
    def __init__(self, module, constants, invariants=(), properties=(), init="Init", next="Next",
                 args=(), heap="3g", extra_files=None, timeout=3600, spec=None, symmetry=None, constraint=None):
        self.dir = tempfile.mkdtemp(prefix="vtlc_")
        self.module = module
        self.name = module + "(" + ",".join("%s=%s" % kv for kv in constants.items()) + ")"
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), self.dir)
        for f, body in (extra_files or {}).items():
            with open(os.path.join(self.dir, f), "w") as o:
                o.write(body)
        cfg = ""
        if constants:
            cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, lit(v)) for k, v in constants.items())
        cfg += "SPECIFICATION %s\n" % spec if spec else "INIT %s\nNEXT %s\n" % (init, next)
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        with open(os.path.join(self.dir, "Run.cfg"), "w") as o:
            o.write(cfg)
        cmd = ["timeout", str(timeout), "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:CICompilerCount=2", "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(self.dir, "md"), "-workers", "1", "-deadlock",
               "-config", "Run.cfg", *args, module + ".tla"]
        self.log = []
        self.states = self.transitions = 0
        self.proc = subprocess.Popen(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     text=True, errors="replace",
                                     start_new_session=True)

    def __iter__(self):
        """The values handed over with PrintT("VEC " \\o ToJson(...))."""
        done = False
        for line in self.proc.stdout:
            if line.startswith('"VEC '):
                yield json.loads(json.loads(line.strip())[4:])
                continue
            line = line.rstrip("\n")
            if len(self.log) < 4000:
                self.log.append(line[:2000])
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                self.transitions, self.states = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                self.transitions = self.states = int(m.group(1))
            if line.startswith("Model checking completed. No error") or line.startswith("Simulation using seed"):
                done = True
            if line.startswith("Error:") or "is violated" in line:
                done = None
        self.proc.wait()
        self.close()
        errors = [l for l in self.log if l.startswith("Error:") or "violated" in l]
        if errors or (not done and self.proc.returncode != 0):
            raise ModelError("%s: %s\n%s" % (self.name, self.proc.returncode, "\n".join(l[:200] for l in self.log if not l.startswith(("Parsing", "Semantic proc")))[-1500:]))

    def close(self):
        if self.proc.poll() is None:
            os.killpg(self.proc.pid, signal.SIGKILL)
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def lit(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)
