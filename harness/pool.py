"""A pool of worker processes driving the real code, in each of the two build
configurations.  A worker that hangs or dies is a result, not an accident."""
import json
import os
import queue
import selectors
import signal
import subprocess
import tempfile
import threading
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


def clean_env(config, pyc):
    env = {k: v for k, v in os.environ.items()
           if k not in ("FORCE_STDLIB_ONLY", "DEBUG", "PYTHONPATH", "PYTHONSTARTUP", "PYTHONHASHSEED")}
    env["PYTHONPATH"] = REPO
    env["PYTHONPYCACHEPREFIX"] = pyc
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
    if config == "stdlib":
        env["FORCE_STDLIB_ONLY"] = "1"
        env["DEBUG"] = "1"  # may say more, must do the same
    if config == "absent":
        env["VERIF_ABSENT"] = "1"
    return env


class Worker:
    def __init__(self, config, pyc, setup=None):
        self.config, self.pyc, self.proc, self.setup = config, pyc, None, setup

    def start(self):
        self.proc = subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, env=clean_env(self.config, self.pyc),
                                     start_new_session=True, cwd="/")
        if self.setup:
            op, arg = self.setup
            self.proc.stdin.write((json.dumps({"op": op, "arg": arg}) + "\n").encode())
            self.proc.stdin.flush()
            ans = json.loads(self.proc.stdout.readline())
            if "error" in ans:
                raise RuntimeError(ans["error"])

    def stop(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
        self.proc = None

    def ask(self, op, arg, timeout):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        req = (json.dumps({"op": op, "arg": arg}) + "\n").encode()
        got = {}

        def io():
            try:
                self.proc.stdin.write(req)
                self.proc.stdin.flush()
                got["line"] = self.proc.stdout.readline()
            except (BrokenPipeError, OSError, ValueError):
                got["line"] = b""

        t = threading.Thread(target=io, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            self.stop()
            t.join(5)
            return {"hang": timeout}
        if not got["line"]:
            rc = self.proc.wait()
            self.proc = None
            return {"died": rc}
        return json.loads(got["line"])


class Pool:
    """submit(op, arg, tag) for every configuration; results go to on_result(tag, config, answer)."""

    def __init__(self, on_result, configs=("fast", "stdlib"), per_config=3, timeout=60, setup=None):
        self.setup = setup
        self.tmp = tempfile.mkdtemp(prefix="vpyc_")
        self.queues = {c: queue.Queue(maxsize=64) for c in configs}
        self.on_result, self.timeout = on_result, timeout
        self.lock = threading.Lock()
        self.threads, self.errors = [], []
        self.cancelled = False
        for c in configs:
            for _ in range(per_config):
                t = threading.Thread(target=self.loop, args=(c,), daemon=True)
                t.start()
                self.threads.append(t)

    def loop(self, config):
        w = Worker(config, self.tmp, self.setup)
        q = self.queues[config]
        while True:
            item = q.get()
            if item is None:
                break
            if self.cancelled:
                continue
            op, arg, tag = item
            try:
                ans = w.ask(op, arg, self.timeout)
                with self.lock:
                    self.on_result(tag, config, ans)
            except Exception as e:  # pragma: no cover
                self.errors.append(e)
        w.stop()

    def submit(self, op, arg, tag, config=None):
        for c in ([config] if config else self.queues):
            self.queues[c].put((op, arg, tag))

    def close(self):
        for c in self.queues:
            for _ in [t for t in self.threads]:
                self.queues[c].put(None)
        for t in self.threads:
            t.join()
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.errors:
            raise self.errors[0]
