"""Runs a property's batch over worker processes, confirms, minimises and reports."""
from __future__ import annotations

import atexit
import ctypes
import json
import os
import queue
import subprocess
import sys
import shutil
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get("HORQ_PY", "/opt/venv/bin/python")
XLA = (
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
)
RUN_WALL = 240  # a run that takes longer than this is a hang


def _no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


_cache = None


def compile_cache():
    """XLA executables are shared by the workers of one check, and by nothing else."""
    global _cache
    if _cache is None:
        _cache = tempfile.mkdtemp(prefix="horqrux-sim-")
        atexit.register(shutil.rmtree, _cache, True)
    return _cache


def child_env(hashseed="0", extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("XLA_", "JAX_", "PYTHON"))}
    e.update(
        JAX_PLATFORMS="cpu", XLA_FLAGS=XLA, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3",
        JAX_COMPILATION_CACHE_DIR=compile_cache(), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
        JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
    )
    e.update(extra or {})
    return e


class WorkerProc:
    def __init__(self, mode, job, hashseed="0"):
        self.proc = subprocess.Popen(
            [PY, "-m", "sim.worker", mode], cwd=ROOT, env=child_env(hashseed), stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=_no_aslr,
        )
        self.q = queue.Queue()
        self.err = []
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._read_err, daemon=True).start()
        self.send(job)
        self.current = None

    def send(self, obj):
        self.proc.stdin.write(json.dumps(obj) + "\n")
        self.proc.stdin.flush()

    def _read(self):
        for line in self.proc.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                self.err.append(line)
        self.q.put(None)

    def _read_err(self):
        for line in self.proc.stderr:
            self.err.append(line)
            del self.err[:-60]

    def get(self, timeout):
        """Next message, None at the end, or "timeout"."""
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"

    def kill(self):
        try:
            self.proc.kill()
        except Exception:
            pass
        self.proc.wait()


def run_batch(prop, seed, tier, indices, budget, workers=8, hashseeds=None, patch=None):
    """Results by index; a worker that dies or hangs is replaced after the run it was in."""
    results = {}
    notes = []
    lock = threading.Lock()
    end = time.monotonic() + budget

    def drive(w):
        todo = [i for pos, i in enumerate(indices) if pos % workers == w]
        while todo:
            hs = (hashseeds or ["0"])[w % len(hashseeds or ["0"])]
            left = end - time.monotonic()
            wp = WorkerProc("batch", {"prop": prop, "seed": seed, "tier": tier, "indices": todo, "budget": max(1, left), "patch": patch or {}}, hs)
            cur = None
            lost = False
            while True:
                m = wp.get(RUN_WALL)
                if m == "timeout" or m is None:
                    break
                if "begin" in m:
                    cur = m["begin"]
                    continue
                if "end" in m:
                    todo = []
                    break
                m["worker"] = w
                m["hashseed"] = hs
                with lock:
                    results[m["i"]] = m
                lost = "hang" in m
                todo = [i for i in todo if i != m["i"]]
                cur = None
            if cur is not None:  # it never came back from this one
                with lock:
                    results[cur] = {"i": cur, "hang": "the process was lost in this run" if m is None else f"no answer in {RUN_WALL} s", "viol": [], "stats": {}, "wall": 0, "stderr": "".join(wp.err[-15:])}
                todo = [i for i in todo if i != cur]
            elif m is None and todo and not lost:
                notes.append("worker ended: " + "".join(wp.err[-15:]))
                wp.kill()
                if len(notes) > 3:
                    return
                continue
            wp.kill()

    ts = [threading.Thread(target=drive, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, notes


class Server:
    """A fresh process that executes given specifications one after another."""

    def __init__(self, prop, seed, tier, hashseed="0"):
        self.args = (prop, seed, tier, hashseed)
        self.wp = None

    def run(self, spec, timeout=RUN_WALL):
        if self.wp is None:
            p, s, t, h = self.args
            self.wp = WorkerProc("serve", {"prop": p, "seed": s, "tier": t}, h)
        try:
            self.wp.send(spec)
        except BrokenPipeError:
            self.close()
            return {"hang": "lost"}
        while True:
            m = self.wp.get(timeout)
            if m is None or m == "timeout":
                self.close()
                return {"hang": "lost or stuck"}
            if "begin" in m:
                continue
            return m

    def close(self):
        if self.wp:
            self.wp.kill()
        self.wp = None


def classes(res):
    if "hang" in res and not res.get("viol"):
        return {"hang"}
    return {v["class"] for v in res.get("viol", ())}


# ------------------------------------------------------------------ minimising
def shrink_candidates(spec):
    """Smaller specifications, biggest cuts first."""
    import copy

    cl = spec.get("clients", [])
    for i in range(len(cl)):
        if len(cl) > 1:
            s = copy.deepcopy(spec)
            del s["clients"][i]
            yield s
    if spec.get("guest") and not any(op.get("guest") for ops in cl for op in ops):
        yield {k: v for k, v in spec.items() if k != "guest"}
    for i in range(len(cl)):
        for k in (len(cl[i]) // 2, 1):
            if k >= 1 and len(cl[i]) > k:
                for j in range(0, len(cl[i]), k):
                    s = copy.deepcopy(spec)
                    del s["clients"][i][j : j + k]
                    if s["clients"][i] or len(s["clients"]) > 1:
                        yield s
    for i in range(len(cl)):
        for j in range(len(cl[i])):
            for f in ("pre", "faults", "hot"):
                n = len(cl[i][j].get(f, ()))
                if n > 1:
                    s = copy.deepcopy(spec)
                    del s["clients"][i][j][f]
                    yield s
                for k in range(n):
                    s = copy.deepcopy(spec)
                    del s["clients"][i][j][f][k]
                    yield s
    for i in range(len(cl)):
        for j in range(len(cl[i])):
            for f in ("next", "inplace", "fresh", "group", "jit"):
                if cl[i][j].get(f):
                    s = copy.deepcopy(spec)
                    del s["clients"][i][j][f]
                    yield s
    for c in range(len(spec.get("circs", ()))):
        g = spec["circs"][c]["gates"]
        for j in range(len(g)):
            if len(g) > 1:
                s = copy.deepcopy(spec)
                del s["circs"][c]["gates"][j]
                if "ls" not in s:
                    yield s
    for c in range(len(spec.get("obs", ()))):
        x = spec["obs"][c].get("x", ())
        for j in range(len(x)):
            if len(x) > 1:
                s = copy.deepcopy(spec)
                del s["obs"][c]["x"][j]
                yield s


def minimise(server, spec, cls, budget=100.0, accept=None):
    end = time.monotonic() + budget
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in shrink_candidates(spec):
            if time.monotonic() > end:
                break
            tried += 1
            r = server.run(cand, timeout=60)
            if "harness" in r:
                continue
            if cls in classes(r):
                spec = cand
                progress = True
                break
    return spec, tried
