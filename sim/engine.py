"""The simulator: gated real threads, line-level preemption and fault injection in
horqrux code, and the seams for entropy, clock, locks, caches and module state.

Only one thread runs at any time.  Which one is decided by the run specification
alone: every operation carries the line counts at which it is preempted and the
thread that gets the turn, and the faults that hit it.  Lines are counted by
sys.monitoring events that are enabled on horqrux code objects only, so the
counts do not depend on JAX internals, caches or the wall clock.
"""
from __future__ import annotations

import ast
import gc
import hashlib
import importlib.abc
import importlib.machinery
import os
import random
import sys
import threading
import time
import types
import weakref
import uuid

REPO = os.environ.get("HORQ_REPO", "/repo")
PKG = "horqrux"
TOOL = 4
MON = sys.monitoring
EV_LINE = MON.events.LINE
EV_CALL = MON.events.CALL

_RealLock = threading.Lock
_RealRLock = threading.RLock
_real_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns")}
_real_uuid4 = uuid.uuid4

SIM = None  # the active Sim, if any
_tls = threading.local()


class SimAbort(BaseException):
    """Unwinds a client thread when the run is over."""


class Deadlock(Exception):
    pass


# ------------------------------------------------------------------ importing
_code_cache: dict = {}
_shared: set = set()  # names of module globals and attributes that functions write
_mentions: dict = {}  # file -> {line: names it mentions}
_hot: dict = {}  # file -> lines that touch one of them
MUTATORS = frozenset(
    "append add update pop popitem clear setdefault insert extend remove discard move_to_end "
    "appendleft popleft sort reverse fill".split()
)


def _instrument(code: types.CodeType) -> None:
    MON.set_local_events(TOOL, code, EV_LINE | EV_CALL)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _instrument(c)


def _survey(path: str, text: str) -> None:
    """Which lines read or write what outlives a call (module globals, attributes of
    objects): the places where an interleaving or a failure can matter most."""
    tree = ast.parse(text)
    imported = {a.asname or a.name.split(".")[0] for x in ast.walk(tree) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    defined = {x.name for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    lines: dict = {}

    def root(x, local):
        while isinstance(x, (ast.Subscript, ast.Call)):
            x = x.value if isinstance(x, ast.Subscript) else x.func
        if isinstance(x, ast.Attribute):
            return x.attr
        if isinstance(x, ast.Name) and x.id not in local and x.id not in imported and x.id not in defined:
            return x.id
        return None

    def function(fn, outer, building):
        args = fn.args
        local = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]}
        with_default = list(zip((args.posonlyargs + args.args)[::-1], args.defaults[::-1])) + list(zip(args.kwonlyargs, args.kw_defaults))
        local -= {a.arg for a, d in with_default if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call))}
        glob, nested = set(), []
        todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        own = []
        while todo:
            x = todo.pop()
            own.append(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob.update(x.names)
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
                if isinstance(x, ast.FunctionDef):
                    local.add(x.name)
                nested.append(x)
                continue
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)
            todo.extend(ast.iter_child_nodes(x))
        # what a returned function closes over outlives the call that made it
        kept = any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and any(getattr(f, "name", "") == x.value.id for f in nested) for x in own)
        inner = set() if kept else local | outer
        local = (local | outer) - glob
        for x in own:
            hit = []
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                for t in x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]:
                    for u in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(u, ast.Name) and u.id in glob or isinstance(u, ast.Subscript):
                            hit.append(root(u, local))
                        elif isinstance(u, ast.Attribute) and not building:
                            hit.append(u.attr)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                hit.append(root(x.func.value, local))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "next" and x.args:
                hit.append(root(x.args[0], local))
            elif isinstance(x, ast.Call) and (getattr(x.func, "id", "") == "setattr" or getattr(x.func, "attr", "") == "__setattr__") and not building:
                hit += [a.value for a in x.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            _shared.update(h for h in hit if h)
            if isinstance(x, ast.Name) and x.id not in local:
                lines.setdefault(x.lineno, set()).add(x.id)
            elif isinstance(x, ast.Attribute):
                lines.setdefault(x.lineno, set()).add(x.attr)
        for x in nested:
            function(x, inner, building)

    def scan(body):
        for x in body:
            if isinstance(x, ast.FunctionDef):
                function(x, set(), x.name in ("__init__", "__post_init__", "tree_unflatten"))
            elif isinstance(x, ast.ClassDef):
                scan(x.body)

    scan(tree.body)
    _mentions[path] = lines
    _hot.clear()


def hot_lines(path):
    h = _hot.get(path)
    if h is None:
        h = _hot[path] = frozenset(k for k, v in _mentions.get(path, {}).items() if v & _shared)
    return h


class _Loader(importlib.abc.Loader):
    def __init__(self, path: str):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code_cache.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                text = f.read()
            code = compile(text, self.path, "exec", dont_inherit=True)
            _instrument(code)
            _survey(self.path, text)
            _code_cache[self.path] = code
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        d = os.path.join(REPO, rel)
        if os.path.isfile(os.path.join(d, "__init__.py")):
            p = os.path.join(d, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, _Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [d]
        elif os.path.isfile(d + ".py"):
            p = d + ".py"
            spec = importlib.machinery.ModuleSpec(name, _Loader(p), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


def _short(code) -> str:
    return code.co_filename[len(REPO) + 1 :] + ":" + code.co_qualname


_installed = False


def install() -> None:
    """Enable monitoring, the instrumenting importer and the seams (once per process)."""
    global _installed
    if _installed:
        return
    _installed = True
    MON.use_tool_id(TOOL, "horqrux-sim")
    MON.register_callback(TOOL, EV_LINE, _on_line)
    MON.register_callback(TOOL, EV_CALL, _on_call)
    sys.meta_path.insert(0, _Finder())
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    uuid.uuid4 = _sim_uuid4
    for n in _real_time:
        setattr(time, n, _make_clock(n))
    import jax

    global _PRNGKey, _key
    _PRNGKey, _key = jax.random.PRNGKey, jax.random.key
    jax.random.PRNGKey = _sim_prngkey
    jax.random.key = _sim_key
    global _jit
    _jit = jax.jit
    jax.jit = _sim_jit


def fresh_import():
    """A new process as far as horqrux can tell: all its modules are executed again."""
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]
    import importlib

    importlib.invalidate_caches()
    for m in (
        "api", "apply", "circuit", "composite", "shots", "noise", "analog", "matrices",
        "primitives", "utils.operator_utils", "utils.conversion", "differentiation.gpsr",
        "differentiation.adjoint", "differentiation.ad",
    ):
        importlib.import_module(PKG + "." + m)
    return sys.modules[PKG]


# ------------------------------------------------------------------ seams
def _me():
    return getattr(_tls, "client", None)


def _sim_uuid4():
    sim = SIM
    if sim is None:
        return _real_uuid4()
    return sim.entropy.uuid4()


def _sim_prngkey(seed, *a, **k):
    import jax

    out = _PRNGKey(seed, *a, **k)
    e = getattr(_tls, "fold", None)
    return out if e is None else jax.random.fold_in(out, e)


def _sim_key(seed, *a, **k):
    import jax

    out = _key(seed, *a, **k)
    e = getattr(_tls, "fold", None)
    return out if e is None else jax.random.fold_in(out, e)


def _make_clock(name):
    real = _real_time[name]
    ns = name.endswith("_ns")

    def clock():
        sim = SIM
        if sim is None or _me() is None:
            return real()
        t = sim.clock()
        return int(t * 1e9) if ns else t

    clock.__name__ = name
    return clock


def now() -> float:
    return _real_time["monotonic"]()


class Entropy:
    """Simulated uuid4: unique by construction, otherwise as unhelpful as allowed."""

    def __init__(self, mode: str, seed: int):
        self.mode, self.seed, self.n = mode, seed, 0

    def uuid4(self):
        self.n += 1
        n = self.n
        h = int.from_bytes(hashlib.sha256(f"{self.seed}/{n}".encode()).digest()[:16], "big")
        m = self.mode
        if m == "asc":
            h = (n << 96) | (h >> 64 << 16)
        elif m == "desc":
            h = ((0xFFFFFFF0 - n) << 96) | (h >> 64 << 16)
        elif m == "tail":  # long common prefix
            h = (0xABCDEF << 104) | n
        elif m == "head":  # differ in the first digits only
            h = (((n * 2654435761) & 0xFFFFFFFF) << 96) | 7
        return uuid.UUID(int=h & ((1 << 128) - 1), version=4)


def _called_by_horqrux() -> bool:
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        name = f.f_globals.get("__name__", "")
        if name == PKG or name.startswith(PKG + "."):
            return True
        if name not in ("threading", "functools", "dataclasses", "queue", "contextlib"):
            return False
        f = f.f_back
    return False


class SimLock:
    """A lock of the code under test: waiting for it is a scheduling decision."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def _free_for(self, who):
        return self._owner is None or (self._reentrant and self._owner is who)

    def acquire(self, blocking=True, timeout=-1):
        who = _me() or threading.get_ident()
        while not self._free_for(who):
            if not blocking:
                return False
            sim = SIM
            if sim is None or _me() is None or timeout is not None and timeout >= 0:
                return False if timeout is not None and timeout >= 0 else self._hard_deadlock()
            sim.block_on(self)
        self._owner = who
        self._count += 1
        return True

    def _hard_deadlock(self):
        raise Deadlock("a lock held outside the simulation is never released")

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition asks of a lock
    def _is_owned(self):
        return self._owner is (_me() or threading.get_ident())

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def _lock_factory():
    return SimLock() if _called_by_horqrux() else _RealLock()


def _rlock_factory():
    return SimLock(True) if _called_by_horqrux() else _RealRLock()


_jit_locks = weakref.WeakKeyDictionary()


def _jit_lock(fun):
    """JAX keeps one cache per function, however often it is wrapped in jit."""
    try:
        lock = _jit_locks.get(fun)
        if lock is None:
            lock = _jit_locks[fun] = SimLock(True)
        return lock
    except TypeError:
        return SimLock(True)


class SimJit:
    """A compiled function.  While one thread traces it, JAX makes other callers wait
    inside native code; here that wait is a lock the scheduler knows about."""

    def __init__(self, fn, fun=None):
        self.__wrapped__ = fn
        self._simlock = _jit_lock(fun)
        for a in ("__name__", "__doc__", "__module__", "__qualname__"):
            try:
                setattr(self, a, getattr(fn, a))
            except AttributeError:
                pass

    def __call__(self, *a, **k):
        if _me() is None:
            return self.__wrapped__(*a, **k)
        with self._simlock:
            return self.__wrapped__(*a, **k)

    def __get__(self, obj, typ=None):  # a compiled method
        return self if obj is None else types.MethodType(self, obj)

    def __getattr__(self, name):
        return getattr(self.__wrapped__, name)


def _sim_jit(*a, **k):
    out = _jit(*a, **k)
    fun = a[0] if a and callable(a[0]) else k.get("fun")
    if fun is not None:
        return SimJit(out, fun)
    return lambda fn: SimJit(out(fn), fn)


# ------------------------------------------------------------------ monitoring
def _on_line(code, line):
    c = getattr(_tls, "client", None)
    if c is None:
        return
    c.on_line(code, line)


def _on_call(code, off, fn, arg0):
    c = getattr(_tls, "client", None)
    if c is None or not c.calls_armed:
        return
    m = getattr(fn, "__module__", None) or getattr(type(fn), "__module__", "") or ""
    if m.startswith(("jax", "numpy")):
        c.on_call(code, off)


class Interrupted(KeyboardInterrupt):
    pass


def _oom(kind):
    if kind == "oom_xla":
        from jax.errors import JaxRuntimeError

        return JaxRuntimeError("RESOURCE_EXHAUSTED: Out of memory allocating 17179869184 bytes. [injected]")
    return MemoryError("[injected]")


class Client:
    def __init__(self, sim, idx, ops):
        self.sim, self.idx, self.ops = sim, idx, ops
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waiting = None  # a SimLock
        self.calls_armed = False
        self.lines = 0
        self.calls = 0
        self.plan: list = []
        self.hot_plan: list = []
        self.hots = 0
        self.fired: list = []
        self.opno = -1
        self.thread = None
        self.in_op = False

    # one operation -------------------------------------------------------
    def arm(self, opno, op):
        self.opno = opno
        self.max_lines = self.sim.max_lines * max(1, int(op.get("reps", 1)), int(op.get("times", 1)))
        self.lines = self.calls = 0
        self.fired = []
        plan = [(int(k), "pre", to) for k, to in op.get("pre", ())]
        self.call_plan = []
        for f in op.get("faults", ()):
            kind, k = f[0], int(f[1])
            if kind in ("oom", "oom_xla"):
                self.call_plan.append((k, kind))
            else:
                plan.append((k, kind, f[2] if len(f) > 2 else None))
        self.plan = sorted(plan, key=lambda x: (x[0], x[1]))
        self.hots = 0
        self.hot_plan = sorted(([int(x[0]), x[1], x[2]] for x in op.get("hot", ())), key=lambda x: (x[0], x[1]))
        self.call_plan.sort()
        self.calls_armed = True
        self.in_op = True

    def disarm(self):
        self.plan = []
        self.call_plan = []
        self.hot_plan = []
        self.calls_armed = False
        self.in_op = False

    def on_line(self, code, line):
        if not self.in_op:
            return
        self.lines += 1
        sim = self.sim
        sim.steps += 1
        if self.lines > self.max_lines:
            raise Deadlock(f"no progress: more than {self.max_lines} lines in one operation")
        if self.hot_plan and line in hot_lines(code.co_filename):
            self.hots += 1
            if self.hot_plan[0][0] <= self.hots:
                _, what, arg = self.hot_plan.pop(0)
                sim.count("at-shared-data")
                self.plan.insert(0, (self.lines, what, arg))
        while self.plan and self.plan[0][0] <= self.lines:
            _, what, arg = self.plan.pop(0)
            where = f"{_short(code)}@{line}"
            if what == "pre":
                if sim.preempt(self, arg, where):
                    self.fired.append("pre")
            elif what == "interrupt":
                self.fired.append(what)
                sim.fault(self, what, where)
                raise Interrupted("[injected]")
            elif what == "crash":
                self.fired.append(what)
                sim.fault(self, what, where)
                sim.error = ("crash", where)  # the whole process is gone
                raise SimAbort()
            elif what == "clear_caches":
                self.fired.append(what)
                sim.fault(self, what, where)
                import jax

                jax.clear_caches()
            elif what == "gc":
                self.fired.append(what)
                sim.fault(self, what, where)
                gc.collect()
            elif what == "reseed":
                self.fired.append(what)
                sim.fault(self, what, where)
                sim.reseed(arg)
            elif what == "clock":
                self.fired.append(what)
                sim.fault(self, what, where)
                sim.clock_offset += float(arg)
            elif what == "call":  # another thread of the application touches its own data here
                self.fired.append(what)
                sim.fault(self, what, where)
                sim.hook(self, arg)

    def on_call(self, code, off):
        if not self.in_op:
            return
        self.calls += 1
        if self.call_plan and self.call_plan[0][0] <= self.calls:
            _, kind = self.call_plan.pop(0)
            self.fired.append(kind)
            self.sim.fault(self, kind, f"{_short(code)}+{off}")
            raise _oom(kind)


class Sim:
    """One run: clients with operation lists, executed under an explicit schedule."""

    def __init__(self, clients_ops, exec_op, env=None, max_lines=60000, stats=None):
        env = env or {}
        self.env = env
        self.exec_op = exec_op
        self.clients = [Client(self, i, ops) for i, ops in enumerate(clients_ops)]
        self.current = None
        self.log: list = []
        self.steps = 0
        self.max_lines = max_lines
        self.entropy = Entropy(env.get("uuid", "rand"), env.get("uuid_seed", 0))
        self.clock_offset = float(env.get("clock", 1.7e9))
        self.clock_reads = 0
        self.tick = float(env.get("tick", 0))
        self.stats = stats if stats is not None else {}
        self.switches: list = []
        self.error = None
        self.finished = threading.Semaphore(0)
        self.trace_lock = SimLock(True)
        self.hook = lambda client, arg: None
        self.on_preempt = None

    # bookkeeping ---------------------------------------------------------
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def event(self, *e):
        self.log.append(e)

    def fault(self, client, kind, where):
        self.count("fault:" + kind)
        self.event("fault", client.idx, client.opno, kind, client.lines, where)

    def clock(self):
        self.clock_reads += 1
        t = self.clock_offset + self.clock_reads * 1e-6 + self.steps * 1e-3
        # a coarse clock repeats itself; it never runs backwards unless it is set back
        return t if not self.tick else t // self.tick * self.tick

    def reseed(self, seed):
        import numpy as np

        random.seed(seed)
        np.random.seed(int(seed) % 2**32)

    # scheduling ----------------------------------------------------------
    def runnable(self):
        who = lambda c: c
        return [
            c for c in self.clients
            if not c.done and (c.waiting is None or c.waiting._free_for(who(c)))
        ]

    def pick(self, want, exclude=None):
        r = [c for c in self.runnable() if c is not exclude]
        if not r:
            return None
        if want is not None:
            for c in r:
                if c.idx >= want % max(1, len(self.clients)):
                    return c
        return r[0]

    def _switch(self, me, to):
        self.current = to
        to.sem.release()
        me.sem.acquire()
        if self.error is not None:
            raise SimAbort()

    def preempt(self, me, want, where):
        to = self.pick(want, exclude=me)
        if to is None:
            return False
        self.count("preemptions")
        self.event("switch", me.idx, me.opno, me.lines, where, to.idx)
        self.switches.append((me.idx, where, to.idx))
        if self.on_preempt is not None:
            self.on_preempt(me)
        self._switch(me, to)
        return True

    def block_on(self, lock):
        me = _me()
        me.waiting = lock
        to = self.pick(None, exclude=me)
        self.count("lock_waits")
        if to is None:
            me.waiting = None
            raise Deadlock("every thread waits for a lock")
        self.event("wait", me.idx, me.opno, to.idx)
        self._switch(me, to)
        me.waiting = None

    def yield_turn(self, me, want):
        """At an operation boundary."""
        r = self.runnable()
        if want is None or len(r) < 2:
            return
        to = self.pick(want)
        if to is None or to is me:
            return
        self.event("turn", me.idx, to.idx)
        self._switch(me, to)

    def _body(self, c):
        _tls.client = c
        _tls.fold = None
        c.sem.acquire()
        try:
            if self.error is None:
                for i, op in enumerate(c.ops):
                    self.exec_op(self, c, i, op)
                    self.yield_turn(c, op.get("next"))
        except SimAbort:
            pass
        except BaseException as e:  # a harness error
            if self.error is None:
                import traceback

                self.error = ("harness", "".join(traceback.format_exception(e)))
        finally:
            c.disarm()
            c.done = True
            _tls.client = None
            nxt = self.pick(None, exclude=c)
            if nxt is None:
                left = [x for x in self.clients if not x.done]
                if left and self.error is None:
                    self.error = ("deadlock", f"clients {[x.idx for x in left]} wait forever")
                if left:
                    for x in left:
                        x.waiting = None
                    left[0].sem.release()
                else:
                    self.finished.release()
            else:
                self.current = nxt
                nxt.sem.release()

    def run(self, first=0, wall=150.0):
        """Execute the run.  Returns None, or ("deadlock"|"harness"|"hang", text)."""
        global SIM
        SIM = self
        try:
            for c in self.clients:
                t = threading.Thread(target=self._body, args=(c,), daemon=True)
                c.thread = t
                t.start()
            start = self.clients[first % len(self.clients)]
            self.current = start
            start.sem.release()
            if not self.finished.acquire(timeout=wall):
                return ("hang", f"no end after {wall} s of wall time")
            for c in self.clients:
                c.thread.join(10)
            return self.error
        finally:
            SIM = None

    def digest(self):
        return hashlib.sha256(repr(self.log).encode()).hexdigest()[:16]

    def interleaving(self):
        return hashlib.sha256(repr(self.switches).encode()).hexdigest()[:16]


def set_fold(e):
    _tls.fold = e
