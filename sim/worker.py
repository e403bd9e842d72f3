"""Executes runs in this process: one JSON line per run on stdout."""
from __future__ import annotations

import json
import os
import sys
import time


def coverage():
    """Lines of horqrux that ran in this process (development aid)."""
    mon, seen = sys.monitoring, set()
    mon.use_tool_id(5, "horqrux-cov")

    def line(code, n):
        f = code.co_filename
        if "/horqrux/" in f:
            seen.add((f, n))
        return mon.DISABLE

    mon.register_callback(5, mon.events.LINE, line)
    mon.set_events(5, mon.events.LINE)
    return seen


def main():
    mode = sys.argv[1]
    from . import engine, props

    engine.install()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # whatever the code under test prints is not protocol

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    seen = coverage() if os.environ.get("HORQ_COV") else None
    job = json.loads(sys.stdin.readline())
    P = props.PROPS[job["prop"]](job["seed"], job["tier"])
    deadline = time.monotonic() + job.get("budget", 1e9)

    def one(spec, i):
        t = engine.now()
        stats: dict = {}
        try:
            res = P.execute(spec, stats)
        except BaseException as e:
            import traceback

            res = {"harness": "".join(traceback.format_exception(e))[-3000:]}
        if seen is not None:
            with open(os.path.join(os.environ["HORQ_COV"], f"{os.getpid()}.json"), "w") as f:
                json.dump(sorted(seen), f)
        res.update(i=i, stats=stats, wall=round(engine.now() - t, 3), key=P.key(spec))
        return res

    if mode == "batch":
        for i in job["indices"]:
            if engine.now() > deadline:
                emit({"i": i, "skipped": True})
                continue
            emit({"begin": i})
            res = one(dict(P.full(i), **job.get("patch", {})), i)
            emit(res)
            if "hang" in res:
                os._exit(3)
    elif mode == "spec":
        for spec in job["specs"]:
            emit({"begin": -1})
            res = one(spec, -1)
            emit(res)
            if "hang" in res:
                os._exit(3)
    elif mode == "serve":
        for line in sys.stdin:
            spec = json.loads(line)
            emit({"begin": -1})
            res = one(spec, -1)
            emit(res)
            if "hang" in res:
                os._exit(3)
    emit({"end": True})
    out.flush()
    os._exit(0)


main()
