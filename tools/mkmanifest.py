"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTE = {
    "C01": "random gate programs against an independent matrix model",
    "C02": "expectations of random observables against an independent matrix model",
    "C03": "gradients against derivatives of an independent model; three known findings in parameter-shift mode are announced, their generators kept out",
    "C04": "content and identity of every argument compared at every preemption point and after every call, failed ones included",
    "C05": "faults at random lines and calls, then judged repetition and later calls; a line budget per operation decides stalls",
    "C06": "transformed calls against the independent model, elementwise",
    "C07": "exact support and totals; Chernoff bounds with error probability below 1e-12 per run for frequencies and parities",
    "C08": "exact spectrum and lattice of estimates; Bernstein bounds for bias, wide windows for the variance",
    "C09": "Bernstein bounds for bias, wide windows for variances of combinations of derivatives",
    "C10": "outcomes compared between schedules, environments and processes with other hash seeds",
    "C11": "names over builders, reseedings and restarts; order against the specification",
    "C12": "trajectories after crashes against the model or the uninterrupted job",
    "C13": "registers against the model after each step and read",
    "C14": "matrix forms, conversions and utilities against an independent model",
}
with open(os.path.join(here, "properties.jsonl")) as f:
    ids = [json.loads(x)["id"] for x in f if x.strip()]
M = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '.'); import sim.specs, sim.props, sim.meta\"",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"{PY} check.py {i} --tier quick",
            "thorough_cmd": f"{PY} check.py {i} --tier thorough",
            "technique": "deterministic simulation with fault injection: seeded search over inputs, schedules and faults",
            "level": "exploration",
            "level_note": NOTE[i] + "; nothing is shown beyond the runs explored; JAX, XLA, numpy and the reference model are trusted, and threads are preempted only at line boundaries of horqrux",
        }
        for i in ids
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: seams are Python tracing of horqrux lines, replaced uuid4/time/locks and JAX entry points, all inside the simulating process. /repo is imported from its working tree in every run.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
