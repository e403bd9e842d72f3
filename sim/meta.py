"""What the parent process needs to know about each check."""
SCHED = (
    "A run is a pool of shared states, circuits and observables, one to four client threads with "
    "operation lists, explicit preemption points (line counts inside horqrux), and fault points, all "
    "derived from the seed."
)
META = {
    "C01": {"runs": {"quick": 320, "thorough": 12000}},
    "C02": {"runs": {"quick": 240, "thorough": 9000}},
    "C03": {"runs": {"quick": 140, "thorough": 6000}},
    "C04": {"runs": {"quick": 160, "thorough": 6000}},
    "C05": {"runs": {"quick": 160, "thorough": 6000}},
    "C06": {"runs": {"quick": 160, "thorough": 6000}},
    "C07": {"runs": {"quick": 160, "thorough": 6000}},
    "C08": {"runs": {"quick": 120, "thorough": 6000}},
    "C09": {"runs": {"quick": 100, "thorough": 4000}},
    "C10": {"runs": {"quick": 120, "thorough": 4000}, "replicas": True},
    "C11": {"runs": {"quick": 240, "thorough": 9000}},
    "C12": {"runs": {"quick": 80, "thorough": 3000}, "replicas": True},
    "C13": {"runs": {"quick": 160, "thorough": 6000}},
    "C14": {"runs": {"quick": 240, "thorough": 9000}},
}
for m in META.values():
    m.setdefault("level", "exploration")
    m.setdefault("rule", SCHED)
    m.setdefault("assumptions", [
        "preemption happens at Python line boundaries of horqrux code; JAX and XLA internals are trusted to be thread safe",
        "the reference model is right; it shares no code with horqrux",
    ])
