"""Shared run of the heap-ownership analysis."""
import driver, heap

CONFIGS_THOROUGH = ["release", "debug", "memonly", "nothread", "noexc"]
ASSUMPTIONS = [
    "objects the analysis loses track of (stored under an index that is no longer tracked, merged at a join) are treated as owned by the structure that holds them",
    "callers outside the library pass distinct, live objects as arguments",
    "a pointer kept by a structure passed in by the caller is owned by that structure",
    "the C library functions used behave as their specifications say (engine/models.py)",
]


def run(tier, rules):
    res = None
    nroots = {}
    for cfg in (["release"] if tier == "quick" else CONFIGS_THOROUGH):
        m = driver.load_full(cfg)
        r = driver.run_ai(m, heap.Heap, skip=("fiftyoneDegreesMemory",))
        nroots[cfg] = len(r.times)
        if res is None:
            res = r
        else:
            res.merge(r)
    found = {k: v for k, v in res.found.items() if k[0] in rules}
    cov = {"explanation": "Path-sensitive abstract interpretation of the LLVM IR clang makes from /repo's current C "
           "sources; every function callable from outside its file (with its helpers inlined) is analysed from an "
           "unconstrained calling context, every allocation branching into success and failure. Rules applied: "
           + ", ".join(sorted(rules)) + ".",
           "root_functions": nroots,
           "functions_analysed": res.stats["functions"], "block_visits": res.stats["visits"],
           "calls_interpreted": res.stats["calls"],
           "memory_accesses_checked": res.counts.get("accesses_checked", 0),
           "allocation_sites": res.counts.get("allocation_sites", 0),
           "free_sites": res.counts.get("free_sites", 0),
           "exits_checked": res.counts.get("exits_checked", 0),
           "not_analysed": res.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": res.stats.get("imprecise", [])}
    return found, cov
