"""Nothing is used before it is initialised, nor handed out incomplete."""
import driver, uninit

LEVEL = "other"
ASSUMPTIONS = [
    "a function given the address of an object may have written all of it",
    "structures of the C library are initialised by its functions",
    "the elements of arrays are not told apart",
]


def check(tier):
    res, roots = None, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "nothread", "memonly", "noexc", "track"]):
        m = driver.load_full(cfg)
        r = driver.run_ai(m, uninit.Uninit)
        roots[cfg] = len(r.times)
        if res is None:
            res = r
        else:
            res.merge(r)
    if not res.counts.get("allocations") or not res.counts.get("objects_handed_out"):
        raise driver.EngineError("no allocation was found")
    cov = {"explanation": "Path-sensitive analysis, over the LLVM IR clang makes from /repo's current C sources, of which bytes of each local and "
           "each newly allocated object no path has written. A value read from them must not be used (as a condition, an address, an argument "
           "or a result), and an object returned or stored in a structure of the caller by a call that succeeds has every field written. "
           "Rules: uninitialised, incomplete.",
           "root_functions": roots, "functions_analysed": res.stats["functions"], "block_visits": res.stats["visits"],
           "reads_checked": res.counts.get("loads", 0), "conditions_checked": res.counts.get("conditions", 0),
           "allocation_sites": res.counts["allocations"], "objects_handed_out": res.counts["objects_handed_out"],
           "exits_checked": res.counts.get("exits", 0), "not_analysed": res.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": res.stats.get("imprecise", [])}
    return res.found, cov
