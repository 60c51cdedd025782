"""Shared run of the collection item analysis."""
import driver, items, ai

ASSUMPTIONS = [
    "a retrieval through a collection's get either returns data and fills the item, or returns nothing and leaves nothing in the item to release",
    "a retrieval made when the exception is already set returns nothing",
    "items stored under an index that is no longer tracked are owned by the structure that holds them",
    "the implementations of get and release themselves are not judged by this check",
]


def run(tier, rules):
    res = None
    roots = {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "nothread", "noexc"]):
        m = driver.load_full(cfg)
        S = ai.Summaries(m)
        names = items.uses_items(m, S)
        r = driver.run_ai(m, items.Items, names, summaries=S)
        roots[cfg] = sorted(names)
        if res is None:
            res = r
        else:
            res.merge(r)
    if not res.counts.get("retrieval_sites"):
        raise driver.EngineError("no retrieval through a collection was found")
    found = {k: v for k, v in res.found.items() if k[0] in rules}
    cov = {"explanation": "Path-sensitive typestate analysis, over the LLVM IR clang makes from /repo's current C sources, of "
           "every function callable from outside its file that retrieves, takes or releases collection items (its helpers "
           "inlined). Each retrieval branches into success, which makes its item held, and failure. Rules applied: "
           + ", ".join(sorted(rules)) + ".",
           "root_functions": roots,
           "functions_analysed": res.stats["functions"], "block_visits": res.stats["visits"],
           "retrieval_sites": res.counts.get("retrieval_sites", 0),
           "release_sites": res.counts.get("release_sites", 0),
           "memory_accesses_checked": res.counts.get("accesses_checked", 0),
           "exits_checked": res.counts.get("exits_checked", 0),
           "not_analysed": res.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": res.stats.get("imprecise", [])}
    return found, cov
