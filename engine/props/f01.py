"""Streams, directory listings and pooled file handles are closed or given back exactly once."""
import driver, drain, files, ai

LEVEL = "other"
ASSUMPTIONS = [
    "fiftyoneDegreesFileHandleGet returns a handle of the pool, or nothing with the exception set; the pool itself is judged by other checks",
    "a stream stored in memory the caller can reach, or given to a function that is not analysed, is owned there",
]


def check(tier):
    res, roots = None, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "nothread", "noexc", "track"]):
        m = driver.load_full(cfg, keep=(files.POOL_GET, files.POOL_RELEASE))
        S = ai.Summaries(m)
        names = files.uses_files(m, S)
        r = driver.run_ai(m, files.Files, names, summaries=S)
        roots[cfg] = sorted(names)
        if res is None:
            res = r
        else:
            res.merge(r)
    info = {}
    for cfg in drain.CONFIGS[tier]:
        m = driver.load_full(cfg)
        res.found.update(drain.run(m, ai.Summaries(m), {"fclose"}, info))
    if not res.counts.get("open_sites"):
        raise driver.EngineError("no call which opens a file was found")
    cov = {"explanation": "Path-sensitive typestate analysis, over the LLVM IR clang makes from /repo's current C sources, of every "
           "externally callable function that opens, takes, uses or closes a stream, a directory listing or a pooled file handle "
           "(helpers inlined). Each open branches into success and failure. Rules: not-closed, double-close, use-after-close, "
           "failed-open-used; and every path of the function which frees a pooled handle reaches its fclose (not-given-up).",
           "root_functions": roots, "functions_analysed": res.stats["functions"], "block_visits": res.stats["visits"],
           "open_sites": res.counts.get("open_sites", 0), "close_sites": res.counts.get("close_sites", 0),
           "use_sites": res.counts.get("use_sites", 0), "exits_checked": res.counts.get("exits_checked", 0),
           "not_analysed": res.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": res.stats.get("imprecise", [])}
    return res.found, cov
