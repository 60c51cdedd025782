"""No failure is reported as success."""
import driver, fail, ai

LEVEL = "other"
ASSUMPTIONS = [
    "a function whose result is a status code, or which takes an exception, says through it whether it failed",
    "failures when the caller passes no exception are not visible and not judged",
    "text that is cut short where the function does not return a status (pseudo headers) is documented and not a failure",
    "opening a file only to learn whether it exists is not a failure when it does not",
    "asking for a particular status and continuing is a decision about that status",
]


class Deep(fail.Fail):
    limit = 3
    budget = 60000


def check(tier):
    res, roots = None, {}
    for cfg in (["release"] if tier == "quick" else ["release", "nothread", "memonly", "track"]):
        m = driver.load_full(cfg, keep=fail.keep)
        S = ai.Summaries(m)
        names = fail.roots(m)
        r = driver.run_ai(m, fail.Fail, names, summaries=S)
        if tier != "quick" and cfg == "release":
            deep = driver.run_ai(m, Deep, names, summaries=S)
            r.found = {**deep.found, **r.found}
        roots[cfg] = len(names)
        if res is None:
            res = r
        else:
            res.merge(r)
    if not res.counts.get("failure_sites"):
        raise driver.EngineError("no operation which can fail was found")
    cov = {"explanation": "Path-sensitive analysis, over the LLVM IR clang makes from /repo's current C sources, of every function. Each "
           "allocation, file operation, retrieval, and call of a function that reports a status or an exception, succeeds or fails; a "
           "failure stays with the path until the same operation succeeds. At each exit a path that still carries a failure must "
           "return a status other than success, or leave the exception set (or return nothing / a negative result) (failure-hidden). "
           "A function which reads or takes memory, and returns nothing where that failed, has set the exception it was given (unexplained).",
           "root_functions": roots, "functions_analysed": res.stats["functions"], "block_visits": res.stats["visits"],
           "failure_sites": res.counts["failure_sites"], "exits_checked": res.counts.get("exits_checked", 0),
           "not_analysed": res.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": res.stats.get("imprecise", [])}
    return res.found, cov
