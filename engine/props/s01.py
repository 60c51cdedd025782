"""Searches and sweeps leave nothing out."""
import driver, ir, scans

LEVEL = "other"
ASSUMPTIONS = [
    "the entries a binary search goes through are sorted as its comparer compares",
    "a loop that is left before its limit has found what it looks for or failed",
]


def check(tier):
    found, per = {}, {}
    for cfg in (["release"] if tier == "quick" else list(ir.CONFIGS)):
        m = driver.load_base(cfg)
        info = {}
        scans.run(m, found, info)
        if info.get("sweeps", 0) < 10 or not info.get("binary_searches"):
            raise driver.EngineError("only %d loops over entries and %d binary searches were found" % (info.get("sweeps", 0), info.get("binary_searches", 0)))
        per[cfg] = info
    cov = {"explanation": "Natural loops of the LLVM IR of /repo's current C sources, file-local helpers inlined. sweeps: loops with a counter "
           "that indexes the items of a counted array or list, a constant table or a collection, and are left when it reaches how many there are; "
           "the counter's first value, what it moves on by on every way round, and the last value for which the loop's body is entered are "
           "compared with the first entry, one and the last entry. Binary searches: for every way round, which entries the new interval leaves out "
           "against how the entry looked at compared, and that the search only ends once nothing is left; where each search starts and ends.", "per_configuration": per}
    return found, cov
