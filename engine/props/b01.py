"""Accesses stay inside the object, array, buffer or collection they go to."""
import driver, bounds

LEVEL = "other"
ASSUMPTIONS = [
    "the count of an array never exceeds its capacity where this is not decided by the items added on the path",
    "a caller which passes a buffer with its length, or the index of an item to one of the functions listed in GIVEN, passes a correct one",
    "strings end with a null character inside their memory",
    "an access whose distance from the limit the analysis cannot express is counted, not reported",
]


def check(tier):
    res, roots = None, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "nothread", "memonly", "noexc", "track"]):
        m = driver.load_full(cfg)
        r = driver.run_ai(m, bounds.Bounds)
        roots[cfg] = len(r.times)
        if res is None:
            res = r
        else:
            res.merge(r)
    if not res.counts.get("checked") or not res.counts.get("items") or not res.counts.get("entries") or not res.counts.get("rooms"):
        raise driver.EngineError("no access was found")
    c = res.counts
    cov = {"explanation": "Path-sensitive linear-inequality analysis, over the LLVM IR clang makes from /repo's current C sources, of how far "
           "each access reaches. Locals, globals, allocations whose size is known on the path and buffers passed with their length: the "
           "access must not pass either end (rule outside). Items of counted arrays: the index was compared with the count or capacity of "
           "the array (unchecked) and is below it and not negative (outside, before). Entries a collection hands out or seeks to: proved to be "
           "below the collection's size or count (entry). At every exit the memory of a list, array or data item holds as much "
           "as its capacity says (short). Each byte of an IP address being built is written inside the address.",
           "root_functions": roots, "functions_analysed": res.stats["functions"], "block_visits": res.stats["visits"],
           "accesses_checked": c["checked"], "accesses_without_a_known_limit": c.get("unbounded", 0),
           "array_items_checked": c["items"], "array_items_compared_but_not_proved": c.get("related", 0),
           "bytes_of_addresses_being_built": c.get("cursors", 0),
           "capacities_compared_with_allocations": c.get("rooms", 0),
           "collection_entries_proved": c["entries"], "allocation_sites": c.get("allocations", 0),
           "not_analysed": res.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": res.stats.get("imprecise", [])}
    return res.found, cov
