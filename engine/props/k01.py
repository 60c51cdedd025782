"""A cache keeps what is in use, gives each key its own data, and recovers what it cannot load."""
import driver, lru

LEVEL = "other"
ASSUMPTIONS = [
    "the tree finds exactly what is inserted in it and not deleted, by key; the loader fills the node it is given or sets the exception",
    "the exception passed by the caller is not set beforehand; different keys have different hashes",
    "the lock of a shard is held throughout (property T01)",
]


def check(tier):
    found, info = {}, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "nothread", "track"]):
        c = {}
        lru.run(driver.load_base(cfg), found, c)
        info[cfg] = c
    return found, {"explanation": lru.EXPLAIN, "per_configuration": info}
