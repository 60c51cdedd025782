"""A shared resource is freed once, after its last user."""
import driver, pools

LEVEL = "other"
ASSUMPTIONS = [
    "compare and exchange operations are sequentially consistent, plain loads of an aligned word are not torn",
    "Init, Reset and Free functions run while nothing else uses the object",
    "a counter names its own handle from when it is set up (shown for what is set up here) until the right to free is claimed",
]


def check(tier):
    found, info = {}, {}
    for cfg in (["release"] if tier == "quick" else ["release", "noexc", "debug", "track", "memonly"]):
        f, c = pools.check(driver.load_base(cfg), "R01")
        for k, v in f.items():
            found.setdefault(k, v)
        info[cfg] = c
    return found, {"explanation": pools.EXPLAIN, "per_configuration": info}
