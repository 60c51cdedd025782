"""A pool never hands out an item twice, nor loses one."""
import driver, pools

LEVEL = "other"
ASSUMPTIONS = [
    "compare and exchange operations are sequentially consistent, plain loads of an aligned word are not torn",
    "Init, Reset and Free functions run while nothing else uses the object",
]


def check(tier):
    found, info = {}, {}
    for cfg in (["release"] if tier == "quick" else ["release", "noexc", "debug", "track", "memonly"]):
        f, c = pools.check(driver.load_base(cfg), "T02")
        for k, v in f.items():
            found.setdefault(k, v)
        info[cfg] = c
    return found, {"explanation": pools.EXPLAIN, "per_configuration": info}
