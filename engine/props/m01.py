"""Heap memory is freed exactly once, by the allocator it came from."""
from props import heapall
import ai, drain, driver
LEVEL = "other"
ASSUMPTIONS = heapall.ASSUMPTIONS
RULES = {"leak", "double-free", "invalid-free", "mismatched-free"}


def check(tier):
    found, cov = heapall.run(tier, RULES)
    info = {}
    for cfg in drain.CONFIGS[tier]:
        m = driver.load_full(cfg)
        found.update(drain.run(m, ai.Summaries(m), {"free", "resourceFree", "freeCollection"}, info))
    cov["explanation"] += (" Also, for each function which ends an object's life, every path through it and every round of the loop over "
                           "its parts is followed in the control flow graph to the call which frees the part (not-given-up).")
    cov["parts_given_up"] = info.get("obligations", 0)
    return found, cov
