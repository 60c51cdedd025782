"""Items retrieved from collections are released once, where they came from."""
from props import itemall
import ai, drain, driver
LEVEL = "other"
ASSUMPTIONS = itemall.ASSUMPTIONS
RULES = {"leak", "double-release", "use-after-release", "wrong-collection", "release-of-nothing"}


def check(tier):
    found, cov = itemall.run(tier, RULES)
    info = {}
    for cfg in drain.CONFIGS[tier]:
        m = driver.load_full(cfg)
        found.update(drain.run(m, ai.Summaries(m), {"release"}, info))
    cov["explanation"] += (" Also, every round of the loops in the functions which free lists and properties is followed in the control "
                           "flow graph to the call which releases the item (not-given-up).")
    cov["items_given_up"] = info.get("obligations", 0)
    return found, cov
