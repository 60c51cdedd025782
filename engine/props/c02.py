"""A failed retrieval is neither used nor reported as success."""
from props import itemall
LEVEL = "other"
ASSUMPTIONS = itemall.ASSUMPTIONS
RULES = {"failed-retrieval-used", "item-not-reset", "held-on-failure", "found-without-item"}


def check(tier):
    return itemall.run(tier, RULES)
