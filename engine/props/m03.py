"""A failed allocation is detected."""
from props import heapall
LEVEL = "other"
ASSUMPTIONS = heapall.ASSUMPTIONS
RULES = {"unchecked-allocation"}


def check(tier):
    return heapall.run(tier, RULES)
