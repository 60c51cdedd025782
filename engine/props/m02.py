"""Freed memory is never used nor left published."""
from props import heapall
LEVEL = "other"
ASSUMPTIONS = heapall.ASSUMPTIONS
RULES = {"use-after-free", "dangling"}


def check(tier):
    return heapall.run(tier, RULES)
