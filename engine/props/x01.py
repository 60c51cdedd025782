"""Codes, prefixes and short names mean one thing each."""
import driver, ir, tables

LEVEL = "other"
ASSUMPTIONS = ["what a message and a prefix should say is written out in engine/tables.py (WORDS, PREFIX)"]


def check(tier):
    found, per = {}, {}
    for cfg in (["release"] if tier == "quick" else list(ir.CONFIGS)):
        m = driver.load_base(cfg)
        info = {}
        t = tables.Tables(m, found, info)
        t.messages()
        t.prefixes()
        t.names(cfg)
        per[cfg] = info
    cov = {"explanation": "The constant initialisers of the tables in the compiled program, the values of the enumerations and the macros of fiftyone.h. "
           "Every status code but NOT_SET has exactly one message, not empty, that says what the code means and has no conversion but one for the name of the "
           "file; every kind of evidence is one bit of its own and has one prefix, of the length given, that is not the start of another; every short name "
           "stands for something that exists, and for its own long name where there is one (decided by the compiler).",
           "per_configuration": per}
    return found, cov
