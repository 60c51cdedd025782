"""Records of a data file are read as the format lays them out."""
import os, shutil, tempfile
import driver, ir, layout

LEVEL = "other"
ASSUMPTIONS = [
    "the format is the one the pinned commit reads, as written out in engine/layout.py (RECORDS, ACCESS, SIZES)",
    "the collection's get method returns the item asked for (B01, C01)",
]


def check(tier):
    found, per = {}, {}
    d = tempfile.mkdtemp(prefix="verif-layout-")
    try:
        for cfg in (["release", "memonly"] if tier == "quick" else list(ir.CONFIGS)):
            info = {}
            for cxx in (False, True):
                bad, n, of = layout.witness(cfg, cxx, d)
                if n < of * 2 // 3:
                    raise driver.EngineError("only %d of %d claims about records could be decided" % (n, of))
                info["claims_" + ("cpp" if cxx else "c")] = n
                for t, what, expr, text in bad:
                    found.setdefault(("record", t, what), {"rule": "record", "function": t, "file": "headers", "line": 0,
                                                           "message": "%s, but the compiler evaluates %s to false" % (text, expr)})
            base, full = driver.load_base(cfg), driver.load_full(cfg)
            c = layout.Check(full, found, info)
            c.accessors(base)
            c.pair()
            base0 = ir.load(no_inline=True, config=cfg)
            c.sizes(base0)
            if info.get("fields_compared", 0) < 8:
                raise driver.EngineError("only %d fields could be compared" % info.get("fields_compared", 0))
            per[cfg] = info
    finally:
        shutil.rmtree(d, ignore_errors=True)
    cov = {"explanation": "Compile-time witnesses: one static assertion for the size of each record, the offset and the type of each of its members and "
           "each number stored in a file, decided by the compiler in C and C++. Affine values along every path of the accessors' LLVM IR, modulo the width "
           "of the arithmetic: the index each asks its collection for, or what it returns, is the field it is named after; the size a record is said to take "
           "is the format's formula of the field that counts its parts, computed from bytes that have been read.",
           "per_configuration": per}
    return found, cov
