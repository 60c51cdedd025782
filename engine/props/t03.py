"""Serving requests changes nothing that is shared, but for what a lock or an atomic guards."""
import os, re
import driver, effects, ai
from ir import srcfunc

LEVEL = "other"
ASSUMPTIONS = [
    "request functions are the exported functions whose names do not say that they create, load, replace, release or configure",
    "the file utilities and functions which work on objects of the caller only are not request functions",
    "an object a function allocates, or keeps in a local variable, belongs to the request",
]


def has_lock(m, ty, d=0):
    """Does an object of this type carry a lock?"""
    if "pthread_mutex_t" in ty:
        return True
    return d < 6 and any(has_lock(m, f[2], d + 1) for x in re.findall(r"%([\w.]+)", ty) for f in m.structs.get(x, {"fields": ()})["fields"])


def check(tier):
    found, info = {}, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "noexc", "memonly", "track"]):
        m = driver.load_base(cfg)
        S = ai.Summaries(m)
        E = effects.effects(m, S)
        req = sorted(F.name for F in m.funcs.values() if not F.decl and not F.internal
                     and not effects.SETUP.search(F.name) and not effects.UTILITY.match(F.name))
        if len(req) < 40:
            raise driver.EngineError("only %d request functions were recognised" % len(req))
        tags = set()
        for n in req:
            for (k, t, b), (path, I) in E[n].items():
                tags.add(t)
                if k != "hidden" and t[0] != "g" and (not effects.SHARED.match(t[0]) or t in effects.SYNCHRONISED):
                    continue
                if t == ("fiftyone_degrees_data_t", "ptr*") and os.path.basename(m.funcs[path[-1]].file) == "collection.c":
                    continue        # the readers fill the memory of the item they were given
                if set(path) & effects.REQUEST_OWNED or srcfunc(I) in effects.REQUEST_OWNED:
                    continue
                if k == "atomic" or t[0] == "g" and has_lock(m, m.globals[t[1]]["ty"]):
                    continue        # T02; T01
                what = {"hidden": "call of %s, which keeps state of the whole process" % t[1]}.get(
                    k, "the global %s is written" % t[1] if t[0] == "g" else "%s of %s is written, which requests share" % (t[1], t[0]))
                fl, ln = (m.funcs[path[-1]].file, I.loc[0][1]) if I.loc else (m.funcs[path[-1]].file, 0)
                found.setdefault((("hidden-state" if k == "hidden" else "shared-write"), srcfunc(I), t[1]), {
                    "rule": "hidden-state" if k == "hidden" else "shared-write", "function": srcfunc(I), "file": fl, "line": ln,
                    "message": what + " while serving a request", "chain": list(path)})
        consts = sorted(n for n, g in m.globals.items() if not g["const"] and g.get("file") and g.get("init") and not n.startswith((".str", "__")))
        info[cfg] = {"request_functions": req, "functions_summarised": len(E), "kinds_of_memory_written": len(tags),
                     "variables_of_the_library": consts}
    cov = {"explanation": "Interprocedural effect analysis: for each function the types and fields of memory it may write, and the globals, "
           "directly or through what it calls (function pointers resolved to every function stored in them), with objects of the "
           "function itself left out. Rules: shared-write (memory of the data set, its collections, headers, properties, indexes or a "
           "library global written by a request function outside of what T01 and T02 show to be guarded), hidden-state (a C library "
           "function with state of its own).",
           "per_configuration": info}
    return found, cov
