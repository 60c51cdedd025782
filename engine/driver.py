"""Runs a property's analysis over the program and reports."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback
import ir, ai
from ir import EngineError, VERIF

NPROC = min(8, os.cpu_count() or 1)
MAXBLOCKS = 40      # exported functions up to this size are also inlined into callers


def load_full(config="release", cxx=False, keep=()):
    """The C library with helpers and small exported functions, but for those in keep,
    inlined into callers."""
    m0 = ir.load(no_inline=True, config=config, cxx=cxx)
    if callable(keep):
        keep = keep(m0)
    for k in keep:
        if k not in m0.funcs:
            raise EngineError("%s is not defined any more" % k)
    names = [f.name for f in m0.funcs.values()
             if not f.decl and not f.internal and len(f.blocks) <= MAXBLOCKS and f.name not in keep]
    m = ir.load(inline=names, keep=keep, config=config, cxx=cxx)
    m.kept = set(keep)
    return m


def load_base(config="release", cxx=False):
    """The C library with file-local helpers inlined into the functions that use them."""
    return ir.load(config=config, cxx=cxx)


def roots(m, skip=()):
    return [f.name for f in m.funcs.values()
            if not f.decl and not (f.internal and not f.addr_taken) and not f.name.startswith(tuple(skip) or ("\0",))]


_ctx = None


def _work(name):
    m, S, mk = _ctx
    P = mk()
    A = ai.Analyzer(m, P, S)
    t = time.time()
    A.run(name)
    if hasattr(P, "finish"):
        P.finish(A, name)
    return name, P.found, P.counts, A.stats, time.time() - t, getattr(P, "out", None)


def run_ai(m, mk, names=None, skip=(), summaries=None):
    """Abstract interpretation of every root with a fresh policy mk()."""
    global _ctx
    S = summaries or ai.Summaries(m)
    if names is None:
        names = roots(m, skip)
    names = sorted(names, key=lambda n: -sum(len(b.insts) for b in m.funcs[n].blocks.values()))
    _ctx = (m, S, mk)
    found, counts, stats, outs, times = {}, {}, {}, {}, {}
    if NPROC > 1 and len(names) > 1:
        with mp.get_context("fork").Pool(NPROC) as pool:
            res = list(pool.imap_unordered(_work, names, chunksize=1))
    else:
        res = [_work(n) for n in names]
    for name, f, c, s, t, o in sorted(res, key=lambda r: r[0]):
        for k, v in f.items():
            found.setdefault(k, v)
        for k, v in c.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in s.items():
            if k == "states_max":
                stats[k] = max(stats.get(k, 0), v)
            elif isinstance(v, list):
                stats.setdefault(k, []).extend(v)
            else:
                stats[k] = stats.get(k, 0) + v
        outs[name] = o
        times[name] = t
    return Result(found, counts, stats, outs, times)


class Result:
    def __init__(r, found, counts, stats, outs, times):
        r.found = found; r.counts = counts; r.stats = stats; r.outs = outs; r.times = times

    def merge(r, o):
        for k, v in o.found.items():
            r.found.setdefault(k, v)
        for k, v in o.counts.items():
            r.counts[k] = r.counts.get(k, 0) + v
        for k, v in o.stats.items():
            if k == "states_max":
                r.stats[k] = max(r.stats.get(k, 0), v)
            elif isinstance(v, list):
                r.stats.setdefault(k, []).extend(v)
            else:
                r.stats[k] = r.stats.get(k, 0) + v


def known_findings():
    """[(property, rule, function, subject, text)] from the committed file."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            parts = [x.strip() for x in l.split("|")]
            if len(parts) >= 5 and parts[0].startswith("finding:"):
                out.append((parts[0].split("property=")[1].strip(), parts[1], parts[2], parts[3], parts[4]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("props." + pid.lower())
        found, cov = mod.check(a.tier)
    except EngineError as e:
        print("ERROR property=%s the analysis could not be carried out: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the analysis failed" % pid)
        return 2
    known = {(k[1], k[2], k[3]): k[4] for k in known_findings() if k[0] == pid}
    new, old = [], []
    for key, f in sorted(found.items(), key=lambda kv: [str(x) for x in kv[0]]):
        k = tuple(str(x) for x in key)
        # a construct moved to a helper of the function listed is still the same construct
        where = [k[1]] + [c.split()[-1] for c in f.get("chain", [])] + [str(f.get("root"))]
        w = next(((k[0], fn, k[2]) for fn in where if len(k) == 3 and (k[0], fn, k[2]) in known), None)
        if w is not None:
            if not any(o == w for o, _ in old):
                old.append((w, f))
        else:
            new.append((k, f))
    for k, f in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, "|".join(k), known[k]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for k, f in new:
        h = hashlib.sha256(repr(k).encode()).hexdigest()[:12]
        p = os.path.join(rdir, "%s-%s.json" % (pid, h))
        json.dump({"property": pid, "key": list(k), **f,
                   "replay": "python3 /verif/check.py --property %s" % pid}, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s:%s in %s: [%s] %s" % (f.get("file"), f.get("line"), f.get("function"), f.get("rule"), f.get("message")))
        if f.get("chain"):
            print("    inlined from: " + " < ".join(f["chain"][:6]))
        if f.get("path"):
            print("    branches taken (line:outcome): " + " ".join(str(x) for x in f["path"][-25:]))
    level = mod.LEVEL
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
          "violations": len(new), "known_findings": ["|".join(k) for k, _ in old],
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %d violation(s), %d known finding(s), %.1fs" % (pid, a.tier, len(new), len(old), time.time() - t0))
    return 1 if new else 0
