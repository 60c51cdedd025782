"""Shared data is only accessed under its lock, and locks are released on every path."""
import driver, locks, ai

LEVEL = "other"
ASSUMPTIONS = [
    "POSIX threads semantics of pthread_mutex_* and pthread_cond_*; the Windows branches are not seen",
    "a lock guards what some function writes while holding it; functions which create or destroy the lock run alone",
    "functions of other files that reach guarded data only through a caller which locks are judged within that caller",
]


def check(tier):
    found, total, info = {}, None, {}
    for cfg in (["release"] if tier == "quick" else ["release", "debug", "noexc", "track", "memonly"]):
        m = driver.load_full(cfg)
        S = ai.Summaries(m)
        files = {m.funcs[n].file for n in locks.takes_locks(m)}
        names = [f.name for f in m.funcs.values() if not f.decl and not (f.internal and not f.addr_taken) and f.file in files]
        r = driver.run_ai(m, locks.Locks, names, summaries=S)
        waits = set()
        for o in r.outs.values():
            if o:
                waits |= o["waits"]
        r2 = driver.run_ai(m, locks.with_waits(frozenset(waits)), names, summaries=S) if waits else r
        g, G, kinds, checked = locks.guarded(r2.outs, m)
        for x in (r.found if not waits else r2.found, g):
            for k, v in x.items():
                found.setdefault(k, v)
        if not kinds:
            raise driver.EngineError("no lock is taken anywhere")
        info[cfg] = {"functions_analysed": sorted(names), "locks": {".".join(k): sorted(f for f, _ in v) for k, v in kinds.items()},
                     "guarded_data": {".".join(t): sorted(".".join(k) for k in v) for t, v in sorted(G.items())},
                     "accesses_of_guarded_data_checked": checked, "waited_for": sorted(".".join(t) for t, _, _ in waits)}
        if total is None:
            total = r2
        else:
            total.merge(r2)
    cov = {"explanation": "Lockset analysis by path-sensitive abstract interpretation of every function (helpers inlined) of the files that take "
           "locks. The data a lock guards is inferred: what is written while it is held. Rules: locked-twice, unlock-not-held, "
           "not-released, not-locked, unguarded (access without the lock), not-covered (the lock held is one of several and does not "
           "exclude the others), lock-order, wait-without-lock, wait-not-rechecked, no-wake-up.",
           "per_configuration": info, "block_visits": total.stats["visits"],
           "lock_sites": total.counts.get("lock_sites", 0), "unlock_sites": total.counts.get("unlock_sites", 0),
           "wait_sites": total.counts.get("wait_sites", 0), "exits_checked": total.counts.get("exits_checked", 0),
           "not_analysed": total.stats.get("unanalysed", []),
           "analysed_without_verdict_on_some_paths": total.stats.get("imprecise", [])}
    return found, cov
