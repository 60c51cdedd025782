"""Lock discipline: mutexes are released on every path and only by the function that holds
them, data written under a lock is accessed only under it, and waits test their condition."""
from ai import atom, const, ladd, lsub, ZERO, ONE, islin, atoms_of, Dead
from heap import Recorder, callee_name
from ir import srcfunc
import os

LOCK, UNLOCK = "pthread_mutex_lock", "pthread_mutex_unlock"
INIT, DESTROY = "pthread_mutex_init", "pthread_mutex_destroy"
WAIT, WAKE = ("pthread_cond_wait", "pthread_cond_timedwait"), ("pthread_cond_signal", "pthread_cond_broadcast")
PRIMS = (LOCK, UNLOCK, INIT, DESTROY, "pthread_mutex_trylock") + WAIT + WAKE
WRAP_LOCK, WRAP_UNLOCK = "fiftyoneDegreesMutexLock", "fiftyoneDegreesMutexUnlock"


class Locks(Recorder):
    default_rng = {"h": (1, None)}
    alloc_fails = False

    def __init__(p):
        Recorder.__init__(p)
        p.out = {"acc": {}, "order": set(), "kinds": {}, "init": set(), "waits": set(), "stores": {}, "parents": {}, "indexed": set()}

    # ---- the locks held on a path: ((address, kind), ...)
    def held(p, st):
        return st.aux.get("L", ())

    def kind(p, A, I, k=0):
        return tuple(A.itag(I, k) or ("?", "?"))

    def extra_atoms(p, st):
        out = set()
        for a, k in p.held(st):
            atoms_of(a, out)
        return out

    def on_rename(p, A, st, m):
        from ai import subst
        h = p.held(st)
        if h and any(x in m for a, k in h for x in atoms_of(a)):
            n = []
            for a, k in h:
                b = subst(a, m)
                n.append((b if b is not None else ("?",), k))
            st.aux["L"] = tuple(n)

    def on_entry(p, A, st):
        if A.f.name == WRAP_UNLOCK:
            st.aux["L"] = ((atom("a0"), ("?", "?")),)

    def on_call(p, A, st, I, c, args):
        n = c[1] if c[0] == "fn" else None
        if n not in PRIMS:
            return None
        v = A.canon(st, A.lin(st, args[0], "%d" % I.id))
        k = p.kind(A, I)
        h = p.held(st)
        if n in (INIT, DESTROY):
            if n == INIT and A.loops:
                pass
            p.out["init"].add((A.f.name, k))
            st.env[I.id] = A.mk(st, "r%d" % I.id, 0, 200)
            return [st]
        if n == LOCK:
            p.once("lock_sites", (A.f.name, I.id))
            p.out["kinds"].setdefault(k, set()).add((A.f.name, A.f.file))
            p.parent(A, st, I, v, k)
            if len(v[1]) > 1:
                p.out["indexed"].add(k)
            for a, kk in h:
                if a == v:
                    p.report(A, st, I, "locked-twice", k[1], "the lock (%s) is taken while the same path already holds it" % k[1])
                    return []
                p.out["order"].add((kk, k, A.f.name, srcfunc(I)))
            out = []
            used = any(["v", I.id] == list(o) for J in A.f.insts.values() for o in J.ops if type(o) in (list, tuple) and len(o) == 2)
            if used:
                s2 = st.copy()
                s2.env[I.id] = A.mk(s2, "r%d" % I.id, 1, 200)
                out.append(s2)
            st.env[I.id] = ZERO
            st.aux["L"] = h + ((v, k),)
            p.forget(A, st)
            return [st] + out
        if n == UNLOCK:
            p.once("unlock_sites", (A.f.name, I.id))
            if any(a == v for a, kk in h):
                st.aux["L"] = tuple((a, kk) for a, kk in h if a != v)
                if not st.aux["L"]:
                    del st.aux["L"]
            else:
                p.report(A, st, I, "unlock-not-held", k[1], "the lock (%s) is released on a path which does not hold it" % k[1])
                return []
            st.env[I.id] = ZERO
            return [st]
        if n in WAIT:
            p.once("wait_sites", (A.f.name, I.id))
            mx = A.canon(st, A.lin(st, args[1], "%dm" % I.id))
            if not any(a == mx for a, kk in h):
                p.report(A, st, I, "wait-without-lock", k[1], "a condition is waited for while its lock is not held")
                return []
            r = A.root(v[1])
            for terms, inner in st.mem.items():
                if A.root(terms) == r:
                    for o, e in inner.items():
                        if o == "Z" or not e[2]:
                            continue
                        if not e[1][1] if islin(e[1]) else False:
                            p.out["waits"].add((tuple(e[2]), e[1][0], e[1][0]))
                        elif islin(e[1]):
                            lo, hi = A.lo(st, e[1]), A.hi(st, e[1])
                            ne0 = A.cmp_eval(st, "eq", e[1], ZERO, 8) is False
                            if ne0:
                                p.out["waits"].add((tuple(e[2]), max(1, lo or 1), hi))
            p.forget(A, st)
            st.aux["C"] = srcfunc(I)
            st.env[I.id] = ZERO
            return [st]
        if n in WAKE:
            p.once("wake_sites", (A.f.name, I.id))
            st.aux.pop("S", None)
            st.env[I.id] = ZERO
            return [st]
        return None

    def parent(p, A, st, I, v, k):
        """A lock that is one of many: remember the object the array of them was found in."""
        if len(v[1]) < 2:
            return
        b = A.root(v[1])
        if b is None or A.okind(b) not in ("arg", "x"):
            return
        for terms, inner in st.mem.items():
            for o, e in inner.items():
                if o != "Z" and e[1] == atom(b) and e[2]:
                    p.out["parents"].setdefault(k, set()).add(e[2][0])

    def forget(p, A, st):
        """Other threads may have changed everything that is shared."""
        for terms in list(st.mem):
            r = A.root(terms)
            if r is not None and A.okind(r) in ("al", "h") and r not in st.esc:
                continue
            inner = st.mem[terms]
            # pointers that lead to the lock are constant while it exists
            keep = {o: e for o, e in inner.items() if o != "Z" and e[3] == "ptr" and any(
                x in atoms_of(e[1]) for a, k in p.held(st) for x in (atoms_of(a) if islin(a) else ()))}
            if keep:
                st.mem[terms] = keep
            else:
                del st.mem[terms]

    def on_access(p, A, st, I, addr, size, kind, tag):
        addr = A.canon(st, addr)
        if not addr[1]:
            return False if 0 <= addr[0] < 65536 else None
        r = A.root(addr[1])
        if r is not None and A.okind(r) in ("al", "h") and r not in st.esc:
            return None
        if tag is None or tag[0] == "al":
            return None
        tag = tuple(tag)
        p.count("accesses")
        w = kind in ("store", "memwrite")
        if kind == "rmw":
            return None
        if kind == "load" and st.aux.get("C") and any(tag == t for t, lo, hi in p.out["waits"]):
            del st.aux["C"]
        h = p.held(st)
        cov = []
        for a, k in h:
            c = True
            if islin(a) and len(a[1]) > 1:
                b = A.root(a[1])
                ix = {x for x, _ in a[1] if x != b}
                if r == b and not (ix & {x for x, _ in addr[1]}):
                    c = False
            elif islin(a) and A.root(a[1]) == r and len(addr[1]) > 1:
                c = "fixed"     # a fixed lock, an element at an index
            cov.append((k, c))
        key = (tag, w, tuple(cov), A.f.name, srcfunc(I))
        if key not in p.out["acc"]:
            p.out["acc"][key] = (os.path.basename(I.loc[0][0]) if I.loc else A.f.file, I.loc[0][1] if I.loc else A.f.line,
                                 bool(I.d.get("atomic")))
        return None

    def on_store(p, A, st, I, addr, v, tag):
        if tag is None or not islin(v):
            return
        r = A.root(A.canon(st, addr)[1])
        if r is not None and A.okind(r) in ("al", "h") and r not in st.esc:
            return
        v = A.canon(st, v)
        for t, lo, hi in p.waits:
            if t == tuple(tag):
                l, h = A.lo(st, v), A.hi(st, v)
                if (h is not None and h < lo) or (l is not None and hi is not None and l > hi):
                    st.aux["S"] = srcfunc(I)

    waits = ()

    def on_exit(p, A, st, I, v):
        p.count("exits_checked")
        h = p.held(st)
        if A.f.name == WRAP_LOCK:
            if not any(a == atom("a0") for a, k in h):
                p.report(A, st, I, "not-locked", "lock", "the function that takes a lock returns without having taken it")
            return
        for a, k in h:
            p.report(A, st, I, "not-released", k[1], "the lock (%s) is still held when the function returns" % k[1], fn=A.f.name)
        if "S" in st.aux:
            p.report(A, st, I, "no-wake-up", A.f.name, "the state a waiting thread tests is changed and the thread is not woken")
        if "C" in st.aux:
            p.report(A, st, I, "wait-not-rechecked", A.f.name, "the condition waited for is not tested again after the wait")


def with_waits(ws):
    class L(Locks):
        waits = ws
    return L


def takes_locks(m):
    out = set()
    for F in m.funcs.values():
        if F.decl:
            continue
        for I in F.insts.values():
            if I.op in ("call", "invoke") and I.d["callee"][0] == "f" and I.d["callee"][1] in PRIMS:
                out.add(F.name)
    return out


def guarded(outs, m):
    """The data each kind of lock guards, and the accesses that break the discipline."""
    found = {}
    kinds, init, order, parents, indexed = {}, set(), {}, {}, set()
    for o in outs.values():
        if not o:
            continue
        for k, v in o["kinds"].items():
            kinds.setdefault(k, set()).update(v)
        init |= o["init"]
        indexed |= o["indexed"]
        for a, b, f, s in o["order"]:
            order.setdefault((a, b), (f, s))
        for k, v in o["parents"].items():
            parents.setdefault(k, set()).update(v)
    kinds.pop(("?", "?"), None)
    files = {k: {f for _, f in v} for k, v in kinds.items()}
    G = {}
    exempt = {}
    for n, k in init:
        exempt.setdefault(n, set()).add(k)
    for n, o in outs.items():
        for (tag, w, cov, root, fn), site in (o or {"acc": {}})["acc"].items():
            if w and not site[2]:
                for k, c in cov:
                    if k in kinds:
                        G.setdefault(tag, {}).setdefault(k, []).append(c)
    checked = 0
    for n, o in outs.items():
        if not o:
            continue
        for (tag, w, cov, root, fn), site in sorted(o["acc"].items(), key=str):
            if tag not in G or site[2]:
                continue
            ks = G[tag]
            if not any(root_file in files[k] for k in ks for root_file in [m.funcs[root].file]):
                continue
            if exempt.get(root, set()) & set(ks):
                continue
            checked += 1
            have = [k for k, c in cov if k in ks]
            f = None
            if not have:
                f = ("unguarded", "%s is %s without the lock (%s) under which it is written elsewhere" % (
                    ".".join(tag), "written" if w else "read", " or ".join(sorted(".".join(k) for k in ks))))
            elif not any(c and tag[0] not in parents.get(k, ()) and not (c == "fixed" and k in indexed) for k, c in cov if k in ks):
                f = ("not-covered", "%s is %s under one of several locks (%s), which does not exclude threads that hold another of them" % (
                    ".".join(tag), "written" if w else "read", " or ".join(sorted(".".join(k) for k in have))))
            if f:
                found.setdefault((f[0], fn, ".".join(tag)), {
                    "rule": f[0], "function": fn, "subject": ".".join(tag), "message": f[1], "file": site[0], "line": site[1],
                    "root": root})
    for n, k in sorted(init):
        if k not in kinds and k[0] != "?":
            found.setdefault(("lock-never-taken", n, ".".join(k)), {
                "rule": "lock-never-taken", "function": n, "subject": ".".join(k), "file": m.funcs[n].file, "line": m.funcs[n].line,
                "message": "the lock %s is created and never taken" % ".".join(k)})
    # lock order
    def reach(a, seen):
        for (x, y) in order:
            if x == a and y not in seen:
                seen.add(y)
                reach(y, seen)
        return seen
    for (a, b), (f, s) in sorted(order.items(), key=str):
        if a in reach(b, set()) or a == b:
            found.setdefault(("lock-order", s, "%s,%s" % (".".join(a), ".".join(b))), {
                "rule": "lock-order", "function": s, "subject": ".".join(a), "file": m.funcs[f].file, "line": m.funcs[f].line,
                "message": "%s is taken while %s is held, and elsewhere in the opposite order or in no fixed order" % (".".join(b), ".".join(a))})
    return found, G, kinds, checked
