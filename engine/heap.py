"""Ownership of heap memory: leaks, use after free, double free, invalid free,
dangling published pointers, unchecked allocation results."""
from ai import Policy, atom, const, ladd, lsub, ZERO, ONE, islin, atoms_of, Dead
from ir import locstr, srcfunc
import os


class Recorder(Policy):
    def __init__(p):
        p.found = {}
        p.counts = {}

    def count(p, k, n=1):
        p.counts[k] = p.counts.get(k, 0) + n

    def once(p, k, key):
        s = p.__dict__.setdefault("_once", {}).setdefault(k, set())
        if key not in s:
            s.add(key)
            p.counts[k] = len(s)

    def report(p, A, st, I, rule, subject, msg, fn=None):
        fn = fn or srcfunc(I)
        key = (rule, fn, subject)
        if key in p.found:
            return
        if A.cap == 1:
            # the state budget ran out and unrelated paths were merged
            if A.f.name not in A.stats["imprecise"]:
                A.stats["imprecise"].append(A.f.name)
            return
        tr = []
        t = st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1]); t = t[0]
        p.found[key] = {"rule": rule, "function": fn, "subject": subject, "message": msg,
                        "file": os.path.basename(I.loc[0][0]) if I.loc else A.f.file,
                        "line": I.loc[0][1] if I.loc else A.f.line,
                        "root": A.f.name, "chain": ["%s:%d %s" % (os.path.basename(l[0]), l[1], l[2]) for l in I.loc],
                        "path": list(reversed(tr))}


def family(n):
    if n in ALIGNED or n in ("*fiftyoneDegreesFreeAligned", "fiftyoneDegreesMemoryStandardFreeAligned"):
        return "aligned"
    if n in ("malloc", "calloc", "strdup", "aligned_alloc", "free"):
        return "C library"
    return "library"


ALIGNED = { "*fiftyoneDegreesMallocAligned", "fiftyoneDegreesMemoryStandardMallocAligned",
           "fiftyoneDegreesMemoryTrackingMallocAligned"}


def callee_name(A, I):
    c = I.d["callee"]
    if c[0] == "f":
        return c[1]
    s = A.slot_of(c)
    if s[0] == "gvar":
        return "*" + s[1]
    if s[0] == "slot":
        return "->%s.%s" % (s[1], s[2])
    return "?"


# calls which free the object they are given together with everything it owns
DESTRUCTORS = {
    "->fiftyone_degrees_collection_t.freeCollection": 0,
    "->fiftyone_degrees_resource_manager_t.freeResource": 0,
    "->fiftyone_degrees_resource_handle_t.freeResource": 0,
}


def interior_fields(m):
    """Pointer fields which, wherever they are set, are set to a place inside the object they are in."""
    c = getattr(m, "_interior", None)
    if c is not None:
        return c

    def base(F, o):
        off = False
        for _ in range(12):
            I = F.insts.get(o[1]) if o[0] == "v" else None
            if I is None or I.op not in ("getelementptr", "bitcast"):
                break
            off = off or I.op == "getelementptr"
            o = I.ops[0]
        return (tuple(o) if o[0] == "v" else None), off
    yes, no = set(), set()
    for F in m.funcs.values():
        for I in F.insts.values():
            if I.op == "store" and I.d.get("tag") and I.ops[0][0] != "n":
                v, off = base(F, I.ops[0])
                a, _ = base(F, I.ops[1])
                (yes if off and v is not None and v == a else no).add(tuple(I.d["tag"]))
    m._interior = yes - no
    return m._interior


class Heap(Recorder):
    owners = True       # whether overwriting data.ptr is judged
    rules = None        # which rules are reported (None: all)

    def __init__(p, destructors=None):
        Recorder.__init__(p)
        p.destr = dict(DESTRUCTORS)
        if destructors:
            p.destr.update(destructors)

    # site description independent of line numbers
    def site(p, A, I):
        n = None
        for J in I.blk.insts:
            if J.op == "store" and J.ops[0] == ["v", I.id]:
                t = A.itag(J, 1)
                if t and t[0] != "al":
                    n = t[1]
                break
        if not n:
            f = srcfunc(I)
            ls = sorted({J.loc[0][1] for J in A.f.insts.values() if J.op == "call" and J.loc and J.loc[0][2] == f
                         and callee_name(A, J) == callee_name(A, I)})
            n = "allocation" + ("#%d" % (ls.index(I.loc[0][1]) + 1) if len(ls) > 1 and I.loc else "")
        return "%s:%s" % (srcfunc(I), n)

    def on_alloc(p, A, st, I, h, args):
        p.once("allocation_sites", (A.f.name, I.id))
        a = h[1][0][0]
        fam = family(callee_name(A, I))
        st.res[a] = ("live", p.site(A, I), fam)

    def describe(p, A, a):
        return a

    def on_free(p, A, st, I, v):
        p.once("free_sites", (A.f.name, I.id))
        v = A.canon(st, A.lin(st, v, "%d" % I.id))
        if not v[1]:
            return
        r = A.root(v[1])
        if r is None:
            return
        cur = st.res.get(r)
        k = A.okind(r)
        if cur is not None and cur[0] == "freed":
            p.report(A, st, I, "double-free", cur[1], "memory (%s) is freed a second time" % cur[1])
            return
        if k in ("al", "g"):
            p.report(A, st, I, "invalid-free", r if k == "g" else "local", "a local or static object is freed")
            return
        if len(v[1]) > 1 or v[0] != 0:
            if k == "h":
                p.report(A, st, I, "invalid-free", cur[1] if cur else r, "an interior pointer is freed")
            return
        if r[0] == "l" and r[1:].rstrip("'").isdigit():
            J = A.f.insts.get(int(r[1:].rstrip("'")))
            t = A.itag(J, 0) if J is not None and J.op == "load" else None
            if t and tuple(t) in interior_fields(A.m):
                p.report(A, st, I, "invalid-free", t[1], "%s, which points inside the object it is in, is freed" % t[1])
                return
        fam = family(callee_name(A, I))
        if cur is not None and cur[0] == "live":
            if cur[2] != fam and cur[2] is not None:
                p.report(A, st, I, "mismatched-free", cur[1], "memory from the %s allocator is freed with the %s one" % (cur[2], fam))
            desc = cur[1]
        else:
            desc = p.ext_name(A, I)
            if k == "h" and r in st.esc:
                pass
        # elements of a freed array at indices which are no longer tracked: the loop
        # over the elements which precedes the free is not related to them
        for terms, inner in st.mem.items():
            if len(terms) > 1 and A.root(terms) == r:
                for o, e in inner.items():
                    if o != "Z":
                        for x in atoms_of(e[1]):
                            if x != r and x in st.res and st.res[x][0] == "live":
                                if p.uncounted(A, st, r, terms, o):
                                    p.report(A, st, I, "leak", st.res[x][1], "allocated memory (%s) is only kept in an element which is not counted when the array is freed" % st.res[x][1])
                                st.res[x] = ("stored",) + st.res[x][1:]
        st.res[r] = ("freed", desc, srcfunc(I))

    def uncounted(p, A, st, r, terms, o):
        """Whether the element is at or after the end of the counted ones of the array."""
        c = i = None
        for off, e in st.mem.get(((r, 1),), {}).items():
            if off != "Z" and e[2]:
                if e[2][1] == "count":
                    c = e[1]
                elif e[2][1] == "items":
                    i = e[1]
        if c is None or i is None or not islin(c) or not islin(i):
            return False
        k = max(abs(n) for _, n in terms)
        end = ladd(i, c, k)
        return A.prove_le0(st, A.canon(st, lsub(end, (o, terms))), 3)

    def ext_name(p, A, I):
        o = I.ops[0]
        for _ in range(6):
            if o[0] != "v":
                break
            J = A.f.insts.get(o[1])
            if J is None:
                return A.f.names.get(o[1], "arg%d" % o[1])
            if J.op == "load":
                t = A.itag(J, 0)
                if t and t[0] != "al":
                    return "%s.%s" % (t[0].replace("fiftyone_degrees_", "").removesuffix("_t"), t[1])
                break
            if A.f.names.get(J.id):
                return A.f.names[J.id]
            if J.op in ("getelementptr", "bitcast"):
                o = J.ops[0]
                continue
            break
        return "memory"

    def overwritten(p, A, st, I, addr, v, reset):
        """The memory a data structure owns is let go of: it was freed, or there was none."""
        a, cv = A.canon(st, addr), A.canon(st, v)
        if len(a[1]) > 1 or not (cv == ZERO or (A.root(cv[1]) or "x")[0] == "h"):
            return
        inner = st.mem.get(a[1]) or {}
        e, n = inner.get(a[0]), inner.get(a[0] + 8)
        old = A.canon(st, e[1]) if e is not None and islin(e[1]) else None
        if old == ZERO or (n is not None and islin(n[1]) and A.hi(st, n[1]) == 0):
            return
        r = A.root(old[1]) if old is not None else None
        if r in st.res and st.res[r][0] == "freed" or (r and r[0] == "u"):
            return
        # resetting says there is nothing to free, which is wrong only of memory known to be there
        if reset and not (r in st.res and st.res[r][0] == "live" and r in st.esc):
            return
        p.report(A, st, I, "leak", "data.ptr", "the memory of the data structure is overwritten without having been freed")

    def on_store(p, A, st, I, addr, v, tag):
        if tag == ("fiftyone_degrees_data_t", "ptr") and islin(v) and p.owners:
            reset = srcfunc(I) == "fiftyoneDegreesDataReset"
            if not reset:
                p.once("owners", (A.f.name, I.id))
            p.overwritten(A, st, I, addr, v, reset)
        # linked to another object of its own type: the list has it from here on
        if not tag or not islin(v) or len(v[1]) != 1:
            return
        x = v[1][0][0]
        if x in st.res and st.res[x][0] == "live" and A.root(A.canon(st, addr)[1]) != x:
            S = A.m.structs.get(tag[0])
            if S and any(f[0] == tag[1] and f[4] == "struct:%s*" % tag[0] for f in S["fields"]):
                st.res[x] = ("stored",) + st.res[x][1:]

    def on_access(p, A, st, I, addr, size, kind, tag):
        raw = addr
        addr = A.canon(st, addr)
        if not addr[1]:
            if 0 <= addr[0] < 65536:
                if kind in ("memread", "memwrite") and islin(size) and A.hi(st, size) == 0:
                    return None
                for a, c in raw[1]:
                    if a.startswith("nz"):
                        J = A.f.insts[int(a[2:].rstrip("'"))]
                        p.report(A, st, I, "unchecked-allocation", p.site(A, J), "the result of a failed allocation is dereferenced")
                        return False
                return False
            return None
        r = A.root(addr[1])
        if r is not None:
            c = st.res.get(r)
            if c is not None and c[0] == "freed":
                p.report(A, st, I, "use-after-free", c[1], "memory (%s) is used after it was freed" % c[1])
                return False
            if A.lo(st, atom(r)) == 0:
                # dereferenced: non-NULL from here on
                l, h = A.arng(st, r)
                st.rng[r] = (1, h)
        p.count("accesses_checked")
        return None

    def accname(p, A, I, tag):
        if tag and tag[0] not in ("al",):
            return "%s.%s" % (tag[0], tag[1])
        return callee_name(A, I) if I.op in ("call", "invoke") else I.op

    def live(p, st):
        return [a for a, v in st.res.items() if v[0] == "live"]

    def on_gc(p, A, st, reach, inst):
        if inst is not None and inst.blk.insts[-1].op == "unreachable":
            return      # the process is about to abort
        for a in list(st.res):
            if a not in reach:
                v = st.res[a]
                if v[0] == "live" and a not in st.esc:
                    p.leak(A, st, inst, a, v)
                del st.res[a]

    def swept(p, A, st, a):
        """Whether it is held by an element of an array of which an unnamed element's same field was freed:
        a loop went over the elements, and which of them it reached is not known."""
        held = [(t, o) for t, i in st.mem.items() for o, e in i.items() if o != "Z" and islin(e[1]) and A.root(e[1][1]) == a]
        for t, o in held:
            r = A.root(t)
            for t2, i2 in st.mem.items():
                if len(t2) < 2 or A.root(t2) != r or t2 == t:
                    continue
                k = max(abs(n) for x, n in t2 if x != r)
                for o2, e in i2.items():
                    if o2 != "Z" and (o2 - o) % k == 0 and islin(e[1]):
                        x = A.root(e[1][1])
                        if x != a and x in st.res and st.res[x][0] == "freed":
                            return True
        return False

    def leak(p, A, st, I, a, v):
        if p.swept(A, st, a):
            return
        p.report(A, st, I, "leak", v[1], "allocated memory (%s) becomes unreachable without being freed" % v[1])

    def on_exit(p, A, st, I, v):
        p.count("exits_checked")
        seeds = set(st.esc)
        if v is not None:
            atoms_of(v, seeds)
        for terms, inner in st.mem.items():
            r = A.root(terms)
            if r is None or A.okind(r) not in ("al", "h") or r in st.esc:
                for o, e in inner.items():
                    if o != "Z":
                        atoms_of(e[1], seeds)
        reach = A.reach_from(st, seeds)
        for a, s in st.res.items():
            if s[0] == "live" and a not in reach:
                p.leak(A, st, I, a, s)
        # pointers to freed memory left in memory that outlives the call
        freed = {a for a, s in st.res.items() if s[0] == "freed"}
        if freed:
            for terms, inner in st.mem.items():
                r = A.root(terms)
                if r is None or r in freed or r[0] in "jqpo" or r.endswith("'"):
                    continue
                if A.okind(r) == "al" and r not in st.esc:
                    continue
                if A.okind(r) == "h" and r not in reach:
                    continue
                # memory owned by something freed here is gone as well
                if p.inside_freed(A, st, r, freed):
                    continue
                for o, e in inner.items():
                    if o == "Z" or not islin(e[1]):
                        continue
                    x = A.root(e[1][1])
                    if x in freed:
                        t = e[2]
                        if t and t[1] == "handle" and "counter" in t[0]:
                            continue    # the handle's pointer to itself
                        nm = "%s.%s" % (t[0].replace("fiftyone_degrees_", "").removesuffix("_t"), t[1]) if t else "memory"
                        p.dangling(A, st, I, nm, st.res[x], terms, o)
            if v is not None and islin(v):
                x = A.root(A.canon(st, v)[1])
                if x in freed:
                    p.report(A, st, I, "use-after-free", st.res[x][1], "freed memory is returned")

    def dangling(p, A, st, I, nm, res, terms, off):
        p.report(A, st, I, "dangling", nm, "%s still points to memory freed in this call" % nm, fn=res[2] or A.f.name)

    def inside_freed(p, A, st, r, freed):
        seen = set()
        cur = {r}
        # r was loaded from an object that has been freed
        for terms, inner in st.mem.items():
            rr = A.root(terms)
            if rr in freed:
                for o, e in inner.items():
                    if o != "Z" and r in atoms_of(e[1]):
                        return True
        return False

    def on_call(p, A, st, I, c, args):
        n = callee_name(A, I)
        if c[0] == "fn" and n not in p.destr:
            n = c[1]
        if n in p.destr:
            v = args[p.destr[n]]
            if islin(v):
                v = A.canon(st, v)
                r = A.root(v[1])
                if r is not None:
                    cur = st.res.get(r)
                    if cur is not None and cur[0] == "freed":
                        p.report(A, st, I, "double-free", cur[1], "%s is destroyed a second time" % cur[1])
                    for x in A.reach_from(st, {r}):
                        if x != r and x in st.res and st.res[x][0] == "live" and A.okind(x) == "h":
                            del st.res[x]
                    st.res[r] = ("freed", p.ext_name(A, I) if cur is None else cur[1], None)
            return [st]
        return None

    def on_drop(p, A, st, terms, e):
        # stored in an element whose index is no longer tracked: owned by that object
        for a in atoms_of(e[1]):
            if a in st.res and st.res[a][0] == "live":
                st.res[a] = ("stored",) + st.res[a][1:]

    def on_rename(p, A, st, m):
        if not any(a in m for a in st.res):
            return
        n = {a: v for a, v in st.res.items() if a not in m}
        for a, v in st.res.items():
            t = m.get(a)
            if a in m and t is not None and len(t[1]) == 1:
                n.setdefault(t[1][0][0], v)
        st.res = n

    def after_join(p, A, a, b, n):
        lv = [x for x, v in n.res.items() if v[0] == "live"]
        if lv:
            reach = A.reachable(n)
            held = p.memory_held(A, n)
            before = p.memory_held(A, a) | p.memory_held(A, b)
            for x in lv:
                if x not in reach or (x in before and x not in held):
                    n.res[x] = ("stored",) + n.res[x][1:]

    def memory_held(p, A, st):
        s = set()
        for terms, inner in st.mem.items():
            r = A.root(terms)
            for o, e in inner.items():
                if o != "Z":
                    for x in atoms_of(e[1]):
                        if x != r:
                            s.add(x)
        return s

    def signature(p, A, st):
        return None
