"""No failure is reported as success: on a path where an allocation, a file operation, a
retrieval or a callee failed, the function does not return the success status, or a result
with the caller's exception not set."""
from ai import atom, const, ladd, lsub, lneg, ZERO, ONE, islin, atoms_of, Dead, EXC_T
from heap import Recorder, callee_name
from ir import srcfunc
import models

STATUS = "enum:e_fiftyone_degrees_status_code"
COLL = "fiftyone_degrees_collection_t"



# nothing is returned only with the exception set: an index or offset that is refused is said to be
EXPLAINS = set("""fiftyoneDegreesPoolItemGet fiftyoneDegreesFileHandleGet fiftyoneDegreesCollectionReadFileFixed
fiftyoneDegreesCollectionReadFilePosition fiftyoneDegreesCollectionReadFileVariable fiftyoneDegreesComponentGetKeyValuePair
fiftyoneDegreesComponentGetName fiftyoneDegreesComponentReadFromFile fiftyoneDegreesProfileGetByIndex
fiftyoneDegreesProfileReadFromFile fiftyoneDegreesPropertyGet fiftyoneDegreesPropertyGetCategory
fiftyoneDegreesPropertyGetDescription fiftyoneDegreesPropertyGetName fiftyoneDegreesPropertyGetUrl fiftyoneDegreesStringGet
fiftyoneDegreesStringRead fiftyoneDegreesValueGet fiftyoneDegreesValueGetDescription fiftyoneDegreesValueGetName
fiftyoneDegreesValueGetUrl""".split())
# a cached item may have no data
CACHED = {"getFromCache"}
READ = ("fiftyone_degrees_collection_file_t", "read")


class Fail(Recorder):
    alloc_fails = True
    limit = 1           # failures remembered on a path
    default_rng = {"h": (1, None)}

    def __init__(p):
        Recorder.__init__(p)
        p.used = set()      # open sites whose stream is read, written or kept
        p.pend = []
        p.alt = {}

    # ---- failures on the path
    def failed(p, A, st, I, what, soft=False, status=()):
        p.once("failure_sites", (A.f.name, I.id))
        n = sum(1 for k in st.aux if k[0] == "F")
        if ("F", I.id) in st.aux or n < p.limit:
            st.aux[("F", I.id)] = (what, soft) + status

    def succeeded(p, A, st, I):
        st.aux.pop(("F", I.id), None)
        for k in [k for k in st.aux if k[0] == "F"]:
            if p.alternative(A, A.f.insts.get(k[1]), I):
                del st.aux[k]

    def alternative(p, A, J, I):
        """The same operation on another branch of the same loop: an attempt that failed in
        one iteration was repeated in a later one."""
        if J is None or J.op not in ("call", "invoke") or J.d["callee"] != I.d["callee"]:
            return False
        key = (A.f.name, min(I.id, J.id), max(I.id, J.id))
        if key not in p.alt:
            p.alt[key] = p.exclusive(A, J, I)
        return p.alt[key]

    def exclusive(p, A, J, I):
        at = {}
        for b in A.f.blocks.values():
            for x in b.insts:
                if x.id in (I.id, J.id):
                    at[x.id] = b.id
        a, b = at.get(I.id), at.get(J.id)
        if a is None or b is None or a == b:
            return False

        def reach(x, acyclic):
            seen, todo = set(), [x]
            while todo:
                u = todo.pop()
                for v in A.f.blocks[u].succs:
                    if v not in seen and not (acyclic and (u, v) in A.f.backedges):
                        seen.add(v)
                        todo.append(v)
            return seen
        return b not in reach(a, True) and a not in reach(b, True) and b in reach(a, False) and a in reach(b, False)

    def on_alloc(p, A, st, I, h, args):
        p.succeeded(A, st, I)

    def on_alloc_fail(p, A, st, I, args):
        p.failed(A, st, I, "allocation of memory")

    def split(p, A, st, I, ok, bad, what, soft=False):
        """ok, bad: (lo, hi) of the result; the second state has failed."""
        s2 = st.copy()
        r = "r%d" % I.id
        for s, (lo, hi) in ((st, ok), (s2, bad)):
            s.env[I.id] = A.mk(s, r, lo, hi)
        p.succeeded(A, st, I)
        p.failed(A, s2, I, what, soft)
        return [st, s2]

    def explains(p, A, n):
        """Functions which return nothing only with the exception set."""
        return n in EXPLAINS or n in A.sum.slots.get((COLL, "get"), ()) and n not in CACHED

    def on_call(p, A, st, I, c, args):
        n = c[1] if c[0] == "fn" else None
        if (p.explains(A, n) or (c[0] == "slot" and tuple(c[1:]) == READ)) \
                and I.ty == "ptr" and A.exc_arg(I, args) is not None:
            out = []
            for s in A.generic_call(st, I, c, args):
                exc = args[A.exc_arg(I, args)]
                cur = A.get_status(s, A.canon(s, exc)) if islin(exc) and A.canon(s, exc)[1] else None
                r = s.env.get(I.id)
                try:
                    if cur is not None and r is not None and islin(r) and A.cmp_eval(s, "eq", A.lin(s, cur, "st"), const(A.NOT_SET), 32) is True:
                        A.add_le0(s, lsub(ONE, r))
                    out.append(s)
                except Dead:
                    pass
            return out
        if n == "fopen":
            s2 = st.copy()
            h = A.fresh_heap(st, I)
            st.env[I.id] = h
            s2.env[I.id] = models.failed(A, s2, I, "o")
            p.succeeded(A, st, I)
            p.failed(A, s2, I, "opening a file")
            return [st, s2]
        if n in ("fread", "fwrite", "fseek", "ftell", "fgets"):
            v = A.canon(st, A.lin(st, args[{"fread": 3, "fwrite": 3, "fgets": 2}.get(n, 0)], "%d" % I.id))
            r = A.root(v[1])
            if r and r.startswith("h"):
                p.used.add((A.f.name, int(r[1:].rstrip("'"))))
                if n == "fwrite":
                    st.res[r] = "written"
        if n == "fread" or n == "fwrite":
            out = []
            size = A.canon(st, A.lin(st, args[1], "%ds" % I.id))
            cnt = A.canon(st, A.lin(st, args[2], "%dc" % I.id))
            pairs = models.m_fread(A, st, I, args) if n == "fread" else None
            if pairs is None:
                r = A.mk(st, "r%d" % I.id, 0, None)
                st.facts = st.facts | {lsub(r, cnt)}
            else:
                r = pairs[0][1]
            st.env[I.id] = r
            if n == "fread" and size == ONE:
                # a stream of bytes: nothing more to read, or an error
                s2 = st.copy()
                try:
                    A.add_le0(st, lsub(ONE, r))
                    p.succeeded(A, st, I)
                    out.append(st)
                except Dead:
                    pass
                try:
                    A.add_le0(s2, lsub(ONE, cnt))
                    A.add_le0(s2, r)
                    p.failed(A, s2, I, "reading a file", True)
                    out.append(s2)
                except Dead:
                    pass
                return out
            s2 = st.copy()
            try:
                A.add_eq0(st, lsub(r, cnt))
                p.succeeded(A, st, I)
                out.append(st)
            except Dead:
                pass
            try:
                A.add_le0(s2, ladd(lsub(r, cnt), ONE))
                p.failed(A, s2, I, "reading a file" if n == "fread" else "writing a file")
                out.append(s2)
            except Dead:
                pass
            return out
        if n == "ferror":
            s2 = st.copy()
            st.env[I.id] = ZERO
            for k in [k for k, v in st.aux.items() if k[0] == "F" and v[1]]:
                del st.aux[k]
            s2.env[I.id] = A.mk(s2, "r%d" % I.id, 1, 1)
            p.failed(A, s2, I, "reading a file")
            return [st, s2]
        if n == "fseek":
            return p.split(A, st, I, (0, 0), (-1, -1), "positioning a file")
        if n == "ftell":
            return p.split(A, st, I, (0, (1 << 63) - 1), (-1, -1), "obtaining the position of a file")
        if n == "fclose":
            r = A.root(A.canon(st, A.lin(st, args[0], "%d" % I.id))[1])
            if r is not None and st.res.get(r) == "written":
                return p.split(A, st, I, (0, 0), (-1, -1), "closing a file that was written")
            return None
        if n == "mkdir":
            return p.split(A, st, I, (0, 0), (-1, -1), "creating a directory")
        if n == "remove":
            return p.split(A, st, I, (0, 0), (-1, -1), "deleting a file")
        if n == "getcwd":
            s2 = st.copy()
            d = A.lin(st, args[0], "%d" % I.id)
            A.kill_region(st, d, None)
            st.env[I.id] = d
            s2.env[I.id] = ZERO
            p.succeeded(A, st, I)
            p.failed(A, s2, I, "obtaining the current directory")
            return [st, s2]
        if n in ("snprintf", "vsnprintf"):
            A.kill_region(st, A.lin(st, args[0], "%d" % I.id), None)
            lim = A.lin(st, args[1], "%dn" % I.id)
            s2 = st.copy(); s3 = st.copy()
            r = "r%d" % I.id
            out = []
            for s, lo, hi in ((st, 0, (1 << 31) - 1), (s2, -1, -1), (s3, 0, (1 << 31) - 1)):
                s.env[I.id] = A.mk(s, r, lo, hi)
                try:
                    if s is st:
                        A.add_le0(s, ladd(lsub(atom(r), lim), ONE))
                        p.succeeded(A, s, I)
                    elif s is s3:
                        A.add_le0(s, lsub(lim, atom(r)))
                        p.failed(A, s, I, "the text to write does not fit and")
                    else:
                        p.failed(A, s, I, "formatting text")
                    out.append(s)
                except Dead:
                    pass
            return out
        if c[0] == "slot" and c[1] == COLL and c[2] == "get":
            ei = A.exc_arg(I, args)
            s2 = st.copy()
            out = [st]
            A.clobber(st, I, args, set())
            for s in (st, s2):
                A.kill_region(s, A.lin(s, args[2], "%di" % I.id), None)     # the item
            exc = A.canon(s2, args[ei]) if ei is not None and islin(args[ei]) else None
            s2.env[I.id] = ZERO
            st.env[I.id] = A.mk(st, "r%d" % I.id, 1, None, True)
            p.succeeded(A, st, I)
            try:
                if exc is not None and exc[1]:
                    cur = A.get_status(s2, exc)
                    t = A.cmp_eval(s2, "eq", A.lin(s2, cur, "st"), const(A.NOT_SET), 32) if cur is not None else None
                    if t is False:
                        return [s2]
                    A.fail_exception(s2, I, exc)
                p.failed(A, s2, I, "retrieving an item")
                out.append(s2)
            except Dead:
                pass
            return out
        if A.f.vtys.get(I.id) == STATUS or (c[0] == "fn" and c[1] in A.m.funcs and A.m.funcs[c[1]].dity[:1] == [STATUS]):
            out = []
            for s in A.generic_call(st, I, c, args):
                exc = None
                ei = A.exc_arg(I, args)
                if ei is not None and islin(args[ei]):
                    exc = A.canon(s, args[ei])
                bad = False
                if exc is not None and exc[1]:
                    cur = A.get_status(s, exc)
                    bad = cur is not None and A.cmp_eval(s, "eq", A.lin(s, cur, "st"), const(A.NOT_SET), 32) is False
                if not bad:
                    s1 = s.copy()
                    s1.env[I.id] = ZERO
                    p.succeeded(A, s1, I)
                    out.append(s1)
                s.env[I.id] = A.mk(s, "r%d" % I.id, 1, (1 << 31) - 1)
                p.failed(A, s, I, "a call of %s" % (c[1] if c[0] == "fn" else "a function it was given"), False, (True,))
                out.append(s)
            return out
        return None

    def after_call(p, A, st, I, c, args, ret, failed):
        if A.f.vtys.get(I.id) == STATUS or (c[0] == "fn" and c[1] in A.m.funcs and A.m.funcs[c[1]].dity[:1] == [STATUS]):
            return
        if failed is True:
            p.failed(A, st, I, "a call of %s" % (c[1] if c[0] == "fn" else "a function it was given"))
        elif failed is False:
            p.succeeded(A, st, I)

    def on_access(p, A, st, I, addr, size, kind, tag):
        a = A.canon(st, addr)
        if not a[1]:
            if 0 <= a[0] < 65536 and not (kind in ("memread", "memwrite") and islin(size) and A.hi(st, size) == 0):
                return False
            return None
        r = A.root(a[1])
        if r is not None and A.lo(st, atom(r)) == 0:
            l, h = A.arng(st, r)
            st.rng[r] = (1, h)
        return None

    def recognised(p, A, st):
        """A particular status was asked for, so what it means was decided."""
        for k in [k for k in st.aux if k[0] == "F" and st.aux[k][2:]]:
            l, h = st.rng.get("r%d" % k[1], (None, None))
            if l is not None and l == h:
                del st.aux[k]

    def on_gc(p, A, st, reach, inst):
        p.recognised(A, st)
        for a in list(st.res):
            if a not in reach:
                del st.res[a]

    def on_rename(p, A, st, m):
        st.res = {(m[a][1][0][0] if m.get(a) is not None and len(m[a][1]) == 1 else a) if a in m else a: v
                  for a, v in st.res.items() if not (a in m and m[a] is None)}

    def on_exit(p, A, st, I, v):
        p.count("exits_checked")
        seeds = set()
        if v is not None:
            atoms_of(v, seeds)
        for terms, inner in st.mem.items():
            r = A.root(terms)
            if r is None or A.okind(r) == "arg" or r in st.esc:
                for o, e in inner.items():
                    if o != "Z":
                        atoms_of(e[1], seeds)
        for a in A.reach_from(st, seeds) | st.esc:
            if a.startswith("h"):
                p.used.add((A.f.name, int(a[1:].rstrip("'"))))
        p.recognised(A, st)
        if A.f.ret == "ptr" and st.aux.get("exc") == 1 and p.explains(A, A.f.name) and v is not None and islin(v) and A.canon(st, v) == ZERO and \
                any(J.op == "call" and not callee_name(A, J).startswith("llvm.") for J in A.f.insts.values()):    # not one this configuration leaves empty
            exc = [A.canon(st, atom("a%d" % i)) for i, a in enumerate(A.f.args) if A.f.vtys.get(a["id"]) == "struct:%s*" % EXC_T]
            cur = A.get_status(st, exc[0]) if exc else None
            if cur is not None and A.cmp_eval(st, "eq", A.lin(st, cur, "st"), const(A.NOT_SET), 32) is True:
                p.report(A, st, I, "unexplained", "exception", "nothing is returned although the exception is not set", fn=A.f.name)
        fails = {k[1]: w for k, w in st.aux.items() if k[0] == "F"}
        if A.f.dity[:1] != [STATUS]:
            fails = {k: w for k, w in fails.items() if not w[0].startswith("the text")}
        if not fails or st.aux.get("exc") == 0:
            return
        how = None
        cv = A.canon(st, v) if v is not None and islin(v) else None
        if A.f.dity[:1] == [STATUS]:
            if cv is not None and (A.lo(st, cv) or 0) <= 0 <= (A.hi(st, cv) if A.hi(st, cv) is not None else 1):
                t = A.cmp_eval(st, "eq", cv, ZERO, 32)
                if t is True:
                    how = "the success status is returned"
        elif st.aux.get("exc") == 1:
            exc = [A.canon(st, atom("a%d" % i)) for i, a in enumerate(A.f.args) if A.f.vtys.get(a["id"]) == "struct:%s*" % EXC_T]
            cur = A.get_status(st, exc[0]) if exc else None
            if cur is not None:
                t = A.cmp_eval(st, "eq", A.lin(st, cur, "st"), const(A.NOT_SET), 32)
                empty = A.f.ret == "ptr" and cv == ZERO
                if t is True and not empty:
                    how = "the exception is not set" + ("" if A.f.ret == "void" else " and a result is returned")
                elif t is True and empty:
                    how = "the exception is not set although nothing is returned"
        elif A.f.ret == "ptr" and not any(A.f.vtys.get(a["id"]) == "struct:%s*" % EXC_T for a in A.f.args):
            if cv is not None and A.lo(st, cv) is not None and A.lo(st, cv) > 0 and A.f.dity[:1] != ["s8*"]:
                how = "an object is returned"
        if how:
            p.pend.append((dict(fails), st, I, how))

    def finish(p, A, name):
        if A.f.dity[:1] != [STATUS] and any(a.get("id") is not None and A.f.vtys.get(a["id"]) == "struct:%s*" % EXC_T for a in A.f.args) \
                and not any(t == (EXC_T, "status") for t in A.sum.sum[name]["mod"]) \
                and not any(A.exc_arg(I, I.ops) is not None for I in A.f.insts.values() if I.op in ("call", "invoke")):
            return      # the exception is what it reports on, not how it reports
        for fails, st, I, how in p.pend:
            for k, w in fails.items():
                what = w[0]
                J = A.f.insts.get(k)
                if J is not None and callee_name(A, J) == "fopen" and (A.f.name, k) not in p.used:
                    continue    # only asks whether the file is there
                p.report(A, st, J or I, "failure-hidden", what, "%s fails in %s, yet %s (by %s)" % (what, srcfunc(J or I), how, A.f.name))


def reports(F):
    """The function says whether it failed through a status or an exception."""
    return F.dity[:1] == [STATUS] or any(F.vtys.get(a["id"]) == "struct:%s*" % EXC_T for a in F.args)


def keep(m):
    """Functions called rather than inlined. Those that open files are inlined, to see
    whether the stream is used or only its existence asked for."""
    opens = set()
    ch = True
    while ch:
        ch = False
        for F in m.funcs.values():
            if not F.decl and F.name not in opens and F.dity[:1] == [STATUS] and len(F.blocks) <= 12:
                cs = {I.d["callee"][1] for I in F.insts.values() if I.op in ("call", "invoke") and I.d["callee"][0] == "f"}
                if "fopen" in cs and not cs & {"fread", "fwrite"} or (len(F.blocks) <= 2 and cs & opens):
                    opens.add(F.name); ch = True
    return [F.name for F in m.funcs.values() if not F.decl and (reports(F) or (F.ret == "i1" and not F.internal)) and F.name not in opens
            and (F.dity[:1] == [STATUS] or not F.internal or F.addr_taken)]


def roots(m):
    return [F.name for F in m.funcs.values() if not F.decl and (F.name in m.kept or not F.internal or F.addr_taken)
            and not F.name.startswith("fiftyoneDegreesMemory")]
