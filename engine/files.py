"""Ownership of streams, directory listings and pooled file handles: whatever is opened
or taken from the pool is closed or given back exactly once and not used afterwards."""
from ai import atom, const, ladd, lsub, ZERO, ONE, islin, atoms_of, Dead
from heap import Heap, callee_name
from ir import srcfunc
import models

POOL_GET = "fiftyoneDegreesFileHandleGet"
POOL_RELEASE = "fiftyoneDegreesFileHandleRelease"
OPEN = {"fopen": ("stream", 1), "fopen64": ("stream", 1), "fdopen": ("stream", 1), "tmpfile": ("stream", 1),
        "opendir": ("directory", 1)}
CLOSE = {"fclose": "stream", "closedir": "directory"}
# index of the stream argument
USE = {"fread": 3, "fwrite": 3, "fseek": 0, "ftell": 0, "fgets": 2, "fgetc": 0, "fputs": 1, "fputc": 1, "putc": 1, "feof": 0,
       "ferror": 0, "fprintf": 0, "fflush": 0, "rewind": 0, "fileno": 0, "readdir": 0}


class Files(Heap):
    owners = False
    default_rng = {"h": (1, None)}

    def on_alloc(p, A, st, I, h, args):
        pass

    def on_free(p, A, st, I, v):
        pass

    def name(p, A, I):
        return "%s in %s" % (callee_name(A, I), srcfunc(I))

    def on_call(p, A, st, I, c, args):
        n = c[1] if c[0] == "fn" else None
        if n in OPEN:
            p.once("open_sites", (A.f.name, I.id))
            s2 = st.copy()
            h = A.fresh_heap(st, I)
            st.res[h[1][0][0]] = ("live", OPEN[n][0], "opened by " + p.name(A, I))
            st.env[I.id] = h
            s2.env[I.id] = models.failed(A, s2, I, "o")
            return [st, s2]
        if n == POOL_GET:
            p.once("open_sites", (A.f.name, I.id))
            ei = A.exc_arg(I, args)
            exc = A.canon(st, args[ei]) if ei is not None and islin(args[ei]) else None
            s2 = st.copy()
            out = [st]
            if exc is not None and exc[1]:
                try:
                    cur = A.get_status(s2, exc)
                    A.fail_exception(s2, I, exc)
                    out.append(s2)
                except Dead:
                    pass
            else:
                out.append(s2)
            h = A.fresh_heap(st, I)
            st.res[h[1][0][0]] = ("live", "pooled handle", "taken by " + p.name(A, I))
            st.env[I.id] = h
            s2.env[I.id] = models.failed(A, s2, I, "o")
            return out
        if n in CLOSE or n == POOL_RELEASE:
            p.once("close_sites", (A.f.name, I.id))
            v = A.canon(st, A.lin(st, args[0], "%d" % I.id))
            if not v[1]:
                p.null(A, st, I, args[0], "closed" if n in CLOSE else "released")
                return []
            r = A.root(v[1])
            cur = st.res.get(r)
            if cur is not None and cur[0] == "freed":
                p.report(A, st, I, "double-close", cur[1], "the %s %s is %s a second time" % (cur[1], cur[2], "closed" if n in CLOSE else "released"))
            elif r is not None:
                st.res[r] = ("freed", cur[1] if cur else CLOSE.get(n, "pooled handle"), cur[2] if cur else "given")
            if I.ty != "void":
                st.env[I.id] = A.mk(st, "r%d" % I.id, -1, 0)
            return [st]
        if n in USE and USE[n] < len(args):
            p.count("use_sites")
            v = A.canon(st, A.lin(st, args[USE[n]], "%d" % I.id))
            if not v[1]:
                p.null(A, st, I, args[USE[n]], "used")
                return []
            cur = st.res.get(A.root(v[1]))
            if cur is not None and cur[0] == "freed":
                p.report(A, st, I, "use-after-close", cur[1], "the %s %s is used after it was closed" % (cur[1], cur[2]))
        return None

    def null(p, A, st, I, v, what):
        p.report(A, st, I, "failed-open-used", callee_name(A, I), "nothing was opened, yet it is %s" % what)

    def leak(p, A, st, I, a, v):
        p.report(A, st, I, "not-closed", v[1], "the %s %s is not %s on some path" % (
            v[1], v[2], "released" if v[1].startswith("pool") else "closed"))

    def on_access(p, A, st, I, addr, size, kind, tag):
        addr = A.canon(st, addr)
        if not addr[1]:
            if 0 <= addr[0] < 65536 and not (kind in ("memread", "memwrite") and islin(size) and A.hi(st, size) == 0):
                return False
            return None
        r = A.root(addr[1])
        if r is not None:
            c = st.res.get(r)
            if c is not None and c[0] == "freed":
                p.report(A, st, I, "use-after-close", c[1], "the %s %s is used after it was %s" % (
                    c[1], c[2], "released" if c[1].startswith("pool") else "closed"))
                return False
            if A.lo(st, atom(r)) == 0:
                l, h = A.arng(st, r)
                st.rng[r] = (1, h)
        p.count("accesses_checked")
        return None

    def dangling(p, A, st, I, nm, res, terms, off):
        pass


PRIMITIVES = set(OPEN) | set(CLOSE) | {POOL_GET, POOL_RELEASE}


def uses_files(m, S):
    """Roots which, with what is inlined into them, open, take, close or use files."""
    out = []
    for F in m.funcs.values():
        if F.decl or (F.internal and not F.addr_taken) or F.name in (POOL_GET, POOL_RELEASE):
            continue
        for I in F.insts.values():
            if I.op in ("call", "invoke"):
                c = I.d["callee"]
                if c[0] == "f" and (c[1] in PRIMITIVES or c[1] in USE):
                    out.append(F.name)
                    break
    return out
