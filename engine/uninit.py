"""Memory that has not been written: read and used, or handed to the caller as part of a complete object."""
import re
from ai import EXC_T, atom, const, ladd, lsub, ZERO, ONE, islin, isbool, atoms_of
from heap import Recorder, callee_name
from ir import srcfunc
from bounds import shape

BIG = 1 << 40
# functions of the C library which do not write through the pointers they are given
READERS = set("strlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr atoi atof fclose fopen ftell "
              "fseek feof ferror fputs fwrite remove mkdir opendir closedir exit fputc putc puts fflush fileno access".split())
ZEROED = ("calloc", "strdup")
P = "fiftyoneDegrees"
STATUS = "enum:e_fiftyone_degrees_status_code"


def cut(iv, lo, hi):
    out = []
    for a, b in iv:
        if a < min(lo, b):
            out.append((a, min(lo, b)))
        if max(hi, a) < b:
            out.append((max(hi, a), b))
    return tuple(out)


def covers(iv, lo, hi):
    return any(a <= lo and hi <= b for a, b in iv)


class Uninit(Recorder):
    def __init__(p):
        Recorder.__init__(p)
        p.inits = {}
        p.notinit = set()

    def finish(p, A, name):
        for k, f in list(p.found.items()):
            if f.get("init") in p.notinit:
                del p.found[k]

    """res[object] = ("U", bytes never written ((from, to), ...)); res[value] = ("P", what): read from there."""

    def obj(p, A, st, a):
        """Intervals of an object which are not initialised, None when it is not tracked."""
        r = st.res.get(a)
        if r is not None:
            return r[1] if r[0] == "U" else None
        if a.startswith("al") and a not in st.esc:
            n = A.object_size(a)
            if n is None:
                return None
            return ((0, n),)
        return None

    def on_entry(p, A, st):
        """A function which initialises or resets an object is given one that may hold anything."""
        if not re.search(r"(Init|Reset)$", A.f.name):
            return
        for i, a in enumerate(A.f.args):
            t = A.f.vtys.get(a["id"]) or ""
            if t.startswith("struct:") and t.endswith("*") and t.count("*") == 1 and EXC_T not in t:
                sn = t[7:-1]
                if sn not in A.m.structs:
                    # linked under the name of a structure of the same layout
                    c = {I.d["srcty"][1:] for I in A.f.insts.values() if I.op == "getelementptr" and I.ops[0] == ["v", a["id"]]
                         and I.d.get("srcty", "").startswith("%")}
                    sn = max(c, key=lambda n: (A.m.structs[n]["size"], n)) if c else None
                if sn in A.m.structs:
                    st.res["a%d" % i] = ("U", ((0, A.m.structs[sn]["size"]),), None, None)
                    p.inits["a%d" % i] = sn

    def on_alloc(p, A, st, I, h, args):
        p.once("allocations", (A.f.name, I.id))
        if callee_name(A, I) in ZEROED:
            return
        n = A.lin(st, args[-1], "%d" % I.id)
        a = h[1][0][0]
        n = A.canon(st, n)
        lo, elem = n[0], None
        sh = None if n[1] else shape(A, I.ops[-1])
        if sh is not None and sh[1] > 1:
            elem, lo = sh, sum(sh)
        elif n[1]:
            # of an allocation of variable size: the part always there and the first element
            if min(k for _, k in n[1]) <= 0 or n[0] < 0:
                lo = 0
            elif len(n[1]) > 1:
                lo = n[0]
            elif n[1][0][1] > 1:
                elem = (n[0], n[1][0][1])
                lo = n[0] + n[1][0][1]
            elif n[0] == 0:
                lo = 256            # the size is chosen elsewhere
        st.res[a] = ("U", ((0, lo),) if 0 < lo <= 4096 else (), I.id, elem)

    def on_free(p, A, st, I, v):
        v = A.canon(st, A.lin(st, v, "%d" % I.id))
        if v[1]:
            st.res.pop(A.root(v[1]), None)

    def span(p, A, st, r, addr, size):
        """(lo, hi, exact) of an access relative to the start of its object."""
        off = A.canon(st, lsub(addr, atom(r)))
        n = A.canon(st, size) if islin(size) else None
        if not off[1] and n is not None and not n[1]:
            return off[0], off[0] + n[0], True
        lo = A.lo(st, off)
        return max(0, lo or 0), BIG, False

    def elements(p, A, st, r):
        """Where an element other than the first may start."""
        c = st.res.get(r)
        return sum(c[3]) if c is not None and c[0] == "U" and len(c) > 3 and c[3] else None

    def arrayend(p, A, st, r, lo):
        sn = p.struct(A, st, r)
        if sn:
            for f in A.m.structs[sn]["fields"]:
                if f[2].startswith("[") and f[1] <= lo < f[1] + f[3]:
                    return f[1] + f[3]
        return BIG

    def isarray(p, A, r):
        i = r[2:].rstrip("'")
        J = A.f.insts.get(int(i)) if i.isdigit() else None
        return J is None or J.d.get("aty", "").startswith("[")

    def written(p, A, st, r, lo, hi):
        iv = p.obj(A, st, r)
        if iv is None:
            return
        old = st.res.get(r)
        st.res[r] = ("U", cut(iv, lo, hi)) + (old[2:] if old else ())

    def on_access(p, A, st, I, addr, size, kind, tag):
        addr = A.canon(st, addr)
        p.used(A, st, I, addr, "as an address")
        r = A.root(addr[1])
        if r is None:
            return None
        if kind in ("store", "memwrite", "rmw"):
            lo, hi, exact = p.span(A, st, r, addr, size)
            if A.okind(r) == "al" and p.isarray(A, r):
                lo, hi = 0, BIG     # the elements of a local array are not told apart
            elif not exact and (tag is None or tag[0] not in A.m.structs) and size == ONE and \
                    A.lo(st, A.canon(st, lsub(addr, atom(r)))) in (None, 0) and r.startswith("h") and p.struct(A, st, r):
                lo, hi = A.m.structs[p.struct(A, st, r)]["size"], BIG   # the bytes which follow a structure
            elif hi - lo == 1 and (tag is None or tag[0] not in A.m.structs):
                hi = p.arrayend(A, st, r, lo)   # nor are bytes written through a pointer
            elif p.elements(A, st, r) is not None and (not exact or lo >= p.elements(A, st, r)):
                # an element: the first stands for all
                base, k = st.res[r][3]
                st.res[r] = st.res[r][:4] + (True,)
                off = A.canon(st, lsub(addr, atom(r)))
                if all(t % k == 0 for _, t in off[1]) and (exact or islin(size) and not A.canon(st, size)[1]):
                    n = hi - lo if exact else A.canon(st, size)[0]
                    lo = base + (off[0] - base) % k
                    hi = lo + n
                elif tag is not None and tag[0] == p.struct(A, st, r):
                    lo = 0
                else:
                    lo = base
            p.written(A, st, r, lo, hi)
        return None

    def on_fresh_load(p, A, st, inst, addr, tag, v, dity):
        r = A.root(addr[1])
        p.count("loads")
        if r is None or not islin(v) or len(v[1]) != 1:
            return
        iv = p.obj(A, st, r)
        if iv is None:
            return
        off = lsub(addr, atom(r))
        if off[1]:
            return
        if r in p.inits:
            # what it is given counts: it does not make the object anew
            if covers(iv, off[0], off[0] + 1):
                p.notinit.add(r)
            return
        n = inst.d.get("vsize") if inst.op == "load" else None
        if n is None:
            n = 1
        if covers(iv, off[0], off[0] + n):
            st.res[v[1][0][0]] = ("P", p.name(A, r, tag, inst))

    def name(p, A, r, tag, I):
        if tag and tag[0] != "al":
            return "%s.%s" % (tag[0].replace("fiftyone_degrees_", "").removesuffix("_t"), tag[1])
        if r.startswith("al"):
            i = r[2:].rstrip("'")
            if i.isdigit() and A.f.names.get(int(i)):
                return A.f.names[int(i)]
        return "memory"

    def used(p, A, st, I, v, how):
        for a in atoms_of(v):
            c = st.res.get(a)
            if c is not None and c[0] == "P":
                p.report(A, st, I, "uninitialised", c[1], "%s was never written on this path, and is used %s" % (c[1], how))
            elif a == "undef":
                p.report(A, st, I, "uninitialised", "variable", "a variable which was never assigned on this path is used %s" % how)

    def on_assume(p, A, st, b, truth):
        I = A.cur if hasattr(A, "cur") else None
        p.count("conditions")
        if I is not None:
            p.used(A, st, I, b, "in a condition")

    def on_call(p, A, st, I, c, args):
        n = callee_name(A, I)
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
            return None
        if n.split(".")[0] == "llvm" and n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
            d, s, k = (A.canon(st, A.lin(st, args[i], "%d.%d" % (I.id, i))) for i in range(3))
            rs, rd = A.root(s[1]), A.root(d[1])
            iv = p.obj(A, st, rs) if rs is not None else None
            so = lsub(s, atom(rs)) if rs is not None else None
            from models import BASE
            f = BASE.get("memcpy")
            out = A.bindret(f(A, st, I, args), I)
            if iv and rd is not None and not k[1] and so is not None and not so[1]:
                do = lsub(d, atom(rd))
                for t in out:
                    cur = p.obj(A, t, rd)
                    if cur is None or do[1]:
                        continue
                    part = tuple((max(a, so[0]) - so[0] + do[0], min(b, so[0] + k[0]) - so[0] + do[0])
                                 for a, b in iv if max(a, so[0]) < min(b, so[0] + k[0]))
                    old = t.res.get(rd)
                    t.res[rd] = ("U", tuple(sorted(cur + part))) + (old[2:] if old else ())
            return out
        for i, v in enumerate(args):
            if islin(v) and i < len(I.ops) and I.ops[i][0] != "u":
                p.used(A, st, I, v, "as an argument of %s" % n)
        if n in ("free", "*" + P + "Free", "*" + P + "FreeAligned"):
            return None
        # whatever is passed may be written
        from models import EXTERNAL
        if n in READERS or n.startswith("pthread_"):
            return None
        seeds = set()
        for v in args:
            atoms_of(v, seeds)
        sm = A.sum.of(A, c, I)
        if sm is not None and not sm["mod"] and \
                (c[0] != "fn" or n.startswith("llvm.") or (c[1] in A.m.funcs and not A.m.funcs[c[1]].decl)):
            return None
        mod = sm["mod"] if sm is not None else {"*"}
        for a in A.reach_from(st, seeds):
            iv = p.obj(A, st, a)
            if not iv:
                continue
            old = st.res.get(a)
            sn = p.inits.get(a) or p.struct(A, st, a)
            if "*" not in mod and sn is not None and (a.startswith("h") or a in p.inits):
                # only the fields it assigns somewhere
                for off, size, tg in p.fields(A, sn):
                    if tg in mod:
                        iv = cut(iv, off, off + size)
                el = p.elements(A, st, a) and st.res[a][3]
                if el:
                    en = p.struct(A, st, a, *el)
                    for off, size, tg in p.fields(A, en, el[0]) if en else ():
                        if tg in mod:
                            iv = cut(iv, off, off + size)
                    if not en:
                        iv = cut(iv, el[0], BIG)
            else:
                iv = ()
            st.res[a] = ("U", iv) + (old[2:] if old else ())
        return None

    def on_exit(p, A, st, I, v):
        p.count("exits")
        if v is not None and islin(v) and not (A.f.ret or "").startswith(("{", "[")):
            p.used(A, st, I, v, "as the result")
        if v is not None and islin(v):
            if A.f.dity[:1] == [STATUS] and A.cmp_eval(st, "eq", v, ZERO, 32) is False:
                return
            if A.f.ret == "ptr" and A.cmp_eval(st, "eq", v, ZERO) is True:
                return
        for terms, inner in st.mem.items():
            r = A.root(terms)
            if r and A.is_exc_atom(r):
                e = A.get_status(st, atom(r))
                if e is not None and A.cmp_eval(st, "eq", A.lin(st, e, "e"), const(A.NOT_SET), 32) is not True:
                    return
        J = A.f.insts.get(I.ops[0][1]) if I.ops and I.ops[0][0] == "v" else None
        if J is not None and J.op == "load" and islin(A.val(st, J.ops[0])):
            # a structure returned by value
            at = A.canon(st, A.val(st, J.ops[0]))
            r = A.root(at[1])
            if at == atom(r or "") and r.startswith("al") and (A.f.dity[0] or "").startswith("struct:") and not A.f.dity[0].endswith("*"):
                iv, sn = st.res[r][1] if r in st.res else (), A.f.dity[0][7:]
                cells = st.mem.get(((r, 1),)) or {}
                p.once("structures_returned", (A.f.name, I.id))
                for off, size, tg in p.fields(A, sn) if sn in A.m.structs else ():
                    e = cells.get(off)
                    e = atoms_of(e[1]) if e is not None and islin(e[1]) else ()
                    if covers(iv, off, off + size) or any(st.res.get(a, ("",))[0] == "P" for a in e):
                        p.report(A, st, I, "incomplete", "%s.%s" % tg, "%s of the %s returned was never written on this path" % (tg[1], sn.replace("fiftyone_degrees_", "")))
        seeds = set(st.esc)
        if v is not None:
            atoms_of(v, seeds)
        for terms, inner in st.mem.items():
            r = A.root(terms)
            if r is None or A.okind(r) not in ("al", "h") or r in st.esc:
                for o, e in inner.items():
                    if o != "Z":
                        atoms_of(e[1], seeds)
        reach = A.reach_from(st, seeds)
        for a, s in list(st.res.items()):
            if s[0] == "U" and s[1] and a in p.inits and s[1] != ((0, A.m.structs[p.inits[a]]["size"]),):
                for off, size, tg in p.fields(A, p.inits[a]):
                    if covers(s[1], off, off + size):
                        p.report(A, st, I, "incomplete", "%s.%s" % tg, "%s of the %s is not written by the function which initialises it" % (tg[1], p.inits[a].replace("fiftyone_degrees_", "")))
                        for f in p.found.values():
                            if f["subject"] == "%s.%s" % tg and f["rule"] == "incomplete":
                                f.setdefault("init", a)
            if s[0] == "U" and s[1] and a.startswith("h") and a in reach:
                el = s[3] if len(s) > 3 else None
                if el and el[0] == el[1] and p.struct(A, st, a, 0, el[1]) is not None:
                    # an array with one element more than counted: what some element has
                    if covers(s[1], el[0], sum(el)):
                        continue
                    s = s[:1] + (tuple((x, y) for x, y in s[1] if covers(s[1], x - el[1], y - el[1])),) + s[2:]
                if el and len(s) > 4 and not covers(s[1], s[3][0], sum(s[3])):
                    en = p.struct(A, st, a, s[3][0], s[3][1])
                    if en is not None and not p.counted(A, st, a):
                        p.once("elements_handed_out", (A.f.name, a, en))
                        for off, size, tg in p.fields(A, en, s[3][0]):
                            if covers(s[1], off, off + size):
                                p.report(A, st, I, "incomplete", "%s.%s" % tg, "%s of the elements of a new array of %s is never written before it is handed out" % (tg[1], en.replace("fiftyone_degrees_", "")))
                sn = p.struct(A, st, a)
                if sn is None:
                    continue
                p.once("objects_handed_out", (A.f.name, a, sn))
                for off, size, tg in p.fields(A, sn):
                    if covers(s[1], off, off + size):
                        if el and off >= el[0]:
                            continue
                        p.report(A, st, I, "incomplete", "%s.%s" % tg, "%s of a new %s is never written before it is handed out" % (tg[1], sn.replace("fiftyone_degrees_", "")))

    def fields(p, A, sn, base=0, d=0):
        """Scalar fields of a structure of the library; those of the C library's are its own."""
        for f in A.m.structs[sn]["fields"]:
            nm, off, ty, size = f[:4]
            if ty.startswith("%"):
                if "fiftyone" in ty and d < 6 and ty[1:] in A.m.structs:
                    yield from p.fields(A, ty[1:], base + off, d + 1)
            elif not ty.startswith("["):
                yield base + off, size, (sn, nm)

    def counted(p, A, st, a):
        """The array says how many of its elements are in use: those are filled when they are added."""
        for o, e in (st.mem.get(((a, 1),)) or {}).items():
            if o != "Z" and e[2] and e[2][1] == "count" and e[2][0].startswith("fiftyone_degrees_array"):
                return A.lo(st, A.lin(st, e[1], "c")) in (None, 0)
        return False

    def struct(p, A, st, a, base=0, size=None):
        """The structure an object (or its first element) is: the outermost one its fields were written through."""
        c = set()
        inner = st.mem.get(((a, 1),)) or {}
        for o, e in inner.items():
            if o != "Z" and e[2] and e[2][0] in A.m.structs:
                for f in A.m.structs[e[2][0]]["fields"]:
                    if f[0] == e[2][1] and base + f[1] == o:
                        c.add(e[2][0])
        if size is not None:
            c = {n for n in c if A.m.structs[n]["size"] == size}
        if not c:
            return None
        return max(c, key=lambda n: (A.m.structs[n]["size"], n))

    def on_gc(p, A, st, reach, inst):
        for a in list(st.res):
            if a not in reach and a not in p.inits:
                del st.res[a]

    def on_rename(p, A, st, m):
        if not any(a in m for a in st.res):
            return
        n = {a: v for a, v in st.res.items() if a not in m}
        for a, v in st.res.items():
            t = m.get(a)
            if a in m and t is not None and len(t[1]) == 1 and (v[0] == "P" or not t[0]):
                n.setdefault(t[1][0][0], v)
        st.res = n
