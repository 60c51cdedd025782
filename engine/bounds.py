"""Accesses stay inside the object they go to."""
from ai import atom, const, ladd, lsub, lscale, ZERO, ONE, islin, atoms_of
from heap import Recorder, callee_name
from ir import srcfunc


VERB = {"load": "reads", "store": "writes", "memread": "reads", "memwrite": "writes", "rmw": "changes"}
NOUN = {"load": "byte read", "store": "byte written", "memread": "byte read", "memwrite": "byte written", "rmw": "byte changed"}


# the index is the caller's to check: these return the item at an index without further tests
GIVEN = {
    "fiftyoneDegreesPropertiesGetNameFromRequiredIndex",
    "fiftyoneDegreesListGetAsString",
    "fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex",
}


# a caller adds no more items than the list was made for; checked in the functions that add them
ADDS = {"fiftyoneDegreesListAdd"}


# a buffer and how many bytes of it there are, by the position of the parameters
BUFFER = {
    "fiftyoneDegreesFileGetPath": [(2, 3)],
    "fiftyoneDegreesFileAddTempFileName": [(1, 3)],
    "fiftyoneDegreesFileCreateTempFile": [],
    "fiftyoneDegreesFileNewTempFile": [(3, 4)],
    "fiftyoneDegreesFileGetExistingTempFile": [],
    "fiftyoneDegreesYamlFileIterateWithLimit": [(1, 2)],
    "fiftyoneDegreesYamlFileIterate": [(1, 2)],
    "fiftyoneDegreesTextFileIterateWithLimit": [(1, 2)],
    "fiftyoneDegreesTextFileIterate": [(1, 2)],
    "fiftyoneDegreesExceptionGetMessage": [],
}


# structures that say how much room there is at a pointer: pointer, room and the size of one item (0: as it was multiplied)
ROOM = [
    ("fiftyone_degrees_list", "items", "capacity", "fiftyone_degrees_collection_item_t"),
    ("fiftyone_degrees_array_", "items", "capacity", 0),
    ("fiftyone_degrees_data_t", "ptr", "allocated", 1),
]


# where the next byte of something being built goes
CURSOR = {("fiftyone_degrees_evidence_ip_address", "current")}


def shape(A, o, d=0):
    """(c, k) of a size computed as c + k * n."""
    if o[0] == "c":
        return (o[1], 0)
    I = A.f.insts.get(o[1]) if o[0] == "v" else None
    if I is None or d > 8:
        return (0, 1)
    if I.op in ("zext", "sext", "trunc"):
        return shape(A, I.ops[0], d + 1)
    if I.op in ("add", "sub", "mul", "shl"):
        x, y = shape(A, I.ops[0], d + 1), shape(A, I.ops[1], d + 1)
        if I.op == "add":
            return (x[0] + y[0], min(x[1], y[1]) or max(x[1], y[1]))
        if I.op == "sub" and not y[1]:
            return (x[0] - y[0], x[1])
        if I.op == "shl" and not y[1]:
            return (x[0] << y[0], x[1] << y[0])
        if I.op == "mul" and not (x[1] and y[1]):
            k = y[0] if not y[1] else x[0]
            z = x if not y[1] else y
            return (z[0] * k, z[1] * k)
    return (0, 1)


class Bounds(Recorder):
    def __init__(p, *a):
        Recorder.__init__(p, *a)
        p.elem = {}
        p.A = None

    def on_alloc(p, A, st, I, h, args):
        p.once("allocations", (A.f.name, I.id))
        n = callee_name(A, I)
        if n == "strdup":
            return
        size = A.lin(st, args[-1] if n != "calloc" else ZERO, "%d" % I.id)
        if n == "calloc":
            x, y = (A.canon(st, A.lin(st, v, "%d" % I.id)) for v in args[:2])
            if x[1] and y[1]:
                return
            size = lscale(x, y[0]) if not y[1] else lscale(y, x[0])
        size = A.canon(st, size)
        if not size[1] and shape(A, I.ops[-1])[1]:
            return      # how many there are was counted on this path
        if any(t[0] in "jpoqu" for t, _ in size[1]):
            return      # counted by a loop
        st.aux["S:" + h[1][0][0]] = size

    def on_entry(p, A, st):
        p.A = A
        for b, n in BUFFER.get(A.f.name, ()):
            st.aux["S:a%d" % A.f.args[b]["id"]] = st.env[A.f.args[n]["id"]]

    def extra_atoms(p, st):
        s = set()
        for k, v in st.aux.items():
            if k[:2] == "S:":
                atoms_of(v, s)
        if p.A is not None:
            s.update(b for b in p.limits(st) if p.member(p.A, b, "count", "capacity"))
        return s

    def size(p, A, st, r):
        if r.startswith("g:"):
            g = A.m.globals.get(r[2:])
            return None if not g or not g.get("size") else const(g["size"])
        if r.startswith("al"):
            n = A.object_size(r)
            return None if n is None else const(n)
        return st.aux.get("S:" + r)

    # -- entries of collections
    def on_store(p, A, st, I, addr, v, tag):
        if tag != ("fiftyone_degrees_data_t", "ptr") or not islin(v):
            return
        for a, c in v[1]:
            if c == 1 and p.field(A, a) == ("fiftyone_degrees_collection_memory_t", "firstByte"):
                p.once("entries", (A.f.name, I.id))
                p.entry(A, st, I, lsub(v, atom(a)), "hands out")

    def on_call(p, A, st, I, c, args):
        if c == ("fn", "fseek") and islin(args[1]):
            for a, k in args[1][1]:
                if k == 1 and p.field(A, a) == ("fiftyone_degrees_collection_file_t", "offset"):
                    p.once("entries", (A.f.name, I.id))
                    p.entry(A, st, I, lsub(args[1], atom(a)), "seeks")
        return None

    def field(p, A, a):
        i = a[1:].rstrip("'")
        J = A.f.insts.get(int(i)) if a[0] == "l" and i.isdigit() else None
        return None if J is None or J.op != "load" else A.itag(J, 0)

    def entry(p, A, st, I, off, verb):
        C = "fiftyone_degrees_collection_t"
        off = A.canon(st, off)
        lim = p.limits(st)
        for b in lim:
            if p.field(A, b) == (C, "size") and A.prove_le0(st, A.canon(st, ladd(ladd(off, ONE), atom(b), -1)), 3):
                return
        if not off[0] and len(off[1]) == 1 and off[1][0][1] == 1 and off[1][0][0][0] == "t":
            J = A.f.insts.get(int(off[1][0][0][1:].rstrip("'")))
            if J is not None and J.op == "mul":
                x, y = (A.canon(st, A.lin(st, A.val(st, o), "%d" % J.id)) for o in J.ops)
                for u, w in ((x, y), (y, x)):
                    if len(w[1]) == 1 and p.field(A, w[1][0][0]) == (C, "elementSize"):
                        for b in lim:
                            if p.field(A, b) == (C, "count") and A.prove_le0(st, A.canon(st, ladd(ladd(u, ONE), atom(b), -1)), 3):
                                return
        p.report(A, st, I, "entry", "entry", "%s an entry that is not known to be in the collection" % verb)

    # -- items of counted arrays
    def on_gep(p, A, st, I):
        b = st.env.get(I.ops[0][1]) if I.ops[0][0] == "v" else None
        if b is None or not islin(b) or len(b[1]) != 1:
            return
        a = b[1][0][0]
        if a[0] == "l" and p.member(A, a, "items"):
            for s in I.d.get("steps", ()):
                if s[0] == "p":
                    p.elem[(A.f.name, a)] = s[2]

    def member(p, A, a, *names):
        """The struct when the value was loaded from one of its fields with these names."""
        i = a[1:].rstrip("'")
        J = A.f.insts.get(int(i)) if i.isdigit() else None
        if J is None or J.op != "load":
            return None
        t = A.itag(J, 0)
        if t and t[1] in names and (t[0].startswith("fiftyone_degrees_array_") or t[0].startswith("fiftyone_degrees_list")):
            return t[0], J
        return None

    def owner(p, A, st, a, J):
        """Where the structure is that the value came from."""
        if a.endswith("'"):
            return None
        v = A.val(st, J.ops[0]) if hasattr(A, "val") else None
        return v

    def item(p, A, st, I, addr, size, kind):
        for a, c in addr[1]:
            if c != 1 or a[0] != "l":
                continue
            t = p.member(A, a, "items")
            if t is None:
                continue
            e = p.elem.get((A.f.name, a.rstrip("'"))) or p.elem.get((A.f.name, a))
            if not e:
                continue
            p.once("items", (A.f.name, I.id))
            p.index(A, st, I, t[0], e, lsub(addr, atom(a)), size, kind, p.cells(A, st, a, t))

    def cells(p, A, st, a, t):
        """What the array's count and capacity are now, where that is known."""
        S = A.m.structs.get(t[0])
        if a.endswith("'") or S is None:
            return []
        v = A.val(st, t[1].ops[0])
        if v is None or not islin(v):
            return []
        v = A.canon(st, v)
        at = {f[0]: f[1] for f in S["fields"]}
        out = []
        for n in ("count", "capacity"):
            c = st.mem.get(v[1], {}).get(v[0] - at["items"] + at[n])
            if c is not None and islin(c[1]) and not (c[1][0] and c[1][1]):
                out.append(c[1])
        return out

    def index(p, A, st, I, what, e, off, size, kind, cells):
        """The item at this offset of an array is one it has."""
        off = A.canon(st, off)
        end = ladd(off, size)
        if not A.prove_le0(st, A.canon(st, lsub(ZERO, off)), 3):
            least = A.hi(st, off)
            if least is not None and least < 0:
                return p.report(A, st, I, "before", what, "%s an item before the first" % VERB[kind])
            if any(k[0] == "a" for k, _ in off[1]) and p.given(A):
                return
            if not p.related(A, st, off, low=True):
                return p.report(A, st, I, "unchecked", what, "the index of the item that it %s is not known to be positive" % VERB[kind].replace("reads", "reads").rstrip())
        over = None
        cs = cells + [atom(b) for b in p.limits(st) if (p.member(A, b, "count", "capacity") or ("",))[0] == what]
        for b in cs:
            L = A.canon(st, lsub(end, lscale(b, e)))
            if A.prove_le0(st, L, 3):
                return
            # where the next item goes is decided by the capacity
            o = p.bound(A, st, L, False) if L[1] else None
            if o is not None and 0 < o <= 2 * e and (over is None or o < over):
                over = o
        if any(k[0] == "a" for k, _ in off[1]) and p.given(A):
            return
        if over is not None:
            return p.report(A, st, I, "outside", what, "%s an item after the last one" % VERB[kind])
        if A.f.name in ADDS:
            return
        if not p.related(A, st, off) and not p.compares(A, what):
            return p.report(A, st, I, "unchecked", what, "the index of the item that it %s was not compared with the number of items" % VERB[kind])
        p.once("related", (A.f.name, I.id))

    def related(p, A, st, off, low=False):
        """Whether the index was compared with something (how is left to the paths where it can be decided)."""
        idx = {k for k, _ in off[1]}
        if not idx:
            return True
        for f in st.facts:
            fs = {k for k, _ in f[1]}
            if low:
                if any(k in idx and n < 0 for k, n in f[1]):
                    return True
            elif fs & idx and len(fs) > 1:
                return True
        if low:
            return all((A.lo(st, atom(k)) or 0) > -(1 << 31) for k in idx)
        return False

    def compares(p, A, what):
        """Whether the function compares anything with how many items such arrays have."""
        for B in A.f.blocks.values():
            for J in B.insts:
                if J.op == "icmp" and any(p.counter(A, o, what) for o in J.ops):
                    return True
        return False

    def counter(p, A, o, what, d=0):
        J = A.f.insts.get(o[1]) if o[0] == "v" else None
        if J is None or d > 4:
            return False
        if J.op in ("zext", "sext", "trunc", "add", "sub"):
            return any(p.counter(A, x, what, d + 1) for x in J.ops)
        return J.op == "load" and p.member(A, "l%d" % J.id, "count", "capacity") is not None and p.member(A, "l%d" % J.id, "count", "capacity")[0] == what

    def given(p, A):
        return A.f.name in GIVEN

    def limits(p, st):
        s = {b for b in st.rng if b[0] == "l"}
        for f in st.facts:
            for b, _ in f[1]:
                if b[0] == "l":
                    s.add(b)
        return sorted(s)

    def on_access(p, A, st, I, addr, size, kind, tag):
        addr = A.canon(st, addr)
        if islin(size):
            p.item(A, st, I, addr, size, kind)
        if I.op == "store" and I.ops[1][0] == "v" and islin(size):
            J = A.f.insts.get(I.ops[1][1])
            if J is not None and J.op == "load" and A.itag(J, 0) in CURSOR:
                p.cursor(A, st, I, addr, size, A.itag(J, 0))
        r = A.root(addr[1])
        if r is None or not islin(size):
            return None
        n = p.size(A, st, r)
        if n is None:
            return None
        p.once("checked", (A.f.name, I.id))
        off = lsub(addr, atom(r))
        end = ladd(off, size)
        up = A.prove_le0(st, A.canon(st, lsub(end, n)), 3)
        lo = A.prove_le0(st, A.canon(st, lsub(ZERO, off)), 3)
        if up and lo:
            return None
        # the tightest bound known on how far it reaches
        if not up:
            over = p.bound(A, st, A.canon(st, lsub(end, n)), not n[1])
            least = A.lo(st, A.canon(st, lsub(end, n)))
        else:
            over = p.bound(A, st, A.canon(st, lsub(ZERO, off)), not n[1])
            h = A.hi(st, off)
            least = None if h is None else -h
        step = max([abs(k) for _, k in off[1]] + [size[0] if not size[1] else 1, 1])
        if least is not None and least > 0:
            p.report(A, st, I, "outside", p.name(A, st, I, r), "%s %s the object %s" % (VERB[kind], "after the end of" if not up else "before the start of", p.name(A, st, I, r)))
        elif over is not None and 0 < over <= 2 * step:
            p.report(A, st, I, "outside", p.name(A, st, I, r), "the last %s is %d bytes %s the object %s" % (NOUN[kind], over, "after the end of" if not up else "before the start of", p.name(A, st, I, r)))
        else:
            p.once("unbounded", (A.f.name, I.id))
        return None

    def cursor(p, A, st, I, addr, size, tag):
        """What is built stays in one of the objects there are."""
        ends = [ladd(atom(k[2:]), n) for k, n in st.aux.items() if k[:2] == "S:"]
        if ends:
            p.once("cursors", (A.f.name, I.id))
            if not any(A.prove_le0(st, A.canon(st, lsub(ladd(addr, size), e)), 3) for e in ends):
                p.report(A, st, I, "unchecked", tag[1], "the place written, %s of %s, is not known to be in the memory there is for it" % (tag[1], tag[0].replace("fiftyone_degrees_", "")))

    def bound(p, A, st, L, ranges=True, depth=2):
        """Least upper bound of L from the comparisons made on the path; None when there is none."""
        best = (None if ranges is False else A.hi(st, L)) if L[1] else L[0]
        if depth:
            want = dict(L[1])
            for f in st.facts:
                for a, c in f[1]:
                    w = want.get(a)
                    if w is None or (w > 0) != (c > 0) or w % c or w // c <= 0:
                        continue
                    b = p.bound(A, st, ladd(L, f, -(w // c)), ranges, depth - 1)
                    if b is not None and (best is None or b < best):
                        best = b
                    break
        return best

    def on_exit(p, A, st, I, v):
        """What a structure says it has room for is what was allocated."""
        for terms, cells in st.mem.items():
            for off, c in list(cells.items()) if isinstance(cells, dict) else ():
                if not isinstance(off, int) or not islin(c[1]) or len(c[1][1]) != 1:
                    continue
                h = c[1][1][0][0]
                n = st.aux.get("S:" + h) if h[0] == "h" else None
                if n is None or not c[2]:
                    continue
                for what, ptr, room, elem in ROOM:
                    if c[2][1] == ptr and c[2][0].startswith(what):
                        S = A.m.structs.get(c[2][0])
                        at = {f[0]: f[1] for f in S["fields"]} if S else {}
                        if ptr not in at or room not in at:
                            continue
                        k = cells.get(off - at[ptr] + at[room])
                        if k is None or not islin(k[1]):
                            continue
                        p.room(A, st, I, c[2][0], lsub(n, const(c[1][0])), A.canon(st, k[1]), elem)

    def room(p, A, st, I, what, n, k, elem):
        n = A.canon(st, n)
        if elem:
            e = A.m.structs[elem]["size"] if isinstance(elem, str) else elem
        elif len(k[1]) == 1 and len(n[1]) == 1 and k[1][0][0] == n[1][0][0]:
            e = n[1][0][1] // k[1][0][1] if n[1][0][1] % k[1][0][1] == 0 else None
        else:
            return
        if not e:
            return
        p.once("rooms", (A.f.name, I.id, what))
        d = A.canon(st, lsub(lscale(k, e), n))
        lo = A.lo(st, d)
        if lo is not None and lo > 0 or A.prove_le0(st, A.canon(st, lsub(ONE, d)), 3):
            p.report(A, st, I, "short", what, "what was allocated is smaller than what %s says there is room for" % what)

    def name(p, A, st, I, r):
        i = r.lstrip("alh").rstrip("'")
        if i.isdigit() and int(i) in A.f.insts:
            J = A.f.insts[int(i)]
            if A.f.names.get(J.id):
                return A.f.names[J.id]
            return "allocated in %s" % srcfunc(J)
        if r.startswith("g:"):
            return r[2:]
        if r[0] == "a" and r[1:].isdigit():
            return A.f.names.get(A.f.args[int(r[1:])]["id"], r)
        return "memory"

    def on_rename(p, A, st, m):
        from ai import subst
        for k in [k for k in st.aux if k[:2] == "S:"]:
            v = st.aux.pop(k)
            a = k[2:]
            v2 = subst(v, m)
            if v2 is None:
                continue
            if a in m:
                t = m[a]
                if t is None or len(t[1]) != 1 or t[0]:
                    continue
                a = t[1][0][0]
            st.aux["S:" + a] = v2

    def on_gc(p, A, st, reach, inst):
        for k in [k for k in st.aux if k[:2] == "S:" and k[2:] not in reach]:
            del st.aux[k]
