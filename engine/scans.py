"""Searches and sweeps: which entries a loop over a counted array, table or collection looks at, and which
entries a binary search leaves out."""
import os
from ir import srcfunc, EngineError
from progress import Loop
import ai

GET = ("fiftyone_degrees_collection_t", "get")
CASTS = ("zext", "sext", "trunc", "freeze", "bitcast")


def ssa(F, o):
    return F.insts.get(o[1]) if o and o[0] == "v" else None


def strip(F, o):
    while True:
        I = ssa(F, o)
        if I is None or I.op not in CASTS:
            return o
        o = I.ops[0]


def plus(F, o):
    """(operand, constant): o is operand + constant."""
    k = 0
    while True:
        o = strip(F, o)
        I = ssa(F, o)
        if I is None:
            return o, k
        if I.op == "add" and I.ops[1][0] == "c":
            k += I.ops[1][1]; o = I.ops[0]
        elif I.op == "add" and I.ops[0][0] == "c":
            k += I.ops[0][1]; o = I.ops[1]
        elif I.op == "sub" and I.ops[1][0] == "c":
            k -= I.ops[1][1]; o = I.ops[0]
        elif I.op == "or" and I.ops[1] == ["c", 0, 32]:
            o = I.ops[0]
        else:
            return o, signed(k)


def signed(k):
    k &= 0xffffffff
    return k - (1 << 32) if k >> 31 else k


def same(F, a, b, d=0):
    """The two operands are written alike (loads of the same member of the same thing count as alike)."""
    a, b = strip(F, a), strip(F, b)
    if a == b:
        return True
    I, J = ssa(F, a), ssa(F, b)
    if I is None or J is None or d > 8 or I.op != J.op:
        return False
    if I.op == "load":
        return same(F, I.ops[0], J.ops[0], d + 1)
    if I.op == "getelementptr":
        s, t = I.d["steps"], J.d["steps"]
        return len(s) == len(t) and same(F, I.ops[0], J.ops[0], d + 1) and all(
            x[0] == y[0] and x[2] == y[2] and (x[0] == "f" or same(F, x[1], y[1], d + 1)) for x, y in zip(s, t))
    return False


def member(F, o):
    """(object operand, struct, member) where o is loaded from a member of an object."""
    I = ssa(F, strip(F, o))
    if I is None or I.op != "load":
        return None
    G = ssa(F, I.ops[0])
    tag = I.d.get("tag")
    if G is None or G.op != "getelementptr" or not (G.d["steps"] and G.d["steps"][-1][0] == "f"):
        return (I.ops[0], (), tag[0], tag[1]) if tag else None      # the first member
    if G.d["steps"] and G.d["steps"][-1][0] == "f":
        s = G.d["steps"][-1]
        return (G.ops[0], tuple(map(repr, G.d["steps"][:-1])), s[1], s[3])
    return None


def callee(I):
    c = I.d.get("callee")
    return c[1] if c and c[0] == "f" else None


def is_get(F, I):
    c = I.d.get("callee")
    J = ssa(F, c) if c and c[0] == "v" else None
    return J is not None and J.op == "load" and tuple(J.d.get("tag") or ()) == GET and len(I.ops) >= 2


class Scans:
    def __init__(s, m, found, info):
        s.m, s.found, s.info = m, found, info
        s.S = Effects()

    def n(s, k):
        s.info[k] = s.info.get(k, 0) + 1

    def report(s, rule, L, I, subject, msg):
        loc = I.loc[0] if I.loc else (L.F.file, L.F.line, L.F.name)
        fn = srcfunc(I)
        s.found.setdefault((rule, fn, subject), {"rule": rule, "function": fn, "file": os.path.basename(loc[0]), "line": loc[1],
                                                 "message": msg, "root": L.F.name,
                                                 "chain": ["%s" % x[2] for x in I.loc[1:]] if I.loc else []})

    def run(s):
        for F in s.m.funcs.values():
            if F.decl:
                continue
            for h in {b for _, b in F.backedges}:
                L = Loop(F, h, s.m, s.S)
                s.n("loops")
                ways = None
                for c in L.phis:
                    if c.ty not in ("i8", "i16", "i32", "i64"):
                        continue
                    uses = list(s.entries(L, c))
                    if not uses:
                        continue
                    tests = list(s.tests(L, c))
                    if not tests:
                        s.n("indexes_without_test")
                        continue
                    if ways is None:
                        ways = list(L.paths())
                    s.sweep(L, c, uses, tests, ways)
                s.bisect(L)
                s.pointers(L)
                s.lockstep(L)
                s.links(L)
            s.starts(F)

    # ------------------------------------------------------------ what is looked at
    def entries(s, L, c):
        """(instruction, k, what, text): entry c + k of what."""
        F = L.F
        me = ["v", c.id]
        for b in L.body:
            for I in F.blocks[b].insts:
                if I.op == "getelementptr":
                    ix = [x for x in I.d["steps"] if x[0] in "pi"]
                    v = [x for x in ix if x[1][0] == "v"]
                    if len(v) != 1:
                        continue
                    k = s.offset(L, v[0][1], me)
                    if k is None:
                        continue
                    if I.ops[0][0] == "g":
                        st = I.d["steps"]
                        j = st.index(v[0])
                        if j and st[j - 1][0] == "f":
                            yield I, k, ("fixed", s.length(st[j - 1])), "%s.%s" % (I.ops[0][1], st[j - 1][3])
                        else:
                            yield I, k, ("table", I.ops[0][1]), I.ops[0][1]
                        continue
                    mb = member(F, I.ops[0])
                    if mb:
                        yield I, k, ("member",) + mb, "%s" % mb[3]
                    elif s.argument(F, I.ops[0]) is not None:
                        yield I, k, ("argument", s.argument(F, I.ops[0])), "the argument"
                elif I.op in ("call", "invoke") and is_get(F, I):
                    k = s.offset(L, I.ops[1], me)
                    if k is not None:
                        yield I, k, ("collection", I.ops[0]), "the collection"
                elif I.op in ("call", "invoke") and not (callee(I) or "").startswith("llvm."):
                    for o in I.ops:
                        if o[0] == "v":
                            k = s.offset(L, o, me)
                            if k is not None:
                                yield I, k, ("call",), "what is called for each"

    def argument(s, F, o):
        o = strip(F, o)
        return next((a["id"] for a in F.args if o == ["v", a["id"]]), None)

    def length(s, f):
        """How many entries the array member has."""
        st = s.m.structs.get(f[1])
        ty = next((x[2] for x in (st or {"fields": []})["fields"] if x[0] == f[3]), "") or ""
        return int(ty[1:].split(" ")[0]) if isinstance(ty, str) and ty.startswith("[") else None

    def offset(s, L, o, me, d=0):
        """The least k so that the operand may be me + k."""
        o, k = plus(L.F, o)
        if o == me:
            return k
        I = ssa(L.F, o)
        if I is None or I.op != "phi" or I.blk.id not in L.body or I.blk.id == L.head or d > 3:
            return None
        ks = [s.offset(L, v, me, d + 1) for _, v in I.d["in"]]
        return None if None in ks else k + min(ks)

    def alone(s, L, what, first, use):
        """Whether the first (or the last) entry is looked at outside the loop."""
        F = L.F
        fn = srcfunc(use)
        for I in F.insts.values():
            if I.blk.id in L.body or srcfunc(I) != fn:
                continue
            if I.op == "getelementptr":
                ix = [x for x in I.d["steps"] if x[0] in "pi"]
                if what[0] == "table":
                    base = I.ops[0] == ["g", what[1]]
                else:
                    mb = member(F, I.ops[0])
                    base = bool(mb) and mb[2:] == what[3:]
                if base and ix:
                    o, k = plus(F, ix[-1][1])
                    if first and o[0] == "c" or not first and o[0] != "c" and k < 0:
                        return True
            elif first and what[0] == "member" and I.op in ("load", "call", "store") and any(
                    (member(F, o) or ())[2:] == what[3:] for o in I.ops if ssa(F, o) is not None and ssa(F, o).op == "load"):
                return True
            elif what[0] == "collection" and I.op in ("call", "invoke") and is_get(F, I):
                return True
        return False

    def tests(s, L, c):
        """(block, d, limit operand): the loop goes on only while c < limit + d."""
        F = L.F
        me = ["v", c.id]
        for E in L.exits():
            T = E.insts[-1]
            if T.op != "br" or len(T.ops) < 1:
                continue
            stay = [x in L.body and not L.dead(x) for x in E.succs]
            if stay[0] == stay[1]:
                continue
            yield from s.cond(L, E, T.ops[0], stay[0], me)

    def cond(s, L, E, o, stay, me, d=0):
        F = L.F
        C = ssa(F, o)
        if C is None or d > 6:
            return
        if C.op == "icmp":
            p = C.d["pred"]
            a, k1 = plus(F, C.ops[0])
            b, k2 = plus(F, C.ops[1])
            if b == me and a != me:
                a, k1, b, k2 = b, k2, a, k1
                p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
            if a != me:
                return
            if not stay:
                p = {"ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle",
                     "eq": "ne", "ne": "eq"}[p]
            if p in ("ult", "slt", "ne"):
                yield E.id, k2 - k1, b
            elif p in ("ule", "sle"):
                yield E.id, k2 - k1 + 1, b
        elif C.op == "phi" and stay and C.blk.id in L.body:
            # a && b: false from the blocks where a was
            for p, v in C.d["in"]:
                if v[0] != "c":
                    yield from s.cond(L, F.blocks[p] if p in L.body else E, v, stay, me, d + 1)
                else:
                    P = F.blocks[p]
                    if P.insts[-1].op == "br" and len(P.succs) == 2 and v[1] == 0:
                        yield from s.cond(L, P, P.insts[-1].ops[0], P.succs[0] != C.blk.id, me, d + 1)
        elif C.op == "select" and stay and C.ops[2][0] == "c" and C.ops[2][1] == 0:
            yield from s.cond(L, E, C.ops[0], stay, me, d + 1)
            yield from s.cond(L, E, C.ops[1], stay, me, d + 1)

    def limit(s, L, what, o):
        """Whether the limit is how many entries there are: (True, shift), or None."""
        F = L.F
        if what[0] == "table":
            g = s.m.globals.get(what[1])
            ty = g and g.get("ty") or ""
            while ty.startswith("%") and ty[1:] in s.m.structs:
                ty = s.m.structs[ty[1:]]["fields"][0][2] or ""
            if o[0] == "c" and ty.startswith("["):
                return o[1] - int(ty[1:].split(" ")[0])
            return None
        if what[0] == "member":
            mb = member(F, o)
            if mb and mb[2] == what[3] and mb[1] == what[2] and mb[3] != what[4] and same(F, mb[0], what[1]):
                return 0
            if mb is None and o[0] == "v":
                for I in F.insts.values():      # what is, or becomes, the count
                    t = I.d.get("tag")
                    if I.op == "store" and t and t[0] == what[3] and t[1].lower() in ("count", "capacity") and strip(F, I.ops[0]) == o:
                        G = ssa(F, I.ops[1])
                        if same(F, G.ops[0] if G is not None and G.op == "getelementptr" else I.ops[1], what[1]):
                            return 0
            return None
        if what[0] == "fixed":
            return o[1] - what[1] if o[0] == "c" and what[1] else None
        if what[0] == "argument":
            J = ssa(F, o)
            sizes = J is not None and J.op == "phi" and all(v[0] == "c" for _, v in J.d["in"])
            return 0 if sizes or s.argument(F, o) is not None else None
        if what[0] == "call":
            mb = member(F, o)
            return 0 if mb and mb[3].lower().endswith("count") else None
        I = ssa(F, o)
        if I is not None and I.op in ("call", "invoke") and (callee(I) or "").endswith("CollectionGetCount") and same(F, I.ops[0], what[1]):
            return 0
        mb = member(F, o)
        if mb and mb[2] == GET[0] and mb[3] == "count" and same(F, mb[0], what[1]):
            return 0
        return None

    def within(s, L, b):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            for y in L.F.blocks[x].succs:
                if y in L.body and y != L.head and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def sweep(s, L, c, uses, tests, ways):
        F = L.F
        inits = [o for p, o in c.d["in"] if p not in L.body]
        steps = set()
        for new, cond, eff, b in ways:
            v = new.get(c.id)
            if v == ("phi", c.id):
                steps.add(0)
            elif v[0] == "op" and v[1] == "add" and v[2] == ("phi", c.id) and v[3][0] == "c":
                steps.add(signed(v[3][1]))
            else:
                steps.add(None)
        down = bool(steps) and None not in steps and max(steps) <= 0 and min(steps) < 0
        for I, k, what, text in uses:
            if down:
                s.downward(L, c, I, k, what, text, inits, steps)
                continue
            for tb, d, lim in tests:
                sh = s.limit(L, what, lim)
                if sh is None:
                    continue
                if None in steps or min(steps) < 0:
                    s.n("sweeps_not_followed")
                    continue
                s.n("sweeps")
                first = [signed(o[1]) for o in inits if o[0] == "c"]
                s.judge(L, I, k, what, text, first, max(steps), tb, d + sh)

    def judge(s, L, I, k, what, text, first, step, tb, d):
        """Entry c + k is looked at, c is first at `first`, and the loop goes on while c < count + d."""
        if step > 1:
            s.report("skip", L, I, text, "a loop over %s moves on by %d entries at once on some way round" % (text, step))
        after = tb in s.within(L, I.blk.id) or tb == I.blk.id
        before = I.blk.id in s.within(L, tb)
        if after == before:
            return
        D = d + (1 if after else 0)
        for o in first:
            if o + k > 0 and not s.alone(L, what, True, I):
                s.report("first", L, I, text, "a loop over %s starts at entry %d" % (text, o + k))
        if D + k < 0 and not s.alone(L, what, False, I):
            s.report("last", L, I, text, "a loop over %s ends %d entr%s before the last" % (text, -(D + k), "y" if D + k == -1 else "ies"))

    def downward(s, L, c, I, k, what, text, inits, steps):
        """Entry c + k is looked at; c goes down."""
        F = L.F
        tops = []
        for o in inits:
            n, k0 = plus(F, o)
            sh = s.limit(L, what, n)
            if sh is not None:
                tops.append(k0 + sh)
        if not tops or what[0] == "call":
            return
        bounds = list(s.floors(L, c))
        s.n("sweeps")
        if min(steps) < -1:
            s.report("skip", L, I, text, "a loop over %s moves back by %d entries at once on some way round" % (text, -min(steps)))
        for k0 in tops:
            if k0 + k < -1 and not s.alone(L, what, False, I):
                s.report("last", L, I, text, "a loop over %s starts %d entr%s before the last" % (text, -1 - k0 - k, "y" if k0 + k == -2 else "ies"))
        for tb, least in bounds:
            after = tb in s.within(L, I.blk.id) or tb == I.blk.id
            before = I.blk.id in s.within(L, tb)
            if after == before:
                continue
            low = least + k - (1 if after else 0)
            if low > 0 and not s.alone(L, what, True, I):
                s.report("first", L, I, text, "a loop over %s ends at entry %d" % (text, low))

    def conjuncts(s, L):
        """(block, comparison, whether the loop goes on when it holds)."""
        for E in L.exits():
            T = E.insts[-1]
            if T.op != "br" or not T.ops:
                continue
            stay = [x in L.body and not L.dead(x) for x in E.succs]
            if stay[0] != stay[1]:
                yield from s.conjunct(L, E, T.ops[0], stay[0])

    def conjunct(s, L, E, o, stay, d=0):
        F = L.F
        C = ssa(F, o)
        if C is None or d > 6:
            return
        if C.op == "icmp":
            yield E, C, stay
        elif C.op == "phi" and stay and C.blk.id in L.body:
            for p, v in C.d["in"]:
                P = F.blocks[p]
                if v[0] != "c":
                    yield from s.conjunct(L, P if p in L.body else E, v, stay, d + 1)
                elif P.insts[-1].op == "br" and len(P.succs) == 2 and v[1] == 0:
                    yield from s.conjunct(L, P, P.insts[-1].ops[0], P.succs[0] != C.blk.id, d + 1)
        elif C.op == "select" and stay and C.ops[2][0] == "c" and C.ops[2][1] == 0:
            yield from s.conjunct(L, E, C.ops[0], stay, d + 1)
            yield from s.conjunct(L, E, C.ops[1], stay, d + 1)

    def floors(s, L, c):
        """(block, z): the loop goes on only while c >= z."""
        F = L.F
        for E, C, stay in s.conjuncts(L):
            p = C.d["pred"]
            a, ka = plus(F, C.ops[0])
            b = C.ops[1]
            if a != ["v", c.id] or b[0] != "c":
                continue
            if not stay:
                p = {"ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle",
                     "eq": "ne", "ne": "eq"}[p]
            if p in ("ugt", "sgt", "ne"):
                yield E.id, signed(b[1]) + 1 - ka
            elif p in ("uge", "sge"):
                yield E.id, signed(b[1]) - ka

    # ------------------------------------------------------------ cursors
    def spread(s, F, o, d=0):
        """(base, bytes, [(operand, size)]) of a pointer."""
        k, terms = 0, []
        while True:
            o = strip(F, o)
            I = ssa(F, o)
            if I is None or I.op != "getelementptr":
                return o, k, terms
            for x in I.d["steps"]:
                if x[0] == "f":
                    k += x[2]
                elif x[1][0] == "c":
                    k += signed(x[1][1]) * x[2]
                else:
                    terms.append((x[1], x[2]))
            o = I.ops[0]

    def strides(s, L, c):
        """(bytes moved by, ...) on the ways round, None where that isn't constant."""
        F, out = L.F, set()
        todo = [(v, 0, 0) for p, v in c.d["in"] if p in L.body]
        while todo:
            v, k, d = todo.pop()
            b, kk, t = s.spread(F, v)
            k += kk
            J = ssa(F, b)
            if t or d > 6:
                out.add(None)
            elif b == ["v", c.id]:
                out.add(k)
            elif J is not None and J.op == "phi" and J.blk.id in L.body and J.blk.id != L.head:
                todo += [(x, k, d + 1) for _, x in J.d["in"]]
            else:
                out.add(None)
        return out

    def pointers(s, L):
        """Loops in which a pointer goes from entry to entry until it is at the end."""
        F = L.F
        for c in L.phis:
            if c.ty != "ptr":
                continue
            st = s.strides(L, c)
            if None in st or not st or max(st) <= 0 or min(st) < 0:
                continue
            uses = [(I, k) for b in L.body for I in F.blocks[b].insts if I.op in ("load", "store", "call", "invoke", "getelementptr")
                    for b0, k, t in [s.spread(F, I.ops[1] if I.op == "store" else I.ops[0] if I.ops else ["n"])] if b0 == ["v", c.id] and not t]
            uses = [(I, k) for I, k in uses if I.op != "getelementptr"]
            if not uses:
                continue
            for E, C, stay in s.conjuncts(L):
                p, x, y = C.d["pred"], C.ops[0], C.ops[1]
                a, b = s.spread(F, x), s.spread(F, y)
                if a[0] != ["v", c.id]:
                    a, b = b, a
                    p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
                if a[0] != ["v", c.id] or a[2] or len(b[2]) != 1:
                    continue
                if not stay:
                    p = {"ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "eq": "ne", "ne": "eq"}.get(p)
                (n, size), base = b[2][0], b[0]
                mb = member(F, plus(F, n)[0])
                if p not in ("ult", "ule", "ne") or mb is None or not size:
                    continue
                what, start = s.counted(F, base, b[1], mb, size)
                if what is None:
                    continue
                kn = plus(F, n)[1]
                d = (b[1] - start - a[1]) // size + kn + (1 if p == "ule" else 0)
                first = []
                for pr, o in c.d["in"]:
                    if pr not in L.body:
                        q = s.spread(F, o)
                        if same(F, q[0], base) and not q[2]:
                            first.append((q[1] - start) // size)
                s.n("sweeps")
                for I, k in uses:
                    s.judge(L, I, k // size, what, mb[3], first, max(st) // size if max(st) > size else 1, E.id, d)

    def lockstep(s, L):
        """Pointers which go along with a counter that ends the loop."""
        F = L.F
        ways = None
        for c in L.phis:
            if c.ty != "ptr":
                continue
            inits = [s.spread(F, o) for p, o in c.d["in"] if p not in L.body]
            if len(inits) != 1 or inits[0][2] or s.argument(F, inits[0][0]) is None:
                continue
            st = s.strides(L, c)
            if len(st) != 1 or None in st or min(st) <= 0:
                continue
            size = min(st)
            uses = [(I, k) for b in L.body for I in F.blocks[b].insts if I.op in ("load", "store")
                    for b0, k, t in [s.spread(F, I.ops[1] if I.op == "store" else I.ops[0])] if b0 == ["v", c.id] and not t]
            for i in L.phis:
                if i.ty not in ("i16", "i32", "i64") or not uses:
                    continue
                z = [o for p, o in i.d["in"] if p not in L.body]
                up = [plus(F, o) for p, o in i.d["in"] if p in L.body]
                if len(z) != 1 or z[0][0] != "c" or any(o != ["v", i.id] or k != 1 for o, k in up):
                    continue
                for tb, d, lim in s.tests(L, i):
                    if s.argument(F, lim) is None:
                        continue
                    s.n("sweeps")
                    for I, k in uses:
                        s.judge(L, I, k // size, ("argument", s.argument(F, inits[0][0])), "the argument", [inits[0][1] // size], 1, tb, d - signed(z[0][1]) + inits[0][1] // size)

    def counted(s, F, base, bytes, mb, size):
        """Whether the pointer is to the entries that the member counts: (what, bytes at which they start)."""
        J = ssa(F, base)
        if same(F, base, mb[0]) and not mb[1]:           # entries which follow the structure
            st = s.m.structs.get(mb[2])
            if st and abs(bytes - st["size"]) <= 2 * size:
                return ("member", base, (), mb[2], "entries"), st["size"]
            return None, 0
        m2 = member(F, base)
        if m2 and m2[2] == mb[2] and m2[1] == mb[1] and m2[3] != mb[3] and same(F, m2[0], mb[0]) and abs(bytes) <= 2 * size:
            return ("member",) + m2, 0
        return None, 0

    # ------------------------------------------------------------ lists
    def links(s, L):
        """Loops along a list: that they don't stop at the last node without looking at it."""
        F = L.F
        for c in L.phis:
            if c.ty != "ptr":
                continue
            nexts = set()
            for p, v in c.d["in"]:
                if p in L.body:
                    mb = member(F, v)
                    nexts.add((mb[2], mb[3]) if mb and strip(F, mb[0]) == ["v", c.id] and not mb[1] else None)
            if len(nexts) != 1 or None in nexts:
                continue
            link = next(iter(nexts))
            if link[0] not in s.m.structs:
                continue
            ends, peeks = [], []
            for E, C, stay in s.conjuncts(L):
                x, y = C.ops
                if x[0] == "n":
                    x, y = y, x
                if y[0] != "n":
                    continue
                mb = member(F, x)
                if strip(F, x) == ["v", c.id]:
                    ends.append(E.id)
                elif mb and strip(F, mb[0]) == ["v", c.id] and (mb[2], mb[3]) == link and not mb[1]:
                    peeks.append(E)
            if not ends and not peeks:
                continue
            s.n("lists")
            if ends or len(peeks) != 1:
                continue
            E = peeks[0]
            looks = []
            for b in L.body:
                for I in F.blocks[b].insts:
                    for o in I.ops:
                        if I.op in ("load", "store", "call", "invoke") and s.spread(F, o)[0] == ["v", c.id]:
                            t = I.d.get("tag")
                            if not (I.op == "load" and t and tuple(t) == link):
                                looks.append(I)
            before = [I for I in looks if E.id in s.within(L, I.blk.id) or I.blk.id == E.id]
            if not looks or before:
                continue
            out = [I for I in F.insts.values() if I.blk.id not in L.body and I.op != "phi" and any(s.spread(F, o)[0] == ["v", c.id] for o in I.ops)]
            out += [I for I in F.insts.values() if I.op == "phi" and I.blk.id not in L.body and any(v == ["v", c.id] for _, v in I.d["in"])]
            if not out:
                s.report("last", L, looks[0], link[1], "a loop along a list stops before it has looked at the last node")

    # ------------------------------------------------------------ binary search
    def bisect(s, L):
        F = L.F
        ints = [c for c in L.phis if c.ty in ("i32", "i64")]
        gets = [I for b in L.body for I in F.blocks[b].insts if I.op in ("call", "invoke") and is_get(F, I)]
        if len(ints) < 2 or not gets:
            return
        pairs = [(lo, hi) for lo in ints for hi in ints if lo is not hi]
        for lo, hi in pairs:
            test = None
            for E in L.exits():
                C = ssa(F, E.insts[-1].ops[0]) if E.insts[-1].op == "br" else None
                if C is None or C.op != "icmp":
                    continue
                (a, ka), (b, kb) = plus(F, C.ops[0]), plus(F, C.ops[1])
                p = C.d["pred"]
                stay = E.succs[0] in L.body
                if (a, b) == (["v", hi.id], ["v", lo.id]):
                    a, ka, b, kb = b, kb, a, ka
                    p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
                if (a, b) != (["v", lo.id], ["v", hi.id]):
                    continue
                if not stay:
                    p = {"ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle",
                         "eq": "ne", "ne": "eq"}[p]
                test = (E, p, ka, kb)
            if test is None or test[1] not in ("ult", "slt", "ule", "sle", "ne"):
                continue
            s.interval(L, lo, hi, test, gets)
            return

    def interval(s, L, lo, hi, test, gets):
        """lo <= hi: what is still searched is [lo, hi]."""
        F = L.F
        E, p, ka, kb = test
        s.n("binary_searches")
        # goes on while lo + ka < hi + kb (+1 with equality)
        left = (ka - kb) - (1 if p in ("ule", "sle") else 0)
        if left > -1 + 0 and left >= 0:
            s.report("ends", L, E.insts[-1], "interval", "the search ends while %s still to be looked at" %
                     ("one entry is" if left == 0 else "%d entries are" % (left + 1)))
        PL, PH = ("phi", lo.id), ("phi", hi.id)
        for new, cond, eff, b in L.paths():
            # the entry looked at and how it compared
            mid, ent, res = None, None, None
            for e in eff:
                if e[0] in ("call", "io") and e[2] in {g.id for g in gets}:
                    mid = e[3][1]
                    ent = e[3][2]
            if mid is None:
                continue
            for v, t in cond:
                if v[0] != "cmp" or v[3] != ("c", 0) or v[2][0] != "call" or v[2][1] in {g.id for g in gets}:
                    continue
                I = F.insts[v[2][1]]
                if callee(I) or I.ty != "i32":
                    continue
                sign = {("sgt", True): {1}, ("sgt", False): {-1, 0}, ("slt", True): {-1}, ("slt", False): {0, 1}, ("eq", True): {0},
                        ("eq", False): {-1, 1}, ("ne", True): {-1, 1}, ("ne", False): {0}, ("sle", True): {-1, 0}, ("sle", False): {1},
                        ("sge", True): {0, 1}, ("sge", False): {-1}}.get((v[1], t))
                if sign is not None:
                    res = sign if res is None else res & sign
            if res is not None and not res:
                continue
            if res is None:
                s.n("ways_not_followed")
                continue
            s.n("ways_round_a_search")
            nl, nh = new.get(lo.id), new.get(hi.id)
            zero = any(v[0] == "cmp" and v[2] == mid and v[3] == ("c", 0) and (v[1], t) in (("eq", True), ("ne", False), ("ugt", False)) for v, t in cond)
            below, above = L.fold("add", mid, ("c", -1)), L.fold("add", mid, ("c", 1))
            loword = {PL: "same", mid: "mid", above: "up"}.get(nl)
            hiword = {PH: "same", mid: "mid", below: "down", L.fold("add", mid, ("c", 0xffffffff)): "down"}.get(nh)
            I = F.blocks[b].insts[-1]
            if 0 in res:
                s.report("found", L, I, "interval", "the search goes on although the entry it looked at compares equal")
            if 1 in res and nl != PL and not zero:
                s.report("excludes", L, I, "low", "the entry looked at is greater than what is searched, but the entries before it are left out")
            if -1 in res and nh != PH:
                s.report("excludes", L, I, "high", "the entry looked at is less than what is searched, but the entries after it are left out")
            if 1 in res and hiword is None and not zero:
                s.n("ends_not_followed")
                if nh[0] == "op" and nh[1] == "add" and nh[2] == mid and signed(nh[3][1]) < -1 or \
                        mid[0] == "op" and mid[1] == "add" and nh[0] == "op" and nh[1] == "add" and nh[2] == mid[2] and signed(nh[3][1]) - signed(mid[3][1]) < -1:
                    s.report("excludes", L, I, "low", "entries before the one looked at, which may be what is searched, are left out")
            if -1 in res and loword is None:
                s.n("ends_not_followed")
                if nl[0] == "op" and nl[1] == "add" and nl[2] == mid and signed(nl[3][1]) > 1:
                    s.report("excludes", L, I, "high", "entries after the one looked at, which may be what is searched, are left out")

    def starts(s, F):
        """Where binary searches of a whole collection start and end."""
        for I in F.insts.values():
            if I.op in ("call", "invoke") and callee(I) == "bsearch" and len(I.ops) >= 4:
                s.whole(F, I)
            if I.op not in ("call", "invoke") or not (callee(I) or "").endswith("CollectionBinarySearch") or len(I.ops) < 4:
                continue
            s.n("binary_search_calls")
            hi, k = plus(F, I.ops[3])
            J = ssa(F, hi)
            whole = J is not None and J.op in ("call", "invoke") and (callee(J) or "").endswith("CollectionGetCount")
            class X: pass
            X.F = F
            if whole and k < -1:
                s.report("last", X, I, "search", "the search of a collection ends %d entries before the last" % (-1 - k))
            if whole and I.ops[2][0] == "c" and I.ops[2][1] > 0:
                s.report("first", X, I, "search", "the search of a collection starts at entry %d" % I.ops[2][1])
            a, b = member(F, I.ops[2]), member(F, I.ops[3])
            lo, kl = plus(F, I.ops[2])
            a, b = member(F, lo), member(F, hi)
            if a and b and a[2] == b[2]:
                s.n("ranges_compared")
                if kl > 0 or k < 0:
                    s.report("first" if kl > 0 else "last", X, I, "range", "the search leaves out an end of the range %s to %s" % (a[3], b[3]))
                if a[3].lower().startswith("last") or b[3].lower().startswith("first"):
                    s.report("range", X, I, "range", "the search goes from %s to %s" % (a[3], b[3]))


    def whole(s, F, I):
        """bsearch(key, first, how many, size, ...) of the entries a member counts."""
        n, k = plus(F, I.ops[2])
        mb = member(F, n)
        if mb is None or I.ops[3][0] != "c":
            return
        size = I.ops[3][1]
        base, bytes, t = s.spread(F, I.ops[1])
        what, start = s.counted(F, base, bytes, mb, size)
        if what is None or t:
            return
        s.n("binary_search_calls")
        class X: pass
        X.F = F
        skip = (bytes - start) // size
        if skip > 0:
            s.report("first", X, I, "search", "the search starts at entry %d" % skip)
        if skip + k < 0:
            s.report("last", X, I, "search", "the search ends %d entr%s before the last" % (-skip - k, "y" if skip + k == -1 else "ies"))


class Effects(dict):
    def __missing__(s, k):
        return frozenset([None]), False


def run(m, found, info):
    Scans(m, found, info).run()
