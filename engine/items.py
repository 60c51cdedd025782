"""Ownership of collection items: what a successful retrieval hands out is released
exactly once, through the collection that produced it, is not used afterwards, and
what a failed retrieval leaves behind is not used at all."""
from ai import atom, const, ladd, lsub, ZERO, ONE, islin, atoms_of, Dead
from heap import Recorder, callee_name
from ir import srcfunc
import models

COLL = "fiftyone_degrees_collection_t"
ITEM = "fiftyone_degrees_collection_item_t"
DATA = "fiftyone_degrees_data_t"
ITEMPTR = "struct:%s*" % ITEM
# callbacks of these take over the items they are passed
TAKES = {"fiftyoneDegreesProfileIterateValuesForProperty"}


def is_item(A, o, d=0):
    if o[0] != "v":
        return False
    if A.f.vtys.get(o[1]) == ITEMPTR:
        return True
    I = A.f.insts.get(o[1])
    if I is None or d > 5:
        return False
    if I.op == "alloca":
        return I.d.get("aty") == "%" + ITEM
    if I.op == "getelementptr":
        s = I.d["steps"]
        if s and s[-1][0] == "f":
            st = A.m.structs.get(s[-1][1])
            for f in (st["fields"] if st else ()):
                if f[0] == s[-1][3]:
                    return f[2] == "%" + ITEM
    if I.op == "phi":
        return any(is_item(A, x, d + 1) for _, x in I.d["in"] if x != o)
    return False


class Items(Recorder):
    alloc_fails = True
    default_rng = {"d": (1, None), "h": (1, None), "c": (1, None)}

    def offs(p, A):
        o = A.__dict__.get("_item_offs")
        if o is None:
            f = {x[0]: x[1] for x in A.m.structs[ITEM]["fields"]}
            d = {x[0]: x[1] for x in A.m.structs[DATA]["fields"]}
            o = A._item_offs = {"ptr": f["data"] + d["ptr"], "allocated": f["data"] + d["allocated"],
                                "used": f["data"] + d["used"], "handle": f["handle"], "collection": f["collection"]}
        return o

    def put(p, A, st, item, field, v):
        size, tag, ty = {"ptr": (8, (DATA, "ptr"), "ptr"), "allocated": (4, (DATA, "allocated"), "i32"),
                         "used": (4, (DATA, "used"), "i32"), "handle": (8, (ITEM, "handle"), "ptr"),
                         "collection": (8, (ITEM, "collection"), "ptr")}[field]
        a = ladd(item, const(p.offs(A)[field]))
        A.kill(st, a, size, tag, ty)
        A.put(st, a, size, v, tag, ty)

    def peek(p, A, st, item, field):
        a = A.canon(st, ladd(item, const(p.offs(A)[field])))
        inner = st.mem.get(a[1])
        if inner is None:
            return None
        e = inner.get(a[0])
        return e[1] if e is not None else None

    def desc(p, A, I, item):
        for k, o in enumerate(I.ops):
            if is_item(A, o):
                break
        else:
            return "item"
        return p.opname(A, o)

    def opname(p, A, o, d=0):
        if o[0] != "v" or d > 6:
            return "item"
        n = A.f.names.get(o[1])
        I = A.f.insts.get(o[1])
        if I is None:
            return n or "item"
        if I.op == "getelementptr":
            s = [x for x in I.d["steps"] if x[0] == "f" and x[1] != ITEM]
            return (s[-1][3] if s else p.opname(A, I.ops[0], d + 1))
        if I.op == "alloca":
            return (n or "item").split(".")[0].rstrip("0123456789")
        if I.op == "load":
            t = A.itag(I, 0)
            if t and t[0] not in ("al", "g"):
                return t[1]
        return n or "item"

    def tskey(p, s):
        return (frozenset((a, v) for a, v in s.res.items() if v[0] not in ("data", "dead")), frozenset(s.aux.items()))

    def join_res(p, A, a, b):
        n = dict(b.res)
        n.update(a.res)
        return n

    # ---- calls
    def on_call(p, A, st, I, c, args):
        kind = None
        if c[0] == "slot" and c[1] == COLL and c[2] == "get":
            kind = "get"
        elif c[0] == "slot" and c[1] == COLL and c[2] == "release":
            kind = "release"
        elif c[0] == "fn" and I.d["callee"][0] == "v" and c[1] in A.sum.slots.get((COLL, "get"), ()):
            kind = "get"        # of a collection made here, so that which method it is is known
        elif c[0] == "fn" and I.d["callee"][0] == "v" and c[1] in A.sum.slots.get((COLL, "release"), ()):
            kind = "release"
        elif c[0] != "fn":
            ix = [i for i, o in enumerate(I.ops) if is_item(A, o)]
            if ix:
                kind = {"i64": "cbget", "ptr": "cbget", "i1": "iter", "i32": "compare", "void": "iter"}.get(I.ty)
        if kind is None:
            for i, v in enumerate(args):
                p.check_dead(A, st, I, v, "is passed to %s" % callee_name(A, I))
            return None
        ix = [i for i, o in enumerate(I.ops) if is_item(A, o)]
        ik = 2 if kind == "get" else (ix[0] if ix else 0)
        item = A.canon(st, A.lin(st, args[ik], "%dit" % I.id))
        if kind in ("get", "cbget"):
            return p.get(A, st, I, c, args, item, kind)
        if kind == "release":
            return p.release(A, st, I, c, args, item)
        if kind == "compare":
            return p.plain(A, st, I, args)
        return p.iterate(A, st, I, args, item)

    def plain(p, A, st, I, args):
        ei = A.exc_arg(I, args)
        out = A.exc_split(st, I, args[ei]) if ei is not None else [(st, None)]
        res = []
        for s, f in out:
            v = A.ret_atom(s, I, A.f.vtys.get(I.id))
            if v is not None:
                s.env[I.id] = v
            res.append(s)
        return res

    def iterate(p, A, st, I, args, item):
        p.count("callback_sites")
        h = p.peek(A, st, item, "handle")
        if h is not None and islin(h):
            r = A.root(A.canon(st, h)[1])
            if r in st.res and st.res[r][0] == "held" and A.f.name in TAKES:
                st.res[r] = ("given",) + st.res[r][1:]
            elif r in st.res and st.res[r][0] == "released":
                p.report(A, st, I, "use-after-release", st.res[r][1], "the item (%s) is passed to the callback after it was released" % st.res[r][1])
        return p.plain(A, st, I, args)

    def prod(p, A, st, v):
        if v is None or not islin(v):
            return None
        v = A.canon(st, v)
        if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1:
            a = v[1][0][0].rstrip("'")
            if a[0] == "a" and a[1:].isdigit():
                return a
            if a[0] == "l" and a[1:].isdigit():
                J = A.f.insts.get(int(a[1:]))
                t = A.itag(J, 0) if J is not None and J.op == "load" else None
                if t and t[0] not in ("al", ITEM):
                    return "%s.%s" % tuple(t[:2])
        return None

    def pname(p, A, k):
        if k and k[0] == "a" and k[1:].isdigit():
            return A.f.names.get(A.f.args[int(k[1:])]["id"], k)
        return k.split(".")[-1] if k else "?"

    def get(p, A, st, I, c, args, item, kind):
        p.once("retrieval_sites", (A.f.name, I.id))
        d = p.desc(A, I, item)
        # the read methods reuse the memory the item already has
        for f in ("ptr", "allocated"):
            v = p.peek(A, st, item, f)
            al = A.root(item[1])
            if v is None and al is not None and al.startswith("al") and al not in st.esc:
                inner = st.mem.get(item[1], {})
                o = item[0] + p.offs(A)[f]
                if not any(z[0] <= o < z[0] + z[1] for z in inner.get("Z", ())):
                    v = atom("u0")
            if v is not None and islin(v) and any(a.startswith("u") for a, _ in v[1]):
                p.report(A, st, I, "item-not-reset", d, "the item (%s) is passed to a retrieval without having been reset" % d)
                break
        v = p.peek(A, st, item, "handle")
        if v is not None and islin(v):
            r = A.root(A.canon(st, v)[1])
            if r in st.res and st.res[r][0] == "held":
                ha = ladd(item, const(p.offs(A)["handle"]))
                A.kill(st, ha, 8, (ITEM, "handle"), "ptr")
                if r not in A.reachable(st):
                    p.report(A, st, I, "leak", d, "the item (%s) is reused for another retrieval without being released" % d)
                    del st.res[r]
        v = p.peek(A, st, item, "ptr")
        if v is not None and islin(v):
            r = A.root(A.canon(st, v)[1])
            cur = st.res.get(r)
            cur = st.res.get(cur[1]) if cur is not None and cur[0] == "data" else None
            if cur is not None and cur[0] in ("held", "given"):
                p.report(A, st, I, "item-not-reset", d, "the item (%s) still refers to the memory of data that is kept elsewhere, and is passed to a retrieval without having been reset" % d)
        A.p.check_dead(A, st, I, args[1], "decides what is retrieved") if kind == "get" and len(args) > 1 else None
        ei = A.exc_arg(I, args)
        exc = A.canon(st, args[ei]) if ei is not None and islin(args[ei]) else None
        pk = p.prod(A, st, args[0]) if kind == "get" else None
        # failure
        s2 = st.copy()
        ok2 = True
        if exc is not None and exc[1]:
            cur = A.get_status(s2, exc)
            t = A.cmp_eval(s2, "eq", A.lin(s2, cur, "st"), const(A.NOT_SET), 32) if cur is not None else None
            if t is not False:
                try:
                    A.fail_exception(s2, I, exc)
                except Dead:
                    ok2 = False
        if A.root(item[1]) is not None:
            ng = models.failed(A, s2, I, "g")
            p.put(A, s2, item, "ptr", ng)
            p.put(A, s2, item, "handle", ZERO)
            p.put(A, s2, item, "collection", ng)
            p.put(A, s2, item, "allocated", ZERO)
            p.put(A, s2, item, "used", ZERO)
        if I.ty == "ptr":
            s2.env[I.id] = models.failed(A, s2, I, "g")
        elif I.ty != "void":
            s2.env[I.id] = A.mk(s2, "r%d" % I.id, -(1 << 31), -1)
        # success
        name = "h%d" % I.id
        if name in st.res and st.res[name][0] == "held":
            pass
        h = A.fresh_heap(st, I)
        h = h[1][0][0]
        for x in ("d%d" % I.id,):
            if A.mentioned(st, x):
                A.rename(st, {x: None})
        ptr = A.mk(st, "d%d" % I.id, 1, None, True)
        used = A.mk(st, "e%d" % I.id, 1, (1 << 32) - 1)
        st.res[h] = ("held", d, pk)
        st.res["d%d" % I.id] = ("data", h, d)
        p.put(A, st, item, "ptr", ptr)
        p.put(A, st, item, "allocated", A.mk(st, "f%d" % I.id, 0, (1 << 32) - 1))
        p.put(A, st, item, "used", used)
        p.put(A, st, item, "handle", atom(h))
        p.put(A, st, item, "collection", args[0] if kind == "get" and islin(args[0]) else A.mk(st, "c%d" % I.id, 1, None, True))
        if I.ty == "ptr":
            st.env[I.id] = ptr
        elif I.ty != "void":
            st.env[I.id] = A.mk(st, "r%d" % I.id, 0, (1 << 31) - 1)
        return [st] + ([s2] if ok2 else [])

    def release(p, A, st, I, c, args, item):
        p.once("release_sites", (A.f.name, I.id))
        d = p.desc(A, I, item)
        v = p.peek(A, st, item, "handle")
        r = None
        if v is None:
            root = A.root(item[1])
            if root is not None and root.startswith("al") and root not in st.esc:
                p.report(A, st, I, "release-of-nothing", d, "the item (%s) is released on a path where nothing was retrieved into it" % d)
                return [st]
            v = A.load(st, I, ladd(item, const(p.offs(A)["handle"])), 8, "ptr", (ITEM, "handle"), None)
        if islin(v):
            v = A.canon(st, v)
            r = A.root(v[1])
        if r is not None:
            cur = st.res.get(r)
            if r.startswith("u"):
                p.report(A, st, I, "release-of-nothing", d, "the item (%s) is released on a path where nothing was retrieved into it" % d)
            elif cur is not None and cur[0] in ("released", "given"):
                p.report(A, st, I, "double-release", d, "the item (%s) is released a second time" % d)
            else:
                if cur is not None and cur[0] == "held" and cur[2] is not None:
                    rel = p.releaser(A, st, I)
                    if rel is not None and rel != cur[2] and (rel[0] == "a" and rel[1:].isdigit()) == (cur[2][0] == "a" and cur[2][1:].isdigit()):
                        p.report(A, st, I, "wrong-collection", d, "the item (%s) comes from %s but is released through %s" % (d, p.pname(A, cur[2]), p.pname(A, rel)))
                st.res[r] = ("released", cur[1] if cur else d, None)
                for x, y in list(st.res.items()):
                    if y[0] == "data" and y[1] == r:
                        st.res[x] = ("dead", r, y[2])
            p.put(A, st, item, "handle", ZERO)
        return [st]

    def releaser(p, A, st, I):
        c = I.d["callee"]
        J = A.f.insts.get(c[1]) if c[0] == "v" else None
        if J is None or J.op != "load":
            return None
        o = J.ops[0]
        for _ in range(4):
            if o[0] != "v":
                return None
            G = A.f.insts.get(o[1])
            if G is None or G.op != "getelementptr":
                break
            o = G.ops[0]
        v = st.env.get(o[1])
        if v is None:
            K = A.f.insts.get(o[1])
            if K is not None and K.op == "load":
                t = A.itag(K, 0)
                if t and t[0] not in ("al", ITEM):
                    return "%s.%s" % tuple(t[:2])
            for i, a in enumerate(A.f.args):
                if a["id"] == o[1]:
                    return "a%d" % i
            return None
        return p.prod(A, st, v)

    # ---- uses
    def check_dead(p, A, st, I, v, what):
        if v is None or not islin(v):
            return
        r = A.root(A.canon(st, v)[1])
        if r in st.res and st.res[r][0] == "dead":
            p.report(A, st, I, "use-after-release", st.res[r][2], "data of the item (%s) %s after the item was released" % (st.res[r][2], what))

    def on_access(p, A, st, I, addr, size, kind, tag):
        raw = addr
        addr = A.canon(st, addr)
        p.count("accesses_checked")
        if not addr[1]:
            if 0 <= addr[0] < 65536:
                if kind in ("memread", "memwrite") and islin(size) and A.hi(st, size) == 0:
                    return None
                for a, c in raw[1]:
                    if a.startswith("ng"):
                        n = a[2:].rstrip("'")
                        J = A.f.insts.get(int(n))
                        d = p.desc(A, J, None) if J is not None else "item"
                        p.report(A, st, I, "failed-retrieval-used", d, "data of the item (%s) is used although its retrieval failed" % d)
                        return False
                return False
            return None
        r = A.root(addr[1])
        if r is not None:
            cur = st.res.get(r)
            if cur is not None and cur[0] == "dead":
                p.report(A, st, I, "use-after-release", cur[2], "data of the item (%s) is read after the item was released" % cur[2])
                return False
            if A.lo(st, atom(r)) == 0:
                l, h = A.arng(st, r)
                st.rng[r] = (1, h)
        return None

    # ---- lifetime
    def on_gc(p, A, st, reach, inst):
        if inst is not None and inst.blk.insts[-1].op == "unreachable":
            return
        for a in list(st.res):
            if a not in reach:
                v = st.res[a]
                if v[0] == "held" and a not in st.esc:
                    p.leak(A, st, inst, v)
                del st.res[a]

    def leak(p, A, st, I, v):
        p.report(A, st, I, "leak", v[1], "the item (%s) is not released on some path" % v[1])

    def on_exit(p, A, st, I, v):
        p.count("exits_checked")
        failed = False
        why = ""
        if v is not None and islin(v):
            cv = A.canon(st, v)
            if A.f.ret == "ptr" and cv == ZERO:
                failed, why = True, "nothing is returned"
            elif A.f.ret in ("i64", "i32") and A.hi(st, cv) is not None and A.hi(st, cv) < 0:
                failed, why = True, "a negative result is returned"
        seeds = set()
        if v is not None:
            atoms_of(v, seeds)
            p.check_dead(A, st, I, v, "is returned")
        itemargs = set()
        for i, a in enumerate(A.f.args):
            if A.f.vtys.get(a["id"]) == ITEMPTR:
                itemargs.add("a%d" % i)
        for terms, inner in st.mem.items():
            r = A.root(terms)
            if r is None or A.okind(r) == "arg" or A.okind(r) == "x" or A.okind(r) == "g":
                for o, e in inner.items():
                    if o != "Z":
                        atoms_of(e[1], seeds)
                        if failed and r in itemargs and islin(e[1]):
                            x = A.root(A.canon(st, e[1])[1])
                            if x in st.res and st.res[x][0] == "held":
                                p.report(A, st, I, "held-on-failure", st.res[x][1], "%s but the caller's item (%s) is left holding data the caller will not release" % (why, st.res[x][1]))
        if v is not None and islin(v) and A.f.ret in ("i64", "i32") and (A.lo(st, v) or 0) >= 0 and A.lo(st, v) is not None:
            for x in sorted(itemargs):
                h = p.peek(A, st, atom(x), "handle")
                if h == ZERO and p.peek(A, st, atom(x), "ptr") is not None:
                    p.report(A, st, I, "found-without-item", A.f.names.get(A.f.args[int(x[1:])]["id"], "item"),
                             "a result which means found is returned but the caller's item holds nothing (the retrieval failed or the item was released)")
        reach = A.reach_from(st, seeds)
        for a, s in st.res.items():
            if s[0] == "held" and a not in reach and a not in st.esc:
                p.leak(A, st, I, s)

    def on_drop(p, A, st, terms, e):
        for a in atoms_of(e[1]):
            if a in st.res and st.res[a][0] == "held":
                st.res[a] = ("stored",) + st.res[a][1:]

    def on_rename(p, A, st, m):
        n = {}
        ch = False
        for a, v in st.res.items():
            if a in m:
                ch = True
                t = m[a]
                if t is None or len(t[1]) != 1:
                    continue
                a = t[1][0][0]
            if v[0] in ("data", "dead") and v[1] in m:
                ch = True
                t = m[v[1]]
                v = (v[0], t[1][0][0] if t is not None and len(t[1]) == 1 else "?", v[2])
            n.setdefault(a, v)
        if ch:
            st.res = n

    def after_join(p, A, a, b, n):
        lv = [x for x, v in n.res.items() if v[0] == "held"]
        if lv:
            reach = A.reachable(n)
            for x in lv:
                if x not in reach:
                    n.res[x] = ("stored",) + n.res[x][1:]


def uses_items(m, S):
    """Roots which retrieve or release items, the implementations of retrieval excluded."""
    impl = set()
    for f in ("get", "release"):
        impl |= S.slots.get((COLL, f), set())
    out = []
    for F in m.funcs.values():
        if F.decl or (F.internal and not F.addr_taken) or F.name in impl:
            continue
        hit = any(F.vtys.get(a["id"]) == ITEMPTR for a in F.args)
        for I in F.insts.values():
            if I.op == "alloca" and I.d.get("aty") == "%" + ITEM:
                hit = True
            if I.op in ("call", "invoke") and I.d["callee"][0] == "v":
                J = F.insts.get(I.d["callee"][1])
                if J is not None and J.op == "load":
                    G = F.insts.get(J.ops[0][1]) if J.ops[0][0] == "v" else None
                    if G is not None and G.op == "getelementptr":
                        for s in G.d["steps"]:
                            if s[0] == "f" and s[1] == COLL and s[3] in ("get", "release"):
                                hit = True
        if hit:
            out.append(F.name)
    return out
