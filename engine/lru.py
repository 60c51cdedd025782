"""A cache keeps what is in use, gives each key its own data, and recovers what it cannot load."""
import shape, driver
from shape import NULL, ptr, num, sym, parts, Drop

CACHE, SHARD, NODE = "fiftyone_degrees_cache_t", "fiftyone_degrees_cache_shard_t", "fiftyone_degrees_cache_node_t"
TREE, ROOT, EXC = "fiftyone_degrees_tree_node_t", "fiftyone_degrees_tree_root_t", "fiftyone_degrees_exception_t"
P = "fiftyoneDegrees"
HASH = sym("hash")

EXPLAIN = (
    "Shape analysis of every path of fiftyoneDegreesCacheGet and fiftyoneDegreesCacheRelease over the LLVM IR of /repo's current sources. "
    "The list of a shard, the nodes in use, those never used and the membership of the tree are an abstract graph constrained by the "
    "invariants (a node is in the list exactly when nobody uses it; a node in use or found by key is in the tree; the list is doubly "
    "linked between first and last); nodes and links are named when first read, in every way the invariants allow, so lists of any length "
    "are covered. At each exit the invariants must hold again, one use must have been counted for the node returned and none otherwise, "
    "and what is returned must hold the data loaded for the key. The tree and the loader are taken by their contracts. The functions of "
    "the collections which obtain nodes are analysed in the same way against the contract of the cache.")


class Cache(shape.Spec):
    def setup(p, A):
        o = A.off
        p.NEXT, p.PREV, p.COUNT = o(NODE, "listNext"), o(NODE, "listPrevious"), o(NODE, "activeCount")
        p.NSHARD, p.DATA, p.TREE = o(NODE, "shard"), o(NODE, "data"), o(NODE, "tree")
        p.KEY, p.PARENT = p.TREE + o(TREE, "key"), p.TREE + o(TREE, "parent")
        p.FIRST, p.LAST, p.ALLOC, p.CAP = o(SHARD, "first"), o(SHARD, "last"), o(SHARD, "allocated"), o(SHARD, "capacity")
        p.NODES, p.SCACHE, p.ROOT = o(SHARD, "nodes"), o(SHARD, "cache"), o(SHARD, "root")
        p.EMPTY = p.ROOT + o(ROOT, "empty")
        p.SHARDS, p.HITS, p.MISSES = o(CACHE, "shards"), o(CACHE, "hits"), o(CACHE, "misses")
        p.CONC = o(CACHE, "concurrency")

    # ---------------------------------------------------------------- the shape at the start
    def nodes(p, st):
        return [k[1] for k in st.info if isinstance(k, tuple) and k[0] == "kind"]

    def kind(p, st, n):
        return st.info.get(("kind", n))

    def new(p, st, kind, tree=None):
        n = "node%d" % len(p.nodes(st))
        st.info[("kind", n)] = kind
        st.info[("tree", n)] = tree
        return n

    def link(p, st, a, b):
        """a is followed by b at the start; a None: b is first; b None: a is last."""
        I0 = st.I0
        fa = (a, "next") if a else ("shard", "first")
        fb = (b, "prev") if b else ("shard", "last")
        I0[fa] = b
        I0[fb] = a

    def consistent(p, st):
        """No node precedes itself, and what is known to be first to last is all there is."""
        I0 = st.I0
        listed = [n for n in p.nodes(st) if p.kind(st, n) == "listed"]
        for n in listed:
            x, k = n, 0
            while x is not None and (x, "next") in I0:
                x = I0[(x, "next")]
                k += 1
                if x == n or k > 20:
                    return False
        if ("shard", "first") in I0:
            x, seen = I0[("shard", "first")], set()
            while x is not None:
                seen.add(x)
                if (x, "next") not in I0:
                    return True
                x = I0[(x, "next")]
            return all(n in seen for n in listed)
        return True

    def links(p, st, o, f):
        """[(state, node or None)]: every way a link could be at the start."""
        if (o, f) in st.I0:
            return [(st, st.I0[(o, f)])]
        listed = [n for n in p.nodes(st) if p.kind(st, n) == "listed"]
        back = {"next": "prev", "prev": "next", "first": "prev", "last": "next"}[f]
        out = []
        fwd = f in ("next", "first")
        src = None if o == "shard" else o
        end = ("shard", "last") if fwd else ("shard", "first")

        def take(s, x):
            p.link(s, src, x) if fwd else p.link(s, x, src)
            if p.consistent(s):
                out.append((s, x))
        if o != "shard" and end not in st.I0 or o == "shard" and not listed and end not in st.I0:
            take(st.copy(), None)
        for y in listed:
            if y != src and (y, back) not in st.I0:
                take(st.copy(), y)
        if len(listed) < 6:
            s = st.copy()
            take(s, p.new(s, "listed"))
        return out

    def initial(p, A, st, I, o, off, tag, ty):
        if o == "shard":
            f = {p.FIRST: "first", p.LAST: "last"}.get(off)
            if f:
                return [(s, ptr(n) if n else NULL) for s, n in p.links(st, "shard", f)]
            if off == p.ALLOC:
                return [(st, sym("allocated", 0, 32))]
            if off == p.CAP:
                return [(st, sym("capacity", 0, 32))]
            if off == p.NODES:
                return [(st, ptr("nodes"))]
            if off == p.SCACHE:
                return [(st, ptr("cache"))]
        k = p.kind(st, o)
        if k:
            f = {p.NEXT: "next", p.PREV: "prev"}.get(off)
            if f:
                if k != "listed":
                    return [(st, NULL)]
                return [(s, ptr(n) if n else NULL) for s, n in p.links(st, o, f)]
            if off == p.COUNT:
                if k != "pinned":
                    return [(st, num(0, 32))]
                st.rng.setdefault("count:" + o, (1, None))
                return [(st, sym("count:" + o, 0, 32))]
            if off == p.NSHARD:
                return [(st, ptr("shard"))]
            if off == p.PARENT:
                out = []
                for s, t in p.intree(st, o):
                    out.append((s, ptr("treelink") if t else ptr("shard", p.EMPTY)))
                return out
        if o == "cache" and off == p.SHARDS:
            return [(st, ptr("shards"))]
        if o == "exception":
            return [(st, num(7, 32) if off == A.off(EXC, "status") else sym("exc%d" % off, 0, A.bits(ty)))]
        return super().initial(A, st, I, o, off, tag, ty)

    def intree(p, st, n):
        t = st.info.get(("tree", n))
        if t is not None:
            return [(st, t)]
        s = st.copy()
        st.info[("tree", n)] = True
        s.info[("tree", n)] = False
        return [(st, True), (s, False)]

    # ---------------------------------------------------------------- operations
    def index(p, A, st, I, v, idx):
        if v == ptr("shards") and len(idx) == 1:
            e = idx[0][0]
            p.count("shard_indexes")
            if not p.inrange(A, e):
                p.report(st, I, "shard-index", "shards", "the index of the shard is not kept within the number of shards for every hash")
            if not any(x[:2] == ("s", "hash") for x in parts(e)):
                p.report(st, I, "wrong-shard", "shards", "the shard is not chosen by the hash of the key")
            if st.info.setdefault("shardidx", e) != e:
                p.report(st, I, "wrong-shard", "shards", "two different shards are used for one key")
            return ptr("shard")
        if v == ptr("nodes") and len(idx) == 1:
            e = idx[0][0]
            while e[0] == "e" and e[1] in ("zext", "sext"):
                e = e[2]
            if e[:2] == ("s", "allocated") and e[2] == 0:
                a, c = sym("allocated", 0, 32), sym("capacity", 0, 32)
                if A.cmp(st, "ult", a, c) is not True and A.cmp(st, "ne", a, c) is not True:
                    p.report(st, I, "beyond-capacity", "nodes", "a node is taken without checking that the shard has one left")
                if not st.info.get("fresh"):
                    st.info["fresh"] = p.new(st, "fresh", False)
                return ptr(st.info["fresh"])
            p.report(st, I, "wrong-node", "nodes", "the node taken is not the one after those in use")
        return None

    def inrange(p, A, e):
        """0 <= e < number of shards, for any hash."""
        e = p.widened(e)
        if e[0] == "e" and e[1] in ("urem", "srem"):
            d = p.widened(e[3])
            if not (d[0] == "s" and d[1] == "cache.%d" % p.CONC):
                return False
            return e[1] == "urem" or p.nonneg(e[2])
        return False

    def widened(p, e):
        while e[0] == "e" and e[1] in ("zext", "sext", "trunc"):
            e = e[2]
        return e

    def nonneg(p, e):
        if e[0] == "e":
            if e[1] == "zext":
                x = e[2]
                w = x[3] if x[0] == "s" else x[-1] if isinstance(x[-1], int) else 64
                return w < e[-1] or p.nonneg(x)
            if e[1] in ("urem", "lshr"):
                return e[1] == "lshr" and e[3][0] == "i" and e[3][1] > 0 or e[1] == "urem" and p.nonneg(e[3])
            if e[1] == "and":
                return any(x[0] == "i" and not x[1] >> (x[2] - 1) for x in e[2:4])
        return e[0] == "i" and not e[1] >> (e[2] - 1)

    def null_access(p, A, st, I, F):
        p.report(st, I, "null-access", "list", "a link that is null here is followed")

    def node_at(p, st, v, off, what=None):
        if v[0] == "p" and v[2] == off and p.kind(st, v[1]):
            return v[1]
        return None

    def call(p, A, st, I, name, slot, args):
        if name == "__assert_fail" or name in ("abort", "exit"):
            return []
        if name and ("Mutex" in name or name.startswith("pthread_")):
            return [(st, num(0, 32))]
        if slot == (CACHE, "hash"):
            if args[0] != ptr("key"):
                p.report(st, I, "wrong-key", "hash", "the hash is taken of something else than the key")
            return [(st, HASH)]
        if name == "abs":
            return [(st, ("e", "abs", args[0], 32))]
        if slot == (CACHE, "load"):
            return p.load(A, st, I, args)
        if name == P + "TreeFind":
            return p.find(A, st, I, args)
        if name in (P + "TreeInsert", P + "TreeDelete", P + "TreeNodeRemove"):
            n = p.node_at(st, args[0], p.TREE)
            if n is None:
                p.report(st, I, "wrong-node", "tree", "the tree is changed for something that is not a node of the cache")
                return [(st, ("x", I.id))]
            out = []
            for s, t in p.intree(st, n):
                p.tree(A, s, I, name[len(P):], n, t)
                out.append((s, ("x", I.id)))
            return out
        return None

    def find(p, A, st, I, args):
        p.count("look_ups")
        if args[0] != ptr("shard", p.ROOT):
            p.report(st, I, "wrong-shard", "tree", "the key is looked for in another tree")
        if args[1] != HASH:
            p.report(st, I, "wrong-key", "tree", "another key is looked for than the hash of the key")
        if "find" in st.info:
            f = st.info["find"]
            return [(st, ptr(f) if f else NULL)]
        out = []
        for k in (None, "listed", "pinned"):
            s = st.copy()
            n = p.new(s, k, True) if k else None
            s.info["find"] = n
            s.trace += ("found in the list" if k == "listed" else "found in use" if k else "not found",)
            out.append((s, ptr(n) if n else NULL))
        return out

    def tree(p, A, st, I, what, n, t):
        if what == "TreeInsert":
            if t:
                p.report(st, I, "inserted-twice", "tree", "a node is inserted which is still in the tree")
            if st.H.get((n, p.KEY)) != HASH:
                p.report(st, I, "wrong-key", "tree", "the node is inserted under another key than the hash of the key")
            if st.info.get(("data", n)) != "loaded":
                p.report(st, I, "not-loaded", "tree", "a node is inserted whose data was not loaded: later requests for the key get what is left in it")
            st.info[("tree", n)] = True
            st.H.pop((n, p.PARENT), None)
        elif what == "TreeDelete":
            if not t:
                p.report(st, I, "deleted-twice", "tree", "a node is deleted from the tree which is not in it")
            st.info[("tree", n)] = False
            st.info[("stale", n)] = True
            st.H[(n, p.PARENT)] = ("x", "parent")
        else:
            if t:
                p.report(st, I, "links-lost", "tree", "the links of a node are reset while it is in the tree")
            st.info[("stale", n)] = False
            st.H[(n, p.PARENT)] = ptr("shard", p.EMPTY)

    def load(p, A, st, I, args):
        p.count("loads")
        n = p.node_at(st, args[1], p.DATA)
        if n is None:
            p.report(st, I, "wrong-node", "data", "data is loaded into something that is not a node of the cache")
            return [(st, ("x", I.id))]
        if args[2] != ptr("key"):
            p.report(st, I, "wrong-key", "load", "data is loaded for another key")
        k = p.kind(st, n)
        if k == "pinned" or k == "listed" and st.info.get("find") == n:
            p.report(st, I, "overwritten-in-use", "data", "data is loaded over that of a node which is in use")
        if k == "listed":
            if st.I0.get(("shard", "last"), "?") != n:
                p.report(st, I, "not-least-recent", "data", "the node used again is not the least recently used")
        for s, t in p.intree(st, n):
            if t:
                p.report(s, I, "stale-key", "tree", "data is loaded into a node which can still be found under its old key")
        out = []
        if args[3] == ptr("exception"):
            s = st.copy()
            s.H[("exception", A.off(EXC, "status"))] = num(1, 32)
            s.info[("data", n)] = "failed"
            s.info["failed"] = True
            s.trace += ("load fails",)
            out.append((s, ("x", I.id)))
        elif args[3] != NULL:
            p.report(st, I, "exception-hidden", "load", "the loader is not given the caller's exception")
        st.info[("data", n)] = "loaded"
        st.info["loaded"] = True
        st.trace += ("load succeeds",)
        out.append((st, ("x", I.id)))
        return out

    def rmw(p, A, st, I, a, v):
        p.bump(st, a, v)

    def bump(p, st, a, v):
        if a[0] == "p" and a[1] == "cache" and a[2] in (p.HITS, p.MISSES):
            k = ("metric", a[2])
            st.info[k] = st.info.get(k, 0) + 1

    def stored(p, A, st, I, o, off, v, tag):
        p.bump(st, ptr(o, off), v)

    # ---------------------------------------------------------------- the shape at the end
    def counts(p, st, n):
        """'zero', 'used' or '?' and the number of uses more than at the start."""
        k = p.kind(st, n)
        v = st.H.get((n, p.COUNT))
        if v is None:
            return ("used" if k == "pinned" else "zero"), 0
        if v[0] == "i":
            c = shape.signed(v[1], v[2])
            d = c if k != "pinned" else None
            lo, hi = st.rng.get("count:" + n, (1, None))
            if k == "pinned":
                d = c - lo if lo == hi else "?"
            return "zero" if c == 0 else "used" if c > 0 else "?", d
        if v[0] == "s" and v[1] == "count:" + n:
            lo, hi = st.rng.get(v[1], (1, None))
            t = "zero" if lo == hi == -v[2] else "used" if lo + v[2] > 0 else "?"
            return t, v[2]
        return "?", "?"

    def force(p, st):
        """Names the neighbours of every node whose links were changed."""
        todo, out = [st], []
        while todo:
            s = todo.pop()
            for n in p.nodes(s) + ["shard"]:
                fs = ("first", "last") if n == "shard" else ("next", "prev") if p.kind(s, n) == "listed" else ()
                changed = any((n, o) in s.H for o in ((p.FIRST, p.LAST) if n == "shard" else (p.NEXT, p.PREV))) or \
                    n != "shard" and p.counts(s, n)[0] != "zero"
                miss = [f for f in fs if changed and (n, f) not in s.I0]
                if miss:
                    todo += [x for x, _ in p.links(s, n, miss[0])]
                    break
            else:
                out.append(s)
        return out

    def final(p, st, n, f):
        """Link at the end: node, None, or '?' when it was neither read nor written."""
        v = st.H.get((n, {"next": p.NEXT, "prev": p.PREV, "first": p.FIRST, "last": p.LAST}[f]))
        if v is not None:
            return None if v == NULL else v[1] if v[0] == "p" and v[2] == 0 else "!"
        if n != "shard" and p.kind(st, n) != "listed":
            return None
        return st.I0.get((n, f), "?")

    def wellformed(p, st, I):
        ns = p.nodes(st)
        want = {n: p.counts(st, n)[0] for n in ns}
        if all(want[n] == "zero" for n in ns if p.kind(st, n) == "fresh") is False:
            pass
        for n in ns:
            if want[n] == "?":
                p.report(st, I, "count-unknown", "activeCount", "the number of uses of a node can become negative")
                return
        inlist = {n for n in ns if want[n] == "zero" and not (p.kind(st, n) == "fresh" and not p.taken(st, n))}
        for n in ns:
            nx, pv = p.final(st, n, "next"), p.final(st, n, "prev")
            if n not in inlist:
                for m in ns + ["shard"]:
                    for f in (("first", "last") if m == "shard" else ("next", "prev")):
                        if m != n and p.final(st, m, f) == n and (m == "shard" or m in inlist):
                            p.report(st, I, "used-in-list", "list", "a node in use is still reached through the list: it can be taken for another key")
                            return
                if (nx is not None or pv is not None):
                    p.report(st, I, "links-kept", "list", "a node that is not in the list keeps links into it")
                    return
                continue
            bad = False
            if nx is None:
                bad = p.final(st, "shard", "last") not in (n, "?")
            elif nx == "!" or nx != "?" and (nx not in inlist or p.final(st, nx, "prev") not in (n, "?")):
                bad = True
            if pv is None:
                bad = bad or p.final(st, "shard", "first") not in (n, "?")
            elif pv == "!" or pv != "?" and (pv not in inlist or p.final(st, pv, "next") not in (n, "?")):
                bad = True
            if bad:
                p.report(st, I, "list-broken", "list", "a node nobody uses is not linked into the list on both sides: it and others can no longer be used again")
                return
            x, k = n, 0
            while x not in (None, "?", "!"):
                x = p.final(st, x, "next")
                k += 1
                if x == n or k > 20:
                    p.report(st, I, "list-broken", "list", "the list leads back to itself")
                    return
        f, l = p.final(st, "shard", "first"), p.final(st, "shard", "last")
        if "?" not in (f, l) and (f is None) != (l is None):
            p.report(st, I, "list-broken", "list", "the list has a first node but no last one, or the reverse")
        for e in (f, l):
            if e == "!" or e not in (None, "?") and e not in inlist:
                p.report(st, I, "list-broken", "list", "an end of the list is not a node that is free")
        if f not in (None, "?") and p.final(st, f, "prev") not in (None, "?") or l not in (None, "?") and p.final(st, l, "next") not in (None, "?"):
            p.report(st, I, "list-broken", "list", "an end of the list is not its end")

    def taken(p, st, n):
        v = st.H.get(("shard", p.ALLOC))
        return v is not None and v != sym("allocated", 0, 32)

    def exit(p, A, st, ret):
        for s in p.force(st):
            p.count("shapes")
            p.wellformed(s, None)
            p.outcome(A, s, ret)


class Get(Cache):
    def outcome(p, A, st, ret):
        ns = p.nodes(st)
        r = ret[1] if ret[0] == "p" and ret[2] == 0 and p.kind(st, ret[1]) else None
        if ret != NULL and r is None:
            p.report(st, None, "wrong-result", "result", "what is returned is not a node of the cache")
            return
        for n in ns:
            d = p.counts(st, n)[1]
            if n == r and d != 1:
                p.report(st, None, "use-not-counted", "activeCount", "the node returned does not have exactly one more use than before")
            if n != r and d != 0:
                p.report(st, None, "use-kept", "activeCount", "a node which is not returned is left with its number of uses changed: it can never be used again")
        found = st.info.get("find")
        if "find" not in st.info and not r:
            p.report(st, None, "not-looked-up", "result", "nothing is returned though the key was not looked for")
        if r is not None and r != found:
            if st.info.get(("data", r)) != "loaded":
                p.report(st, None, "not-loaded", "result", "the node returned does not hold the data of the key")
            if found:
                p.report(st, None, "loaded-again", "result", "data is loaded though a node was found for the key")
            if st.info.get(("tree", r)) is not True or st.H.get((r, p.KEY)) != HASH:
                p.report(st, None, "not-found-again", "tree", "the node loaded cannot be found under its key: it is loaded into another node next time")
        if r is None:
            if found:
                p.report(st, None, "gives-up", "result", "nothing is returned though a node was found for the key")
            elif not st.info.get("failed"):
                a, c = sym("allocated", 0, 32), sym("capacity", 0, 32)
                full = A.cmp(st, "ult", a, c) is False or A.cmp(st, "eq", a, c) is True
                if not full or st.I0.get(("shard", "last"), "?") is not None and st.I0.get(("shard", "first"), "?") is not None:
                    p.report(st, None, "gives-up", "result", "nothing is returned though a node is free")
        for n in ns:
            # what was lost on the way
            if st.info.get(("data", n)) == "failed" and st.info.get(("tree", n)):
                p.report(st, None, "not-loaded", "tree", "a node whose data could not be loaded can be found under its key")
            if st.info.get(("stale", n)) and not st.info.get(("tree", n)):
                p.report(st, None, "stale-links", "tree", "a node is left with links into a tree it is not in")
        f = st.info.get("fresh")
        v = st.H.get(("shard", p.ALLOC))
        if v is not None and v != sym("allocated", 1, 32) and not (v == sym("allocated", 0, 32) and not f):
            p.report(st, None, "wrong-allocated", "allocated", "the number of nodes in use does not grow by one for the one taken")
        if f and st.info.get(("data", f)) and (v is None or v == sym("allocated", 0, 32)):
            p.report(st, None, "wrong-allocated", "allocated", "a node is used without being counted as allocated: it is handed out again for another key")
        if f is None and v is not None and v != sym("allocated", 0, 32):
            p.report(st, None, "wrong-allocated", "allocated", "a node is counted as allocated which was not taken")
        h, m = st.info.get(("metric", p.HITS), 0), st.info.get(("metric", p.MISSES), 0)
        if (h, m) != ((1, 0) if found else (0, 1)):
            p.report(st, None, "wrong-metric", "hits", "a request is not counted once as a hit or as a miss")
        # the least recently used is the one given up
        for n in ns:
            if p.kind(st, n) == "listed" and n not in (r, found) and st.info.get(("data", n)) is None and \
                    (p.final(st, n, "next") == "!" or st.info.get(("tree", n)) is False and (n, p.PARENT) in st.H):
                p.report(st, None, "dropped", "tree", "a node is removed from the tree but not used")


class Release(Cache):
    def outcome(p, A, st, ret):
        n = "node0"
        d = p.counts(st, n)[1]
        if d != -1:
            p.report(st, None, "use-not-given-up", "activeCount", "releasing a node does not end exactly one use")
        for m in p.nodes(st):
            if m != n and p.counts(st, m)[1] != 0:
                p.report(st, None, "wrong-node", "activeCount", "the uses of another node are changed")
        if p.counts(st, n)[0] == "zero" and p.final(st, "shard", "first") != n:
            p.report(st, None, "not-most-recent", "list", "the node released last is not made the most recently used")


DATA, ITEM = "fiftyone_degrees_data_t", "fiftyone_degrees_collection_item_t"


class User(shape.Spec):
    """Obtains nodes from a cache, or releases them, for an item."""
    def setup(p, A):
        o = A.off
        p.PTR, p.USED, p.ALLOC = o(DATA, "ptr"), o(DATA, "used"), o(DATA, "allocated")
        p.DATA, p.HANDLE, p.IDATA = o(NODE, "data"), o(ITEM, "handle"), o(ITEM, "data")

    def initial(p, A, st, I, o, off, tag, ty):
        if o == "node":
            if off == p.DATA + p.PTR:
                s = st.copy()
                st.H[(o, off)] = NULL
                s.H[(o, off)] = ptr("bytes")
                return [(st, NULL), (s, ptr("bytes"))]
            if off in (p.DATA + p.USED, p.DATA + p.ALLOC):
                st.rng.setdefault("node.%d" % off, (0, None))
                return [(st, sym("node.%d" % off, 0, 32))]
        if o == "item" and off == p.HANDLE and p.releases:
            s = st.copy()
            st.H[(o, off)] = NULL
            s.H[(o, off)] = ptr("node")
            s.info["pins"] = 1
            return [(st, NULL), (s, ptr("node"))]
        if o == "exception":
            return [(st, num(7, 32) if off == A.off(EXC, "status") else sym("exc%d" % off, 0, A.bits(ty)))]
        return super().initial(A, st, I, o, off, tag, ty)

    def block_write(p, A, st, I, name, args):
        if "memcpy" in name and args[0][0] == "p" and args[1][0] == "p":
            (_, d, do), (_, s, so) = args[0], args[1]
            n = args[2][1] if args[2][0] == "i" else 0
            for o in [k[1] for k in list(st.H) if k[0] == s] + ([p.DATA + p.PTR, p.DATA + p.USED, p.DATA + p.ALLOC] if s == "node" else []):
                if so <= o < so + n:
                    st.H[(d, do + o - so)] = st.H.get((s, o), sym("%s.%d" % (s, o), 0, 32))

    def call(p, A, st, I, name, slot, args):
        if name == "__assert_fail":
            return []
        if name == P + "CacheGet":
            p.count("nodes_obtained")
            if st.info.get("pins"):
                p.report(st, I, "node-kept", "handle", "another node is obtained before the first is released")
            out = []
            for k in ("node", "none", "error"):
                s = st.copy()
                if k == "error":
                    if args[2] != ptr("exception"):
                        continue
                    s.H[("exception", A.off(EXC, "status"))] = num(1, 32)
                if k == "node":
                    s.info["pins"] = 1
                s.trace += ({"node": "a node is returned", "none": "no node is returned", "error": "no node, exception set"}[k],)
                out.append((s, ptr("node") if k == "node" else NULL))
            return out
        if name == P + "CacheRelease":
            p.count("nodes_released")
            if args[0] != ptr("node"):
                p.report(st, I, "wrong-node", "handle", "what is released is not the node the item holds")
            elif st.info.get("pins", 0) != 1:
                p.report(st, I, "released-twice", "handle", "the node is released though it is not held any more")
            st.info["pins"] = st.info.get("pins", 0) - 1
            return [(st, ("x", I.id))]
        return None

    def exit(p, A, st, ret):
        pins = st.info.get("pins", 0)
        h = st.H.get(("item", p.HANDLE))
        if p.releases:
            if pins:
                p.report(st, None, "not-released", "handle", "the node the item holds is not released")
            if h is not None and h != NULL:
                p.report(st, None, "handle-kept", "handle", "the item keeps the node after it was released, and would release it again")
            return
        if ret == NULL:
            if pins:
                p.report(st, None, "node-kept", "handle", "nothing is returned for the caller to release, but the node obtained is kept")
            if h == ptr("node"):
                p.report(st, None, "handle-kept", "handle", "the item is left with a node it does not hold")
            return
        if pins != 1 or h != ptr("node"):
            p.report(st, None, "not-held", "handle", "data of a node is returned without the item holding the node")
        if ret != ptr("bytes") or st.H.get(("item", p.IDATA + p.PTR)) != ptr("bytes"):
            p.report(st, None, "wrong-data", "data", "what is returned, or set in the item, is not the data of the node")
        u = st.H.get(("item", p.IDATA + p.USED))
        if u != sym("node.%d" % (p.DATA + p.USED), 0, 32):
            p.report(st, None, "wrong-data", "used", "the number of bytes in the item is not that of the node")
        if (st.rng.get("node.%d" % (p.DATA + p.USED), (0, None))[0] or 0) < 1:
            p.report(st, None, "no-data", "used", "a node is returned as an item though no data was loaded into it")


def users(m, found, info):
    n = 0
    for F in m.funcs.values():
        if F.decl or F.name in (P + "CacheGet", P + "CacheRelease"):
            continue
        cs = {I.d["callee"][1] for I in F.insts.values() if I.op in ("call", "invoke") and I.d["callee"][0] == "f"}
        tys = [F.vtys.get(a["id"]) for a in F.args]
        if not cs & {P + "CacheGet", P + "CacheRelease"} or "struct:%s*" % ITEM not in tys:
            continue
        n += 1
        p = User(found, info)
        p.F, p.releases = F, P + "CacheGet" not in cs
        A = shape.Interp(m, p)
        p.setup(A)
        for exc in (ptr("exception"), NULL):
            if exc == NULL and "struct:%s*" % EXC not in tys:
                continue
            args = [ptr("item") if t == "struct:%s*" % ITEM else exc if t == "struct:%s*" % EXC else ptr("arg%d" % i) if a.get("ty", "ptr") == "ptr" else sym("arg%d" % i)
                    for i, (t, a) in enumerate(zip(tys, F.args))]
            for s, r in A.run(F, args, shape.State()):
                A.paths += 1
                p.exit(A, s, r if r is not None else NULL)
        info.setdefault("functions", []).append(F.name)
        info["paths"] = info.get("paths", 0) + A.paths
    return n


def run(m, found, info):
    A0 = None
    for name, spec in ((P + "CacheGet", Get), (P + "CacheRelease", Release)):
        F = m.funcs.get(name)
        if F is None or F.decl:
            raise driver.EngineError("%s is not defined any more" % name)
        p = spec(found, info)
        p.F = F
        A = shape.Interp(m, p)
        p.setup(A)
        for exc in ((ptr("exception"), NULL) if spec is Get else (None,)):
            st = shape.State()
            if spec is Get:
                args = [ptr("cache"), ptr("key"), exc]
            else:
                p.new(st, "pinned", True)
                args = [ptr("node0")]
            for s, r in A.run(F, args, st):
                A.paths += 1
                p.exit(A, s, r if r is not None else NULL)
        info.setdefault("functions", []).append(name)
        info["paths"] = info.get("paths", 0) + A.paths
        info["instructions"] = info.get("instructions", 0) + A.steps
        info["paths_not_followed"] = info.get("paths_not_followed", 0) + A.cut
    users(m, found, info)
