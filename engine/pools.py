"""What the compare and exchange code of the pools and of the resource manager has to do."""
import atoms
from atoms import const, whole, term, strip, subterms, has, tm

HEAD = ("fiftyone_degrees_pool_t", "head")
COUNTER = ("fiftyone_degrees_resource_handle_t", "counter")
ACTIVE = ("fiftyone_degrees_resource_manager_t", "active")
P = "fiftyoneDegrees"


def cased_tags(m):
    out = {}
    for F in m.funcs.values():
        if F.decl:
            continue
        A = atoms.Interp(m, F, None, set(), set())
        for I in F.insts.values():
            if I.op == "cmpxchg":
                out.setdefault(A.tag(I.ops[0], I), set()).add(F.name)
    return out


def unstable_tags(m, cased):
    """What may change under a function's feet: exchanged fields, and those the functions which exchange write."""
    from effects import bases
    out = set(cased)
    for F in m.funcs.values():
        if F.decl or not any(I.op == "cmpxchg" for I in F.insts.values()):
            continue
        F.argix = {a["id"]: k for k, a in enumerate(F.args)}
        A = atoms.Interp(m, F, None, cased, set())
        for I in F.insts.values():
            if I.op == "store":
                t = A.tag(I.ops[1], I)
                if t and t[0] not in ("g", "anon", "", "fiftyone_degrees_exception_t") and \
                   any(b[0] not in ("al", "fresh") for b in bases(F, I.ops[1])):
                    out.add(t)
    return out


def off(m, s, f):
    for x in m.structs[s]["fields"]:
        if x[0] == f:
            return x[1]
    raise atoms.EngineError("structure %s has no field %s any more" % (s, f))


def at(base, o):
    """Address of what lies o bytes into the object at base."""
    t = term(base)
    if t is not None and t[0] == "gep":
        return whole(tm("gep", t[1], t[2] + o, t[3]), 8) if t[2] + o or t[3] else t[1]
    return whole(tm("gep", base, o, ()), 8) if o else base


class Exchange(atoms.Spec):
    """Rules of any compare and exchange."""
    def on_entry(p, A, st):
        st.aux["seen"] = ()

    def on_obs(p, A, st, I, addr, tag, v):
        pass

    def snapshot(p, A, st, exp):
        """The single observation a compare value is, or None."""
        t = term(exp)
        if t is not None and t[0] in ("obs", "casobs"):
            return t

    def on_cas(p, A, st, I, addr, tag, exp, new, ok):
        if not ok:
            return p.failed(A, st, I, addr, tag, exp, new)
        p.count("exchanges")
        T = p.snapshot(A, st, exp)
        pub = st.aux.get("pub:%s" % (tag,))
        held = st.aux.get("held")
        if st.aux.get("lost:%s" % (tag,)) == exp:
            p.report(A, st, I, "stale-compare", "%s.%s" % tag, "the exchange is attempted again with the value that was seen to have changed")
        elif T is not None and T[2] == tag:
            if T[3] != addr and len(exp) != 16:
                p.report(A, st, I, "other-location", "%s.%s" % tag, "the value compared was read from another place than is exchanged")
        elif pub is not None and pub == exp:
            pass
        elif held is not None and exp == held:
            pass
        elif any(x[0] == "old" for x in subterms(exp)):
            p.report(A, st, I, "stale-compare", "%s.%s" % tag, "the value compared was read before the attempt that failed, so the exchange can never succeed or succeeds for an old value")
        else:
            p.report(A, st, I, "not-observed", "%s.%s" % tag, "the value compared was not read as a whole from the place exchanged")
        for x in subterms(new):
            if x[0] in ("obs", "casobs") and x[2] in A.cased and x is not T and not has(exp, x) and x[2] == tag:
                p.report(A, st, I, "mixed-observations", "%s.%s" % tag, "the new value is computed from another read of the place exchanged than the value compared")
            if x[0] == "old" and x[1][0] in ("obs", "casobs") and x[1][2] == tag:
                p.report(A, st, I, "stale-new-value", "%s.%s" % tag, "the new value is computed from what was read before the attempt that failed")
        p.exchanged(A, st, I, addr, tag, exp, new, T)
        st.aux["pub:%s" % (tag,)] = new

    def failed(p, A, st, I, addr, tag, exp, new):
        st.aux["lost:%s" % (tag,)] = exp

    def exchanged(p, A, st, I, addr, tag, exp, new, T): pass

    def on_store(p, A, st, I, addr, v, tag):
        if tag in A.cased and not A.fresh_obj(addr):
            p.plain(A, st, I, addr, v, tag)

    def plain(p, A, st, I, addr, v, tag):
        p.report(A, st, I, "plain-store", "%s.%s" % tag, "%s of %s is changed by an exchange elsewhere, but stored to directly here" % (tag[1], tag[0]))

    def on_rmw(p, A, st, I, addr, tag):
        if tag in A.cased:
            p.report(A, st, I, "plain-store", "%s.%s" % tag, "%s of %s is changed by an exchange elsewhere, but not here" % (tag[1], tag[0]))

    def on_call(p, A, st, I, kind, args):
        if isinstance(kind, str) and kind.startswith(P + ("PoolItem")) or kind in (P + "ResourceHandleIncUse", P + "ResourceHandleDecUse"):
            return "quiet"
        if kind and kind[0] == "g" and ("Malloc" in kind[1]):
            return "quiet"


def isnull(A, st, v):
    return A.truth(st, ((tm("cmp", "eq", v, const(0, len(v))), 0),))


class PoolGet(Exchange):
    def exchanged(p, A, st, I, addr, tag, exp, new, T):
        if tag != HEAD or T is None:
            return
        if st.aux.get("got"):
            p.report(A, st, I, "taken-twice", "head", "a second item is taken from the pool")
        st.aux["got"] = (T, addr, new)

    def on_exit(p, A, st, I, v):
        p.count("exits")
        m = A.m
        arg = A.val(st, ["v", A.F.args[0]["id"]]) if A.F.args[0]["id"] in st.env else whole(tm("arg", 0), 8)
        arg = whole(tm("arg", 0), 8)
        got = st.aux.get("got")
        null = isnull(A, st, v)
        if null is True:
            if got:
                p.report(A, st, I, "taken-not-returned", "head", "an item is taken from the pool but not returned, so nothing can release it")
                return
            # the pool has to have been seen to be exhausted
            if not any(f[0] == "eq" and f[3] is True and p.exhausted(A, f) for f in st.facts):
                p.report(A, st, I, "gives-up", "head", "nothing is returned though the pool was not seen to be exhausted")
            return
        if not got:
            p.report(A, st, I, "returned-not-taken", "head", "an item is returned that was not taken from the pool by an exchange that succeeded")
            return
        T, addr, new = got
        e = whole(T, len(new))
        stack = None
        t = term(v)
        ok = False
        if t is not None and t[0] == "gep" and t[2] == 0 and len(t[3]) == 1:
            ix, scale = t[3][0]
            b = term(t[1])
            ok = strip(ix) == e[:2] and scale == m.structs["fiftyone_degrees_pool_item_t"]["size"] and \
                b is not None and b[0] == "ld" and b[2] == at(arg, off(m, "fiftyone_degrees_pool_t", "stack"))
        if not ok or addr != at(arg, off(m, *HEAD)):
            p.report(A, st, I, "other-item", "head", "the item returned is not the one that was at the head of the pool")
            return
        x = term(new[:2])
        na = at(v, off(m, "fiftyone_degrees_pool_item_t", "next"))
        if x is None or x[0] not in ("obs", "ld") or (x[3] if x[0] == "obs" else x[2]) != na:
            p.report(A, st, I, "wrong-next", "head", "the new head is not the item after the one taken")
        ra = at(v, off(m, "fiftyone_degrees_pool_item_t", "resource"))
        safe = any(f[0] == "eq" and f[3] is False and (p.resource_at(f, ra) or {f[1], f[2]} == {e[:2], const(0, 1)}) for f in st.facts)
        if not safe:
            p.report(A, st, I, "null-item", "head", "the item returned was not checked to have a resource: an exhausted pool hands out its end marker")
        p.info.setdefault("aba:get", set()).add(aba(e, new))

    def resource_at(p, f, ra):
        for x, y in ((f[1], f[2]), (f[2], f[1])):
            t = term(x)
            if t is not None and t[0] in ("ld", "obs") and (t[2] if t[0] == "ld" else t[3]) == ra and strip(y) == const(0, 1):
                return True
        return False

    def exhausted(p, A, f):
        """Is this the fact that the resource, or the index, at the head seen is null?"""
        for x, y in ((f[1], f[2]), (f[2], f[1])):
            if not atoms.isconst(y) or atoms.cval(y) != 0:
                continue
            t = term(x)
            if t is not None and t[0] in ("ld", "obs"):
                a = term(t[2] if t[0] == "ld" else t[3])
                if a is not None and a[0] == "gep" and len(a[3]) == 1 and a[2] == off(A.m, "fiftyone_degrees_pool_item_t", "resource"):
                    ix = a[3][0][0]
                    s = ix[0][0]
                    if s[0] in ("obs", "casobs") and s[2] == HEAD and ix == whole(s, 8)[:2]:
                        return True
            s = x[0][0]
            if s[0] in ("obs", "casobs") and s[2] == HEAD and x == whole(s, 8)[:2]:
                return True
        return False


def aba(e, new):
    """Does the exchange change the version bytes which lie beside the index?"""
    if new[2:4] == e[2:4]:
        return False
    t = new[2][0]
    return t[0] == "add" and strip(t[1]) == e[2:4] and t[2] % 65536 != 0 and new[2:4] == whole(t, 4)[:2]


class PoolRelease(Exchange):
    def exchanged(p, A, st, I, addr, tag, exp, new, T):
        if tag != HEAD or T is None:
            return
        m = A.m
        arg = whole(tm("arg", 0), 8)
        if st.aux.get("put"):
            p.report(A, st, I, "released-twice", "head", "the item is put back twice")
        st.aux["put"] = True
        a = term(addr)
        pool = a is not None and a[0] == "gep" and a[2] == off(m, *HEAD) and term(a[1])
        if not pool or pool[0] != "ld" or pool[2] != at(arg, off(m, "fiftyone_degrees_pool_item_t", "pool")):
            p.report(A, st, I, "other-pool", "head", "the item is put back to another pool than its own")
        e = whole(T, len(new))
        nx = st.mem.get((at(arg, off(m, "fiftyone_degrees_pool_item_t", "next")), 2))
        if nx is None or nx[0] != e[:2]:
            p.report(A, st, I, "wrong-next", "next", "the item put back does not lead to the item that was at the head: the rest of the pool is lost or handed out twice")
        if not p.index_of(A, new[:2], arg):
            p.report(A, st, I, "wrong-index", "head", "the new head is not the item put back")
        p.info.setdefault("aba:put", set()).add(aba(e, new))

    def index_of(p, A, b, arg):
        t = b[0][0]
        if b != whole(t, 8)[:2] or t[0] != "op" or t[1] not in ("sdiv", "udiv"):
            return False
        d, sz = t[2], t[3]
        x = term(d)
        if not atoms.isconst(sz) or atoms.cval(sz) != A.m.structs["fiftyone_degrees_pool_item_t"]["size"] or x is None or x[0] != "op" or x[1] != "sub":
            return False
        s = term(x[3])
        return x[2] == arg and s is not None and s[0] == "ld" and s[1] == ("fiftyone_degrees_pool_t", "stack")

    def on_store(p, A, st, I, addr, v, tag):
        if tag == ("fiftyone_degrees_pool_item_t", "next"):
            if st.aux.get("put"):
                p.report(A, st, I, "written-after-release", "next", "the item is written after it was put back, when another thread may own it")
            return
        super().on_store(A, st, I, addr, v, tag)

    def on_exit(p, A, st, I, v):
        p.count("exits")
        if not st.aux.get("put"):
            p.report(A, st, I, "not-released", "head", "the item is not put back to its pool")


def use(m):
    """Where the counter keeps its handle and its number of users."""
    return slice(0, 8), slice(8, 12)


def step_of(e, new):
    """By how much the exchange changes the number of users, the rest being kept."""
    h, u = slice(0, 8), slice(8, 12)
    if new[h] != e[h]:
        return None
    t = term(new[u])
    if new[u] == e[u]:
        return 0
    if t is None or t[0] != "add" or t[1] != e[u]:
        return None
    return t[2]


class IncUse(Exchange):
    def on_obs(p, A, st, I, addr, tag, v):
        t = term(addr)
        if tag == COUNTER and t is not None and t[0] == "obs" and not st.aux.get("inc"):
            p.report(A, st, I, "used-before-counted", "handle", "the counter of the active handle is read before its use is counted, when another thread may replace and free it")

    def exchanged(p, A, st, I, addr, tag, exp, new, T):
        if tag != COUNTER or T is None:
            return
        if st.aux.get("inc"):
            p.report(A, st, I, "counted-twice", "counter", "the use is counted twice")
        if step_of(exp, new) != 1:
            p.report(A, st, I, "wrong-count", "counter", "the exchange does not add exactly one user and keep the handle")
        for a in (addr, T[3]):
            t = term(a)
            if t is not None and t[0] == "old":
                t = t[1]
            if t is None or t[0] not in ("obs", "ld") or (t[3] if t[0] == "obs" else t[2]) != whole(tm("arg", 0), 8):
                p.report(A, st, I, "other-handle", "counter", "the use is not counted in the handle active in the manager")
        st.aux["inc"] = T

    def on_exit(p, A, st, I, v):
        p.count("exits")
        T = st.aux.get("inc")
        if T is None:
            if isnull(A, st, v) is not True:
                p.report(A, st, I, "returned-not-counted", "counter", "a handle is returned whose use was not counted")
        elif v != whole(T, 16)[:8]:
            p.report(A, st, I, "other-handle", "counter", "the handle returned is not the one whose use was counted")


class DecUse(Exchange):
    def on_entry(p, A, st):
        st.aux["ended"] = False

    def exchanged(p, A, st, I, addr, tag, exp, new, T):
        if tag != COUNTER:
            return
        arg = whole(tm("arg", 0), 8)
        if "dec" not in st.aux:
            if T is None or addr != arg or step_of(exp, new) != -1:
                p.report(A, st, I, "wrong-count", "counter", "the exchange does not take exactly one user from the handle and keep the rest")
            st.aux["dec"] = new
            st.aux["before"] = tuple(sorted((x for f in st.facts for x in subterms(f) if x[0] == "obs"), key=str)) + \
                tuple(sorted((x for v in [v[0] for v in st.mem.values()] + list(st.env.values()) + [(b,) for c in st.loc.values() for b in c.values()]
                              for x in subterms(v) if x[0] == "obs"), key=str))
            return
        d = st.aux["dec"]
        if exp != d:
            p.report(A, st, I, "freed-if-used-again", "counter", "the right to free is not claimed by comparing with the value the count was taken down to: a user counted since would be ignored")
        if new[:8] == exp[:8]:
            p.report(A, st, I, "claim-changes-nothing", "counter", "the exchange which claims the right to free does not change the handle kept in the counter, so that several threads can claim it")
        st.aux["claim"] = True
        p.idle(A, st, I, "claimed")

    def on_load(p, A, st, I, addr, tag, v):
        p.given_up(A, st, I, addr)

    def on_obs(p, A, st, I, addr, tag, v):
        p.given_up(A, st, I, addr)

    def given_up(p, A, st, I, addr):
        d = st.aux.get("dec")
        t = term(addr)
        b = t[1] if t is not None and t[0] == "gep" else addr
        if d and not st.aux.get("claim") and b in (d[:8], whole(tm("arg", 0), 8)):
            p.report(A, st, I, "used-after-given-up", "handle", "the handle is read after its use was given up, when another thread may free it")

    def idle(p, A, st, I, what):
        """No users are left, and the manager was seen to have another handle after the use was given up."""
        d = st.aux.get("dec")
        arg = whole(tm("arg", 0), 8)
        z = isnull(A, st, d[8:12]) if d else None
        if z is not True:
            p.report(A, st, I, "in-use", "counter", "the handle is %s though it was not seen to have no users left" % what)
        ina = [f for f in st.facts if f[0] == "eq" and f[3] is False and p.active_fact(A, st, f)]
        if not ina:
            p.report(A, st, I, "active", "counter", "the handle is %s though it was not seen, after its use was given up, to be no longer the active one" % what)

    def active_fact(p, A, st, f):
        d = st.aux.get("dec")
        for x, y in ((f[1], f[2]), (f[2], f[1])):
            t = term(x)
            if t is not None and t[0] == "obs" and t[2] == ACTIVE and t not in st.aux.get("before", ()) and d and y in (d[:8], whole(tm("arg", 0), 8)):
                return True
        return False

    def on_call(p, A, st, I, kind, args):
        d = st.aux.get("dec")
        if kind == ("fiftyone_degrees_resource_handle_t", "freeResource") or kind and kind[0] == "g" and "Free" in kind[1]:
            h = (d[:8],) if d else ()
            if not st.aux.get("claim"):
                p.report(A, st, I, "not-claimed", "counter", "the resource is freed without the right to do so having been claimed by an exchange")
                p.idle(A, st, I, "freed")
            if kind[0] != "g":
                st.aux["res"] = st.aux.get("res", 0) + 1
                t = term(args[0]) if args else None
                if t is None or t[0] not in ("ld", "obs") or t[1 if t[0] == "ld" else 2] != ("fiftyone_degrees_resource_handle_t", "resource"):
                    p.report(A, st, I, "other-resource", "resource", "what is freed is not the resource of the handle")
                if st.aux.get("han"):
                    p.report(A, st, I, "handle-freed-first", "resource", "the handle is freed before its resource")
            else:
                st.aux["han"] = st.aux.get("han", 0) + 1
                if args[0] not in h + (whole(tm("arg", 0), 8),):
                    p.report(A, st, I, "other-handle", "counter", "what is freed is not the handle")
            return "quiet"
        return super().on_call(A, st, I, kind, args)

    def failed(p, A, st, I, addr, tag, exp, new):
        if "dec" in st.aux:
            st.aux["tried"] = True
        super().failed(A, st, I, addr, tag, exp, new)

    def on_exit(p, A, st, I, v):
        p.count("exits")
        d = st.aux.get("dec")
        if d is None:
            p.report(A, st, I, "not-counted", "counter", "the use is not given up")
            return
        if st.aux.get("claim"):
            if st.aux.get("res") != 1 or st.aux.get("han") != 1:
                p.report(A, st, I, "not-freed", "counter", "the last user does not free the resource and its handle exactly once")
        elif not st.aux.get("tried"):
            busy = isnull(A, st, d[8:12]) is False
            act = any(f[0] == "eq" and f[3] is True and p.active_fact(A, st, f) for f in st.facts)
            if not busy and not act and not st.aux.get("res"):
                p.report(A, st, I, "never-freed", "counter", "the last user of a handle that is no longer active leaves without freeing it")


class DataSetGet(Exchange):
    """What is returned is the resource of the handle whose use was counted."""
    def after_call(p, A, st, I, kind, args, v):
        if kind == P + "ResourceHandleIncUse":
            st.aux["got"] = v
            if args[0] != whole(tm("arg", 0), 8):
                p.report(A, st, I, "other-manager", "active", "the use is counted for another manager")

    def on_exit(p, A, st, I, v):
        p.count("exits")
        g = st.aux.get("got")
        t = term(v)
        if g is None or t is None or t[0] not in ("ld", "obs") or (t[2] if t[0] == "ld" else t[3]) != at(g, off(A.m, "fiftyone_degrees_resource_handle_t", "resource")):
            p.report(A, st, I, "other-resource", "resource", "the data set returned is not the resource of the handle whose use was counted")


class DataSetRelease(Exchange):
    def on_call(p, A, st, I, kind, args):
        if kind == P + "ResourceHandleDecUse":
            st.aux["n"] = st.aux.get("n", 0) + 1
            t = term(args[0])
            if t is None or t[0] not in ("ld", "obs") or (t[2] if t[0] == "ld" else t[3]) != at(whole(tm("arg", 0), 8), off(A.m, "fiftyone_degrees_dataset_base_t", "handle")):
                p.report(A, st, I, "other-handle", "handle", "the use given up is not that of the data set's handle")
        return super().on_call(A, st, I, kind, args)

    def on_exit(p, A, st, I, v):
        p.count("exits")
        if st.aux.get("n", 0) != 1:
            p.report(A, st, I, "not-given-up", "handle", "the use of the data set is not given up exactly once")


class Replace(Exchange):
    """The active handle is exchanged while a use of the old one is held, which is given up afterwards."""
    def on_call(p, A, st, I, kind, args):
        if kind == P + "ResourceHandleIncUse":
            if st.aux.get("held") is not None:
                p.report(A, st, I, "use-kept", "active", "the use of a handle is counted again before it was given up")
            if args[0] != whole(tm("arg", 0), 8):
                p.report(A, st, I, "other-manager", "active", "the handle used is not the manager's")
        elif kind == P + "ResourceHandleDecUse":
            h = st.aux.get("held")
            if h is None or args[0] != h:
                p.report(A, st, I, "use-not-held", "active", "a use is given up that was not counted, or twice")
            st.aux["held"] = None
        return super().on_call(A, st, I, kind, args)

    def after_call(p, A, st, I, kind, args, v):
        if kind == P + "ResourceHandleIncUse":
            st.aux["held"] = v
            # the counter names its handle, which setting up shows
            A.assume(st, ((tm("cmp", "ne", v, const(0, 8)), 0),), True)

    def exchanged(p, A, st, I, addr, tag, exp, new, T):
        if tag != ACTIVE:
            return
        if addr != whole(tm("arg", 0), 8):
            p.report(A, st, I, "other-manager", "active", "another manager is changed")
        if exp != st.aux.get("held"):
            p.report(A, st, I, "not-held", "active", "the handle replaced is not held: it could have been freed and its memory used for another")
        st.aux["set"] = new
        p.complete(A, st, I, new)

    def complete(p, A, st, I, h):
        m = A.m
        t = term(h)
        if t is None or t[0] != "new":
            p.report(A, st, I, "not-new", "active", "what is made active is not a handle created for it")
            return
        if isnull(A, st, h) is not False:
            p.report(A, st, I, "null-handle", "active", "a handle that could not be allocated is made active")
        H = "fiftyone_degrees_resource_handle_t"
        c = A.peek(st, at(h, off(m, H, "counter")), 16)
        if c is None or c[:8] != h or c[8:12] != const(0, 4):
            p.report(A, st, I, "not-set-up", "counter", "the handle is made active before its counter names it and says it has no users")
        for f, want in (("manager", whole(tm("arg", 0), 8)), ("resource", whole(tm("arg", 1), 8)), ("freeResource", None)):
            x = A.peek(st, at(h, off(m, H, f)), 8)
            if x is None or x[0][0][0] == "uninit" or want is not None and x != want:
                p.report(A, st, I, "not-set-up", f, "the handle is made active before its %s is set" % f)
        o = st.mem.get((whole(tm("arg", p.OUT), 8), 8))
        if o is None or o[0] != h:
            p.report(A, st, I, "not-set-up", "resourceHandle", "the handle is made active before the resource refers to it")
    OUT = 2

    def on_exit(p, A, st, I, v):
        p.count("exits")
        if st.aux.get("held") is not None:
            p.report(A, st, I, "use-kept", "active", "the use of the old handle is never given up, so its resource is never freed")
        if "set" not in st.aux:
            # only when no handle could be created
            ok = any(f[0] == "eq" and f[3] is True and any(x[0] == "new" for x in subterms(f)) for f in st.facts)
            if not ok:
                p.report(A, st, I, "not-replaced", "active", "the resource is not replaced though its handle was created")


class ManagerInit(Replace):
    OUT = 2

    def plain(p, A, st, I, addr, v, tag):
        if tag == ACTIVE:
            st.aux["set"] = v
            if isnull(A, st, v) is not True:
                p.complete(A, st, I, v)


class PoolInit(Exchange):
    """Each resource created is counted and linked in front of those before."""
    FORGETS = True

    def plain(p, A, st, I, addr, v, tag):
        if tag != HEAD:
            return super().plain(A, st, I, addr, v, tag)
        p.count("links")
        i = strip(v[:2])
        if atoms.isconst(v):
            if atoms.cval(v):
                p.report(A, st, I, "wrong-link", "head", "the head of the pool is an item that was not created")
            return
        stack = A.peek(st, at(whole(tm("arg", 0), 8), off(A.m, "fiftyone_degrees_pool_t", "stack")), 8)
        size = A.m.structs["fiftyone_degrees_pool_item_t"]["size"]
        item = whole(tm("gep", stack, 0, ((i, size),)), 8) if stack else None
        old = A.peek(st, addr, 2)
        nx = A.peek(st, at(item, off(A.m, "fiftyone_degrees_pool_item_t", "next")), 2) if item else None
        if nx is None or nx != old:
            p.report(A, st, I, "wrong-link", "next", "the item made the head of the pool does not lead to the one that was: the rest of the pool is lost")
        r = A.peek(st, at(item, off(A.m, "fiftyone_degrees_pool_item_t", "resource")), 8) if item else None
        if r is None or r != st.aux.get("created"):
            p.report(A, st, I, "wrong-link", "resource", "the item made the head of the pool does not hold the resource created for it")
        o = A.peek(st, at(item, off(A.m, "fiftyone_degrees_pool_item_t", "pool")), 8) if item else None
        if o != whole(tm("arg", 0), 8):
            p.report(A, st, I, "wrong-link", "pool", "the item does not know its pool")
        st.aux["linked"] = True

    def on_store(p, A, st, I, addr, v, tag):
        if tag == ("fiftyone_degrees_pool_item_t", "resource"):
            t = term(addr)
            start = tm("arg", 0)
            stack = A.peek(st, at(whole(start, 8), off(A.m, "fiftyone_degrees_pool_t", "stack")), 8)
            if stack and addr == at(stack, off(A.m, "fiftyone_degrees_pool_item_t", "resource")):
                st.aux["end"] = v == const(0, 8)
            elif t and t[0] == "gep":
                for i, _ in t[3]:
                    u = term(i)
                    F = A.F.insts.get(u[1]) if u and u[0] == "phi" else None
                    if F is not None and any(o[0] == "c" and o[1] == 0 for _, o in F.d["in"]):
                        st.aux["end"] = False
        if tag == ("fiftyone_degrees_pool_t", "count") and v != const(0, len(v)):
            p.balance(st, -1)
        super().on_store(A, st, I, addr, v, tag)

    def balance(p, st, n):
        st.aux["balance"] = max(-2, min(2, st.aux.get("balance", 0) + n))

    def done(p, A, st, I, end=False):
        c = st.aux.pop("created", None)
        l = st.aux.pop("linked", False)
        if c is not None and isnull(A, st, c) is True:
            st.aux["balance"] = 0       # not created: counting it or not makes no difference
            return
        if c is not None and not l:
            p.report(A, st, I, "not-linked", "head", "a resource was created but is not made available: the pool is smaller than asked for")
        k = st.aux.get("balance", 0)
        if k and (end or abs(k) > 1):
            p.report(A, st, I, "not-counted", "count", "a resource was created but not counted once, so it is not freed with the pool")

    def on_call(p, A, st, I, kind, args):
        r = super().on_call(A, st, I, kind, args)
        if r is None:
            p.done(A, st, I)
            return "quiet"      # the creator makes the resource, it does not change the pool
        return r

    def after_call(p, A, st, I, kind, args, v):
        if not (kind and kind[0] == "g"):
            st.aux["created"] = v
            p.balance(st, 1)

    def on_exit(p, A, st, I, v):
        p.count("exits")
        p.done(A, st, I, True)
        arg = whole(tm("arg", 0), 8)
        stack = A.peek(st, at(arg, off(A.m, "fiftyone_degrees_pool_t", "stack")), 8)
        if stack is None or isnull(A, st, stack) is True:
            return
        if not st.aux.get("end"):
            p.report(A, st, I, "no-end", "resource", "the item at index 0, which marks an exhausted pool, is not given a null resource")


SPECS = {"T02": {P + "PoolItemGet": PoolGet, P + "PoolItemRelease": PoolRelease, P + "PoolInit": PoolInit},
         "R01": {P + "ResourceHandleIncUse": IncUse, P + "ResourceHandleDecUse": DecUse, P + "ResourceReplace": Replace,
                 P + "ResourceManagerInit": ManagerInit, P + "DataSetGet": DataSetGet, P + "DataSetRelease": DataSetRelease}}
MINE = {"T02": {HEAD}, "R01": {COUNTER, ACTIVE}}
import re
SETUPNAME = re.compile(r"(Init|Reset|Free)$")


def check(m, pid):
    cased = cased_tags(m)
    found, info, visits, funcs = {}, {}, 0, []
    for t in MINE[pid]:
        if t not in cased:
            found[("not-atomic", "", "%s.%s" % t)] = {"rule": "not-atomic", "function": "", "file": "", "line": 0,
                                                     "message": "%s of %s is changed by no compare and exchange" % (t[1], t[0])}
    ct = set(cased) | MINE[pid]
    un = unstable_tags(m, ct)
    specs = SPECS[pid]
    for n in specs:
        if n not in m.funcs or m.funcs[n].decl:
            raise atoms.EngineError("%s is not defined any more" % n)
    for F in m.funcs.values():
        if F.decl or F.internal and not F.addr_taken:
            continue
        A = atoms.Interp(m, F, None, ct, un)
        sp = specs.get(F.name)
        if sp is None:
            touched = {A.tag(I.ops[1 if I.op == "store" else 0], I) for I in F.insts.values() if I.op in ("store", "cmpxchg", "atomicrmw")} & MINE[pid]
            if not touched or any(F.name in v for v in SPECS.values()):
                continue
            if SETUPNAME.search(F.name):
                info["setup_functions"] = sorted(set(info.get("setup_functions", [])) | {F.name})
                continue
            sp = Exchange
        A.spec = sp(found, info)
        if A.spec.FORGETS:
            A.unstable = set()      # nobody else knows the pool yet
        A.run()
        visits += A.visits
        funcs.append(F.name)
    if pid == "T02":
        g, q = info.pop("aba:get", set()), info.pop("aba:put", set())
        # taking or putting back has to change the version, or a head that was taken and put back in between goes unnoticed
        if False in g and False in q:
            found[("no-version", P + "PoolItemGet", "head")] = {
                "rule": "no-version", "function": P + "PoolItemGet", "file": m.funcs[P + "PoolItemGet"].file, "line": m.funcs[P + "PoolItemGet"].line,
                "message": "neither taking nor putting back changes the version kept beside the index: an exchange succeeds though the item was taken and put back in between"}
        info["version_changed_by"] = {"get": sorted(g), "release": sorted(q)}
    return found, {"functions": funcs, "block_visits": visits, **info,
                   "exchanged_fields": {"%s.%s" % t: sorted(v) for t, v in cased.items()}, "unstable_fields": sorted("%s.%s" % t for t in un)}

EXPLAIN = ("Byte-provenance abstract interpretation (disjunctive, to a fixpoint over retries) of every function that takes part in a compare "
           "and exchange: each byte of the value compared, the new value, the value stored and the value returned is traced to the "
           "observation it comes from. Rules for every exchange: the value compared is one observation of the place exchanged, the new value "
           "is computed from that observation only, no plain store elsewhere. Rules for each operation: what the exchange has to change, "
           "what has to be known before and what has to follow when it succeeds or fails.")
