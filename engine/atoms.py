"""Byte-provenance analysis of the compare and exchange code: a disjunctive abstract interpretation in which every
value is a string of bytes, each traced to the observation (load of shared memory, result of an exchange or call),
argument or operation it comes from."""
import re
from ir import EngineError

class T:
    """A term: an operation and what it is applied to. Interned, so that equal terms are the same object."""
    __slots__ = ("k", "id", "subs")
    table = {}

    def __getitem__(t, i):
        return t.k[i]

    def __len__(t):
        return len(t.k)

    def __repr__(t):
        return "t%d" % t.id

    def __reduce__(t):
        return (str, (repr(t),))

    def show(t, d=0):
        if d > 3:
            return repr(t)
        def one(x):
            if isinstance(x, T):
                return x.show(d + 1)
            if isinstance(x, tuple):
                w = term(x) if x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], T) else None
                return w.show(d + 1) if w is not None else "(" + " ".join(one(y) for y in x) + ")"
            return str(x)
        return "[" + " ".join(one(x) for x in t.k) + "]"


def tm(*k):
    t = T.table.get(k)
    if t is None:
        t = T()
        t.k = k; t.id = len(T.table)
        acc = {t}
        def go(x):
            for y in x:
                if isinstance(y, T):
                    acc.update(y.subs)
                elif isinstance(y, tuple):
                    go(y)
        go(k)
        t.subs = frozenset(acc)
        T.table[k] = t
    return t


K0 = (tm("k", 0), 0)


def const(v, n):
    return tuple((tm("k", (v >> (8 * i)) & 255), 0) for i in range(n))


def whole(t, n):
    return tuple((t, i) for i in range(n))


def isconst(b):
    return all(x[0][0] == "k" for x in b)


def cval(b):
    return sum(x[0][1] << (8 * i) for i, x in enumerate(b))


def term(b):
    """The term a value is the whole of, or None."""
    if b and b[0][1] == 0 and all(x[0] is b[0][0] and x[1] == i for i, x in enumerate(b)):
        return b[0][0]


def strip(b):
    """Without leading zero bytes of a zero extension."""
    n = len(b)
    while n > 1 and b[n - 1] == K0:
        n -= 1
    return b[:n]


def subterms(x):
    if isinstance(x, T):
        return x.subs
    out = set()
    if isinstance(x, tuple):
        for y in x:
            out |= subterms(y)
    return out


def has(x, t):
    if isinstance(x, T):
        return t in x.subs
    return isinstance(x, tuple) and any(has(y, t) for y in x)


def subst(x, t, u):
    if isinstance(x, T):
        if x is t:
            return u
        if t not in x.subs:
            return x
        return tm(*[subst(y, t, u) for y in x.k])
    if isinstance(x, tuple):
        return tuple(subst(y, t, u) for y in x)
    return x


class St:
    __slots__ = ("env", "loc", "mem", "facts", "aux", "trace")

    def copy(s):
        n = St()
        n.env = dict(s.env); n.loc = {k: dict(v) for k, v in s.loc.items()}; n.mem = dict(s.mem)
        n.facts = set(s.facts); n.aux = dict(s.aux); n.trace = s.trace
        return n

    def key(s):
        return (frozenset(s.env.items()), frozenset((k, frozenset(v.items())) for k, v in s.loc.items()),
                frozenset(s.mem.items()), frozenset(s.facts), frozenset(s.aux.items()))


class Interp:
    LIMIT = 20000

    def __init__(A, m, F, spec, cased, unstable):
        A.m, A.F, A.spec, A.cased, A.unstable = m, F, spec, cased, unstable
        A.visits = 0

    # ------------------------------------------------------------ values
    def size(A, ty):
        if ty == "ptr":
            return 8
        mm = re.match(r"i(\d+)$", ty)
        if mm:
            return (int(mm.group(1)) + 7) // 8
        mm = re.match(r"\{ (.*) \}$", ty)
        if mm:
            return sum(A.size(x.strip()) for x in mm.group(1).split(","))
        if ty == "double":
            return 8
        if ty == "float":
            return 4
        return 0

    def val(A, st, o, n=8):
        k = o[0]
        if k == "v":
            v = st.env.get(o[1])
            if v is None:
                v = whole(tm("lost", o[1]), n)
            return v
        if k == "c":
            return const(o[1], max(1, (o[2] + 7) // 8))
        if k in ("n", "z"):
            return const(0, n)
        if k == "k" and re.match(r"-?\d+$", o[1]):
            return const(int(o[1]), 16)
        if k == "gep":
            return A.gep(A.val(st, o[1]), [(s, A.val(st, s[1]) if s[0] in "pi" else None) for s in o[2]])
        if k == "g":
            return whole(tm("g", o[1]), 8)
        if k == "f":
            return whole(tm("f", o[1]), 8)
        return whole(tm("und", str(o)[:40]), n)

    def gep(A, base, steps):
        t = term(base)
        off, idx = 0, ()
        if t is not None and t[0] == "gep":
            base, off, idx = t[1], t[2], t[3]
        for s, ix in steps:
            if s[0] == "f":
                off += s[2]
            elif isconst(ix):
                v = cval(ix)
                if v >> (8 * len(ix) - 1):
                    v -= 1 << (8 * len(ix))
                off += v * s[2]
            else:
                idx += ((strip(ix), s[2]),)
        if off == 0 and not idx:
            return base
        return whole(tm("gep", base, off, tuple(sorted(idx, key=str))), 8)

    # ------------------------------------------------------------ terms reused in another iteration
    def fresh(A, st, t):
        old = tm("old", t)
        lost = tm("lost", t[1] if isinstance(t[1], (int, str)) else 0)
        for a, b in ((old, lost), (t, old)):
            if a is old:
                st.facts = {f for f in st.facts if not has(f, old)}
            for k, v in st.env.items():
                st.env[k] = subst(v, a, b)
            st.loc = {k: {o: subst(x, a, b) for o, x in v.items()} for k, v in st.loc.items()}
            st.mem = {subst(k, a, b): subst(v, a, b) for k, v in st.mem.items()}
            st.facts = {subst(f, a, b) for f in st.facts}
            st.aux = {k: subst(v, a, b) for k, v in st.aux.items()}
        return t

    # ------------------------------------------------------------ memory
    def local(A, st, addr):
        """(alloca, offset) of an address within a local, else None."""
        t = term(addr)
        if t is None:
            return None
        if t[0] == "al":
            return t, 0
        if t[0] == "gep" and not t[3]:
            b = term(t[1])
            if b and b[0] == "al":
                return b, t[2]
        return None

    def load(A, st, I, addr, n, tag):
        l = A.local(st, addr)
        if l:
            cells = st.loc.get(l[0], {})
            return tuple(cells.get(l[1] + i, (tm("uninit", l[0][1]), l[1] + i)) for i in range(n))
        if tag in A.unstable or tag is None and A.maybe_cased(addr):
            t = A.fresh(st, tm("obs", I.id, tag, addr))
            v = whole(t, n)
            A.spec.on_obs(A, st, I, addr, tag, v)
            return v
        if (addr, n) in st.mem:
            return st.mem[(addr, n)][0]
        # part of what was stored before
        for (a, k), (v, tg) in st.mem.items():
            d = A.delta(a, addr)
            if d is not None and 0 <= d and d + n <= k:
                return v[d:d + n]
        t = tm("ld", tag, addr)
        if any(has(x, t) for x in list(st.facts)) and ("stored", tag) in st.facts:
            t = A.fresh(st, tm("ld", tag, addr, I.id))
        v = whole(t, n)
        st.mem[(addr, n)] = (v, tag)
        A.spec.on_load(A, st, I, addr, tag, v)
        return v

    def maybe_cased(A, addr):
        return False

    def delta(A, a, b):
        """b - a in bytes when both lie in one object at known places."""
        def split(x):
            t = term(x)
            if t is not None and t[0] == "gep":
                return t[1], t[2], t[3]
            return x, 0, ()
        x, y = split(a), split(b)
        if x[0] == y[0] and x[2] == y[2]:
            return y[1] - x[1]

    def store(A, st, I, addr, v, tag, silent=False):
        l = A.local(st, addr)
        if l:
            c = st.loc.setdefault(l[0], {})
            for i, b in enumerate(v):
                c[l[1] + i] = b
            return
        t = term(v)
        if t is not None and t[0] == "add" and abs(t[2]) > 4:
            v = whole(tm("many", I.id), len(v))     # counted in a loop
        if not silent:
            A.spec.on_store(A, st, I, addr, v, tag)
        if A.spec.FORGETS and isconst(v) and len(v) < 8 and cval(v) > 1:
            v = whole(tm("many", I.id), len(v))
        for key in list(st.mem):
            a, k = key
            d = A.delta(a, addr)
            if d is not None:
                if d < k and -len(v) < d:
                    ov, tg = st.mem.pop(key)
                    # what the store leaves of it
                    if 0 <= d and d + len(v) <= k:
                        st.mem[key] = (ov[:d] + v + ov[d + len(v):], tg)
            elif tag is None or st.mem[key][1] is None or st.mem[key][1] == tag:
                if not (A.fresh_obj(a) and not A.fresh_obj(addr)) and not (A.fresh_obj(addr) and not A.fresh_obj(a)):
                    st.mem.pop(key)
        st.mem[(addr, len(v))] = (v, tag)

    def peek(A, st, addr, n):
        """The value known to be stored at an address, without loading it."""
        out = [None] * n
        for (a, k), (v, tg) in st.mem.items():
            d = A.delta(addr, a)
            if d is None:
                continue
            for i, b in enumerate(v):
                if 0 <= d + i < n:
                    out[d + i] = b
        return None if None in out else tuple(out)

    def fresh_obj(A, a):
        t = term(a)
        if t is not None and t[0] == "gep":
            t = term(t[1])
        return t is not None and t[0] == "new"

    # ------------------------------------------------------------ conditions
    def truth(A, st, c):
        """True, False or None for a condition value (one byte)."""
        b = c[0]
        if b[0][0] == "k":
            return bool(b[0][1] & 1)
        t = b[0]
        if t[0] == "not":
            r = A.truth(st, ((t[1], 0),))
            return None if r is None else not r
        if t[0] == "cmp":
            return A.cmp(st, t[1], t[2], t[3])
        for f in st.facts:
            if f[0] == "is" and f[1] == t:
                return f[2]
        return None

    def cmp(A, st, pred, x, y):
        if isconst(x) and isconst(y):
            n = 8 * max(len(x), len(y))
            a, b = cval(x), cval(y)
            if pred[0] == "s":
                a -= (1 << n) if a >> (n - 1) else 0
                b -= (1 << n) if b >> (n - 1) else 0
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred if pred in ("eq", "ne") else pred[1:]]
        if pred in ("eq", "ne"):
            r = None
            sx, sy = strip(x), strip(y)
            if sx == sy:
                r = True
            elif A.nonnull(st, sx) and y == const(0, len(y)) or A.nonnull(st, sy) and x == const(0, len(x)):
                r = False
            elif any(p[0] == "k" and q[0] == "k" and p != q for (p, _), (q, _) in zip(x, y)):
                r = False
            else:
                k = ("eq",) + tuple(sorted((sx, sy), key=str))
                for f in st.facts:
                    if f[:3] == k:
                        r = f[3]
            return None if r is None else r == (pred == "eq")
        for f in st.facts:
            if f[:4] == ("rel", pred, x, y):
                return f[4]
        return None

    def nonnull(A, st, b):
        t = term(b)
        if t is None:
            return False
        if t[0] == "gep":
            t = term(t[1]) or tm("?")
        return t[0] in ("al", "g", "f")

    def assume(A, st, c, val):
        """Adds a fact; False when it contradicts what is known."""
        r = A.truth(st, c)
        if r is not None:
            return r == val
        t = c[0][0]
        while t[0] == "not":
            t, val = t[1], not val
        if t[0] == "cmp":
            p, x, y = t[1:]
            if p in ("eq", "ne"):
                if p == "ne":
                    val = not val
                a, b = sorted((strip(x), strip(y)), key=str)
                st.facts.add(("eq", a, b, val))
            else:
                st.facts.add(("rel", p, x, y, val))
        else:
            st.facts.add(("is", t, val))
        return True

    # ------------------------------------------------------------ running
    def run(A):
        F = A.F
        st = St()
        st.env, st.loc, st.mem, st.facts, st.aux, st.trace = {}, {}, {}, set(), {}, ()
        for k, a in enumerate(F.args):
            st.env[a["id"]] = whole(tm("arg", k), max(1, A.size(a["ty"])) if "ty" in a else 8)
        A.spec.on_entry(A, st)
        seen = set()
        entry = next(iter(F.blocks.values())).id
        work = [(entry, None, st)]
        while work:
            bid, pred, s = work.pop()
            B = F.blocks[bid]
            # phis are read together
            new = {}
            for I in B.insts:
                if I.op != "phi":
                    break
                for p, o in I.d["in"]:
                    if p == pred:
                        new[I.id] = A.val(s, o, A.size(I.ty))
            ints = [I for I in B.insts if I.op == "phi" and I.ty != "ptr" and I.ty != "i1"]
            for I in ints:
                if A.carried(I) :
                    v = new.get(I.id)
                    t = A.fresh(s, tm("phi", I.id))
                    new = {k: subst(x, t, tm("old", t)) for k, x in new.items()}
                    new[I.id] = whole(t, A.size(I.ty))
            s.env.update(new)
            live = B.live_in
            phis = {I.id for I in B.insts if I.op == "phi"}
            s.env = {k: v for k, v in s.env.items() if k in live or k in phis}
            if A.spec.FORGETS:
                # places written in earlier rounds of a loop are no longer followed
                gone = lambda x: any(t[0] in ("old", "lost") for t in subterms(x))
                s.mem = {k: v for k, v in s.mem.items() if not gone(k)}
                s.facts = {f for f in s.facts if not gone(f)}
            k = (bid, s.key())
            if k in seen:
                continue
            seen.add(k)
            A.visits += 1
            if A.visits > A.LIMIT:
                raise EngineError("the analysis of %s does not end" % F.name)
            work += A.block(B, s)

    def carried(A, I):
        """Does this phi take a value around a loop?"""
        seen, todo = set(), [o for _, o in I.d["in"]]
        while todo:
            o = todo.pop()
            if o[0] != "v" or o[1] in seen:
                continue
            if o[1] == I.id:
                return True
            seen.add(o[1])
            J = A.F.insts.get(o[1])
            if J is not None and J.op in ("phi", "add", "sub", "mul", "trunc", "zext", "sext", "select"):
                todo += [x for _, x in J.d["in"]] if J.op == "phi" else list(J.ops)
        return False

    def block(A, B, s):
        sts = [s]
        for I in B.insts:
            if I.op == "phi":
                continue
            if I.op in ("br", "switch", "ret", "unreachable"):
                out = []
                for x in sts:
                    out += A.term(B, I, x)
                return out
            nxt = []
            for x in sts:
                nxt += A.step(I, x)
            sts = nxt
        return []

    def term(A, B, I, s):
        if I.op == "ret":
            v = A.val(s, I.ops[0], 8) if I.ops else None
            A.spec.on_exit(A, s, I, v)
            return []
        if I.op == "unreachable":
            return []
        if I.op == "br":
            succ = I.d["succ"]
            if len(succ) == 1:
                return [(succ[0], B.id, s)]
            c = A.val(s, I.ops[0], 1)
            out = []
            for tgt, val in ((succ[0], True), (succ[1], False)):
                n = s.copy()
                if A.assume(n, c, val):
                    if I.loc:
                        n.trace = (s.trace + ("%d:%s" % (I.loc[0][1], "yes" if val else "no"),))[-14:]
                    out.append((tgt, B.id, n))
            return out
        c = A.val(s, I.ops[0], 4)
        out = []
        cases = I.d.get("cases", [])
        for cv, tgt in [(x[0], x[1]) for x in cases]:
            n = s.copy()
            if A.assume(n, ((tm("cmp", "eq", c, const(cv, len(c))), 0),), True):
                out.append((tgt, B.id, n))
        out.append((I.d["default"], B.id, s.copy()))
        return out

    def step(A, I, st):
        op = I.op
        n = A.size(I.ty)
        V = lambda k, z=None: A.val(st, I.ops[k], z or n or 8)
        env = st.env
        if op == "alloca":
            env[I.id] = whole(tm("al", I.id), 8)
        elif op == "getelementptr":
            env[I.id] = A.gep(V(0, 8), [(s, A.val(st, s[1]) if s[0] in "pi" else None) for s in I.d["steps"]])
        elif op == "load":
            tag = A.tag(I.ops[0], I)
            env[I.id] = A.load(st, I, V(0, 8), I.d["vsize"], tag)
        elif op == "store":
            A.store(st, I, V(1, 8), A.val(st, I.ops[0], I.d["vsize"])[:I.d["vsize"]], A.tag(I.ops[1], I))
        elif op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
            env[I.id] = V(0)
        elif op == "zext":
            x = V(0, A.size(I.d.get("srcty", "i8")))
            env[I.id] = x + const(0, n - len(x))
        elif op == "sext":
            x = V(0, A.size(I.d.get("srcty", "i8")))
            if isconst(x):
                v = cval(x)
                v -= (1 << 8 * len(x)) if v >> (8 * len(x) - 1) else 0
                env[I.id] = const(v, n)
            elif x[-1] == K0:
                env[I.id] = x + const(0, n - len(x))
            else:
                env[I.id] = whole(tm("sx", x), n)
        elif op == "trunc":
            x = V(0, 16)
            if I.ty == "i1":
                env[I.id] = x[:1]
            else:
                env[I.id] = x[:n]
        elif op == "icmp":
            x, y = V(0, 8), A.val(st, I.ops[1], 8)
            if I.ops[0][0] in "nz":
                x = const(0, len(y))
            if I.ops[1][0] in "nz":
                y = const(0, len(x))
            p = I.d["pred"]
            # a condition turned into a number and compared with zero
            if p in ("eq", "ne") and isconst(y) and cval(y) == 0 and x[0][0][0] in ("cmp", "not", "casok") and all(b == K0 for b in x[1:]):
                env[I.id] = x[:1] if p == "ne" else A.neg(x[:1])
            else:
                r = A.cmp(st, p, x, y)
                env[I.id] = const(int(r), 1) if r is not None else ((tm("cmp", p, x, y), 0),)
        elif op == "select":
            c = V(0, 1)
            a, b = A.val(st, I.ops[1], n), A.val(st, I.ops[2], n)
            t = A.truth(st, c)
            if t is None:
                s2 = st.copy()
                out = []
                for s, val, x in ((st, True, a), (s2, False, b)):
                    if A.assume(s, c, val):
                        s.env[I.id] = x
                        out.append(s)
                return out
            env[I.id] = a if t else b
        elif op == "xor" and I.ty == "i1":
            a, b = V(0, 1), A.val(st, I.ops[1], 1)
            env[I.id] = A.neg(a) if isconst(b) and cval(b) & 1 else ((tm("op", "xor", a, b), 0),)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "and", "or", "xor", "shl", "lshr", "ashr", "urem", "srem"):
            env[I.id] = A.arith(op, V(0), V(1), n)
        elif op == "extractvalue":
            x = A.val(st, I.ops[0], 17)
            J = A.F.insts.get(I.ops[0][1]) if I.ops[0][0] == "v" else None
            ty = J.ty if J is not None else ""
            parts = [p.strip() for p in ty.strip("{} ").split(",")]
            off = sum(A.size(p) for p in parts[:I.d["idx"][0]])
            env[I.id] = x[off:off + A.size(parts[I.d["idx"][0]])]
        elif op == "insertvalue":
            env[I.id] = whole(tm("iv", I.id), max(n, 1))
        elif op == "cmpxchg":
            return A.cas(I, st)
        elif op == "atomicrmw":
            addr, tag = V(0, 8), A.tag(I.ops[0], I)
            A.spec.on_rmw(A, st, I, addr, tag)
            env[I.id] = whole(A.fresh(st, tm("obs", I.id, tag, addr)), n)
        elif op in ("call", "invoke"):
            return A.call(I, st)
        elif n:
            env[I.id] = whole(A.fresh(st, tm("any", I.id)), n)
        return [st]

    def neg(A, c):
        t = c[0][0]
        if t[0] == "k":
            return const(1 - (t[1] & 1), 1)
        if t[0] == "not":
            return ((t[1], 0),)
        if t[0] == "cmp" and t[1] in ("eq", "ne"):
            return ((tm("cmp", "ne" if t[1] == "eq" else "eq", t[2], t[3]), 0),)
        return ((tm("not", t), 0),)

    def arith(A, op, x, y, n):
        x, y = x[:n], y[:n]
        if isconst(x) and isconst(y) and op in ("add", "sub", "mul"):
            a, b = cval(x), cval(y)
            return const({"add": a + b, "sub": a - b, "mul": a * b}[op] & ((1 << 8 * n) - 1), n)
        if op == "sub" and isconst(y):
            op, y = "add", const(-cval(y) & ((1 << 8 * n) - 1), n)
        if op == "add" and isconst(x):
            x, y = y, x
        if op == "add" and isconst(y):
            c = cval(y)
            c -= (1 << 8 * n) if c >> (8 * n - 1) else 0
            t = term(x)
            if t is not None and t[0] == "add" and len(x) == n:
                x, c = t[1], c + t[2]
            if c == 0:
                return x
            return whole(tm("add", x, c), n)
        if op in ("shl", "lshr", "ashr") and isconst(y) and cval(y) % 8 == 0 and op != "ashr":
            k = cval(y) // 8
            return (const(0, k) + x)[:n] if op == "shl" else x[k:] + const(0, k)
        if op == "or":
            out = []
            for p, q in zip(x, y):
                if p == K0:
                    out.append(q)
                elif q == K0:
                    out.append(p)
                else:
                    out.append((tm("op", "or", p, q), 0))
            return tuple(out)
        if op == "and" and (isconst(y) or isconst(x)):
            if isconst(x):
                x, y = y, x
            return tuple(p if q[0][1] == 255 else K0 if q[0][1] == 0 else (tm("op", "and", p, q), 0) for p, q in zip(x, y))
        return whole(tm("op", op, x, y), n)

    def tag(A, o, I=None):
        """(struct, field) of an address: the field an exchange works on it lies in, else the last on the way to it."""
        tags, d = [], 0
        while o and d < 12:
            d += 1
            steps = None
            if o[0] == "gep":
                steps, nx = o[2], o[1]
            elif o[0] == "v":
                J = A.F.insts.get(o[1])
                if J is None:
                    break
                if J.op == "getelementptr":
                    steps, nx = J.d["steps"], J.ops[0]
                elif J.op in ("bitcast", "freeze", "addrspacecast"):
                    o = J.ops[0]
                    continue
                else:
                    break
            elif o[0] == "g":
                tags.append(("g", o[1]))
                break
            else:
                break
            for x in reversed(steps):
                if x[0] == "f":
                    tags.append((x[1], x[3]))
            o = nx
        for t in tags:
            if t in A.cased:
                return t
        if tags and tags[0][0] != "anon":
            return tags[0]
        if I is not None and I.d.get("tag"):
            return tuple(I.d["tag"])
        return tags[0] if tags else None

    def cas(A, I, st):
        addr = A.val(st, I.ops[0])
        tag = A.tag(I.ops[0], I)
        n = A.size(I.ty) - 1
        exp, new = A.val(st, I.ops[1], n), A.val(st, I.ops[2], n)
        if I.ops[1][0] in "nz":
            exp = const(0, n)
        if I.ops[2][0] in "nz":
            new = const(0, n)
        s2 = st.copy()
        out = []
        exp1, new1 = exp, new
        if A.spec.on_cas(A, st, I, addr, tag, exp1, new1, True) is not False:
            st.env[I.id] = exp1 + const(1, 1)
            st.trace = (st.trace + ("%d:exchanged" % I.loc[0][1],))[-14:]
            out.append(st)
        t = A.fresh(s2, tm("casobs", I.id, tag, addr))
        s2.env[I.id] = whole(t, n) + const(0, 1)
        exp2 = subst(exp, t, tm("old", t))
        a, b = sorted((strip(whole(t, n)), strip(exp2)), key=str)
        s2.facts.add(("eq", a, b, False))
        s2.trace = (s2.trace + ("%d:lost" % I.loc[0][1],))[-14:]
        if A.spec.on_cas(A, s2, I, addr, tag, exp2, subst(new, t, tm("old", t)), False) is not False:
            out.append(s2)
        return out

    def call(A, I, st):
        c = I.d["callee"]
        n = A.size(I.ty)
        args = [A.val(st, o) for o in I.ops]
        name = c[1] if c[0] == "f" else None
        if name and name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stack")):
            return [st]
        if name and name.startswith("llvm.mem"):
            k = cval(args[2]) if isconst(args[2]) else None
            if name.startswith("llvm.memset"):
                if k is not None and isconst(args[1]):
                    A.store(st, I, args[0], tuple(args[1][:1]) * k, A.tag(I.ops[0]), silent=A.local(st, args[0]) is not None)
                return [st]
            if k is None:
                return [st]
            v = A.load(st, I, args[1], k, A.tag(I.ops[1]))
            A.store(st, I, args[0], v, A.tag(I.ops[0]))
            return [st]
        slot = None
        if name is None:
            f = term(A.val(st, c)) if c[0] == "v" else None
            if f is not None and f[0] in ("ld", "obs"):
                slot = f[1] if f[0] == "ld" else f[2]
                if slot is None and term(f[2]) and term(f[2])[0] == "g":
                    slot = ("g", term(f[2])[1])
        kind = name or slot
        r = A.spec.on_call(A, st, I, kind, args)
        if r is False:
            return []
        if r != "quiet":
            # the callee may change what it can reach
            for key in list(st.mem):
                if not A.fresh_obj(key[0]):
                    st.mem.pop(key)
        if n:
            al = kind and kind[0] == "g" and "Malloc" in kind[1]
            t = A.fresh(st, tm("new" if al else "call", I.id, *((name,) if name else ())))
            st.env[I.id] = whole(t, n)
            A.spec.after_call(A, st, I, kind, args, st.env[I.id])
        return [st]


class Spec:
    """What is required of one function; found is shared."""
    FORGETS = False

    def __init__(p, found, info):
        p.found, p.info = found, info

    def report(p, A, st, I, rule, subject, msg):
        p.found.setdefault((rule, A.F.name, subject), {
            "rule": rule, "function": A.F.name, "file": A.F.file, "line": I.loc[0][1] if I is not None and I.loc else A.F.line,
            "message": msg, "path": list(st.trace)})

    def count(p, k, n=1):
        p.info[k] = p.info.get(k, 0) + n

    def on_entry(p, A, st): pass
    def on_obs(p, A, st, I, addr, tag, v): pass
    def on_load(p, A, st, I, addr, tag, v): pass
    def on_store(p, A, st, I, addr, v, tag): pass
    def on_rmw(p, A, st, I, addr, tag): pass
    def on_cas(p, A, st, I, addr, tag, exp, new, ok): pass
    def on_call(p, A, st, I, kind, args): pass
    def after_call(p, A, st, I, kind, args, v): pass
    def on_exit(p, A, st, I, v): pass
