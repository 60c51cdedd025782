"""Shape analysis: interprets loop-free code over shape graphs.

The heap a function starts with is not given: what it reads is named when it is first read
(null, a node already named, or a new one, wherever the invariants of the structure allow),
so the finitely many graphs cover lists of any length. Values are pointers to named
objects, null, constants and expressions over what was read."""
import re
from ir import EngineError

NULL = ("n",)


def ptr(o, off=0):
    return ("p", o, off)


def num(k, bits=64):
    return ("i", k & ((1 << bits) - 1), bits)


def sym(name, delta=0, bits=64):
    return ("s", name, delta, bits)


def signed(k, bits):
    return k - (1 << bits) if k >> (bits - 1) else k


def parts(v):
    """Every expression within a value."""
    yield v
    for x in v[1:]:
        if isinstance(x, tuple):
            yield from parts(x)


class Drop(Exception):
    pass


class State:
    __slots__ = ("H", "I0", "rng", "rel", "info", "trace")

    def __init__(s):
        s.H, s.I0, s.rng, s.rel, s.info, s.trace = {}, {}, {}, {}, {}, ()

    def copy(s):
        n = State()
        n.H, n.I0, n.rng, n.rel, n.info, n.trace = dict(s.H), dict(s.I0), dict(s.rng), dict(s.rel), dict(s.info), s.trace
        return n


class Interp:
    MAXPATHS = 4000
    LOOPS = 3

    def __init__(A, m, spec):
        A.m, A.spec = m, spec
        A.paths = A.steps = A.cut = 0

    def off(A, struct, field):
        for f in A.m.structs[struct]["fields"]:
            if f[0] == field:
                return f[1]
        raise EngineError("%s has no member %s any more" % (struct, field))

    # ------------------------------------------------------------ values
    def bits(A, ty):
        mm = re.match(r"i(\d+)$", ty or "")
        return int(mm.group(1)) if mm else 64

    def val(A, env, o):
        k = o[0]
        if k == "v":
            return env.get(o[1], ("x", o[1]))
        if k == "c":
            return num(o[1], o[2])
        if k == "n":
            return NULL
        if k == "z":
            return num(0)
        if k == "gep":
            v = A.val(env, o[1])
            return A.gep(v, [(s, A.val(env, s[1]) if s[0] in "pi" else None) for s in o[2]], None, None)
        if k in ("g", "f"):
            return ptr("@" + o[1])
        return ("x", str(o)[:60])

    def gep(A, v, steps, st, I):
        off, idx = 0, []
        for s, ix in steps:
            if s[0] == "f":
                off += s[2]
            elif ix[0] == "i":
                off += signed(ix[1], ix[2]) * s[2]
            else:
                idx.append((ix, s[2], s[3] if len(s) > 3 else None))
        if v[0] != "p":
            return ("e", "gep", v, off, tuple(idx))
        if idx and st is not None:
            r = A.spec.index(A, st, I, v, idx)
            if r is not None:
                return ptr(r[1], r[2] + off)
        if idx:
            return ptr((v[1], v[2], tuple(idx)), off)
        return ptr(v[1], v[2] + off)

    def cmp(A, st, p, x, y):
        """True, False or None."""
        if x == y and x[0] != "x":
            return p in ("eq", "ule", "uge", "sle", "sge")
        if x[0] == "i" and y[0] == "n" or x[0] == "n" and y[0] == "i":
            x, y = (num(0) if v[0] == "n" else v for v in (x, y))
        if x[0] == "i" and y[0] == "i":
            a, b = (x[1], y[1]) if p[0] != "s" else (signed(x[1], x[2]), signed(y[1], y[2]))
            return {"eq": a == b, "ne": a != b}.get(p, {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(p[1:]))
        if x[0] in "np" and y[0] in "np" and p in ("eq", "ne"):
            if x[0] == y[0] == "p":
                d = A.spec.distinct(A, st, x, y)
                return None if d is None else (not d if p == "eq" else d)
            return p == "ne"
        if y[0] == "s" and x[0] == "i":
            x, y, p = y, x, {"eq": "eq", "ne": "ne"}.get(p, p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p[1:], ""))
        if x[0] == "s" and y[0] == "i":
            lo, hi = st.rng.get(x[1], (None, None))
            k = signed(y[1], y[2]) - x[2]
            if lo is None:
                return st.rel.get((p, x, y))
            if p in ("eq", "ne"):
                if k < lo or (hi is not None and k > hi):
                    return p == "ne"
                if lo == hi == k:
                    return p == "eq"
                return None
            q = p[1:]
            if p[0] == "u" and lo + x[2] < 0:
                return None
            t = {"lt": (hi is not None and hi < k, lo >= k), "le": (hi is not None and hi <= k, lo > k),
                 "gt": (lo > k, hi is not None and hi <= k), "ge": (lo >= k, hi is not None and hi < k)}[q]
            return True if t[0] else False if t[1] else None
        return st.rel.get((p, x, y))

    NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
    SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}

    def assume(A, st, c, val):
        """Take the condition as decided; False when it cannot be."""
        if c[0] == "i":
            return bool(c[1] & 1) == val
        if c[0] == "not":
            return A.assume(st, c[1], not val)
        if c[0] in ("and", "or"):
            if (c[0] == "and") == val:
                return A.assume(st, c[1], val) and A.assume(st, c[2], val)
            return True
        if c[0] != "cmp":
            k = ("t", c, None)
            if k in st.rel:
                return st.rel[k] == val
            st.rel[k] = val
            return True
        p, x, y = c[1:]
        t = A.cmp(st, p, x, y)
        if t is not None:
            return t == val
        if not val:
            p = A.NEG[p]
        for q, a, b in ((p, x, y), (A.SWAP[p], y, x)):
            st.rel[(q, a, b)] = True
            st.rel[(A.NEG[q], a, b)] = False
            if q[1:] in ("lt", "gt"):
                st.rel[(q[0] + q[1] + "e", a, b)] = True
                st.rel[("eq", a, b)] = False
                st.rel[("ne", a, b)] = True
        if y[0] == "s" and x[0] == "i":
            x, y, p = y, x, A.SWAP[p]
        if x[0] == "s" and y[0] == "i" and x[1] in st.rng:
            lo, hi = st.rng[x[1]]
            k = signed(y[1], y[2]) - x[2]
            if p == "eq":
                lo = hi = k
            elif p == "ne":
                lo, hi = (lo + 1, hi) if k == lo else (lo, hi - 1) if k == hi else (lo, hi)
            elif p[1:] == "lt":
                hi = k - 1 if hi is None else min(hi, k - 1)
            elif p[1:] == "le":
                hi = k if hi is None else min(hi, k)
            elif p[1:] == "gt":
                lo = max(lo, k + 1)
            elif p[1:] == "ge":
                lo = max(lo, k)
            if hi is not None and lo > hi:
                return False
            st.rng[x[1]] = (lo, hi)
        return A.spec.assumed(A, st, p, x, y)

    def arith(A, op, x, y, bits):
        if x[0] == "i" and y[0] == "i":
            a, b = x[1], y[1]
            r = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}.get(op)
            if r is not None:
                return num(r, bits)
        if op == "xor" and bits == 1 and (x[0] == "i" or y[0] == "i"):
            c, o = (x, y) if x[0] == "i" else (y, x)
            return ("not", o) if c[1] & 1 else o
        if bits == 1 and op in ("and", "or"):
            for a, b in ((x, y), (y, x)):
                if a[0] == "i":
                    return b if bool(a[1] & 1) == (op == "and") else a
            return (op, x, y)
        if op == "add" and x[0] == "i":
            x, y = y, x
        if op in ("add", "sub") and y[0] == "i" and x[0] == "s":
            k = signed(y[1], y[2])
            return ("s", x[1], x[2] + (k if op == "add" else -k), bits)
        return ("e", op, x, y, bits)

    # ------------------------------------------------------------ running
    def run(A, F, args, st, depth=0):
        """[(state, returned value)] of a call."""
        if depth > 6:
            raise Drop()
        env0 = {}
        for a, v in zip(F.args, args):
            env0[a["id"]] = v
        entry = next(iter(F.blocks.values())).id
        work = [(entry, None, env0, st, {})]
        out = []
        while work:
            bid, pred, env, s, seen = work.pop()
            n = seen.get(bid, 0)
            if n >= A.LOOPS:
                A.cut += 1
                continue
            seen = dict(seen)
            seen[bid] = n + 1
            B = F.blocks[bid]
            new = {}
            for I in B.insts:
                if I.op != "phi":
                    break
                for p, o in I.d["in"]:
                    if p == pred:
                        new[I.id] = A.val(env, o)
            env = dict(env)
            env.update(new)
            for env2, s2, kind, x in A.block(F, B, env, s, depth):
                if kind == "ret":
                    out.append((s2, x))
                    if len(out) > A.MAXPATHS:
                        raise EngineError("too many paths through %s" % F.name)
                else:
                    work.append((x, bid, env2, s2, seen))
        return out

    def block(A, F, B, env, st, depth):
        todo = [(env, st, 0)]
        insts = B.insts
        out = []
        while todo:
            env, st, k = todo.pop()
            done = False
            while k < len(insts):
                I = insts[k]
                k += 1
                if I.op == "phi":
                    continue
                A.steps += 1
                if I.op == "ret":
                    out.append((env, st, "ret", A.val(env, I.ops[0]) if I.ops else None))
                    done = True
                    break
                if I.op == "unreachable":
                    done = True
                    break
                if I.op in ("br", "switch"):
                    out += A.branch(F, I, env, st)
                    done = True
                    break
                r = A.step(F, I, env, st, depth)
                if r is None:
                    continue
                for j, (s2, v) in enumerate(r):
                    e2 = dict(env)
                    e2[I.id] = v
                    todo.append((e2, s2, k))
                done = True
                break
            if not done:
                raise EngineError("block without an end in %s" % F.name)
        return out

    def branch(A, F, I, env, st):
        succ = I.d["succ"]
        if I.op == "switch" or len(succ) == 1:
            if I.op == "switch":
                v = A.val(env, I.ops[0])
                out = []
                for t in dict.fromkeys(succ):
                    s = st.copy()
                    out.append((env, s, "br", t))
                return out
            return [(env, st, "br", succ[0])]
        c = A.cond(env, st, A.val(env, I.ops[0]))
        out = []
        for t, val in ((succ[0], True), (succ[1], False)):
            s = st.copy()
            if A.assume(s, c, val):
                if I.loc and c[0] != "i":
                    s.trace = (s.trace + ("%d:%s" % (I.loc[0][1], "yes" if val else "no"),))[-16:]
                out.append((env, s, "br", t))
        return out

    def cond(A, env, st, c):
        if c[0] == "cmp":
            t = A.cmp(st, *c[1:])
            if t is not None:
                return num(int(t), 1)
        return c

    def step(A, F, I, env, st, depth):
        op = I.op
        V = lambda k: A.val(env, I.ops[k])
        if op == "alloca":
            env[I.id] = ptr("local:%s:%d:%d" % (F.name, I.id, depth))
        elif op == "getelementptr":
            env[I.id] = A.gep(V(0), [(s, A.val(env, s[1]) if s[0] in "pi" else None) for s in I.d["steps"]], st, I)
        elif op == "load":
            a = V(0)
            tag = tuple(I.d["tag"]) if I.d.get("tag") else None
            if a[0] != "p":
                if a[0] == "n":
                    raise_null(A, st, I, F)
                    return []
                env[I.id] = ("x", I.id)
                return None
            k = (a[1], a[2])
            if k in st.H:
                env[I.id] = st.H[k]
                return None
            r = A.spec.initial(A, st, I, a[1], a[2], tag, I.ty)
            if len(r) == 1:
                r[0][0] is st
                env[I.id] = r[0][1]
                return None if r[0][0] is st else r
            return r
        elif op == "store":
            a, v = V(1), V(0)
            if a[0] == "n":
                raise_null(A, st, I, F)
                return []
            if a[0] == "p":
                A.spec.stored(A, st, I, a[1], a[2], v, tuple(I.d["tag"]) if I.d.get("tag") else None)
                st.H[(a[1], a[2])] = v
        elif op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
            env[I.id] = V(0)
        elif op in ("zext", "sext", "trunc"):
            v = V(0)
            b = A.bits(I.ty)
            if v[0] == "i":
                k = signed(v[1], v[2]) if op == "sext" else v[1]
                env[I.id] = num(k, b)
            elif v[0] == "s" and op != "trunc":
                env[I.id] = ("s", v[1], v[2], b) if v[1] in st.rng else v if op == "sext" else ("e", op, v, b)
            elif v[0] in ("cmp", "not", "and", "or"):
                env[I.id] = v
            else:
                env[I.id] = ("e", op, v, b)
        elif op == "icmp":
            x, y = V(0), V(1)
            p = I.d["pred"]
            if x[0] in ("cmp", "not") and y[0] == "i" and p in ("eq", "ne"):
                env[I.id] = x if (p == "ne") == (y[1] == 0) else ("not", x)
            else:
                t = A.cmp(st, p, x, y)
                env[I.id] = num(int(t), 1) if t is not None else ("cmp", p, x, y)
        elif op == "select":
            c = A.cond(env, st, V(0))
            out = []
            for val, k in ((True, 1), (False, 2)):
                s = st.copy()
                if A.assume(s, c, val):
                    out.append((s, V(k)))
            return out
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "and", "or", "xor", "shl", "lshr", "ashr", "urem", "srem"):
            env[I.id] = A.arith(op, V(0), V(1), A.bits(I.ty))
        elif op == "atomicrmw":
            a = V(0)
            A.spec.rmw(A, st, I, a, V(1))
            env[I.id] = ("x", I.id)
        elif op in ("call", "invoke"):
            return A.call(F, I, env, st, depth)
        elif I.ty != "void":
            env[I.id] = ("x", I.id)
        return None

    def call(A, F, I, env, st, depth):
        c = I.d["callee"]
        args = [A.val(env, o) for o in I.ops]
        name, slot = None, None
        if c[0] == "f":
            name = c[1]
            if name.startswith("llvm."):
                if "memcpy" in name or "memset" in name or "memmove" in name:
                    A.spec.block_write(A, st, I, name, args)
                env[I.id] = args[0] if args else ("x", I.id)
                return None
        elif c[0] == "v":
            J = F.insts.get(c[1])
            if J is not None and J.op == "load":
                if J.d.get("tag"):
                    slot = tuple(J.d["tag"])
                elif J.ops[0][0] == "g":
                    slot = ("g", J.ops[0][1])
        r = A.spec.call(A, st, I, name, slot, args)
        if r is not None:
            return r
        G = A.m.funcs.get(name) if name else None
        if G is not None and not G.decl:
            return A.run(G, args, st, depth + 1)
        env[I.id] = ("x", I.id)
        return None


def raise_null(A, st, I, F):
    A.spec.null_access(A, st, I, F)


class Spec:
    def __init__(p, found, info):
        p.found, p.info = found, info
        p.F = None

    def report(p, st, I, rule, subject, msg):
        k = (rule, p.F.name, subject)
        if k not in p.found:
            loc = I.loc[0] if I is not None and I.loc else (p.F.file, p.F.line, p.F.name)
            p.found[k] = {"rule": rule, "function": p.F.name, "file": loc[0], "line": loc[1], "message": msg, "path": list(st.trace)}

    def count(p, k, n=1):
        p.info[k] = p.info.get(k, 0) + n

    def index(p, A, st, I, v, idx): return None
    def distinct(p, A, st, x, y):
        return True if x[1] != y[1] or x[2] != y[2] else False
    def assumed(p, A, st, pred, x, y): return True
    def initial(p, A, st, I, o, off, tag, ty):
        """The value of a place the function has not written: named after the place."""
        if ty == "ptr":
            return [(st, ptr("%s.%s" % (o, off)))]
        return [(st, sym("%s.%s" % (o, off), 0, A.bits(ty)))]
    def stored(p, A, st, I, o, off, v, tag): pass
    def rmw(p, A, st, I, a, v): pass
    def call(p, A, st, I, name, slot, args): return None
    def block_write(p, A, st, I, name, args): pass
    def null_access(p, A, st, I, F): pass
