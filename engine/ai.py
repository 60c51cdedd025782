"""Disjunctive abstract interpreter over the resolved program (ir.py).

Property simulation: an abstract state is a symbolic store (linear forms over
atoms), interval / linear-inequality facts and a finite typestate owned by the
property ("policy").  States with equal typestate are joined when there are too
many of them, loop heads are widened, and the analysis runs to a fixpoint, so
every path of the function is covered.  Nothing is executed and no solver is
called: entailment is interval evaluation plus bounded fact combination.
"""
import math
import heapq
from ir import EngineError, locstr, srcfunc

INF = None
ZERO = (0, ())
ONE = (1, ())
EXC_T = "fiftyone_degrees_exception_t"


# ---------------------------------------------------------------- linear forms
def atom(a):
    return (0, ((a, 1),))


def const(c):
    return (c, ())


def ladd(a, b, k=1):
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for t, c in b[1]:
        n = d.get(t, 0) + k * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def lneg(a):
    return lscale(a, -1)


def islin(v):
    return type(v) is tuple and len(v) == 2 and type(v[0]) is int


def isbool(v):
    return type(v) is tuple and v and v[0] == "b"


def common(L):
    g = 0
    for _, c in L[1]:
        g = math.gcd(g, c)
        if g == 1:
            break
    return g


def tight(L):
    """L <= 0 over the integers."""
    g = common(L)
    if g > 1:
        return (-((-L[0]) // g), tuple((a, c // g) for a, c in L[1]))
    return L


def atoms_of(v, acc=None):
    """All atoms of a value."""
    if acc is None:
        acc = set()
    if islin(v):
        for t, _ in v[1]:
            acc.add(t)
    elif type(v) is tuple:
        for x in v[1:]:
            if type(x) is tuple:
                atoms_of(x, acc)
    return acc


def subst(v, m):
    """Substitute atoms by linear forms (None = unknown -> returns None)."""
    if islin(v):
        hit = False
        for t, _ in v[1]:
            if t in m:
                hit = True
                break
        if not hit:
            return v
        r = (v[0], ())
        for t, c in v[1]:
            if t in m:
                x = m[t]
                if x is None:
                    return None
                r = ladd(r, x, c)
            else:
                r = ladd(r, ((0, ((t, 1),))), c)
        return r
    if type(v) is tuple:
        out = []
        for x in v:
            if type(x) is tuple:
                y = subst(x, m)
                if y is None:
                    return None
                out.append(y)
            else:
                out.append(x)
        return tuple(out)
    return v


NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
        "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


class St:
    """Abstract state."""
    __slots__ = ("env", "mem", "rng", "facts", "ne", "bools", "res", "aux", "esc", "trace", "_key")

    def __init__(s):
        s.env = {}      # ssa id -> value
        s.mem = {}      # terms -> {off: (size, val, tag)}; inner "Z": ((off,len),...) zeroed
        s.rng = {}      # atom -> (lo, hi)
        s.facts = frozenset()   # lin <= 0
        s.ne = frozenset()      # lin != 0
        s.bools = {}    # opaque bool -> truth
        s.res = {}      # policy: resource atom -> tuple
        s.aux = {}      # policy: name -> hashable
        s.esc = frozenset()     # escaped local objects
        s.trace = None

    def copy(s):
        n = St.__new__(St)
        n.env = dict(s.env); n.mem = dict(s.mem); n.rng = dict(s.rng)
        n.facts = s.facts; n.ne = s.ne; n.bools = dict(s.bools)
        n.res = dict(s.res); n.aux = dict(s.aux); n.esc = s.esc; n.trace = s.trace
        return n

    def tskey(s):
        return (frozenset(s.res.items()), frozenset(s.aux.items()))

    def fp(s):
        return (frozenset(s.env.items()),
                frozenset((t, frozenset(i.items())) for t, i in s.mem.items()),
                frozenset(s.rng.items()), s.facts, s.ne, frozenset(s.bools.items()),
                frozenset(s.res.items()), frozenset(s.aux.items()), s.esc)


class Dead(Exception):
    """The path is infeasible."""


def int_range(dity, bits):
    if dity:
        if dity.endswith("*") or dity == "fn":
            return (0, 1 << 63)
        if dity == "bool":
            return (0, 1)
        if dity.startswith("u") and dity[1:].isdigit():
            return (0, (1 << int(dity[1:])) - 1)
        if dity.startswith("s") and dity[1:].isdigit():
            n = int(dity[1:])
            return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        if dity.startswith("enum:"):
            return (0, (1 << 31) - 1)
    return None


def ty_bits(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return 64


class Analyzer:
    CAP = 24          # states per block and typestate key before they are joined
    VARIANTS = 3      # loop-head variants per typestate key before widening
    BUDGET = 200000    # block-state visits per function

    def __init__(A, mod, policy, summaries=None):
        A.m = mod
        A.p = policy
        A.sum = summaries or Summaries(mod)
        A.stats = {"functions": 0, "blocks": 0, "visits": 0, "joins": 0, "calls": 0, "accesses": 0,
                   "exits": 0, "states_max": 0, "unanalysed": [], "imprecise": []}

    # ------------------------------------------------------------ atoms
    def mk(A, st, name, lo=None, hi=None, ptr=False, root=None):
        """Introduce atom `name` afresh with its range."""
        A.info[name] = (ptr, root)
        if lo is not None or hi is not None:
            st.rng[name] = (lo, hi)
        else:
            st.rng.pop(name, None)
        return atom(name)

    def mk_ty(A, st, name, ty, dity=None, isptr=None):
        ptr = ty == "ptr" if isptr is None else isptr
        if ptr:
            return A.mk(st, name, 0, None, True)
        r = int_range(dity, ty_bits(ty))
        if r is None:
            if ty == "i1":
                r = (0, 1)
            elif ty == "i8":
                r = (-128, 255)
            else:
                r = (None, None)
        return A.mk(st, name, r[0], r[1])

    def is_ptr(A, a):
        return A.info.get(a, (False, None))[0]

    def arng(A, st, a):
        r = st.rng.get(a)
        if r is not None:
            return r
        if a[0] in "gf" and a[1] == ":":
            return (1, None)
        return A.p.default_rng.get(a[0], (None, None))

    def lo(A, st, L):
        v = L[0]
        for a, c in L[1]:
            l, h = A.arng(st, a)
            x = l if c > 0 else h
            if x is None:
                return None
            v += c * x
        return v

    def hi(A, st, L):
        v = L[0]
        for a, c in L[1]:
            l, h = A.arng(st, a)
            x = h if c > 0 else l
            if x is None:
                return None
            v += c * x
        return v

    def canon(A, st, L):
        """Replace atoms known to be constant."""
        for a, c in L[1]:
            l, h = A.arng(st, a)
            if l is not None and l == h:
                break
        else:
            return L
        r = (L[0], ())
        out = []
        k = L[0]
        for a, c in L[1]:
            l, h = A.arng(st, a)
            if l is not None and l == h:
                k += c * l
            else:
                out.append((a, c))
        return (k, tuple(out))

    def root(A, terms):
        """The pointer atom an address is based on."""
        best = None
        for a, c in terms:
            if c == 1 and A.is_ptr(a):
                if best is not None:
                    return None
                best = a
        return best

    # ------------------------------------------------------------ entailment
    def prove_le0(A, st, L, depth=2):
        L = tight(L)
        h = A.hi(st, L)
        if h is not None and h <= 0:
            return True
        if not L[1]:
            return L[0] <= 0
        if depth == 0:
            return False
        want = dict(L[1])
        for f in st.facts:
            for a, c in f[1]:
                w = want.get(a)
                if w is None or (w > 0) != (c > 0):
                    continue
                if w % c:
                    continue
                k = w // c
                if k <= 0:
                    continue
                R = ladd(L, f, -k)
                h = A.hi(st, R)
                if h is not None and h <= 0:
                    return True
                if depth > 1 and len(R[1]) <= 4:
                    if A.prove_le0(st, R, depth - 1):
                        return True
                break
        return False

    def prove_nonneg(A, st, L):
        l = A.lo(st, L)
        if l is not None and l >= 0:
            return True
        if not L[1]:
            return L[0] >= 0
        return A.prove_le0(st, lneg(L))

    def _signnorm(A, L):
        return L if not L[1] or L[1][0][1] > 0 else lneg(L)

    def cmp_eval(A, st, pred, x, y, bits=64):
        """True / False / None."""
        x = A.canon(st, x); y = A.canon(st, y)
        if pred in ("eq", "ne"):
            D = lsub(x, y)
            if not D[1]:
                d = D[0]
                if d and bits < 64 and not x[1] and not y[1] and d % (1 << bits) == 0:
                    d = 0
                r = d == 0
                return r if pred == "eq" else not r
            l = A.lo(st, D); h = A.hi(st, D)
            if (l is not None and l > 0) or (h is not None and h < 0):
                return pred == "ne"
            g = common(D)
            if g > 1:
                if D[0] % g:
                    return pred == "ne"
                D = (D[0] // g, tuple((a, c // g) for a, c in D[1]))
            if A._signnorm(D) in st.ne:
                return pred == "ne"
            if A.distinct_objects(st, x, y):
                return pred == "ne"
            if A.prove_le0(st, D):
                if A.prove_le0(st, lneg(D)):
                    return pred == "eq"
                if A.prove_le0(st, (D[0] + 1, D[1])):
                    return pred == "ne"
            elif A.prove_le0(st, (1 - D[0], tuple((a, -c) for a, c in D[1]))):
                return pred == "ne"
            return None
        if pred[0] == "u":
            if not x[1] and x[0] < 0:
                x = (x[0] + (1 << bits), ())
            if not y[1] and y[0] < 0:
                y = (y[0] + (1 << bits), ())
            xn = A.prove_nonneg(st, x); yn = A.prove_nonneg(st, y)
            if not (xn and yn):
                return None
        op = pred[1:]
        if op in ("gt", "ge"):
            x, y = y, x
            op = "lt" if op == "gt" else "le"
        D = lsub(x, y)
        if op == "lt":
            if A.prove_le0(st, (D[0] + 1, D[1])):
                return True
            if A.prove_le0(st, lneg(D)):
                return False
        else:
            if A.prove_le0(st, D):
                return True
            if A.prove_le0(st, (1 - D[0], tuple((a, -c) for a, c in D[1]))):
                return False
        return None

    def distinct_objects(A, st, x, y):
        rx = A.root(x[1]); ry = A.root(y[1])
        if rx is None or ry is None or rx == ry:
            return False
        if len(x[1]) != 1 or len(y[1]) != 1:
            return False
        kx = A.okind(rx); ky = A.okind(ry)
        loc = ("al", "h", "g")
        if kx in loc and ky in loc:
            return True
        if kx == "al" and rx not in st.esc and ky == "arg":
            return True
        if ky == "al" and ry not in st.esc and kx == "arg":
            return True
        if (kx == "h" and ky == "arg") or (ky == "h" and kx == "arg"):
            return True
        return False

    def okind(A, a):
        if a.startswith("al"):
            return "al"
        if a.startswith("h"):
            return "h"
        if a.startswith("g:") or a.startswith("f:"):
            return "g"
        if a.startswith("a"):
            return "arg"
        return "x"

    def add_le0(A, st, L):
        """Assume L <= 0 (mutates st; raises Dead)."""
        L = tight(A.canon(st, L))
        if not L[1]:
            if L[0] > 0:
                raise Dead()
            return
        l = A.lo(st, L)
        if l is not None and l > 0:
            raise Dead()
        h = A.hi(st, L)
        if h is not None and h <= 0:
            return
        # propagate to ranges
        for a, c in L[1]:
            rest = (L[0], tuple((b, k) for b, k in L[1] if b != a))
            rl = A.lo(st, rest)
            if rl is None:
                continue
            lo_, hi_ = A.arng(st, a)
            if c > 0:
                b = (-rl) // c
                if hi_ is None or b < hi_:
                    hi_ = b
            else:
                b = -((-rl) // (-c))     # ceil(rl / -c) for a >= rl/-c
                if lo_ is None or b > lo_:
                    lo_ = b
            if lo_ is not None and hi_ is not None and lo_ > hi_:
                raise Dead()
            st.rng[a] = (lo_, hi_)
        if len(L[1]) > 1:
            st.facts = st.facts | {L}
            if len(st.facts) > 60:
                st.facts = frozenset(sorted(st.facts, key=repr)[:60])
        A.tighten_ne(st)

    def tighten_ne(A, st):
        if not st.ne:
            return
        for D in st.ne:
            if len(D[1]) == 1 and abs(D[1][0][1]) == 1:
                a, c = D[1][0]
                v = -D[0] * c
                l, h = A.arng(st, a)
                if l is not None and l == v:
                    l += 1
                elif h is not None and h == v:
                    h -= 1
                else:
                    continue
                if l is not None and h is not None and l > h:
                    raise Dead()
                st.rng[a] = (l, h)

    def add_ne0(A, st, D):
        D = A.canon(st, D)
        if not D[1]:
            if D[0] == 0:
                raise Dead()
            return
        g = common(D)
        if g > 1:
            if D[0] % g:
                return
            D = (D[0] // g, tuple((a, c // g) for a, c in D[1]))
        D = A._signnorm(D)
        st.ne = st.ne | {D}
        # a limit already known is not reached
        if D in st.facts:
            st.facts = st.facts | {ladd(D, ONE)}
        else:
            E = lscale(D, -1)
            if E in st.facts:
                st.facts = st.facts | {ladd(E, ONE)}
        A.tighten_ne(st)

    def add_eq0(A, st, D):
        D = A.canon(st, D)
        if not D[1]:
            if D[0]:
                raise Dead()
            return
        g = common(D)
        if g > 1:
            if D[0] % g:
                raise Dead()
            D = (D[0] // g, tuple((a, c // g) for a, c in D[1]))
        if A._signnorm(D) in st.ne:
            raise Dead()
        if len(D[1]) == 1:
            a, c = D[1][0]
            if D[0] % c:
                raise Dead()
            v = -D[0] // c
            l, h = A.arng(st, a)
            if (l is not None and v < l) or (h is not None and v > h):
                raise Dead()
            st.rng[a] = (v, v)
            for N in st.ne:
                N2 = A.canon(st, N)
                if not N2[1] and N2[0] == 0:
                    raise Dead()
            for F in st.facts:
                F2 = A.canon(st, F)
                l = A.lo(st, F2)
                if l is not None and l > 0:
                    raise Dead()
            return
        A.add_le0(st, D)
        A.add_le0(st, lneg(D))

    def assume(A, st, b, truth):
        """States in which boolean value b has the given truth."""
        if islin(b):
            b = A.canon(st, b)
            if not b[1]:
                return [st] if (b[0] != 0) == truth else []
            b = ("b", "cmp", "ne", b, ZERO, 64)
        k = b[1]
        if k == "not":
            return A.assume(st, b[2], not truth)
        if k == "and" or k == "or":
            if (k == "and") == truth:
                out = []
                for s in A.assume(st, b[2], truth):
                    out += A.assume(s, b[3], truth)
                return out
            s2 = st.copy()
            out = A.assume(st, b[2], truth)
            for s in A.assume(s2, b[2], not truth):
                out += A.assume(s, b[3], truth)
            return out
        if k == "opq":
            old = st.bools.get(b)
            if old is not None:
                return [st] if old == truth else []
            st.bools[b] = truth
            return [st]
        # cmp
        _, _, pred, x, y, bits = b
        if not truth:
            pred = NEGP[pred]
        r = A.cmp_eval(st, pred, x, y, bits)
        if r is not None:
            return [st] if r else []
        nb = ("b", "cmp", pred, x, y, bits)
        old = st.bools.get(nb)
        if old is False:
            return []
        try:
            x = A.canon(st, x); y = A.canon(st, y)
            if pred == "eq":
                if not y[1] and y[0] < 0 and bits < 64 and A.prove_nonneg(st, x):
                    y = (y[0] + (1 << bits), ())
                A.add_eq0(st, lsub(x, y))
            elif pred == "ne":
                if not y[1] and y[0] < 0 and bits < 64 and A.prove_nonneg(st, x):
                    y = (y[0] + (1 << bits), ())
                A.add_ne0(st, lsub(x, y))
            else:
                if pred[0] == "u":
                    if not x[1] and x[0] < 0:
                        x = (x[0] + (1 << bits), ())
                    if not y[1] and y[0] < 0:
                        y = (y[0] + (1 << bits), ())
                    xn = A.prove_nonneg(st, x); yn = A.prove_nonneg(st, y)
                    if not (xn and yn):
                        # x <u y with y >= 0 implies 0 <= x < y
                        if pred in ("ult", "ule") and yn and bits >= 32:
                            A.add_le0(st, lneg(x))
                        elif pred in ("ugt", "uge") and xn and bits >= 32:
                            A.add_le0(st, lneg(y))
                        else:
                            st.bools[nb] = True
                            st.bools[("b", "cmp", NEGP[pred], b[3], b[4], bits)] = False
                            return [st]
                op = pred[1:]
                if op in ("gt", "ge"):
                    x, y = y, x
                    op = "lt" if op == "gt" else "le"
                D = lsub(x, y)
                if op == "lt":
                    D = (D[0] + 1, D[1])
                A.add_le0(st, D)
        except Dead:
            return []
        A.p.on_assume(A, st, b, truth)
        return [st]

    # ------------------------------------------------------------ values
    def val(A, st, o):
        k = o[0]
        if k == "v":
            v = st.env.get(o[1])
            if v is None:
                I = A.f.insts.get(o[1])
                ty = I.ty if I is not None else "ptr"
                v = A.mk_ty(st, "v%d" % o[1], ty, A.f.vtys.get(o[1]))
                st.env[o[1]] = v
            return v
        if k == "c":
            c = o[1]
            if o[2] == 1 and c:
                c = 1
            return (c, ())
        if k == "n" or k == "z":
            return ZERO
        if k == "f":
            A.info["f:" + o[1]] = (True, None)
            return atom("f:" + o[1])
        if k == "g":
            A.info["g:" + o[1]] = (True, None)
            return atom("g:" + o[1])
        if k == "gep":
            return A.gep(st, A.val(st, o[1]), o[2])
        if k == "u":
            return A.mk(st, "undef", None, None)
        if k == "ce":
            if o[1] in ("ptrtoint", "inttoptr", "bitcast", "zext", "sext", "addrspacecast"):
                return A.val(st, o[2][0])
        n = "k:" + repr(o)
        A.info[n] = (False, None)
        return atom(n)

    def lin(A, st, v, name):
        """Coerce a value to a linear form."""
        if islin(v):
            return v
        if isbool(v):
            t = A.truth(st, v)
            if t is not None:
                return ONE if t else ZERO
            return A.mk(st, "b" + name, 0, 1)
        return A.mk(st, "x" + name, None, None)

    def truth(A, st, b):
        if islin(b):
            b = A.canon(st, b)
            if not b[1]:
                return b[0] != 0
            b = ("b", "cmp", "ne", b, ZERO, 64)
        k = b[1]
        if k == "not":
            t = A.truth(st, b[2])
            return None if t is None else not t
        if k in ("and", "or"):
            x = A.truth(st, b[2]); y = A.truth(st, b[3])
            if k == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        if k == "opq":
            return st.bools.get(b)
        r = A.cmp_eval(st, b[2], b[3], b[4], b[5])
        if r is None:
            r = st.bools.get(b)
        return r

    def gep(A, st, base, steps):
        if not islin(base):
            base = A.lin(st, base, "gep")
        r = base
        for s in steps:
            if s[0] == "f":
                r = (r[0] + s[2], r[1])
            else:
                ix = A.val(st, s[1])
                if not islin(ix):
                    ix = A.lin(st, ix, "ix")
                ix = A.canon(st, ix)
                r = ladd(r, ix, s[2])
        return r

    def itag(A, I, k):
        """(struct, field) accessed by a load/store/atomic instruction."""
        t = I.d.get("tag")
        return tuple(t) if t else A.tag(I.ops[k])

    def tag(A, o, depth=0):
        """(struct, field) the pointer operand denotes, syntactically."""
        if o[0] == "gep":
            for s in reversed(o[2]):
                if s[0] == "f":
                    return (s[1], s[3])
            return A.tag(o[1], depth + 1)
        if o[0] == "g":
            return ("g", o[1])
        if o[0] != "v" or depth > 6:
            return None
        I = A.f.insts.get(o[1])
        if I is None:
            return None
        if I.op == "getelementptr":
            for s in reversed(I.d["steps"]):
                if s[0] == "f":
                    return (s[1], s[3])
            return A.tag(I.ops[0], depth + 1)
        if I.op == "alloca":
            return ("al", o[1])
        return None

    # ------------------------------------------------------------ memory
    def may_alias(A, st, r1, r2):
        if r1 == r2:
            return True
        if r1 is None or r2 is None:
            o = r1 or r2
            if o is None:
                return True
            return not (A.okind(o) == "al" and o not in st.esc)
        k1 = A.okind(r1); k2 = A.okind(r2)
        if k1 == "al":
            if k2 in ("al", "h", "g", "arg"):
                return False
            return r1 in st.esc
        if k2 == "al":
            if k1 in ("h", "g", "arg"):
                return False
            return r2 in st.esc
        if k1 in ("h", "g") and k2 in ("h", "g"):
            return False
        if (k1 == "h" and k2 == "arg") or (k2 == "h" and k1 == "arg"):
            return False
        if k1 == "h":
            return r1 in st.esc
        if k2 == "h":
            return r2 in st.esc
        return True

    def tags_compat(A, t1, y1, t2, y2):
        if t1 is not None and t2 is not None:
            if t1[0] != "g" and t2[0] != "g":
                return t1 == t2
            return t1 == t2
        # an untagged access aliases fields of its own scalar type only
        if y1 and y2 and y1 != y2:
            return False
        return True

    def load(A, st, inst, addr, size, ty, tag, dity=None):
        addr = A.canon(st, addr)
        inner = st.mem.get(addr[1])
        if inner is not None:
            e = inner.get(addr[0])
            if e is not None and e[0] == size:
                return e[1]
            if e is None:
                for z in inner.get("Z", ()):
                    if z[0] <= addr[0] and addr[0] + size <= z[0] + z[1]:
                        return ZERO
        g = A.const_global_load(st, addr, size)
        if g is not None:
            return g
        name = "l%d" % inst.id
        if A.root_uninit(st, addr):
            name = "u%d" % inst.id
        v = A.mk_ty(st, name, ty, dity)
        A.p.on_fresh_load(A, st, inst, addr, tag, v, dity)
        A.put(st, addr, size, v, tag, ty)
        return v

    def root_uninit(A, st, addr):
        r = A.root(addr[1])
        return r is not None and r.startswith("al") and r not in st.esc

    def const_global_load(A, st, addr, size):
        if len(addr[1]) != 1 or not addr[1][0][0].startswith("g:"):
            return None
        g = A.m.globals.get(addr[1][0][0][2:])
        if g is None or not g.get("const") or "init" not in g:
            return None
        return None

    def put(A, st, addr, size, v, tag, ty):
        inner = dict(st.mem.get(addr[1]) or {})
        inner[addr[0]] = (size, v, tag, ty)
        st.mem[addr[1]] = inner

    def kill(A, st, addr, size, tag, ty):
        """Forget what a store to addr may overwrite."""
        r1 = A.root(addr[1])
        a0 = addr[0]
        for terms in list(st.mem):
            inner = st.mem[terms]
            if terms == addr[1]:
                dead = [o for o, e in inner.items() if o != "Z" and o < a0 + size and a0 < o + e[0]]
                if dead or "Z" in inner:
                    n = {o: e for o, e in inner.items() if o not in dead}
                    if "Z" in n:
                        n["Z"] = A.cutz(n["Z"], a0, size)
                        if not n["Z"]:
                            del n["Z"]
                    st.mem[terms] = n
                continue
            r2 = A.root(terms)
            if not A.may_alias(st, r1, r2):
                continue
            samer = r1 is not None and r1 == r2
            dead = []
            for o, e in inner.items():
                if o == "Z":
                    continue
                if samer:
                    # same object, different symbolic offset
                    if A.tags_compat(tag, ty, e[2], e[3]):
                        D = lsub((addr[0], addr[1]), (o, terms))
                        # disjoint if provably D >= e.size or D <= -size
                        if A.prove_le0(st, (e[0] - D[0], tuple((a, -c) for a, c in D[1]))) or \
                           A.prove_le0(st, (D[0] + size, D[1])):
                            continue
                        dead.append(o)
                elif A.tags_compat(tag, ty, e[2], e[3]):
                    dead.append(o)
            if dead:
                for o in dead:
                    A.p.on_drop(A, st, terms, inner[o])
                n = {o: e for o, e in inner.items() if o not in dead}
                st.mem[terms] = n

    def cutz(A, zs, off, size):
        out = []
        for (o, n) in zs:
            if off + size <= o or o + n <= off:
                out.append((o, n)); continue
            if o < off:
                out.append((o, off - o))
            if off + size < o + n:
                out.append((off + size, o + n - off - size))
        return tuple(out)

    def store(A, st, inst, addr, size, v, tag, ty):
        addr = A.canon(st, addr)
        A.kill(st, addr, size, tag, ty)
        A.put(st, addr, size, v, tag, ty)
        r = A.root(addr[1])
        if r is None or A.okind(r) != "al" or r in st.esc:
            # storing a local's address outside makes it escape
            for a in atoms_of(v):
                if a.startswith("al") or a.startswith("h"):
                    if r is not None and A.okind(r) == "h" and r not in st.esc:
                        continue
                    A.escape(st, a)

    def escape(A, st, a):
        todo = [a]
        esc = set(st.esc)
        while todo:
            x = todo.pop()
            if x in esc:
                continue
            esc.add(x)
            for terms, inner in st.mem.items():
                if A.root(terms) == x:
                    for o, e in inner.items():
                        if o != "Z":
                            for y in atoms_of(e[1]):
                                if (y.startswith("al") or y.startswith("h")) and y not in esc:
                                    todo.append(y)
        st.esc = frozenset(esc)

    def kill_region(A, st, addr, n):
        """Forget [addr, addr+n) (n: linear form or None)."""
        addr = A.canon(st, addr)
        r1 = A.root(addr[1])
        n = A.canon(st, n) if n is not None else None
        for terms in list(st.mem):
            inner = st.mem[terms]
            if terms == addr[1]:
                if n is not None and not n[1]:
                    dead = [o for o, e in inner.items() if o != "Z" and o < addr[0] + n[0] and addr[0] < o + e[0]]
                else:
                    dead = [o for o, e in inner.items() if o != "Z" and o + e[0] > addr[0]]
                m = {o: e for o, e in inner.items() if o not in dead}
                if "Z" in m:
                    if n is not None and not n[1]:
                        z = A.cutz(m["Z"], addr[0], n[0])
                    else:
                        z = tuple((o, min(k, addr[0] - o)) for o, k in m["Z"] if o < addr[0])
                    if z:
                        m["Z"] = z
                    else:
                        del m["Z"]
                st.mem[terms] = m
            else:
                r2 = A.root(terms)
                if r1 is not None and r1 == r2:
                    for o, e in inner.items():
                        if o != "Z":
                            A.p.on_drop(A, st, terms, e)
                    del st.mem[terms]
                elif A.may_alias(st, r1, r2) and (r1 is None or A.okind(r1) not in ("al", "h")):
                    # bulk write through an unrelated pointer: bytes only
                    m = {o: e for o, e in inner.items() if o == "Z" or not (e[2] is None and e[3] == "i8")}
                    st.mem[terms] = m

    def memcpy(A, st, inst, dst, src, n):
        dst = A.canon(st, dst); src = A.canon(st, src); n = A.canon(st, n)
        if n[1]:
            A.kill_region(st, dst, n)
            return
        sz = n[0]
        A.materialise(st, inst, src, sz)
        sin = st.mem.get(src[1], {})
        copied = {}
        z = []
        for o, e in sin.items():
            if o == "Z":
                for zo, zn in e:
                    lo = max(zo, src[0]); hi = min(zo + zn, src[0] + sz)
                    if lo < hi:
                        z.append((lo - src[0] + dst[0], hi - lo))
            elif src[0] <= o and o + e[0] <= src[0] + sz:
                copied[o - src[0] + dst[0]] = e
        A.kill_region(st, dst, n)
        if len(sin) <= 200:
            inner = dict(st.mem.get(dst[1]) or {})
            for o, e in copied.items():
                inner[o] = e
            if z:
                inner["Z"] = tuple(inner.get("Z", ())) + tuple(z)
            st.mem[dst[1]] = inner
        r = A.root(dst[1])
        if r is None or A.okind(r) != "al" or r in st.esc:
            for o, e in copied.items():
                for a in atoms_of(e[1]):
                    if a.startswith("al") or a.startswith("h"):
                        A.escape(st, a)

    def materialise(A, st, inst, src, sz):
        """Give every scalar field of a struct object being copied a value."""
        sname = A.struct_at(st, src, sz)
        if sname is None:
            return
        k = 0
        for off, size, ty, tg, dity in A.leaves(sname):
            k += 1
            if k > 40:
                break
            a = (src[0] + off, src[1])
            inner = st.mem.get(a[1], {})
            if a[0] in inner:
                continue
            if any(z[0] <= a[0] and a[0] + size <= z[0] + z[1] for z in inner.get("Z", ())):
                continue
            name = "l%d.%d" % (inst.id, off)
            if A.root_uninit(st, a):
                name = "u%d.%d" % (inst.id, off)
            v = A.mk_ty(st, name, ty, dity)
            A.p.on_fresh_load(A, st, inst, a, tg, v, dity)
            A.put(st, a, size, v, tg, ty)

    def struct_at(A, st, addr, sz):
        # the copied operand's static type: a struct of that size
        c = A.sizeidx.get(sz)
        if not c:
            return None
        r = A.root(addr[1])
        if r is not None and r.startswith("al"):
            I = A.f.insts.get(int(r[2:].split("'")[0])) if r[2:].split("'")[0].isdigit() else None
            if I is not None and I.d.get("aty", "").startswith("%"):
                n = I.d["aty"][1:]
                if n in c and addr[0] == 0:
                    return n
        inner = st.mem.get(addr[1], {})
        for o, e in inner.items():
            if o != "Z" and e[2] and e[2][0] in c:
                return e[2][0]
        return c[0] if len(c) == 1 else None

    def leaves(A, sname, base=0, depth=0):
        out = A.leafcache.get(sname)
        if out is None:
            out = []
            s = A.m.structs.get(sname)
            if s and depth < 5:
                for f in s["fields"]:
                    nm, off, ty, size = f[:4]
                    dity = f[4] if len(f) > 4 else None
                    if ty.startswith("%"):
                        for (o, sz, t, tg, d) in A.leaves(ty[1:], 0, depth + 1):
                            out.append((off + o, sz, t, tg, d))
                    elif ty.startswith("["):
                        continue
                    else:
                        out.append((off, size, ty, (sname, nm), dity))
            A.leafcache[sname] = out
        return out

    # ------------------------------------------------------------ effects of calls
    def clobber(A, st, inst, args, mod, everything=False):
        """Forget memory a callee may write. mod: set of tags, or contains '*'."""
        passed = set()
        for v in args:
            for a in atoms_of(v):
                passed.add(a)
        wild = everything or "*" in mod
        reach = None
        for terms in list(st.mem):
            r = A.root(terms)
            if r is not None and r.startswith("al") and r not in st.esc:
                if r not in passed:
                    if reach is None:
                        reach = A.reach_from(st, passed)
                    if r not in reach:
                        continue
            elif r is not None and r.startswith("h") and r not in st.esc and r not in passed:
                if reach is None:
                    reach = A.reach_from(st, passed)
                if r not in reach:
                    continue
            inner = st.mem[terms]
            if everything:
                keep = {}
            elif wild and r is not None and (r in passed or (r.startswith("al") and r in (reach or ()))) and not A.is_exc_atom(r):
                keep = {}
            else:
                keep = {}
                for o, e in inner.items():
                    if o == "Z":
                        if not wild:
                            keep[o] = e
                        continue
                    t = e[2]
                    if t is None or t[0] == "al":
                        # an untagged scalar: changed only through untagged stores of its type
                        if ("*", e[3]) in mod and (r in passed or r in st.esc or not (r or "").startswith("al")):
                            continue
                        keep[o] = e
                    elif t in mod:
                        continue
                    else:
                        keep[o] = e
            if len(keep) != len(inner):
                for o, e in inner.items():
                    if o != "Z" and o not in keep:
                        A.p.on_drop(A, st, terms, e)
                if keep:
                    st.mem[terms] = keep
                else:
                    del st.mem[terms]

    def is_exc_atom(A, r):
        if r.startswith("al") and r[2:].isdigit():
            I = A.f.insts.get(int(r[2:]))
            return I is not None and I.d.get("aty") == "%" + EXC_T
        if r[0] == "a" and r[1:].isdigit():
            i = A.f.args[int(r[1:])]["id"]
            return A.f.vtys.get(i) == "struct:%s*" % EXC_T
        return False

    def reach_from(A, st, seeds):
        seen = set(seeds)
        todo = list(seeds)
        byroot = {}
        for terms, inner in st.mem.items():
            r = A.root(terms)
            byroot.setdefault(r, []).append(inner)
        while todo:
            x = todo.pop()
            for inner in byroot.get(x, ()):
                for o, e in inner.items():
                    if o != "Z":
                        for y in atoms_of(e[1]):
                            if y not in seen:
                                seen.add(y); todo.append(y)
        return seen

    def exc_status_addr(A, exc):
        return (exc[0] + A.exc_off, exc[1])

    def get_status(A, st, exc):
        inner = st.mem.get(exc[1], {})
        e = inner.get(exc[0] + A.exc_off)
        return None if e is None else e[1]

    def fail_exception(A, st, inst, exc):
        """Set the exception to an unspecified failure."""
        exc = A.canon(st, exc)
        v = A.mk(st, "x%d" % inst.id, 0, 1 << 31)
        A.add_ne0(st, ladd(v, (-A.NOT_SET, ())))
        addr = A.exc_status_addr(exc)
        A.kill(st, addr, 4, (EXC_T, "status"), "i32")
        A.put(st, addr, 4, v, (EXC_T, "status"), "i32")

    def exc_split(A, st, inst, exc):
        """[(state, failed?)] after a call that may set the exception."""
        exc = A.canon(st, exc)
        l, h = A.lo(st, exc), A.hi(st, exc)
        if h == 0 or not islin(exc):
            return [(st, None)]      # no exception object: failure is unobservable here
        cur = A.get_status(st, exc)
        if cur is not None:
            t = A.cmp_eval(st, "eq", A.lin(st, cur, "st"), const(A.NOT_SET), 32)
            if t is False:
                return [(st, None)]      # already failed: stays failed
        s2 = st.copy()
        try:
            A.fail_exception(s2, inst, exc)
        except Dead:
            return [(st, False)]
        return [(st, False), (s2, True)]

    def object_size(A, a):
        """Number of bytes of a local variable, None if not known."""
        if not a.startswith("al"):
            return None
        I = A.f.insts.get(int(a[2:].rstrip("'")))
        return A.ty_size(I.d.get("aty")) if I is not None else None

    def ty_size(A, t):
        if not t:
            return None
        if t == "ptr" or t == "double":
            return 8
        if t == "float":
            return 4
        if t[0] == "i" and t[1:].isdigit():
            return max(1, int(t[1:]) // 8)
        if t[0] == "%":
            s = A.m.structs.get(t[1:])
            return s["size"] if s else None
        if t[0] == "[":
            n, _, e = t[1:-1].partition(" x ")
            e = A.ty_size(e)
            return int(n) * e if e is not None else None
        return None

    def exc_arg(A, inst, args):
        """Index of the exception argument of a call, if any."""
        for i, o in enumerate(inst.ops):
            if A.is_exc_operand(o):
                return i
        return None

    def is_exc_operand(A, o):
        if o[0] != "v":
            return False
        t = A.f.vtys.get(o[1])
        if t == "struct:%s*" % EXC_T:
            return True
        I = A.f.insts.get(o[1])
        if I is not None and I.op == "alloca":
            return I.d.get("aty") == "%" + EXC_T
        if I is not None and I.op == "phi":
            return any(A.is_exc_operand(x) for _, x in I.d["in"] if x != o and (x[0] != "v" or x[1] < o[1]))
        return False

    def callee(A, st, inst):
        """('fn',name) | ('slot',struct,field) | ('gvar',name) | ('arg',i) | ('?',)"""
        c = inst.d["callee"]
        if c[0] == "f":
            return ("fn", c[1])
        if c[0] == "v":
            v = st.env.get(c[1])
            if v is not None and islin(v) and v[0] == 0 and len(v[1]) == 1:
                a = v[1][0][0]
                if a.startswith("f:"):
                    return ("fn", a[2:])
            return A.slot_of(c)
        if c[0] == "g":
            return ("gvar", c[1])
        return ("?",)

    def slot_of(A, o, depth=0):
        if o[0] == "v" and depth < 5:
            I = A.f.insts.get(o[1])
            if I is None:
                return ("arg", o[1])
            if I.op == "load":
                p = I.ops[0]
                if p[0] == "g":
                    return ("gvar", p[1])
                t = A.itag(I, 0)
                if t is not None:
                    return ("slot",) + tuple(t)
            if I.op in ("phi",):
                ks = {A.slot_of(x, depth + 1) for _, x in I.d["in"]}
                if len(ks) == 1:
                    return ks.pop()
            if I.op == "select":
                ks = {A.slot_of(x, depth + 1) for x in I.ops[1:]}
                if len(ks) == 1:
                    return ks.pop()
        if o[0] == "f":
            return ("fn", o[1])
        return ("?",)

    def ret_atom(A, st, inst, dity=None):
        if inst.ty == "void":
            return None
        return A.mk_ty(st, "r%d" % inst.id, inst.ty, dity)

    def fresh_heap(A, st, inst):
        """New heap object; the old one of this site is forgotten."""
        n = "h%d" % inst.id
        if n in st.res or A.mentioned(st, n):
            A.p.on_realloc_site(A, st, inst, n)
            A.rename(st, {n: None})
        st.esc = st.esc - {n}
        return A.mk(st, n, 1, None, True)

    def mentioned(A, st, n):
        for v in st.env.values():
            if n in atoms_of(v):
                return True
        for terms, inner in st.mem.items():
            for a, _ in terms:
                if a == n:
                    return True
            for o, e in inner.items():
                if o != "Z" and n in atoms_of(e[1]):
                    return True
        return False

    def reachable(A, st):
        """Atoms reachable from live values and from memory that outlives the call."""
        seeds = set(st.esc)
        for v in st.env.values():
            atoms_of(v, seeds)
        for terms, inner in st.mem.items():
            r = A.root(terms)
            if r is None or A.okind(r) not in ("al", "h") or r in st.esc:
                for o, e in inner.items():
                    if o != "Z":
                        atoms_of(e[1], seeds)
        return A.reach_from(st, seeds)

    # ------------------------------------------------------------ renaming / gc
    def rename(A, st, m):
        """Substitute atoms: m[a] = Lin or None (unknown)."""
        def s(v, nm):
            r = subst(v, m)
            if r is None:
                return A.mk(st, "q" + nm, None, None, False)
            return r
        pend = []
        for i, v in list(st.env.items()):
            r = subst(v, m)
            if r is None:
                pend.append(i)
            else:
                st.env[i] = r
        for i in pend:
            del st.env[i]
        mem = {}
        for terms, inner in st.mem.items():
            t2 = subst((0, terms), m)
            if t2 is None:
                for o, e in inner.items():
                    if o != "Z":
                        A.p.on_drop(A, st, terms, e)
                continue
            k, tt = t2
            ni = mem.get(tt)
            ni = dict(ni) if ni else {}
            for o, e in inner.items():
                if o == "Z":
                    ni["Z"] = tuple(ni.get("Z", ())) + tuple((a + k, b) for a, b in e)
                    continue
                v2 = subst(e[1], m)
                if v2 is None:
                    A.p.on_drop(A, st, terms, e)
                    continue
                old = ni.get(o + k)
                if old is not None and old[1] != v2:
                    A.p.on_drop(A, st, terms, old)
                ni[o + k] = (e[0], v2, e[2], e[3])
            mem[tt] = ni
        st.mem = mem
        f2 = set()
        for f in st.facts:
            r = subst(f, m)
            if r is not None and r[1]:
                f2.add(r)
        st.facts = frozenset(f2)
        n2 = set()
        for f in st.ne:
            r = subst(f, m)
            if r is not None and r[1]:
                n2.add(A._signnorm(r))
        st.ne = frozenset(n2)
        b2 = {}
        for b, t in st.bools.items():
            r = subst(b, m)
            if r is not None:
                b2[r] = t
        st.bools = b2
        for a in list(m):
            r = m[a]
            old = st.rng.pop(a, None)
            if r is not None and old is not None and len(r[1]) == 1 and r[1][0][1] == 1:
                b = r[1][0][0]
                lo_, hi_ = old
                n = (None if lo_ is None else lo_ - r[0], None if hi_ is None else hi_ - r[0])
                cur = st.rng.get(b)
                if cur is not None:
                    n = (A._max(n[0], cur[0]), A._min(n[1], cur[1]))
                st.rng[b] = n
                A.info.setdefault(b, A.info.get(a, (False, None)))
        if any(a in st.esc for a in m):
            e = set()
            for a in st.esc:
                if a in m:
                    if m[a] is not None:
                        e |= {t for t, _ in m[a][1]}
                else:
                    e.add(a)
            st.esc = frozenset(e)
        A.p.on_rename(A, st, m)

    def _max(A, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return max(a, b)

    def _min(A, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return min(a, b)

    def gc(A, st, live, inst=None):
        """Prune dead SSA values, unreachable local objects and their facts."""
        for i in [i for i in st.env if i not in live]:
            del st.env[i]
        seeds = set()
        for v in st.env.values():
            atoms_of(v, seeds)
        seeds |= st.esc
        byroot = {}
        for terms, inner in st.mem.items():
            r = A.root(terms)
            byroot.setdefault(r, []).append((terms, inner))
        todo = list(seeds)
        seen = seeds
        def addinner(terms, inner):
            for a, _ in terms:
                if a not in seen:
                    seen.add(a); todo.append(a)
            for o, e in inner.items():
                if o != "Z":
                    for y in atoms_of(e[1]):
                        if y not in seen:
                            seen.add(y); todo.append(y)
        for r, l in byroot.items():
            if r is None or not (r.startswith("al") or (r.startswith("h"))) or r in st.esc:
                for terms, inner in l:
                    addinner(terms, inner)
        while todo:
            x = todo.pop()
            for terms, inner in byroot.get(x, ()):
                addinner(terms, inner)
        A.p.on_gc(A, st, seen, inst)
        for r, l in byroot.items():
            if r is not None and r not in seen:
                for terms, inner in l:
                    del st.mem[terms]
        keep = seen | set(st.res) | A.p.extra_atoms(st)
        for a in [a for a in st.rng if a not in keep]:
            del st.rng[a]
        if st.facts:
            st.facts = frozenset(f for f in st.facts if all(a in keep for a, _ in f[1]))
        if st.ne:
            st.ne = frozenset(f for f in st.ne if all(a in keep for a, _ in f[1]))
        if st.bools:
            st.bools = {b: t for b, t in st.bools.items() if all(a in keep for a in atoms_of(b))}

    # ------------------------------------------------------------ join
    def join(A, a, b, blk, widen=False):
        A.stats["joins"] += 1
        n = St.__new__(St)
        n.trace = b.trace
        n.res = A.p.join_res(A, a, b); n.aux = dict(a.aux)
        n.esc = a.esc | b.esc
        n.rng = {}
        jr = {}
        pref = "j%d." % blk

        def jv(x, y, nm):
            if x == y:
                return x
            lx = islin(x); ly = islin(y)
            if isbool(x):
                t = A.truth(a, x); x = (ONE if t else ZERO) if t is not None else None
                if x is None:
                    x = (0, (("__b", 1),))
            if isbool(y):
                t = A.truth(b, y); y = (ONE if t else ZERO) if t is not None else None
                if y is None:
                    y = (0, (("__b", 1),))
            if not islin(x) or not islin(y):
                return None
            if x == (0, (("__b", 1),)):
                lo1, hi1 = 0, 1
            else:
                lo1, hi1 = A.lo(a, x), A.hi(a, x)
            if y == (0, (("__b", 1),)):
                lo2, hi2 = 0, 1
            else:
                lo2, hi2 = A.lo(b, y), A.hi(b, y)
            lo_ = None if lo1 is None or lo2 is None else min(lo1, lo2)
            hi_ = None if hi1 is None or hi2 is None else max(hi1, hi2)
            if widen:
                if lo_ is not None and lo1 is not None and lo_ < lo1:
                    lo_ = 1 if lo_ >= 1 else 0 if lo_ >= 0 else (-1 if lo_ >= -1 else None)
                if hi_ is not None and hi1 is not None and hi_ > hi1:
                    hi_ = None
            name = pref + nm
            ptr = (A.root(x[1]) is not None) or (A.root(y[1]) is not None)
            A.info[name] = (ptr, None)
            jr[name] = (lo_, hi_)
            if len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0] != "__b":
                jx[name] = (x, y)
            return atom(name)
        jx = {}
        n.env = {}
        for i, x in a.env.items():
            y = b.env.get(i)
            if y is None:
                continue
            v = jv(x, y, "e%d" % i)
            if v is not None:
                n.env[i] = v
        n.mem = {}
        for terms, ia in a.mem.items():
            ib = b.mem.get(terms)
            if ib is None:
                continue
            if ia is ib or ia == ib:
                n.mem[terms] = ia
                continue
            inner = {}
            for o, e in ia.items():
                f = ib.get(o)
                if f is None:
                    # one side zeroed, other side explicit
                    if o != "Z":
                        for z in ib.get("Z", ()):
                            if z[0] <= o and o + e[0] <= z[0] + z[1]:
                                v = jv(e[1], ZERO, "m%s+%d" % (A.tname(terms), o))
                                if v is not None:
                                    inner[o] = (e[0], v, e[2], e[3])
                    continue
                if o == "Z":
                    z = tuple(x for x in e if x in f)
                    if z:
                        inner["Z"] = z
                    continue
                if e == f:
                    inner[o] = e
                elif e[0] == f[0]:
                    v = jv(e[1], f[1], "m%s+%d" % (A.tname(terms), o))
                    if v is not None:
                        inner[o] = (e[0], v, e[2], e[3])
            for o, f in ib.items():
                if o != "Z" and o not in ia:
                    for z in ia.get("Z", ()):
                        if z[0] <= o and o + f[0] <= z[0] + z[1]:
                            v = jv(ZERO, f[1], "m%s+%d" % (A.tname(terms), o))
                            if v is not None:
                                inner[o] = (f[0], v, f[2], f[3])
            if inner:
                n.mem[terms] = inner
        for t in set(a.rng) | set(b.rng):
            if t in jr:
                continue
            x = a.rng.get(t, (None, None)); y = b.rng.get(t, (None, None))
            if x == y:
                n.rng[t] = x
                continue
            lo_ = None if x[0] is None or y[0] is None else min(x[0], y[0])
            hi_ = None if x[1] is None or y[1] is None else max(x[1], y[1])
            if widen:
                if lo_ is not None and x[0] is not None and lo_ < x[0]:
                    lo_ = 1 if lo_ >= 1 else 0 if lo_ >= 0 else (-1 if lo_ >= -1 else None)
                if hi_ is not None and x[1] is not None and hi_ > x[1]:
                    hi_ = None
            if lo_ is not None or hi_ is not None:
                n.rng[t] = (lo_, hi_)
        for t, r in jr.items():
            n.rng[t] = r
        jset = set(jr)
        def okf(f):
            for t, _ in f[1]:
                if t in jset:
                    return False
            return True
        fs = set()
        for f in a.facts:
            if f in b.facts:
                if okf(f): fs.add(f)
            elif okf(f) and A.prove_le0(b, f):
                fs.add(f)
        # relations of a value that differs hold of the joined value when they
        # hold of both
        for nm, (x, y) in jx.items():
            t = x[1][0][0]
            for f in a.facts:
                if any(u == t for u, _ in f[1]) and len(f[1]) > 1:
                    g = subst(f, {t: (-x[0], ((nm, 1),))})
                    if all(u == nm or u not in jset for u, _ in g[1]) and A.prove_le0(b, subst(f, {t: (y[0] - x[0], y[1])})):
                        fs.add(g)
        if not widen:
            for f in b.facts:
                if f not in fs and okf(f) and A.prove_le0(a, f):
                    fs.add(f)
        n.facts = frozenset(fs)
        ns = set()
        for D in a.ne:
            if not okf(D):
                continue
            if D in b.ne or A.cmp_eval(b, "ne", D, ZERO) is True:
                ns.add(D)
        if not widen:
            for D in b.ne:
                if D not in ns and okf(D) and A.cmp_eval(a, "ne", D, ZERO) is True:
                    ns.add(D)
        n.ne = frozenset(ns)
        n.bools = {k: t for k, t in a.bools.items() if b.bools.get(k) == t and not (atoms_of(k) & jset)}
        A.p.after_join(A, a, b, n)
        return n

    def tname(A, terms):
        return "*".join(x if c == 1 else "%s%d" % (x, c) for x, c in terms)

    def same(A, x, y):
        return (x.env == y.env and x.mem == y.mem and x.rng == y.rng and x.facts == y.facts
                and x.ne == y.ne and x.bools == y.bools and x.esc == y.esc and x.res == y.res)

    # ------------------------------------------------------------ running
    def run(A, fname, init=None):
        F = A.m.funcs[fname]
        A.f = F
        A.info = {}
        A.leafcache = A.__dict__.setdefault("leafcache", {})
        if "sizeidx" not in A.__dict__:
            A.sizeidx = {}
            for n, s in A.m.structs.items():
                A.sizeidx.setdefault(s["size"], []).append(n)
            es = A.m.structs.get(EXC_T)
            A.exc_off = 20
            if es:
                for f in es["fields"]:
                    if f[0] == "status":
                        A.exc_off = f[1]
            A.NOT_SET = 7
            for e in A.m.enums.values():
                for n, v in e:
                    if n == "FIFTYONE_DEGREES_STATUS_NOT_SET":
                        A.NOT_SET = v
        A.exits = []
        A.stats["functions"] += 1
        A.stats["blocks"] += len(F.blocks)
        st = St()
        for i, a in enumerate(F.args):
            dity = F.dity[i + 1] if i + 1 < len(F.dity) and not a["sret"] else None
            if any(x["sret"] for x in F.args):
                dity = F.dity[i] if 0 < i < len(F.dity) else None
            n = "a%d" % i
            v = A.mk_ty(st, n, a["ty"], dity)
            if a["byval"]:
                st.rng[n] = (1, None)
            st.env[a["id"]] = v
            if dity == "struct:%s*" % EXC_T:
                # callers pass an exception which is not set
                A.put(st, A.exc_status_addr(v), 4, const(A.NOT_SET), (EXC_T, "status"), "i32")
        starts = [st]
        for i, a in enumerate(F.args):
            n = "a%d" % i
            v = st.env[a["id"]]
            if v == atom(n) and A.get_status(st, v) is not None:
                # with and without an exception are kept apart
                s2 = st.copy()
                A.kill(s2, A.exc_status_addr(v), 4, (EXC_T, "status"), "i32")
                s2.env[a["id"]] = ZERO
                st.rng[n] = (1, None)
                st.aux["exc"] = 1; s2.aux["exc"] = 0
                starts.append(s2)
                break
        starts = A.p.on_entry(A, st) or starts
        if init:
            starts = [x for s in starts for x in init(A, s)]
        A.loops = A.loop_bodies(F)
        A.instblk = {i: I.blk.id for i, I in F.insts.items()}
        A.variants = {}
        A.seen = {}
        A.pending = {}
        A.heap = []
        A.visits = 0
        A.cap = A.CAP
        for s in starts:
            A.push(F.entry, s, None)
        while A.heap:
            _, bid = heapq.heappop(A.heap)
            L = A.pending.pop(bid, None)
            if not L:
                continue
            A.do_block(F.blocks[bid], L)
            budget = getattr(A.p, 'budget', A.BUDGET)
            if A.visits > budget:
                A.cap = 1
                if A.visits > 3 * budget:
                    A.stats["unanalysed"].append(fname)
                    break
        A.stats["visits"] += A.visits
        A.stats["exits"] += len(A.exits)
        return A.exits

    def loop_bodies(A, F):
        out = {}
        for (u, h) in F.backedges:
            body = out.setdefault(h, {h})
            todo = [u]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo += F.blocks[x].preds
        return out

    def push(A, bid, st, pred):
        if bid not in A.pending:
            A.pending[bid] = []
            heapq.heappush(A.heap, (A.f.rpo_ix[bid], bid))
        A.pending[bid].append((st, pred))

    def atom_site(A, a):
        """Block an atom was created in (None: outside any)."""
        s = a.rstrip("'")
        k = s.lstrip("abcdefghijklmnopqrstuvwxyz")
        if s.startswith("a") and not s.startswith("al"):
            return None
        if s[:2] in ("g:", "f:", "k:"):
            return None
        if s.startswith("j"):
            k = k.split(".")[0]
            return int(k) if k.isdigit() else None
        k = k.split(".")[0]
        return A.instblk.get(int(k)) if k.isdigit() else None

    def enter(A, B, st, pred):
        """Phi evaluation; returns the list of states at the block."""
        phis = [i for i in B.insts if i.op == "phi"]
        vals = []
        for i in phis:
            for pb, o in i.d["in"]:
                if pb == pred:
                    vals.append((i, A.val(st, o)))
                    break
        if not B.header:
            for i, v in vals:
                st.env[i.id] = v
            live = B.live_in | {i.id for i in phis}
            A.gc(st, live, B.insts[0])
            return st
        back = (pred, B.id) in A.f.backedges
        if back:
            # name the phis' incoming values as temporaries so renaming applies
            for i, v in vals:
                st.env[("ph", i.id)] = v
            live = B.live_in | {("ph", i.id) for i, _ in vals}
            A.gc(st, live, B.insts[0])
            body = A.loops.get(B.id, set())
            atoms = set(st.rng)
            for v in st.env.values():
                atoms_of(v, atoms)
            for terms, inner in st.mem.items():
                for a, _ in terms:
                    atoms.add(a)
                for o, e in inner.items():
                    if o != "Z":
                        atoms_of(e[1], atoms)
            for f in st.facts | st.ne:
                atoms_of(f, atoms)
            atoms |= set(st.res) | A.p.extra_atoms(st) | st.esc
            for bb in st.bools:
                atoms_of(bb, atoms)
            m = {}
            for a in atoms:
                if a.startswith("al"):
                    continue
                sb = A.atom_site(a)
                if sb is not None and sb in body:
                    if a.endswith("'"):
                        m.setdefault(a, None) if (a[:-1] in atoms) else None
                    else:
                        m[a] = atom(a + "'")
                        A.info[a + "'"] = A.info.get(a, (False, None))
            # inductive relations: p' = v - c
            newvals = []
            if m:
                for a in [x for x in m if m[x] is None]:
                    A.p.on_drop_atom(A, st, a)
                A.rename(st, m)
            vals = [(i, st.env.pop(("ph", i.id), None)) for i, _ in vals]
            vals = [(i, v if v is not None else A.mk_ty(st, "v%d" % i.id, i.ty, A.f.vtys.get(i.id))) for i, v in vals]
        sub = {}
        for i, v in vals:
            if i.id in A.f.inductive and islin(v):
                dity = A.f.vtys.get(i.id)
                if i.ty == "ptr":
                    r = A.root(v[1])
                    if r is not None:
                        o = "o%d" % i.id
                        off = lsub(v, atom(r))
                        g = A.f.stride.get(i.id, 1)
                        k = off[0] % g
                        if any(c % g for _, c in off[1]):
                            g, k = 1, 0
                        off = ((off[0] - k) // g, tuple((a, c // g) for a, c in off[1]))
                        A.bind(st, o, off, sub, None, False)
                        st.env[i.id] = ladd(ladd(atom(r), const(k)), atom(o), g)
                        continue
                o = "p%d" % i.id
                A.bind(st, o, v, sub, int_range(dity, 64), i.ty == "ptr")
                st.env[i.id] = atom(o)
            else:
                st.env[i.id] = v
        if sub:
            A.rename(st, sub)
        A.gc(st, B.live_in | {i.id for i in phis}, B.insts[0])
        return st

    def bind(A, st, name, v, sub, typ, ptr):
        """Introduce loop atom `name` == v."""
        v = subst(v, sub) if sub else v
        if v is None:
            v = A.mk(st, "q" + name, None, None)
        lo_, hi_ = A.lo(st, v), A.hi(st, v)
        if typ:
            lo_ = A._max(lo_, typ[0]); hi_ = A._min(hi_, typ[1])
        A.info[name] = (ptr, None)
        st.rng[name] = (lo_, hi_)
        prime = name + "'"
        for a, c in v[1]:
            if a == prime and c == 1:
                # name = prime + rest  =>  prime = name - rest
                rest = (v[0], tuple((b, k) for b, k in v[1] if b != prime))
                r = st.rng.get(prime)
                sub[prime] = lsub(atom(name), rest)
                if rest[1] == () and r is not None:
                    st.rng[name] = (A._max(lo_, None if r[0] is None else r[0] + rest[0]),
                                    A._min(hi_, None if r[1] is None else r[1] + rest[0]))
                return
        if v[1]:
            D = lsub(atom(name), v)
            st.facts = st.facts | {D, lneg(D)}

    def do_block(A, B, pend):
        ready = []
        for st, pred in pend:
            if pred is not None:
                st = A.enter(B, st, pred)
            ready.append(st)
        if B.header:
            ready = A.header(B, ready)
        else:
            ready = A.merge(B, ready)
        A.stats["states_max"] = max(A.stats["states_max"], len(ready))
        for st in ready:
            A.visits += 1
            A.exec_block(B, st)

    def merge(A, B, L):
        seen = A.seen.setdefault(B.id, set())
        out = []
        groups = {}
        for s in L:
            f = hash(s.fp())
            if f in seen:
                continue
            seen.add(f)
            groups.setdefault(A.p.tskey(s), []).append(s)
        for k, g in groups.items():
            cap = A.cap
            if len(g) > cap:
                # join states agreeing on the nullness/constant signature first
                by = {}
                for s in g:
                    by.setdefault(A.signature(s), []).append(s)
                g2 = []
                for sub in by.values():
                    j = sub[0]
                    for s in sub[1:]:
                        j = A.join(j, s, B.id)
                    g2.append(j)
                while len(g2) > cap:
                    j = g2.pop()
                    g2[0] = A.join(g2[0], j, B.id)
                g = g2
            out += g
        return out

    def signature(A, s):
        sig = []
        for i, v in s.env.items():
            if islin(v):
                c = A.canon(s, v)
                if not c[1]:
                    sig.append((i, c[0]))
                elif A.root(c[1]) is not None:
                    sig.append((i, "p"))
            elif isbool(v):
                t = A.truth(s, v)
                if t is not None:
                    sig.append((i, 1 if t else 0))
        return (frozenset(sig), A.p.signature(A, s))

    def header(A, B, L):
        out = []
        for s in L:
            k = A.p.tskey(s)
            vs = A.variants.setdefault((B.id, k), [])
            done = False
            for ix, (v, cnt) in enumerate(vs):
                j = A.join(v, s, B.id, widen=True)
                if A.same(j, v):
                    done = True
                    break
            if done:
                continue
            nv = 1 if A.cap == 1 else A.VARIANTS
            if len(vs) < nv:
                vs.append((s, 0))
                out.append(s)
                continue
            # join with the closest variant
            sig = A.signature(s)
            best = None
            for ix, (v, cnt) in enumerate(vs):
                if A.signature(v) == sig:
                    best = ix
                    break
            if best is None:
                best = len(vs) - 1
                if len(vs) < nv + 6 and A.cap > 1:
                    vs.append((s, 0)); out.append(s)
                    continue
            v, cnt = vs[best]
            j = A.join(v, s, B.id, widen=True)
            if cnt > 40:
                j.facts = frozenset(); j.ne = frozenset(); j.bools = {}
            vs[best] = (j, cnt + 1)
            out.append(j.copy())
        # keep the latest of each variant only
        return [s.copy() for s in out]

    # ------------------------------------------------------------ instructions
    def exec_block(A, B, st):
        states = [st]
        for I in B.insts:
            if I.op == "phi":
                continue
            nxt = []
            for s in states:
                r = A.step(I, s)
                if r:
                    nxt += r
            states = nxt
            if not states:
                return
            if len(states) > 64:
                states = A.squash(B, states)

    def squash(A, B, states):
        g = {}
        for s in states:
            g.setdefault(A.p.tskey(s), []).append(s)
        out = []
        for l in g.values():
            while len(l) > 16:
                x = l.pop()
                l[0] = A.join(l[0], x, B.id)
            out += l
        return out

    def goto(A, B, succ, st, line=None):
        if line:
            st.trace = (st.trace, line)
        A.push(succ, st, B.id)

    def step(A, I, st):
        op = I.op
        A.cur = I
        B = I.blk
        if op == "br":
            succ = I.d["succ"]
            if len(succ) == 1:
                A.goto(B, succ[0], st)
                return None
            c = A.val(st, I.ops[0])
            ln = I.loc[0][1] if I.loc else 0
            t = A.truth(st, c)
            if t is not None:
                A.goto(B, succ[0 if t else 1], st, None)
                return None
            s2 = st.copy()
            for s in A.assume(st, c, True):
                A.goto(B, succ[0], s, "%d:T" % ln)
            for s in A.assume(s2, c, False):
                A.goto(B, succ[1], s, "%d:F" % ln)
            return None
        if op == "switch":
            c = A.val(st, I.ops[0])
            c = A.lin(st, c, "%d" % I.id)
            rest = st
            for cv, succ in I.d["cases"]:
                s2 = rest.copy()
                for s in A.assume(s2, ("b", "cmp", "eq", c, const(cv), 64), True):
                    A.goto(B, succ, s, "%d:=%d" % (I.loc[0][1] if I.loc else 0, cv))
                r = A.assume(rest, ("b", "cmp", "eq", c, const(cv), 64), False)
                if not r:
                    return None
                rest = r[0]
            A.goto(B, I.d["default"], rest, "%d:default" % (I.loc[0][1] if I.loc else 0))
            return None
        if op == "ret":
            v = A.val(st, I.ops[0]) if I.ops else None
            A.p.on_exit(A, st, I, v)
            A.exits.append((st, v, I))
            return None
        if op in ("unreachable",):
            return None
        if op == "resume":
            A.p.on_unwind(A, st, I)
            return None
        if op == "load":
            a = A.val(st, I.ops[0])
            a = A.lin(st, a, "%d" % I.id)
            tag = A.itag(I, 0)
            A.stats["accesses"] += 1
            r = A.p.on_access(A, st, I, a, const(I.d["vsize"]), "load", tag)
            if r is False:
                return []
            dity = A.f.vtys.get(I.id) or A.field_dity(tag)
            st.env[I.id] = A.load(st, I, a, I.d["vsize"], I.ty, tag, dity)
            return [st]
        if op == "store":
            v = A.val(st, I.ops[0])
            a = A.val(st, I.ops[1])
            a = A.lin(st, a, "%d" % I.id)
            tag = A.itag(I, 1)
            A.stats["accesses"] += 1
            r = A.p.on_access(A, st, I, a, const(I.d["vsize"]), "store", tag)
            if r is False:
                return []
            A.p.on_store(A, st, I, a, v, tag)
            A.store(st, I, a, I.d["vsize"], v, tag, I.d["vty"])
            return [st]
        if op == "getelementptr":
            st.env[I.id] = A.gep(st, A.val(st, I.ops[0]), I.d["steps"])
            A.p.on_gep(A, st, I)
            return [st]
        if op == "alloca":
            n = "al%d" % I.id
            A.info[n] = (True, None)
            st.rng[n] = (1, None)
            st.env[I.id] = atom(n)
            return [st]
        if op == "icmp":
            st.env[I.id] = A.icmp(st, I)
            return [st]
        if op in ("call", "invoke"):
            A.stats["calls"] += 1
            res = A.call(I, st)
            if op == "invoke":
                un = st.copy() if False else None
                for s in res or []:
                    A.goto(B, I.d["normal"], s)
                return None
            return res
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "lshr", "ashr", "and", "or", "xor", "urem", "srem"):
            st.env[I.id] = A.arith(st, I, op)
            return [st]
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            st.env[I.id] = A.cast(st, I, op)
            return [st]
        if op == "select":
            c = A.val(st, I.ops[0])
            t = A.truth(st, c)
            if t is not None:
                st.env[I.id] = A.val(st, I.ops[1 if t else 2])
                return [st]
            s2 = st.copy()
            out = []
            for s in A.assume(st, c, True):
                s.env[I.id] = A.val(s, I.ops[1]); out.append(s)
            for s in A.assume(s2, c, False):
                s.env[I.id] = A.val(s, I.ops[2]); out.append(s)
            return out
        if op == "extractvalue":
            v = A.val(st, I.ops[0])
            if type(v) is tuple and v and v[0] == "agg":
                ix = I.d["idx"][0]
                if ix + 1 < len(v) and v[ix + 1] is not None:
                    st.env[I.id] = v[ix + 1]
                    return [st]
            st.env[I.id] = A.mk_ty(st, "t%d" % I.id, I.ty)
            return [st]
        if op == "insertvalue":
            v = A.val(st, I.ops[0])
            ix = I.d["idx"][0]
            parts = list(v[1:]) if type(v) is tuple and v and v[0] == "agg" else []
            while len(parts) <= ix:
                parts.append(None)
            parts[ix] = A.val(st, I.ops[1])
            st.env[I.id] = ("agg",) + tuple(parts)
            return [st]
        if op == "atomicrmw":
            a = A.lin(st, A.val(st, I.ops[0]), "%d" % I.id)
            tag = A.itag(I, 0)
            if A.p.on_access(A, st, I, a, const(4), "rmw", tag) is False:
                return []
            v = A.lin(st, A.val(st, I.ops[1]), "%dv" % I.id)
            size = max(1, ty_bits(I.ty) // 8)
            old = A.load(st, I, a, size, I.ty, tag, A.field_dity(tag))
            old = A.lin(st, old, "%do" % I.id)
            k = I.d["rmw"]
            if k == "add":
                n = ladd(old, v)
            elif k == "sub":
                n = lsub(old, v)
            elif k == "xchg":
                n = v
            else:
                n = A.mk_ty(st, "t%d" % I.id, I.ty)
            r = A.p.on_rmw(A, st, I, a, tag, k, v)
            # other threads may have changed it: the observed value is unconstrained
            o2 = A.mk_ty(st, "l%d" % I.id, I.ty, A.field_dity(tag))
            st.env[I.id] = o2
            A.kill(st, A.canon(st, a), size, tag, I.ty)
            return [st]
        if op == "cmpxchg":
            a = A.lin(st, A.val(st, I.ops[0]), "%d" % I.id)
            tag = A.itag(I, 0)
            if A.p.on_access(A, st, I, a, const(8), "rmw", tag) is False:
                return []
            exp = A.lin(st, A.val(st, I.ops[1]), "%de" % I.id)
            new = A.lin(st, A.val(st, I.ops[2]), "%dn" % I.id)
            s2 = st.copy()
            a = A.canon(st, a)
            A.kill(st, a, 8, tag, None)
            A.put(st, a, 8, new, tag, "ptr")
            for x in atoms_of(new):
                A.escape(st, x)
            st.env[I.id] = ("agg", exp, ONE)
            A.p.on_cas(A, st, I, a, tag, exp, new, True)
            A.kill(s2, a, 8, tag, None)
            o = A.mk_ty(s2, "l%d" % I.id, "ptr")
            s2.env[I.id] = ("agg", o, ZERO)
            out = [st]
            try:
                A.add_ne0(s2, lsub(o, exp))
                A.p.on_cas(A, s2, I, a, tag, exp, new, False)
                out.append(s2)
            except Dead:
                pass
            return out
        if op == "fence":
            return [st]
        if op == "landingpad":
            st.env[I.id] = ("agg", None, None)
            return [st]
        if op == "freeze":
            st.env[I.id] = A.val(st, I.ops[0])
            return [st]
        # floating point and others: opaque
        if I.ty != "void":
            if op == "fcmp":
                st.env[I.id] = ("b", "opq", I.id, A.lin(st, A.val(st, I.ops[0]), "%da" % I.id),
                                A.lin(st, A.val(st, I.ops[1]), "%db" % I.id), ("s", I.d.get("pred")))
            else:
                st.env[I.id] = A.mk_ty(st, "t%d" % I.id, I.ty, A.f.vtys.get(I.id))
        return [st]

    def field_dity(A, tag):
        if tag is None or tag[0] in ("g", "al"):
            if tag is not None and tag[0] == "al":
                return A.f.vtys.get(tag[1])
            return None
        d = A.__dict__.setdefault("fdity", None)
        if d is None:
            d = {}
            for n, s in A.m.structs.items():
                for f in s["fields"]:
                    if len(f) > 4:
                        t = f[4]
                        d[(n, f[0])] = t[:-2] if t.endswith("[]") else t
            A.fdity = d
        return d.get(tuple(tag))

    def icmp(A, st, I):
        x = A.val(st, I.ops[0]); y = A.val(st, I.ops[1])
        pred = I.d["pred"]
        bits = 64
        for o in I.ops:
            if o[0] == "c":
                bits = o[2]
            elif o[0] == "v" and o[1] in A.f.insts:
                bits = ty_bits(A.f.insts[o[1]].ty)
        if isbool(x) and islin(y) and not y[1] and pred in ("eq", "ne"):
            t = y[0] != 0
            if y[0] in (0, 1, -1):
                return x if (pred == "eq") == t else ("b", "not", x)
        if isbool(y) and islin(x) and not x[1] and pred in ("eq", "ne") and x[0] in (0, 1, -1):
            t = x[0] != 0
            return y if (pred == "eq") == t else ("b", "not", y)
        if isbool(x) and isbool(y) and pred in ("eq", "ne"):
            tx = A.truth(st, x); ty = A.truth(st, y)
            if tx is not None:
                return y if (tx == (pred == "eq")) else ("b", "not", y)
            if ty is not None:
                return x if (ty == (pred == "eq")) else ("b", "not", x)
        x = A.lin(st, x, "%da" % I.id); y = A.lin(st, y, "%db" % I.id)
        return ("b", "cmp", pred, x, y, bits)

    def arith(A, st, I, op):
        x = A.val(st, I.ops[0]); y = A.val(st, I.ops[1])
        if op in ("and", "or", "xor") and I.ty == "i1":
            if op == "and" or op == "or":
                bx = x if isbool(x) else ("b", "cmp", "ne", x, ZERO, 1)
                by = y if isbool(y) else ("b", "cmp", "ne", y, ZERO, 1)
                tx = A.truth(st, bx); ty = A.truth(st, by)
                if op == "and":
                    if tx is False or ty is False:
                        return ZERO
                    if tx:
                        return by
                    if ty:
                        return bx
                else:
                    if tx or ty:
                        return ONE
                    if tx is False:
                        return by
                    if ty is False:
                        return bx
                return ("b", op, bx, by)
            ty = A.truth(st, y)
            if ty is not None:
                if islin(x):
                    x = ("b", "cmp", "ne", x, ZERO, 1)
                return ("b", "not", x) if ty else x
        x = A.canon(st, A.lin(st, x, "%da" % I.id)); y = A.canon(st, A.lin(st, y, "%db" % I.id))
        if op == "add":
            return ladd(x, y)
        if op == "sub":
            return lsub(x, y)
        if op == "mul":
            if not x[1]:
                return lscale(y, x[0])
            if not y[1]:
                return lscale(x, y[0])
        if op == "shl" and not y[1] and 0 <= y[0] < 63:
            return lscale(x, 1 << y[0])
        n = "t%d" % I.id
        dity = A.f.vtys.get(I.id)
        if op in ("udiv", "sdiv", "lshr", "ashr") and not y[1] and y[0] > 0:
            d = y[0] if op.endswith("div") else (1 << y[0])
            if not x[1]:
                if x[0] >= 0:
                    return const(x[0] // d)
            if A.prove_nonneg(st, x):
                # exact division of a multiple
                if x[0] % d == 0 and all(c % d == 0 for _, c in x[1]):
                    return (x[0] // d, tuple((a, c // d) for a, c in x[1]))
                h = A.hi(st, x)
                r = A.mk(st, n, 0, None if h is None else h // d)
                # d*r <= x <= d*r + d-1
                st.facts = st.facts | {lsub(lscale(r, d), x), ladd(lsub(x, lscale(r, d)), const(1 - d))}
                return r
        if op in ("urem", "srem") and not y[1] and y[0] > 0:
            if not x[1] and x[0] >= 0:
                return const(x[0] % y[0])
            if A.prove_nonneg(st, x) or op == "urem":
                return A.mk(st, n, 0, y[0] - 1)
            return A.mk(st, n, -(y[0] - 1), y[0] - 1)
        if op == "urem":
            r = A.mk(st, n, 0, None)
            if A.prove_nonneg(st, y):
                st.facts = st.facts | {(1, lsub(r, y)[1])} if y[0] == 0 else st.facts | {ladd(lsub(r, y), ONE)}
            return r
        if op == "srem":
            r = A.mk(st, n, None, None)
            if A.prove_nonneg(st, y):
                if A.prove_nonneg(st, x):
                    st.rng[n] = (0, None)
                st.facts = st.facts | {ladd(lsub(r, y), ONE), ladd(lsub(lneg(r), y), ONE)}
            return r
        if op == "and" and not y[1] and y[0] >= 0:
            if not x[1]:
                return const(x[0] & y[0])
            h = A.hi(st, x)
            if y[0] & (y[0] + 1) == 0 and h is not None and h <= y[0] and A.prove_nonneg(st, x):
                return x
            return A.mk(st, n, 0, y[0])
        if op in ("and", "or", "xor") and not x[1] and not y[1]:
            return const({"and": x[0] & y[0], "or": x[0] | y[0], "xor": x[0] ^ y[0]}[op])
        if op in ("or", "xor") and x == ZERO:
            return y
        if op in ("or", "xor") and y == ZERO:
            return x
        nn = A.prove_nonneg(st, x) and A.prove_nonneg(st, y)
        if nn:
            return A.mk(st, n, 0, None)
        return A.mk_ty(st, n, I.ty, dity)

    def cast(A, st, I, op):
        v = A.val(st, I.ops[0])
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            return v
        if isbool(v):
            if op == "trunc" or I.d.get("srcty") == "i1":
                if op == "sext":
                    return A.lin(st, v, "%d" % I.id)
                return v
            return v
        if not islin(v):
            return A.mk_ty(st, "t%d" % I.id, I.ty)
        if op == "trunc" and I.ty == "i1":
            c = A.canon(st, v)
            if not c[1]:
                return const(c[0] & 1)
            l, h = A.lo(st, c), A.hi(st, c)
            if l is not None and h is not None and l >= 0 and h <= 1:
                return ("b", "cmp", "ne", c, ZERO, 64)
            return ("b", "opq", I.id, c, ZERO, ("s", "lowbit"))
        if op == "zext":
            sb = ty_bits(I.d["srcty"])
            c = A.canon(st, v)
            if not c[1]:
                return const(c[0] % (1 << sb))
            l = A.lo(st, c)
            if (l is not None and l >= 0) or A.prove_nonneg(st, c):
                return c
            return A.mk(st, "z%d" % I.id, 0, (1 << sb) - 1)
        if op == "sext":
            c = A.canon(st, v)
            sb = ty_bits(I.d["srcty"])
            h = A.hi(st, c)
            if sb < 32 and (h is None or h >= (1 << (sb - 1))):
                return A.mk(st, "z%d" % I.id, -(1 << (sb - 1)), (1 << (sb - 1)) - 1)
            return c
        if op == "trunc":
            db = ty_bits(I.ty)
            c = A.canon(st, v)
            if not c[1]:
                k = c[0] % (1 << db)
                return const(k if c[0] >= 0 and k < (1 << (db - 1)) or c[0] >= 0 else k - (1 << db) if k >= (1 << (db - 1)) else k)
            l, h = A.lo(st, c), A.hi(st, c)
            if l is not None and h is not None and l >= -(1 << (db - 1)) and h < (1 << db):
                return c
            return A.trunc_unknown(st, I, c, db)
        return v

    def trunc_unknown(A, st, I, c, db):
        if db >= 32:
            return c      # assumption: quantities fit the type they are narrowed to
        dity = A.f.vtys.get(I.id)
        r = int_range(dity, db) or (-(1 << (db - 1)), (1 << db) - 1)
        return A.mk(st, "z%d" % I.id, r[0], r[1])

    # ------------------------------------------------------------ calls
    def call(A, I, st):
        args = [A.val(st, o) for o in I.ops]
        c = A.callee(st, I)
        r = A.p.on_call(A, st, I, c, args)
        if r is None:
            r = A.default_call(st, I, c, args)
        if I.d.get("noret"):
            return []
        return r

    def bindret(A, pairs, I):
        out = []
        for s, v in pairs:
            if v is not None and I.ty != "void":
                s.env[I.id] = v
            out.append(s)
        return out

    def default_call(A, st, I, c, args):
        from models import BASE
        name = None
        if c[0] == "fn":
            name = c[1]
        elif c[0] == "gvar":
            name = "*" + c[1]
        elif c[0] == "slot":
            name = "->" + c[1] + "." + c[2]
        elif c[0] == "arg":
            name = A.allocator(c[1], I)
        f = BASE.get(name)
        if f is None and name and name.startswith("llvm."):
            f = BASE.get(".".join(name.split(".")[:2]))
            if f is None:
                if I.ty != "void":
                    st.env[I.id] = A.mk_ty(st, "r%d" % I.id, I.ty)
                return [st]
        if f is not None:
            return A.bindret(f(A, st, I, args), I)
        return A.generic_call(st, I, c, args)

    def allocator(A, a, I):
        """What is called through a parameter which provides the memory to use."""
        n = (A.f.names.get(a) or "").lower()
        if "alloc" in n and I.ty == "ptr" and len(I.ops) == 1:
            return "*fiftyoneDegreesMalloc"
        if "free" in n and I.ty == "void" and len(I.ops) == 1:
            return "*fiftyoneDegreesFree"
        return None

    def generic_call(A, st, I, c, args, split=True):
        sm = A.sum.of(A, c, I)
        for i, v in enumerate(args):
            if sm is None or i in sm["cap"]:
                for a in atoms_of(v):
                    if a.startswith("al") or a.startswith("h"):
                        A.escape(st, a)
                    A.p.on_captured(A, st, I, a, c, i)
        out = [(st, False)]
        ei = A.exc_arg(I, args)
        status = None
        if ei is not None and islin(args[ei]):
            exc = A.canon(st, args[ei])
            status = A.get_status(st, exc)
        A.clobber(st, I, args, sm["mod"] if sm else set(), everything=sm is None)
        if ei is not None and islin(args[ei]):
            exc = A.canon(st, args[ei])
            if status is not None and exc[1]:
                A.put(st, A.exc_status_addr(exc), 4, status, (EXC_T, "status"), "i32")
            if sm is None or (EXC_T, "status") in sm["mod"]:
                if split:
                    out = A.exc_split(st, I, exc)
        res = []
        for s, failed in out:
            dity = None
            if c[0] == "fn" and c[1] in A.m.funcs:
                d = A.m.funcs[c[1]].dity
                dity = d[0] if d else None
            v = A.ret_atom(s, I, dity or A.f.vtys.get(I.id))
            if v is not None:
                s.env[I.id] = v
            A.p.after_call(A, s, I, c, args, v, failed)
            res.append(s)
        return res


class Policy:
    """Hooks of one property; the defaults do nothing."""
    def on_entry(p, A, st): return None
    def on_assume(p, A, st, b, truth): pass
    def on_access(p, A, st, I, addr, size, kind, tag): return None
    def on_store(p, A, st, I, addr, v, tag): pass
    def on_gep(p, A, st, I): pass
    def on_fresh_load(p, A, st, I, addr, tag, v, dity): pass
    def on_call(p, A, st, I, c, args): return None
    def after_call(p, A, st, I, c, args, ret, failed): pass
    def on_captured(p, A, st, I, a, c, i): pass
    def on_exit(p, A, st, I, v): pass
    def on_unwind(p, A, st, I): pass
    def on_gc(p, A, st, reachable, inst): pass
    def on_rename(p, A, st, m): pass
    def on_drop(p, A, st, terms, e): pass
    def on_drop_atom(p, A, st, a): pass
    def on_realloc_site(p, A, st, I, a): pass
    def on_rmw(p, A, st, I, a, tag, kind, v): pass
    def on_cas(p, A, st, I, a, tag, exp, new, ok): pass
    def after_join(p, A, a, b, n): pass
    default_rng = {}   # first character of an atom -> range it has when nothing is known
    def join_res(p, A, a, b): return dict(a.res)
    def tskey(p, s): return s.tskey()   # states that differ in it are never joined
    def extra_atoms(p, st): return set()
    def signature(p, A, st): return None


class Summaries:
    """Bottom-up effect summaries of every function: the fields it may write,
    the parameters whose value it may store or return."""
    def __init__(S, mod):
        S.m = mod
        S.cache = {}
        S.at = [f for f in mod.funcs.values() if f.addr_taken and not f.decl]
        S.slots = S.slot_targets()
        S.compute()

    def slot_targets(S):
        """(struct, field) -> functions stored there anywhere in the program."""
        out = {}
        def tagof(F, o, d=0):
            if o[0] == "gep":
                for s in reversed(o[2]):
                    if s[0] == "f":
                        return (s[1], s[3])
                return tagof(F, o[1], d + 1)
            if o[0] != "v" or d > 6:
                return None
            I = F.insts.get(o[1])
            if I is not None and I.op == "getelementptr":
                for s in reversed(I.d["steps"]):
                    if s[0] == "f":
                        return (s[1], s[3])
                return tagof(F, I.ops[0], d + 1)
            return None
        def fns(F, o, d=0):
            if o[0] == "f":
                return {o[1]}
            if o[0] == "v" and d < 5:
                I = F.insts.get(o[1])
                if I is not None and I.op in ("phi", "select"):
                    r = set()
                    for x in ([y for _, y in I.d["in"]] if I.op == "phi" else I.ops[1:]):
                        r |= fns(F, x, d + 1)
                    return r
            return set()
        for F in S.m.funcs.values():
            if F.decl:
                continue
            for I in F.insts.values():
                if I.op == "store":
                    r = fns(F, I.ops[0])
                    if r:
                        t = I.d.get("tag")
                        t = tuple(t) if t else tagof(F, I.ops[1])
                        if t:
                            out.setdefault(t, set()).update(r)
        return out

    def local(S, F):
        """Direct effects of one function body."""
        mod = set(); cap = set(); calls = []
        pid = {a["id"]: i for i, a in enumerate(F.args)}
        # flow of parameters through copies
        base = dict((k, {v}) for k, v in pid.items())
        ch = True
        def srcs(o):
            if o[0] == "v":
                return base.get(o[1], set())
            if o[0] == "gep":
                return srcs(o[1])
            return set()
        while ch:
            ch = False
            for I in F.insts.values():
                if I.op in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "freeze"):
                    n = srcs(I.ops[0])
                elif I.op == "phi":
                    n = set().union(*[srcs(o) for _, o in I.d["in"]]) if I.d["in"] else set()
                elif I.op == "select":
                    n = srcs(I.ops[1]) | srcs(I.ops[2])
                else:
                    continue
                if n and not n <= base.get(I.id, set()):
                    base[I.id] = base.get(I.id, set()) | n
                    ch = True
        def localalloc(o, d=0):
            if o[0] == "gep":
                return localalloc(o[1], d + 1)
            if o[0] == "v" and d < 8:
                I = F.insts.get(o[1])
                if I is None:
                    return False
                if I.op == "alloca":
                    return True
                if I.op == "getelementptr":
                    return localalloc(I.ops[0], d + 1)
            return False
        def tagof(o, ty, d=0):
            if o[0] == "gep":
                for s in reversed(o[2]):
                    if s[0] == "f":
                        return (s[1], s[3])
                return tagof(o[1], ty, d + 1)
            if o[0] == "g":
                return ("g", o[1])
            if o[0] == "v" and d < 8:
                I = F.insts.get(o[1])
                if I is not None and I.op == "getelementptr":
                    for s in reversed(I.d["steps"]):
                        if s[0] == "f":
                            return (s[1], s[3])
                    return tagof(I.ops[0], ty, d + 1)
            return ("*", ty)
        for I in F.insts.values():
            if I.op == "store":
                for p in srcs(I.ops[0]):
                    if not localalloc(I.ops[1]):
                        cap.add(p)
                    else:
                        cap.add(p)
                if not localalloc(I.ops[1]):
                    mod.add(tuple(I.d["tag"]) if "tag" in I.d else tagof(I.ops[1], I.d["vty"]))
            elif I.op == "ret" and I.ops:
                for p in srcs(I.ops[0]):
                    cap.add(p)
            elif I.op in ("cmpxchg",):
                mod.add(tuple(I.d["tag"]) if "tag" in I.d else tagof(I.ops[0], "ptr"))
                for p in srcs(I.ops[2]):
                    cap.add(p)
            elif I.op == "atomicrmw":
                mod.add(tuple(I.d["tag"]) if "tag" in I.d else tagof(I.ops[0], I.ty))
            elif I.op in ("call", "invoke"):
                calls.append((I, [srcs(o) for o in I.ops], [localalloc(o) for o in I.ops]))
        return {"mod": mod, "cap": cap, "calls": calls}

    PURE_EXT = None

    def compute(S):
        from models import EXTERNAL
        S.sum = {}
        loc = {}
        for F in S.m.funcs.values():
            if F.decl:
                continue
            loc[F.name] = S.local(F)
            S.sum[F.name] = {"mod": set(loc[F.name]["mod"]), "cap": set(loc[F.name]["cap"])}
        ch = True
        while ch:
            ch = False
            for n, l in loc.items():
                s = S.sum[n]
                F = S.m.funcs[n]
                for I, args, isloc in l["calls"]:
                    ts = S.targets(F, I)
                    if None in ts:
                        if "*" not in s["mod"] and S.passes_memory(F, I):
                            s["mod"].add("*cb"); 
                        ts = [f.name for f in S.at if len(f.args) == len(I.ops) and f.ret == I.ty]
                    for t in ts:
                        if t is None:
                            continue
                        if t in S.sum:
                            d = S.sum[t]
                            nm = d["mod"] - s["mod"]
                            if nm:
                                s["mod"] |= nm; ch = True
                            for i in d["cap"]:
                                if i < len(args):
                                    for p in args[i]:
                                        if p not in s["cap"]:
                                            s["cap"].add(p); ch = True
                        else:
                            e = EXTERNAL.get(t)
                            if e is None and t.startswith("llvm."):
                                e = EXTERNAL.get(".".join(t.split(".")[:2]), {"mod": set(), "cap": ()})
                            if e is None:
                                e = {"mod": {("*", "i8"), ("*", "i32"), ("*", "i64"), ("*", "ptr")}, "cap": ()}
                            if e["mod"] and not (isloc and isloc[0]):
                                m2 = set(e["mod"])
                                if t.startswith("llvm.mem") or t in ("memcpy", "memset", "memmove"):
                                    m2 |= S.memtags(F, I)
                                nm = m2 - s["mod"]
                                if nm:
                                    s["mod"] |= nm; ch = True

    def memtags(S, F, I):
        """Fields written by a block copy/clear: those of the struct pointed to."""
        o = I.ops[0]
        sn = None
        if o[0] == "v":
            J = F.insts.get(o[1])
            t = F.vtys.get(o[1])
            if t and t.startswith("struct:") and t.endswith("*"):
                sn = t[7:-1]
            if J is not None and J.op == "getelementptr":
                f = [s for s in J.d["steps"] if s[0] == "f"]
                if f:
                    r = {(f[-1][1], f[-1][3])}
                    s = S.m.structs.get(f[-1][1])
                    if s:
                        for fl in s["fields"]:
                            if fl[0] == f[-1][3] and fl[2].startswith("%"):
                                r |= S.alltags(fl[2][1:])
                    return r
        if sn:
            return S.alltags(sn)
        sz = I.ops[2] if len(I.ops) > 2 else None
        if sz and sz[0] == "c":
            r = set()
            for n, s in S.m.structs.items():
                if s["size"] == sz[1] and sz[1] > 8:
                    r |= S.alltags(n)
            return r
        return set()

    def alltags(S, n, d=0):
        r = set()
        s = S.m.structs.get(n)
        if not s or d > 4:
            return r
        for f in s["fields"]:
            r.add((n, f[0]))
            if f[2].startswith("%"):
                r |= S.alltags(f[2][1:], d + 1)
        return r

    def targets(S, F, I):
        c = I.d["callee"]
        if c[0] == "f":
            return [c[1]]
        if c[0] == "v":
            J = F.insts.get(c[1])
            if J is not None and J.op == "load":
                p = J.ops[0]
                if p[0] == "g":
                    g = S.m.globals.get(p[1])
                    if g and g.get("init") and g["init"][0] == "f":
                        return [g["init"][1]]
                    return ["*" + p[1]]
                if "tag" in J.d:
                    t = S.slots.get(tuple(J.d["tag"]))
                    if t:
                        return sorted(t)
                if p[0] == "v":
                    G = F.insts.get(p[1])
                    if G is not None and G.op == "getelementptr":
                        for s in reversed(G.d["steps"]):
                            if s[0] == "f":
                                t = S.slots.get((s[1], s[3]))
                                if t:
                                    return sorted(t)
                                break
        if not S.known_pointer(F, c):
            return [None]
        n = len(I.ops)
        return [f.name for f in S.at if len(f.args) == n and f.ret == I.ty]

    def passes_memory(S, F, I):
        return False

    def known_pointer(S, F, c):
        """Function pointers read from memory of the library itself."""
        return False

    def of(S, A, c, I):
        """Summary of a call site, None if nothing is known about the callee."""
        if c[0] == "fn":
            if c[1] in S.sum:
                return S.sum[c[1]]
            from models import EXTERNAL
            e = EXTERNAL.get(c[1])
            if e is not None:
                return {"mod": set(e["mod"]), "cap": set(e["cap"])}
            return {"mod": {("*", "i8"), ("*", "i32"), ("*", "i64"), ("*", "ptr")}, "cap": set()}
        key = (A.f.name, I.id)
        r = S.cache.get(key)
        if r is None:
            mod = set(); cap = set()
            ts = S.targets(A.f, I)
            if None in ts:
                # caller-supplied callback: may write anything it can reach
                mod.add("*")
                ts = [f.name for f in S.at if len(f.args) == len(I.ops) and f.ret == I.ty]
            for t in ts:
                s = S.sum.get(t)
                if s:
                    mod |= s["mod"]; cap |= s["cap"]
            r = S.cache[key] = {"mod": mod, "cap": cap}
        return r
