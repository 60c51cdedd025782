"""Loops: every way round one changes something that leaving it depends on.

The transfer of one iteration is read off the paths from a loop's header back to it: what each
variable of the loop becomes in terms of what it was, and which memory is written."""
import itertools
from ir import srcfunc, EngineError

MAXPATHS = 6000
GRID = range(0, 6)
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
# functions whose result depends on their arguments and the memory they are given only
PURE = set("strlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr atoi atof tolower toupper isalnum isdigit isspace "
           "isalpha isxdigit abs labs fabs strtol strtod abort exit __assert_fail sprintf snprintf strcpy strncpy strdup malloc free calloc memcpy memmove memset "
           "pthread_mutex_lock pthread_mutex_unlock".split())


def natural(F, head):
    """Blocks of the loop."""
    body = {head}
    todo = [a for a, b in F.backedges if b == head]
    while todo:
        b = todo.pop()
        if b not in body:
            body.add(b)
            todo += F.blocks[b].preds
    return body


class Loop:
    def __init__(L, F, head, m, S):
        L.F, L.head, L.m, L.S = F, head, m, S
        L.body = natural(F, head)
        L.phis = [I for I in F.blocks[head].insts if I.op == "phi"]
        L.relevance()

    # ------------------------------------------------------------ what leaving depends on
    def dead(L, b):
        B = L.F.blocks[b]
        return B.insts[-1].op == "unreachable"

    def exits(L):
        for b in L.body:
            B = L.F.blocks[b]
            if len(B.succs) > 1 and any(s not in L.body and not L.dead(s) for s in B.succs):
                yield B

    def defined(L, o):
        I = L.F.insts.get(o[1]) if o and o[0] == "v" else None
        return I if I is not None and I.blk.id in L.body else None

    def relevance(L):
        F = L.F
        L.reads, L.calls, L.rel, L.waits = set(), set(), set(), False
        reach = {}
        for b in L.body:        # within one iteration
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                for s in F.blocks[x].succs:
                    if s in L.body and s != L.head and s not in seen:
                        seen.add(s)
                        todo.append(s)
            reach[b] = seen
        todo = []
        L.exitblocks = list(L.exits())
        for E in L.exitblocks:
            todo.append(E.insts[-1].ops[0])
            for b in L.body:
                if b != E.id and E.id in reach[b] and len(F.blocks[b].succs) > 1:
                    todo.append(F.blocks[b].insts[-1].ops[0])
        seen = set()
        while todo:
            o = todo.pop()
            if o and o[0] == "gep":
                todo.append(o[1])
                todo += [s[1] for s in o[2] if s[0] in "pi"]
                continue
            I = L.defined(o)
            if I is None or I.id in seen:
                continue
            seen.add(I.id)
            if I.op == "phi":
                L.rel.add(I.id)
                todo += [v for b, v in I.d["in"] if b in L.body]
                if I.blk.id != L.head:
                    todo += [F.blocks[b].insts[-1].ops[0] for b in L.body
                             if I.blk.id in reach[b] and len(F.blocks[b].succs) > 1]
                else:
                    for b in L.body:
                        if len(F.blocks[b].succs) > 1 and any(p == b or p in reach[b] for p, _ in I.d["in"] if p in L.body):
                            todo.append(F.blocks[b].insts[-1].ops[0])
                continue
            if I.op == "load":
                if I.d.get("vol"):
                    L.waits = True
                L.reads.add(tuple(I.d["tag"]) if I.d.get("tag") else None)
            if I.op in ("call", "invoke"):
                L.calls.add(I.id)
                L.reads.add(None)
            if I.op in ("cmpxchg", "atomicrmw"):
                L.waits = True
            todo += I.ops
        # memory read by what is relevant: any of these tags; None reads what is not a member
    # ------------------------------------------------------------ paths of one iteration
    def paths(L):
        """(values of the loop's variables at the end, conditions, effects) of each way round."""
        F = L.F
        n = 0
        env0 = {I.id: ("phi", I.id) for I in L.phis}
        work = [(L.head, None, env0, (), (), frozenset([L.head]), {}, 0)]
        while work:
            b, pred, env, cond, eff, seen, mem, ver = work.pop()
            B = F.blocks[b]
            env = dict(env)
            if b != L.head:
                new = {}
                for I in B.insts:
                    if I.op != "phi":
                        break
                    for p, o in I.d["in"]:
                        if p == pred:
                            new[I.id] = L.val(env, o)
                env.update(new)
            mem = dict(mem)
            eff = list(eff)
            for I in B.insts:
                if I.op == "phi":
                    continue
                if I is B.insts[-1] and I.op in ("br", "switch", "ret", "unreachable"):
                    break
                ver = L.step(env, I, eff, mem, ver)
            T = B.insts[-1]
            for k, s in enumerate(B.succs):
                c = cond
                if len(B.succs) > 1 and T.op == "br":
                    v, t = L.val(env, T.ops[0]), k == 0
                    while v[0] == "op" and v[1] == "xor" and v[3] == ("c", -1):
                        v, t = v[2], not t
                    if v[0] == "c":
                        if bool(v[1] & 1) != t:
                            continue
                    elif (v, not t) in c or L.opposite(v, t, c):
                        continue
                    else:
                        c = c + ((v, t),)
                elif T.op == "switch":
                    v = L.val(env, T.ops[0])
                    ks = [x[0] for x in T.d["cases"]]
                    if k < len(ks):
                        c = c + ((("cmp", "eq", v, ("c", ks[k])), True),)
                if s == L.head:
                    n += 1
                    if n > MAXPATHS:
                        raise EngineError("too many paths")
                    new = {}
                    for I in L.phis:
                        for p, o in I.d["in"]:
                            if p == b:
                                new[I.id] = L.val(env, o)
                    yield new, c, tuple(eff), b
                elif s in L.body and s not in seen:
                    work.append((s, b, env, c, tuple(eff), seen | {s}, mem, ver))

    def opposite(L, v, t, c):
        if v[0] != "cmp":
            return False
        p = v[1] if t else NEG.get(v[1])
        if p is None:
            return False
        for w, u in c:
            if w[0] == "cmp" and w[1] in NEG:
                q = w[1] if u else NEG[w[1]]
                if (w[2], w[3]) == (v[2], v[3]) and q == NEG[p]:
                    return True
                if (w[3], w[2]) == (v[2], v[3]) and SWAP[q] == NEG[p]:
                    return True
                # two different constants
                if w[2] == v[2] and p == q == "eq" and v[3][0] == w[3][0] == "c" and v[3] != w[3]:
                    return True
        return False

    def val(L, env, o):
        k = o[0]
        if k == "v":
            return env.get(o[1], ("in", o[1]))
        if k == "c":
            return ("c", o[1])
        if k == "n" or k == "z":
            return ("c", 0)
        if k == "gep":
            return ("op", "gep", L.val(env, o[1])) + tuple((s[0], s[2]) if s[0] == "f" else (s[0], s[2], L.val(env, s[1])) for s in o[2])
        return ("k", str(o[1] if len(o) > 1 else o))

    def step(L, env, I, eff, mem, ver):
        op = I.op
        V = lambda i: L.val(env, I.ops[i])
        if op in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
            env[I.id] = V(0)
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "lshr", "ashr", "shl", "and", "or", "xor", "urem", "srem"):
            env[I.id] = L.fold(op, V(0), V(1))
        elif op == "icmp":
            env[I.id] = ("cmp", I.d["pred"], V(0), V(1))
            a, b = V(0), V(1)
            if a[0] == "cmp" and b[0] == "c" and I.d["pred"] in ("eq", "ne"):
                env[I.id] = a if (I.d["pred"] == "ne") == (b[1] == 0) else ("op", "xor", a, ("c", -1))
        elif op == "getelementptr":
            st = []
            for s in I.d["steps"]:
                st.append((s[0], s[2]) if s[0] == "f" else (s[0], s[2], L.val(env, s[1])))
            a = V(0)
            st = [s for s in st if not (s[0] == "f" and s[1] == 0) and not (s[0] != "f" and s[2] == ("c", 0))]
            env[I.id] = ("op", "gep", a) + tuple(st) if st else a
            if len(st) == 1 and st[0][0] == "p" and st[0][2][0] == "c":
                env[I.id] = L.fold("add", a, ("c", st[0][1] * st[0][2][1]))
        elif op == "select":
            env[I.id] = ("op", "select", V(0), V(1), V(2))
        elif op == "load":
            a = V(0)
            if I.d.get("vol"):
                env[I.id] = ("io", I.id)
            else:
                env[I.id] = mem.get(a) or ("ld", a, ver)
        elif op == "store":
            a, v = V(1), V(0)
            old = mem.get(a) or ("ld", a, ver)
            if v != old:
                eff.append(("store", tuple(I.d["tag"]) if I.d.get("tag") else None, I.id, a, v))
                mem.clear()
                ver += 1
            mem[a] = v
        elif op in ("call", "invoke"):
            nm = I.d["callee"][1] if I.d["callee"][0] == "f" else None
            if nm and nm.startswith(("llvm.dbg", "llvm.lifetime")):
                return ver
            k, io = L.effect(I)
            args = tuple(L.val(env, o) for o in I.ops)
            env[I.id] = ("io", I.id) if io else ("call", I.id, ver) + args
            if nm in PURE:
                return ver
            eff.append(("io" if io else "call", k, I.id, args))
            mem.clear()
            ver += 1
        elif op in ("atomicrmw", "cmpxchg", "fence"):
            eff.append(("io", None, I.id))
            env[I.id] = ("io", I.id)
            mem.clear()
            ver += 1
        elif I.ty != "void":
            env[I.id] = ("op", op) + tuple(L.val(env, o) for o in I.ops)
        return ver

    def fold(L, op, a, b):
        if a[0] == "c" and b[0] == "c" and op in ("add", "sub", "mul"):
            return ("c", {"add": a[1] + b[1], "sub": a[1] - b[1], "mul": a[1] * b[1]}[op])
        if op == "sub" and b[0] == "c":
            op, b = "add", ("c", -b[1])
        if op == "add":
            if a[0] == "c":
                a, b = b, a
            if b == ("c", 0):
                return a
            if b[0] == "c" and a[0] == "op" and a[1] == "add" and a[3][0] == "c":
                k = a[3][1] + b[1]
                return ("op", "add", a[2], ("c", k)) if k else a[2]
        return ("op", op, a, b)

    def effect(L, I):
        """(members a call may change in a way that depends on what they were, whether it consumes or waits for something)."""
        c = I.d["callee"]
        if c[0] != "f":
            return frozenset(), False       # a getter or callback: given the same it does the same
        n = c[1]
        F = L.m.funcs.get(n)
        if F is None or F.decl:
            return frozenset(), n not in PURE and not n.startswith("llvm.")
        mod, io = L.S[n]
        if None in mod and not any(o[0] == "v" and o[1] in L.F.insts and L.F.insts[o[1]].op in ("alloca", "getelementptr", "phi", "load")
                                   or o[0] == "v" and o[1] not in L.F.insts for o in I.ops):
            mod = mod - {None}
        return mod, io

    # ------------------------------------------------------------ rules
    def parts(L, e):
        yield e
        for x in e[1:]:
            if isinstance(x, tuple):
                yield from L.parts(x)

    def stuck(L, rel, new, cond, eff):
        """Whether doing the same again does the same again: nothing leaving depends on is built from its own past."""
        if any(e[0] == "io" for e in eff):
            return False
        mem = set()
        for e in eff:
            if e[0] == "call" and e[1] and (L.reads & e[1]):
                return False
        G = {I.id for I in L.phis if new.get(I.id) != ("phi", I.id)}
        M = [e for e in eff if e[0] == "store"]
        while True:
            def alive(v, a=None):
                for x in L.parts(v):
                    if x[0] == "io" or x[0] == "phi" and x[1] in G:
                        return True
                    if x[0] == "ld" and any(x[1] == e[3] for e in live):
                        return True
                return False
            live = M
            G2 = {i for i in G if alive(new[i])}
            M2 = [e for e in M if alive(e[4]) or alive(e[3])]
            if G2 == G and len(M2) == len(M):
                break
            G, M = G2, M2
        if any(I.id in G for I in rel):
            return False
        if any(e[1] in L.reads or e[1] is None and L.reads or None in L.reads for e in M):
            return False
        # what was assigned on this way round must allow it to be taken again
        sub = {("phi", I.id): new[I.id] for I in L.phis if new.get(I.id) != ("phi", I.id)}
        last = {}
        for e in eff:
            if e[0] == "store":
                last[e[3]] = e[4]
            elif e[0] == "call":
                last.clear()
        for v, t in cond:
            if v[0] == "cmp" and v[1] in NEG:
                a, b = L.again(v[2], sub, last), L.again(v[3], sub, last)
                if a[0] == b[0] == "c" and L.rel_(v[1], a[1], b[1]) != t:
                    return False
                if a == b and (v[1] in ("eq", "ule", "uge", "sle", "sge")) != t:
                    return False
                if (a, b) != (v[2], v[3]) and L.opposite(("cmp", v[1], a, b), t, cond):
                    return False
            else:
                a = L.again(v, sub, last)
                if a[0] == "c" and bool(a[1] & 1) != t:
                    return False
                if a != v and (a, not t) in cond:
                    return False
        return True

    def again(L, e, sub, last):
        """The same expression the next time round."""
        if e in sub:
            return sub[e]
        if e[0] == "ld":
            a = L.again(e[1], sub, last)
            if e[2] == 0 and a in last:
                return last[a]
            return ("ld", a, e[2])
        if e[0] in ("op", "cmp", "call"):
            return e[:2] + tuple(L.again(x, sub, last) if isinstance(x, tuple) else x for x in e[2:])
        return e

    def check(L, report, info):
        if L.waits:
            info["waiting"] = info.get("waiting", 0) + 1
            return
        if not L.exitblocks:
            # left by a call which does not return only
            info["endless"] = info.get("endless", 0) + 1
        rel = [I for I in L.phis if I.id in L.rel]
        steps = {}
        ways = 0
        allstep = True
        try:
            for new, cond, eff, last in L.paths():
                ways += 1
                if L.stuck(rel, new, cond, eff):
                    report(L, last, "stuck", cond, "a way round the loop changes nothing that leaving it depends on")
                elif not any(e[0] == "io" or e[0] == "call" and e[1] & L.reads or e[0] == "store" and (e[1] in L.reads or e[1] is None) for e in eff):
                    L.grid(rel, new, cond, last, report)
                for I in rel:
                    v = new.get(I.id)
                    k = 0 if v == ("phi", I.id) else v[3][1] if v and v[0] == "op" and v[1] == "add" and v[2] == ("phi", I.id) and v[3][0] == "c" else None
                    steps.setdefault(I.id, set()).add(k)
        except EngineError:
            info.setdefault("too_many_paths", []).append(L.F.name)
            return
        info["ways"] = info.get("ways", 0) + ways
        if not ways:
            return
        kind = L.counted(steps, report)
        info[kind] = info.get(kind, 0) + 1

    def grid(L, rel, new, cond, last, report):
        """A way round on which the variables are recomputed, and may come out as they were."""
        syms = set()

        def collect(e):
            if e[0] in ("phi", "in"):
                syms.add(e)
            elif e[0] == "op" and e[1] in ("add", "sub", "mul", "udiv", "sdiv", "lshr", "shl", "ashr"):
                return all(collect(x) for x in e[2:])
            elif e[0] != "c":
                return False
            return True
        changed = [I for I in rel if new.get(I.id) != ("phi", I.id)]
        if not all(collect(new[I.id]) for I in changed):
            return
        if all(new[I.id][0] == "op" and new[I.id][1] == "add" and new[I.id][2] == ("phi", I.id) and new[I.id][3][0] == "c" for I in changed):
            return
        conds = []
        for v, t in cond:
            if v[0] == "cmp" and v[1] in NEG:
                s0 = set(syms)
                if collect(v[2]) and collect(v[3]):
                    conds.append((v, t))
                else:
                    syms.clear()
                    syms.update(s0)
        if len(syms) > 4:
            return
        sy = sorted(syms)
        for vals in itertools.product(GRID, repeat=len(sy)):
            env = dict(zip(sy, vals))
            ev = lambda e: L.ev(e, env)
            if any(ev(v[2]) is None or ev(v[3]) is None or L.rel_(v[1], ev(v[2]), ev(v[3])) != t for v, t in conds):
                continue
            if all(ev(new[I.id]) == env.get(("phi", I.id), None) for I in changed):
                w = ", ".join("%s = %d" % (L.F.names.get(s[1], "value"), env[s]) for s in sy)
                return report(L, last, "stuck", cond, "a way round the loop may leave the variables that end it as they were (%s)" % w)

    def ev(L, e, env):
        if e[0] == "c":
            return e[1]
        if e[0] in ("phi", "in"):
            return env.get(e)
        x = [L.ev(y, env) for y in e[2:]]
        if None in x:
            return None
        a, b = x
        if e[1] in ("udiv", "sdiv"):
            return None if b == 0 else int(a / b)
        return {"add": a + b, "sub": a - b, "mul": a * b, "lshr": a >> b if b >= 0 else None, "ashr": a >> b if b >= 0 else None, "shl": a << b if b >= 0 else None}.get(e[1])

    def rel_(L, p, a, b):
        return {"eq": a == b, "ne": a != b}.get(p, {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(p[1:]))

    def counted(L, steps, report):
        """Loops ended by a counter which only moves one way."""
        good, bad, other = 0, [], 0
        for E in L.exitblocks:
            T = E.insts[-1]
            if T.op != "br":
                other += 1
                continue
            C = L.defined(T.ops[0])
            stay = E.succs[0] in L.body
            while C is not None and C.op == "xor":
                C, stay = L.defined(C.ops[0]), not stay
            if C is None or C.op != "icmp":
                other += 1
                continue
            p = C.d["pred"] if stay else NEG[C.d["pred"]]
            x, y = (L.linear(o) for o in C.ops)
            hit = None
            for a, b, q in ((x, y, p), (y, x, SWAP[p])):
                if a and a in steps and b is False:
                    ks = steps[a]
                    if None in ks:
                        continue
                    if q[1:] in ("lt", "le"):
                        hit = all(k > 0 for k in ks) or (False if all(k <= 0 for k in ks) else None)
                    elif q[1:] in ("gt", "ge"):
                        hit = all(k < 0 for k in ks) or (False if all(k >= 0 for k in ks) else None)
                        if q == "uge" and L.zero(C):
                            hit = False
                    elif q == "ne":
                        hit = True if ks and 0 not in ks and (all(k > 0 for k in ks) or all(k < 0 for k in ks)) else None
            if hit:
                good += 1
            elif hit is False:
                bad.append((E, C))
            else:
                other += 1
        if bad and not good and not other:
            report(L, bad[0][0].id, "away", (), "the loop's counter moves away from the limit that ends it")
        return "counted" if good else "driven_by_data"

    def zero(L, C):
        return any(o[0] == "c" and o[1] == 0 for o in C.ops)

    def linear(L, o):
        """The loop variable a value is (plus a constant), False when it does not change in the loop."""
        for _ in range(12):
            I = L.defined(o)
            if I is None:
                return False
            if I.op == "phi":
                return I.id if I.blk.id == L.head else None
            if I.op in ("zext", "sext", "trunc", "bitcast"):
                o = I.ops[0]
            elif I.op in ("add", "sub") and I.ops[1][0] == "c":
                o = I.ops[0]
            elif I.op == "getelementptr" and all(s[0] == "f" or s[1][0] == "c" for s in I.d["steps"]):
                o = I.ops[0]
            elif I.op == "load":
                # of a member nothing in the loop writes
                t = tuple(I.d["tag"]) if I.d.get("tag") else None
                if t is None:
                    return None
                for b in L.body:
                    for J in L.F.blocks[b].insts:
                        if J.op == "store" and (not J.d.get("tag") or tuple(J.d["tag"]) == t):
                            return None
                        if J.op in ("call", "invoke"):
                            k, io = L.effect(J)
                            if t in k or None in k:
                                return None
                return False
            else:
                return None
        return None


def summaries(m):
    """For each function: the members it changes (None: memory of another kind) and whether it does input, output or waits."""
    S = {n: [set(), False, set()] for n, F in m.funcs.items() if not F.decl}
    for n, F in m.funcs.items():
        if F.decl:
            continue
        local = set()
        for b in F.rpo:
            for I in F.blocks[b].insts:
                if I.op == "alloca" or I.op == "getelementptr" and I.ops[0][0] == "v" and I.ops[0][1] in local:
                    local.add(I.id)
                if I.op == "store":
                    if not (I.ops[1][0] == "v" and I.ops[1][1] in local):
                        S[n][0].add(tuple(I.d["tag"]) if I.d.get("tag") else None)
                elif I.op in ("atomicrmw", "cmpxchg"):
                    S[n][1] = True
                elif I.op in ("call", "invoke") and I.d["callee"][0] == "f":
                    c = I.d["callee"][1]
                    if c in S:
                        S[n][2].add(c)
                    elif c not in PURE and not c.startswith("llvm."):
                        S[n][1] = True
    ch = True
    while ch:
        ch = False
        for n, (mod, io, cs) in S.items():
            for c in cs:
                if not S[c][0] <= mod:
                    mod |= S[c][0]
                    ch = True
                if S[c][1] and not S[n][1]:
                    S[n][1] = ch = True
    return {n: (frozenset(x[0]), x[1]) for n, x in S.items()}


def run(m, found, info):
    S = summaries(m)
    names = {}

    def report(L, block, rule, cond, msg):
        H = L.F.blocks[L.head]
        loc = next((I.loc[0] for b in [H] + [L.F.blocks[x] for x in sorted(L.body)] for I in b.insts if I.loc and I.op in ("br", "icmp")), None) \
            or (L.F.file, L.F.line, L.F.name)
        src = loc[2]
        k = (rule, src, "loop")
        if k not in found:
            found[k] = {"rule": rule, "function": src, "file": loc[0], "line": loc[1], "message": msg,
                        "path": [show(L, v, t) for v, t in cond][-6:]}
    for F in m.funcs.values():
        if F.decl or F.internal and not F.addr_taken:
            continue
        for b in F.blocks.values():
            if b.header:
                info["loops"] = info.get("loops", 0) + 1
                names.setdefault(F.name, 0)
                names[F.name] += 1
                Loop(F, b.id, m, S).check(report, info)
    info["functions_with_loops"] = sorted(names)


def show(L, v, t):
    def e(x):
        if x[0] == "c":
            return str(x[1])
        if x[0] in ("phi", "in"):
            return L.F.names.get(x[1], "v%d" % x[1])
        if x[0] == "ld":
            return "*(%s)" % e(x[1])
        if x[0] == "op" and x[1] == "gep":
            return e(x[2]) + "->.."
        if x[0] == "call":
            return "%s()" % x[1]
        return x[0]
    if v[0] == "cmp":
        return "%s %s %s: %s" % (e(v[2]), v[1], e(v[3]), "yes" if t else "no")
    return "%s: %s" % (e(v), "yes" if t else "no")
