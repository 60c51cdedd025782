"""What is read from a data file is read from where the format puts it.

Values are polynomials of degree one over what is loaded, modulo the width of the arithmetic, along
each path from a function's entry; loads are named by base object, offset, size and signedness."""
from ir import srcfunc, EngineError

MAXPATHS = 4000


class Val:
    """sum of coef * atom + c, valid modulo 2**bits."""
    __slots__ = ("t", "c", "bits")

    def __init__(v, t=(), c=0, bits=64):
        v.t, v.c, v.bits = dict(t), c, bits

    def add(v, o, k=1):
        t = dict(v.t)
        for a, x in o.t.items():
            t[a] = t.get(a, 0) + k * x
        return Val({a: x for a, x in t.items() if x}, v.c + k * o.c, min(v.bits, o.bits))

    def scale(v, k):
        return Val({a: x * k for a, x in v.t.items()} if k else {}, v.c * k, v.bits)

    def norm(v, bits):
        m = 1 << bits
        if bits <= 32:      # the sign of what fills the width makes no difference
            v = Val({(a[:4] + ("",) if a[0] == "ld" and a[3] * 8 >= bits else a): x for a, x in v.t.items()}, v.c)
        return (frozenset((a, x % m) for a, x in v.t.items() if x % m), v.c % m)

    def same(v, o, bits=64):
        b = min(v.bits, o.bits, bits)
        return v.norm(b) == o.norm(b)


def A(x):
    return Val({x: 1})


WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64}


class Walk:
    """Every acyclic path of a function; calls seen(kind, what) at calls and returns."""

    def __init__(w, F, visit):
        w.F, w.visit = F, visit
        w.paths = 0

    def run(w):
        w.go(w.F.entry, None, {}, [], frozenset())

    def go(w, b, prev, env, eqs, seen):
        while True:
            if b in seen or w.paths > MAXPATHS:
                return
            seen = seen | {b}
            B = w.F.blocks[b]
            new = {}
            for I in B.insts:
                if I.op != "phi":
                    break
                o = next((o for p, o in I.d["in"] if p == prev), None)
                new[I.id] = w.ev(o, env) if o is not None else A(("u", I.id))
            env = {**env, **new}
            t = B.insts[-1]
            for I in B.insts:
                if I.op == "phi":
                    continue
                v = w.inst(I, env)
                if v is not None:
                    env[I.id] = v
                if I.op in ("call", "invoke"):
                    w.visit("call", I, [w.ev(o, env) for o in I.ops], env, eqs)
            if t.op == "ret":
                w.paths += 1
                w.visit("ret", t, [w.ev(o, env) for o in t.ops], env, eqs)
                return
            if not B.succs:
                return
            prev = b
            if len(B.succs) == 1:
                b = B.succs[0]
                continue
            if t.op == "switch":
                c = w.ev(t.ops[0], env)
                for k, s in t.d["cases"]:
                    w.go(s, prev, env, eqs + [c.add(Val((), k, 64), -1)], seen)
                b = t.d["default"]
                continue
            C = w.F.insts.get(t.ops[0][1]) if t.ops and t.ops[0][0] == "v" else None
            if C is not None and C.op == "icmp" and C.d.get("pred") in ("eq", "ne"):
                e = w.ev(C.ops[0], env).add(w.ev(C.ops[1], env), -1)
                yes, no = (eqs + [e], eqs) if C.d["pred"] == "eq" else (eqs, eqs + [e])
            else:
                yes = no = eqs
            w.go(B.succs[0], prev, env, yes, seen)
            eqs = no
            b = B.succs[1]

    def ev(w, o, env):
        if o[0] == "v":
            return env.get(o[1]) or A(("arg" if o[1] in w.args() else "v", w.args().get(o[1], o[1])))
        if o[0] == "c":
            return Val((), o[1], 64)
        if o[0] in ("n", "z"):
            return Val()
        if o[0] == "gep":
            return w.gep(w.ev(o[1], env), o[2], env)
        if o[0] in ("g", "f"):
            return A((o[0], o[1]))
        return A(("u", repr(o)))

    def args(w):
        if not hasattr(w, "_args"):
            w._args = {a["id"]: i for i, a in enumerate(w.F.args)}
        return w._args

    def gep(w, v, steps, env):
        for s in steps:
            if s[0] == "f":
                v = v.add(Val((), s[2]))
            else:
                v = v.add(w.ev(s[1], env).scale(s[2]))
        return v

    def inst(w, I, env):
        op = I.op
        if op == "getelementptr":
            return w.gep(w.ev(I.ops[0], env), I.d["steps"], env)
        if op in ("add", "sub", "mul", "shl"):
            x, y = w.ev(I.ops[0], env), w.ev(I.ops[1], env)
            bits = WIDTH.get(I.ty, 64)
            if op in ("add", "sub"):
                r = x.add(y, 1 if op == "add" else -1)
            elif op == "shl" and not y.t:
                r = x.scale(1 << y.c)
            elif op == "mul" and not (x.t and y.t):
                r = x.scale(y.c) if not y.t else y.scale(x.c)
            else:
                return A(("v", I.id))
            r.bits = min(r.bits, bits)
            return r
        if op in ("zext", "sext"):
            J = w.F.insts.get(I.ops[0][1]) if I.ops[0][0] == "v" else None
            x = w.ev(I.ops[0], env)
            wd = WIDTH.get(J.ty, 64) if J is not None else x.bits
            if len(x.t) == 1 and x.c == 0 and not isinstance(x, int):
                (a, k), = x.t.items()
                if k == 1 and a[0] == "ld" and a[3] * 8 == wd and wd < 64:
                    return Val({a[:4] + ("s" if op == "sext" else "u",): 1})
            return Val(x.t, x.c, min(x.bits, wd)) if x.t else x
        if op == "trunc":
            x = w.ev(I.ops[0], env)
            bits = WIDTH.get(I.ty, 64)
            if len(x.t) == 1 and x.c == 0:
                (a, k), = x.t.items()
                if k == 1 and a[0] == "ld" and a[3] * 8 == bits:
                    return Val({a[:4] + ("",): 1})
            return Val(x.t, x.c, min(x.bits, bits))
        if op == "freeze":
            return w.ev(I.ops[0], env)
        if op == "load":
            p = w.ev(I.ops[0], env)
            n = WIDTH.get(I.ty, 64) // 8
            base = [a for a, k in p.t.items() if k == 1]
            if len(p.t) == 1 and len(base) == 1 and n:
                return A(("ld", base[0], p.c, n, ""))
            return A(("v", I.id))
        if op in ("call", "invoke"):
            return A(("call", I.id))
        if op in ("select",):
            x, y = w.ev(I.ops[1], env), w.ev(I.ops[2], env)
            return x if x.same(y) else A(("v", I.id))
        if I.ty != "void":
            return A(("v", I.id))


def under(v, eqs):
    """v where each equality atom = constant is used."""
    for e in eqs:
        if len(e.t) == 1:
            (a, k), = e.t.items()
            if abs(k) == 1:
                t = dict(v.t)
                for b in list(t):
                    if b[:4] == a[:4] and (b[0] == "ld" or b == a):
                        x = t.pop(b)
                        v = Val(t, v.c + x * (-e.c * k), v.bits)
    return v


def show(v):
    def at(a):
        if a[0] == "ld":
            return "[%s+%d:%d]" % (at(a[1]), a[2], a[3])
        if a[0] == "arg":
            return "argument %d" % a[1]
        if a[0] == "call":
            return "result"
        return a[0]
    s = " + ".join(("%s" % at(a) if k == 1 else "%d*%s" % (k, at(a))) for a, k in sorted(v.t.items(), key=repr))
    return (s + (" + %d" % v.c if v.c else "")) if s else str(v.c)


def slot(I):
    c = I.d.get("callee")
    return c


def field(base, off, size, sign="u"):
    return Val({("ld", base, off, size, sign): 1})


# ------------------------------------------------------------------ the format
# type, size, [(member, C type, offset)]
I16, I32, U16, U32, BYTE, CHAR = "int16_t", "int32_t", "uint16_t", "uint32_t", "unsigned char", "char"
RECORDS = [
    ("fiftyoneDegreesComponentKeyValuePair", 8, [("key", U32, 0), ("value", U32, 4)]),
    ("fiftyoneDegreesComponent", 19, [("componentId", BYTE, 0), ("nameOffset", I32, 1), ("defaultProfileOffset", I32, 5),
                                      ("keyValuesCount", U16, 9), ("firstKeyValuePair", "fiftyoneDegreesComponentKeyValuePair", 11)]),
    ("fiftyoneDegreesProfile", 9, [("componentIndex", BYTE, 0), ("profileId", U32, 1), ("valueCount", U32, 5)]),
    ("fiftyoneDegreesProfileOffset", 8, [("profileId", U32, 0), ("offset", U32, 4)]),
    ("fiftyoneDegreesProperty", 44,
     [(n, BYTE, i) for i, n in enumerate(("componentIndex", "displayOrder", "isMandatory", "isList", "showValues", "isObsolete", "show", "valueType"))] +
     [(n, U32, 8 + 4 * i) for i, n in enumerate(("defaultValueIndex", "nameOffset", "descriptionOffset", "categoryOffset", "urlOffset",
                                                 "firstValueIndex", "lastValueIndex", "mapCount", "firstMapIndex"))]),
    ("fiftyoneDegreesValue", 14, [("propertyIndex", I16, 0), ("nameOffset", I32, 2), ("descriptionOffset", I32, 6), ("urlOffset", I32, 10)]),
    ("fiftyoneDegreesString", 11, [("size", I16, 0), ("value", CHAR, 2), ("trail.secondValue", CHAR, 3),
                                   ("trail.coordinate.lat", "fiftyoneDegreesFloat", 3), ("trail.coordinate.lon", "fiftyoneDegreesFloat", 7)]),
    ("fiftyoneDegreesDate", 4, [("year", I16, 0), ("month", BYTE, 2), ("day", BYTE, 3)]),
    ("fiftyoneDegreesCollectionHeader", 12, [("startPosition", U32, 0), ("length", U32, 4), ("count", U32, 8)]),
    ("fiftyoneDegreesFloat", 4, []),
]
NUMBERS = [("FIFTYONE_DEGREES_PROPERTY_VALUE_TYPE_" + n, i) for n, i in
           (("STRING", 0), ("INTEGER", 1), ("DOUBLE", 2), ("BOOLEAN", 3), ("JAVASCRIPT", 4), ("SINGLE_PRECISION_FLOAT", 5),
            ("SINGLE_BYTE", 6), ("COORDINATE", 7), ("IP_ADDRESS", 8))] + \
          [("FIFTYONE_DEGREES_STRING_COORDINATE", 1), ("FIFTYONE_DEGREES_STRING_IP_ADDRESS", 2),
           ("FIFTYONE_DEGREES_IPV4_LENGTH", 4), ("FIFTYONE_DEGREES_IPV6_LENGTH", 16),
           ("FIFTYONE_DEGREES_FLOAT_BIAS", 127), ("FIFTYONE_DEGREES_FLOAT_EXP_SIZE", 8), ("FIFTYONE_DEGREES_FLOAT_MANT_SIZE", 23)]


def claims():
    out = []
    for t, size, ms in RECORDS:
        out.append((t, "size", "sizeof(%s) == %d" % (t, size), "a %s takes %d bytes in a data file" % (t, size)))
        for n, ct, off in ms:
            out.append((t, n, "offsetof(%s, %s) == %d" % (t, n, off), "%s.%s is %d bytes into the record in a data file" % (t, n, off)))
            out.append((t, n + " type", "_Generic(((%s*)0)->%s, %s: 1, default: 0)" % (t, n, ct), "%s.%s is stored as %s in a data file" % (t, n, ct)))
    for n, v in NUMBERS:
        out.append((n, "value", "%s == %d" % (n, v), "%s is %d in data files" % (n, v)))
    return out


def witness(config, cxx, d):
    """Compile one static assertion per claim; [(claim, file, line)] that fail, how many were decided."""
    import os, re, subprocess, ir
    src = os.path.join(d, "layout." + ("cpp" if cxx else "c"))
    lines = ['#include <stddef.h>', '#include "%s"' % os.path.join(ir.REPO, "fiftyone.h")]
    cl = [c for c in claims() if not (cxx and "_Generic" in c[2])]
    first = len(lines) + 1
    kw = "static_assert" if cxx else "_Static_assert"
    for c in cl:
        lines.append('%s(%s, "layout");' % (kw, c[2]))
    open(src, "w").write("\n".join(lines) + "\n")
    cmd = [ir.CLANGXX, "-std=gnu++17"] if cxx else [ir.CLANG, "-std=gnu11"]
    r = subprocess.run(cmd + ["-fsyntax-only", "-w", "-ferror-limit=0", *ir.CONFIGS[config], src], capture_output=True, text=True)
    bad, undecided = [], set()
    for mm in re.finditer(r"^([^:\n]+):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M):
        if os.path.basename(mm.group(1)) != os.path.basename(src):
            raise EngineError("the headers do not compile: %s" % mm.group(0))
        i = int(mm.group(2)) - first
        if i < 0:
            raise EngineError("fiftyone.h was not found")
        if "static assertion failed" in mm.group(3):
            bad.append(cl[i])
        else:
            undecided.add(i)
    return bad, len(cl) - len(undecided), len(cl)


# accessor, "get": the index it asks its collection for; "ret": what it returns; base, offset and size of the field
ARG, GOT = "arg", "got"
ACCESS = [
    ("fiftyoneDegreesPropertyGetName", "get", 0, (ARG, 1), 12, 4, "Property.nameOffset"),
    ("fiftyoneDegreesPropertyGetDescription", "get", 0, (ARG, 1), 16, 4, "Property.descriptionOffset"),
    ("fiftyoneDegreesPropertyGetCategory", "get", 0, (ARG, 1), 20, 4, "Property.categoryOffset"),
    ("fiftyoneDegreesPropertyGetUrl", "get", 0, (ARG, 1), 24, 4, "Property.urlOffset"),
    ("fiftyoneDegreesPropertyGetByName", "get", 1, GOT, 12, 4, "Property.nameOffset"),
    ("fiftyoneDegreesPropertyGetValueType", "ret", None, GOT, 7, 1, "Property.valueType"),
    ("fiftyoneDegreesValueGetName", "get", 0, (ARG, 1), 2, 4, "Value.nameOffset"),
    ("fiftyoneDegreesValueGetDescription", "get", 0, (ARG, 1), 6, 4, "Value.descriptionOffset"),
    ("fiftyoneDegreesValueGetUrl", "get", 0, (ARG, 1), 10, 4, "Value.urlOffset"),
    ("fiftyoneDegreesComponentGetName", "get", 0, (ARG, 1), 1, 4, "Component.nameOffset"),
    ("fiftyoneDegreesComponentGetDefaultProfileId", "get", 0, (ARG, 1), 5, 4, "Component.defaultProfileOffset"),
    ("fiftyoneDegreesComponentGetDefaultProfileId", "ret", None, GOT, 1, 4, "Profile.profileId"),
    ("fiftyoneDegreesProfileGetByIndex", "get", 1, GOT, 4, 4, "ProfileOffset.offset"),
    ("fiftyoneDegreesProfileIterateProfilesForPropertyAndValue", "get", 3, GOT, 4, 4, "ProfileOffset.offset"),
]
# the index asked for is the one given
INDEXED = [
    ("fiftyoneDegreesPropertyGet", 0, 1), ("fiftyoneDegreesPropertyGetValueType", 0, 1), ("fiftyoneDegreesValueGet", 0, 1),
    ("fiftyoneDegreesStringGet", 0, 1), ("fiftyoneDegreesProfileGetByIndex", 0, 2),
]
# reader, formula: constant and [(coefficient, offset, size, signedness)], what it says
SIZES = {
    "fiftyoneDegreesStringRead": (2, (1, 0, 2, "s"), "2 bytes and as many more as the first two say"),
    "fiftyoneDegreesComponentReadFromFile": (11, (8, 9, 2, "u"), "11 bytes and 8 for each of its key value pairs"),
    "fiftyoneDegreesProfileReadFromFile": (9, (4, 5, 4, ""), "9 bytes and 4 for each of its values"),
}


class Check:
    def __init__(c, m, found, info):
        c.m, c.found, c.info = m, found, info
        s = c.m.structs.get("fiftyone_degrees_collection_t")
        off = next((f[1] for f in s["fields"] if f[0] == "get"), None) if s else None
        if off is None:
            raise EngineError("the get method of a collection was not found")
        c.getoff = off

    def n(c, k):
        c.info[k] = c.info.get(k, 0) + 1

    def report(c, rule, fn, subject, I, msg):
        loc = I.loc[0] if I.loc else (I.fn.file, I.fn.line, fn)
        import os
        c.found.setdefault((rule, fn, subject), {"rule": rule, "function": srcfunc(I), "file": os.path.basename(loc[0]), "line": loc[1],
                                                 "message": msg, "root": fn})

    def got(c, I, vals, w, env):
        """Collection whose get method is called here."""
        cal = I.d.get("callee")
        if not cal or cal[0] != "v":
            return None
        v = env.get(cal[1])
        if v is None or len(v.t) != 1 or v.c:
            return None
        (a, k), = v.t.items()
        if a[0] == "ld" and a[2] == c.getoff and a[3] == 8 and len(vals) >= 2:
            return a[1]
        return None

    def accessors(c, base):
        for fn in sorted({x[0] for x in ACCESS} | {x[0] for x in INDEXED}):
            F = (base if fn.startswith("fiftyoneDegreesProfileIterate") else c.m).funcs.get(fn)
            if F is None or F.decl:
                c.n("accessors_not_found")
                continue
            c.n("accessors")
            gots = set()
            def visit(kind, I, vals, env, eqs, fn=fn):
                if kind == "call":
                    col = c.got(I, vals, w, env)
                    if col is None:
                        return
                    gots.add(("call", I.id))
                    for f, k, arg, base, off, size, name in ACCESS:
                        if f == fn and k == "get" and col == ("arg", arg):
                            c.match(fn, I, vals[1], base, off, size, name, eqs, gots, "asks for the item at")
                    for f, arg, ix in INDEXED:
                        if f == fn and col == ("arg", arg):
                            c.n("indexes_compared")
                            if not under(vals[1], eqs).same(under(A(("arg", ix)), eqs), 32) and c.plain(vals[1], gots):
                                c.report("index", fn, "argument %d" % ix, I, "%s asks its collection for the item at %s where the index it was given "
                                         "is meant" % (fn, show(vals[1])))
                elif vals:
                    for f, k, arg, base, off, size, name in ACCESS:
                        if f == fn and k == "ret" and vals[0].t:
                            c.match(fn, I, vals[0], base, off, size, name, eqs, gots, "returns")
            w = Walk(F, visit)
            w.run()
            if not w.paths:
                c.n("accessors_not_followed")

    def plain(c, v, gots):
        """Made only of what was given and of fields of what was got."""
        def ok(a):
            if a[0] == "ld":
                return ok(a[1])
            return a[0] == "arg" or a in gots
        return all(ok(a) for a in v.t)

    def match(c, fn, I, v, base, off, size, name, eqs, gots, verb):
        bases = [base] if base != GOT else sorted(gots, key=repr)
        for b in bases:
            for s in ("", "u", "s"):
                w = field(b, off, size, s)
                if v.same(w, 8 * size if s == "" or size == 4 else 32) or under(v, eqs).same(under(w, eqs), 32):
                    c.n("fields_compared")
                    return
        if not c.plain(v, gots):
            c.n("fields_not_followed")
            return
        c.n("fields_compared")
        c.report("field", fn, name, I, "%s %s %s where %s, %d bytes at offset %d, is meant" % (fn, verb, show(v), name, size, off))

    def pair(c):
        fn = "fiftyoneDegreesComponentGetKeyValuePair"
        F = c.m.funcs.get(fn)
        if F is None or F.decl:
            return
        def visit(kind, I, vals, env, eqs):
            if kind != "ret" or not vals or not vals[0].t:
                return
            v = vals[0]
            ix = [a for a in v.t if a == ("arg", 1)]
            if any(a not in (("arg", 0), ("arg", 1)) for a in v.t):
                c.n("fields_not_followed")
                return
            c.n("fields_compared")
            want = A(("arg", 0)).add(A(("arg", 1)).scale(8)).add(Val((), 11))
            if not under(v, eqs).same(under(want, eqs), 16):
                c.report("field", fn, "Component.firstKeyValuePair", I, "%s returns %s where a pair, 8 bytes each from offset 11, is meant" % (fn, show(v)))
        Walk(F, visit).run()

    def sizes(c, base):
        """base: the same program with only file-local helpers inlined, to see the calls of the reader."""
        for fn, (k0, term, text) in sorted(SIZES.items()):
            F = base.funcs.get(fn)
            if F is None or F.decl:
                c.n("readers_not_found")
                continue
            for I in F.insts.values():
                if I.op not in ("call", "invoke"):
                    continue
                cal = I.d.get("callee")
                if not cal or cal[:2] != ["f", "fiftyoneDegreesCollectionReadFileVariable"]:
                    continue
                fs = [o[1] for o in I.ops if o and o[0] == "f"]
                need = I.ops[4] if len(I.ops) > 4 else None
                if len(fs) != 1 or fs[0] not in base.funcs or base.funcs[fs[0]].decl:
                    c.n("readers_not_followed")
                    continue
                c.n("readers")
                c.formula(base.funcs[fs[0]], k0, term, text, fn, need, I)

    def formula(c, G, k0, term, text, fn, need, call):
        want = Val({("ld", ("arg", 0), term[1], term[2], term[3]): term[0]}, k0)
        reach = [0]
        def visit(kind, I, vals, env, eqs):
            if kind != "ret" or not vals:
                return
            v = vals[0]
            def ok(a):
                return a[0] == "ld" and a[1] == ("arg", 0)
            if not all(ok(a) for a in v.t):
                c.n("sizes_not_followed")
                return
            c.n("sizes_compared")
            if not under(v, eqs).same(under(want, eqs), 32):
                c.report("size", fn, G.name, I, "%s says the item takes %s bytes; it is %s" % (G.name, show(v), text))
        Walk(G, visit).run()
        for L in G.insts.values():
            if L.op == "load":
                w = Walk(G, lambda *a: None)
                p = c.static(G, L.ops[0])
                if p is not None:
                    reach[0] = max(reach[0], p + WIDTH.get(L.ty, 64) // 8)
        if need and need[0] == "c" and reach[0]:
            c.n("initial_sizes_compared")
            if need[1] < reach[0]:
                c.report("initial", fn, G.name, call, "%s works out the size of the item from its first %d bytes, of which %s reads only %d"
                         % (G.name, reach[0], fn, need[1]))

    def static(c, G, o):
        """Offset from the first parameter."""
        if o[0] == "v":
            if G.args and o[1] == G.args[0]["id"]:
                return 0
            J = G.insts.get(o[1])
            if J is None or J.op != "getelementptr":
                return None
            p = c.static(G, J.ops[0])
            for s in J.d["steps"]:
                if p is None:
                    return None
                if s[0] == "f":
                    p += s[2]
                elif s[1][0] == "c":
                    p += s[1][1] * s[2]
                else:
                    return None
            return p
        return None
