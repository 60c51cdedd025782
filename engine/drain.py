"""What ends an object's life gives up everything the object owns.

For each function which frees or releases an object: every path through it (and every round of the
loop over its parts) reaches the call which gives the part up, unless the path found there is none."""
import os
from ir import srcfunc
from progress import natural

FREES = {"free", "*fiftyoneDegreesFree", "*fiftyoneDegreesFreeAligned", "fiftyoneDegreesMemoryStandardFree",
         "fiftyoneDegreesMemoryStandardFreeAligned", "fiftyoneDegreesMemoryTrackingFree", "fiftyoneDegreesMemoryTrackingFreeAligned"}
CONFIGS = {"quick": ["release"], "thorough": ["release", "nothread", "track"]}
P = "fiftyone_degrees_"
ITEM = P + "collection_item_t"
COLL = P + "collection_t"
DATA = P + "data_t"

# function (or slot: every function it is given), how, what, inside a loop over the parts, fields whose being zero says there is none
SPEC = [
    ("fiftyoneDegreesHeadersFree", "free", (P + "header_t", "name"), True, ()),
    ("fiftyoneDegreesHeadersFree", "free", (P + "header_t", "segments"), True, ()),
    ("fiftyoneDegreesHeadersFree", "free", 0, False, ()),
    ("fiftyoneDegreesCacheFree", "free", (DATA, "ptr"), True, ("allocated",)),
    ("fiftyoneDegreesCacheFree", "free", 0, False, ()),
    ("fiftyoneDegreesPropertiesFree", "release", (P + "property_available_t", "name"), True, ("ptr", "handle", "collection")),
    ("fiftyoneDegreesPropertiesFree", "free", (P + "property_available_t", "evidenceProperties"), True, ()),
    ("fiftyoneDegreesPropertiesFree", "free", 0, False, ()),
    ("fiftyoneDegreesEvidenceFree", "free", 0, False, ()),
    ("fiftyoneDegreesOverridePropertiesFree", "free", 0, False, ()),
    ("fiftyoneDegreesOverrideValuesFree", "free", (DATA, "ptr"), True, ("allocated",)),
    ("fiftyoneDegreesOverrideValuesFree", "free", 0, False, ()),
    ("fiftyoneDegreesPoolFree", "resourceFree", (P + "pool_item_t", "resource"), True, ("resourceFree", "stack")),
    ("fiftyoneDegreesPoolFree", "free", (P + "pool_t", "stack"), False, ()),
    ("fiftyoneDegreesListRelease", "release", (P + "list_t", "items"), True, ("ptr", "handle", "collection")),
    ("fiftyoneDegreesListFree", "release", (P + "list_t", "items"), True, ("ptr", "handle", "collection")),
    ("fiftyoneDegreesListFree", "free", (P + "list_t", "items"), False, ()),
    ("fiftyoneDegreesDataSetFree", "free", (P + "dataset_base_t", "uniqueHeaders"), False, ()),
    ("fiftyoneDegreesDataSetFree", "free", (P + "dataset_base_t", "overridable"), False, ()),
    ("fiftyoneDegreesDataSetFree", "free", (P + "dataset_base_t", "available"), False, ()),
    ("fiftyoneDegreesDataSetFree", "free", (P + "dataset_base_t", "memoryToFree"), False, ()),
    ("fiftyoneDegreesDataSetFree", "free", (P + "pool_t", "stack"), False, ()),
    ("fiftyoneDegreesFilePoolRelease", "free", (P + "pool_t", "stack"), False, ()),
    ("fiftyoneDegreesIpFreeAddresses", "free", 1, True, ()),
    ((COLL, "freeCollection"), "free", 0, False, ()),
    ((COLL, "freeCollection"), "free", (COLL, "state"), False, ()),
    ((P + "pool_t", "resourceFree"), "fclose", 1, False, ()),
]
# somebody among the functions a slot is given does this
ANY = [
    ((COLL, "freeCollection"), "free", (P + "collection_memory_t", "memoryToFree"), False, ()),
    ((COLL, "freeCollection"), "free", (P + "collection_cache_t", "cache"), False, ()),
    ((COLL, "freeCollection"), "freeCollection", (COLL, "next"), False, ()),
    ((COLL, "freeCollection"), "freeCollection", (P + "cache_t", "loaderState"), False, ("cache",)),
    ((COLL, "release"), "free", (ITEM, "handle"), False, ()),
]


class Drains:
    def __init__(s, m, S, report, info):
        s.m, s.S, s.report, s.info = m, S, report, info

    def chain(s, F, o, d=0):
        """The values a pointer was reached through, outermost first: fields, parameters."""
        if o[0] != "v" or d > 24:
            return []
        I = F.insts.get(o[1])
        if I is None:
            return [k for k, a in enumerate(F.args) if a["id"] == o[1]]
        if I.op == "load":
            t = tuple(I.d["tag"]) if I.d.get("tag") else None
            return ([t] if t else []) + s.chain(F, I.ops[0], d + 1)
        if I.op == "getelementptr":
            out = [(x[1], x[3]) for x in reversed(I.d.get("steps", ())) if x[0] == "f"]
            return out + s.chain(F, I.ops[0], d + 1)
        if I.op == "phi":
            out = []
            for _, x in I.d["in"]:
                for y in s.chain(F, x, d + 6):
                    if y not in out:
                        out.append(y)
            return out
        if I.op == "select":
            return s.chain(F, I.ops[1], d + 6) + s.chain(F, I.ops[2], d + 6)
        if I.ops and I.op in ("bitcast", "inttoptr", "ptrtoint", "zext", "sext", "trunc", "addrspacecast"):
            return s.chain(F, I.ops[0], d + 1)
        return []

    def what(s, I, F):
        c = I.d["callee"]
        if c[0] == "f":
            return c[1]
        if c[0] == "g":
            return "*" + c[1]
        J = F.insts.get(c[1]) if c[0] == "v" else None
        if J is not None and J.op == "load":
            if J.ops[0][0] == "g":
                return "*" + J.ops[0][1]
            if J.d.get("tag"):
                return "->" + J.d["tag"][1]
        if J is None and c[0] == "v" and "free" in (F.names.get(c[1]) or "").lower():
            return "*fiftyoneDegreesFree"
        return "?"

    def sites(s, F, how, what):
        out = []
        for I in F.insts.values():
            if I.op not in ("call", "invoke"):
                continue
            n = s.what(I, F)
            if how == "free":
                ok = n in FREES
            elif how in ("release", "resourceFree", "freeCollection"):
                ok = n == "->" + how or n in s.S.slots.get((COLL, how), ()) or n in s.S.slots.get((P + "pool_t", how), ())
            else:
                ok = n == how
            if not ok:
                continue
            for o in I.ops:
                c = s.chain(F, o)
                first = c[:1] if what != 0 and how != "release" else c
                if what in (c if how == "release" else c[:1] if isinstance(what, tuple) else [x for x in c[:1]]) or (isinstance(what, int) and c and c[-1] == what and s.own(F, o, what)):
                    out.append((I, set(c)))
                    break
        return out

    def own(s, F, o, k, d=0):
        """Whether it is the parameter itself, or another object of its kind in the same chain."""
        if o[0] != "v" or d > 8:
            return False
        I = F.insts.get(o[1])
        if I is None:
            return F.args[k]["id"] == o[1] if k < len(F.args) else False
        if I.op == "phi":
            return any(s.own(F, x, k, d + 3) for _, x in I.d["in"])
        if I.op in ("bitcast",):
            return s.own(F, I.ops[0], k, d + 1)
        return False

    def zero(s, F, o, chain, extra):
        """Whether the value is one whose being zero says there is nothing to give up."""
        c = s.chain(F, o)
        if not c:
            return False
        if isinstance(c[0], tuple):
            return c[0] in chain or c[0][1] in extra
        return c[0] in chain

    def excused(s, F, B, chain, extra):
        """The successor taken when there is nothing to give up."""
        T = B.insts[-1]
        if len(B.succs) != 2 or not T.ops or T.ops[0][0] != "v":
            return None
        neg = False
        I = F.insts.get(T.ops[0][1])
        for _ in range(4):
            if I is not None and I.op == "xor" and I.ops[1][0] == "c":
                neg = not neg
                I = F.insts.get(I.ops[0][1]) if I.ops[0][0] == "v" else None
        if I is None or I.op != "icmp":
            return None
        p = I.d.get("pred") or I.d.get("p")
        x, y = I.ops
        flip = False
        if x[0] in ("c", "n"):
            x, y, flip = y, x, True
        if not (y[0] == "n" or (y[0] == "c" and y[1] == 0)) or not s.zero(F, x, chain, extra):
            return None
        if p == "eq" or (p in ("ule", "sle") and not flip) or (p in ("uge", "sge") and flip):
            t = 0
        elif p == "ne" or (p in ("ugt", "sgt") and not flip) or (p in ("ult", "slt") and flip):
            t = 1
        else:
            return None
        return B.succs[1 - t if neg else t]

    def avoids(s, F, start, goal, sites, body, chain, extra):
        """A block from which the goal is reached without passing a site, when there is one."""
        seen, todo = set(), list(start)
        while todo:
            b = todo.pop()
            if b in seen or b in sites:
                continue
            seen.add(b)
            B = F.blocks[b]
            if B.insts[-1].op == "unreachable":
                continue
            if goal(B):
                return B
            ex = s.excused(F, B, chain, extra)
            for x in B.succs:
                if x != ex and (body is None or x in body):
                    todo.append(x)
        return None

    def loops(s, F):
        return {h: natural(F, h) for h in {b for _, b in F.backedges}}

    def missing(s, F, how, what, loop, extra):
        """Why the obligation is not met; None when it is."""
        st = s.sites(F, how, what)
        name = what if isinstance(what, int) else what[1]
        if not st:
            return "nothing in it", None
        chain = set().union(*[c for _, c in st])
        if isinstance(what, int):
            chain.add(what)
        entry = next(iter(F.blocks))
        blocks = {I.blk.id for I, _ in st}
        ls = s.loops(F)
        done = set()
        if loop:
            if not any(b in body for b in blocks for body in ls.values()):
                return "it is not done for each of them, but once", st[0][0]
            # from the innermost loop outwards: no round of it goes without
            while True:
                inner = {}
                for b in blocks:
                    own = [h for h, body in ls.items() if b in body and b != h or (b == h and b not in done and b in body)]
                    if own:
                        h = min(own, key=lambda h: len(ls[h]))
                        inner.setdefault(h, set()).add(b)
                if not inner:
                    break
                h = min(inner, key=lambda h: len(ls[h]))
                latches = {a for a, b in F.backedges if b == h}
                if h not in inner[h]:
                    starts = [x for x in F.blocks[h].succs if x in ls[h]] if h not in latches else [h]
                    B = s.avoids(F, starts, lambda B: B.id in latches, blocks & ls[h], ls[h], chain, extra)
                    if B is not None:
                        return "there is a round of the loop which does not", B.insts[-1]
                blocks = {b for b in blocks if b not in ls[h]} | {h}
                done.add(h)
        B = s.avoids(F, [entry], lambda B: B.insts[-1].op == "ret", blocks, None, chain, extra)
        if B is not None:
            return "there is a path which does not", B.insts[-1]
        return None

    def functions(s, f):
        if isinstance(f, str):
            F = s.m.funcs.get(f)
            return [F] if F is not None and not F.decl else []
        return [s.m.funcs[n] for n in sorted(s.S.slots.get(f, ())) if n in s.m.funcs and not s.m.funcs[n].decl]

    def run(s, hows=None):
        for f, how, what, loop, extra in SPEC:
            if hows and how not in hows:
                continue
            fs = s.functions(f)
            s.info["obligations"] = s.info.get("obligations", 0) + len(fs)
            for F in fs:
                r = s.missing(F, how, what, loop, extra)
                if r is not None:
                    s.tell(F, how, what, r)
        for f, how, what, loop, extra in ANY:
            if hows and how not in hows:
                continue
            fs = s.functions(f)
            rs = [(s.missing(F, how, what, loop, extra), F) for F in fs]
            s.info["obligations"] = s.info.get("obligations", 0) + (1 if fs else 0)
            if rs and all(r is not None for r, _ in rs):
                r, F = next(((r, F) for r, F in rs if r[1] is not None), rs[0])
                s.tell(F, how, what, r)

    def tell(s, F, how, what, r):
        name = F.names.get(F.args[what]["id"], "its parameter") if isinstance(what, int) else what[1]
        verb = {"free": "frees", "release": "releases", "fclose": "closes", "resourceFree": "frees", "freeCollection": "frees"}[how]
        I = r[1]
        if r[0] == "nothing in it":
            msg = "nothing in it %s %s" % (verb, name)
        else:
            msg = "it %s %s, but %s" % (verb, name, r[0])
        s.report(F, I, "not-given-up", name, msg)


def run(m, S, hows, info):
    found = {}

    def report(F, I, rule, subject, msg):
        key = (rule, F.name, subject)
        if key not in found:
            loc = I.loc[0] if I is not None and I.loc else None
            found[key] = {"rule": rule, "function": F.name, "subject": subject, "file": os.path.basename(loc[0]) if loc else F.file,
                          "line": loc[1] if loc else F.line, "message": msg, "path": []}
    Drains(m, S, report, info).run(hows)
    return found
