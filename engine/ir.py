"""Front end: compile /repo's current sources to LLVM bitcode with the build's
macros, inline internal helpers and load the resolved program.

Nothing is executed: the result is the type-resolved intermediate
representation (SSA form, CFG, resolved callees, debug locations)."""
import math
import hashlib, json, os, subprocess, sys, tempfile, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang-18"
CLANGXX = "clang++-18"


class EngineError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def tool():
    """Path of the irdump binary, built on demand from irdump.cpp."""
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    def cfg(*a):
        return subprocess.check_output(["llvm-config-18", *a], text=True).split()
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CLANGXX, *cfg("--cxxflags"), "-fexceptions", "-std=c++17", "-O1", "-w", src,
           "-o", tmp, *cfg("--ldflags", "--libs", "--system-libs")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise EngineError("cannot build irdump: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


CONFIGS = {
    # the shipped (default) configuration
    "release": ["-DNDEBUG"],
    # the configuration the test build uses
    "debug": ["-D_DEBUG"],
    "memonly": ["-DNDEBUG", "-DFIFTYONE_DEGREES_MEMORY_ONLY"],
    "nothread": ["-DNDEBUG", "-DFIFTYONE_DEGREES_NO_THREADING"],
    "noexc": ["-DNDEBUG", "-DFIFTYONE_DEGREES_EXCEPTIONS_DISABLED"],
    "track": ["-DNDEBUG", "-DFIFTYONE_DEGREES_MEMORY_TRACK_ENABLED"],
}


def c_sources():
    return sorted(glob.glob(os.path.join(REPO, "*.c")))


def cpp_sources():
    return sorted(glob.glob(os.path.join(REPO, "*.cpp")))


def compile_bc(srcs, outdir, config="release", cxx=False):
    def one(s):
        o = os.path.join(outdir, os.path.basename(s) + ".bc")
        if s.endswith(".cpp") or s.endswith(".cc"):
            cmd = [CLANGXX, "-std=gnu++17"]
        else:
            cmd = [CLANG, "-std=gnu11"]
        cmd += ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
                "-mcx16", *CONFIGS[config], "-w", "-c", "-emit-llvm", s, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise EngineError("cannot compile %s: %s" % (s, r.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "d", "loc", "blk", "fn")


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "header", "live_in")


class Func:
    pass


def _operand_ids(o, acc):
    if isinstance(o, list) and o:
        if o[0] == "v":
            acc.append(o[1])
        elif o[0] == "gep":
            _operand_ids(o[1], acc)
            for s in o[2]:
                if s[0] in "pi":
                    _operand_ids(s[1], acc)


def uses(inst):
    acc = []
    for o in inst.ops:
        _operand_ids(o, acc)
    d = inst.d
    if "callee" in d:
        _operand_ids(d["callee"], acc)
    if "steps" in d:
        for s in d["steps"]:
            if s[0] in "pi":
                _operand_ids(s[1], acc)
    return acc


class Module:
    def __init__(self, data):
        self.structs = data["structs"]
        self.enums = data["enums"]
        self.globals = {g["name"]: g for g in data["globals"]}
        self.internals = set(data["internals"])
        self.funcs = {}
        for f in data["functions"]:
            F = Func()
            F.name = f["name"]; F.decl = f["decl"]; F.args = f["args"]; F.ret = f["ret"]
            F.internal = f["internal"]; F.addr_taken = f["addr_taken"]
            F.noreturn = f["noreturn"]; F.file = f.get("file", ""); F.line = f.get("line", 0)
            F.srcname = f.get("srcname", F.name)
            F.linkonce = f["linkonce"]
            F.dity = f.get("dity", [])
            F.vtys = {int(k): v for k, v in f.get("vtys", {}).items()}
            F.names = {int(k): v for k, v in f.get("names", {}).items()}
            F.blocks = {}
            F.insts = {}
            F.order = []
            if not F.decl:
                for b in f["blocks"]:
                    B = Block(); B.id = b["id"]; B.insts = []; B.succs = []; B.preds = []
                    B.header = False
                    for i in b["insts"]:
                        I = Inst(); I.id = i["id"]; I.op = i["op"]; I.ty = i["ty"]
                        I.ops = i["ops"]; I.d = i; I.loc = i.get("loc", []); I.blk = B; I.fn = F
                        B.insts.append(I); F.insts[I.id] = I
                    t = B.insts[-1]
                    if t.op == "br":
                        B.succs = list(t.d["succ"])
                    elif t.op == "switch":
                        B.succs = [c[1] for c in t.d["cases"]] + [t.d["default"]]
                    elif t.op == "invoke":
                        B.succs = [t.d["normal"], t.d["unwind"]]
                    F.blocks[B.id] = B; F.order.append(B.id)
                F.entry = F.order[0]
                for b in F.blocks.values():
                    for s in b.succs:
                        F.blocks[s].preds.append(b.id)
                self._analyse(F)
            self.funcs[F.name] = F

    def _analyse(self, F):
        # reverse post order, back edges -> loop headers, liveness
        seen = set(); onstack = set(); post = []
        stack = [(F.entry, iter(F.blocks[F.entry].succs))]
        seen.add(F.entry); onstack.add(F.entry)
        F.backedges = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    F.blocks[s].header = True
                    F.backedges.add((b, s))
                elif s not in seen:
                    seen.add(s); onstack.add(s)
                    stack.append((s, iter(F.blocks[s].succs)))
                    break
            else:
                stack.pop(); onstack.discard(b); post.append(b)
        F.rpo = list(reversed(post))
        F.rpo_ix = {b: i for i, b in enumerate(F.rpo)}
        live = {b: set() for b in F.blocks}
        use = {}; deff = {}; phiuse = {}
        for b in F.blocks.values():
            u = set(); d = set()
            for i in b.insts:
                if i.op == "phi":
                    d.add(i.id)
                    for pb, o in i.d["in"]:
                        acc = []; _operand_ids(o, acc)
                        phiuse.setdefault((pb, b.id), set()).update(acc)
                else:
                    for x in uses(i):
                        if x not in d:
                            u.add(x)
                    d.add(i.id)
            use[b.id] = u; deff[b.id] = d
        ch = True
        while ch:
            ch = False
            for bid in reversed(F.rpo):
                b = F.blocks[bid]
                out = set()
                for s in b.succs:
                    out |= live[s]
                    out |= phiuse.get((bid, s), set())
                n = use[bid] | (out - deff[bid])
                if n != live[bid]:
                    live[bid] = n; ch = True
        for b in F.blocks.values():
            b.live_in = live[b.id]
        # inductive phis in loop headers: phi reaches itself through arithmetic
        F.inductive = set()
        F.stride = {}
        for b in F.blocks.values():
            if not b.header:
                continue
            for i in b.insts:
                if i.op != "phi":
                    continue
                if self._inductive(F, i):
                    F.inductive.add(i.id)
                    if i.ty == "ptr":
                        F.stride[i.id] = self._stride(F, i)

    def _stride(self, F, phi):
        """What a pointer moves by each time round a loop (a multiple of it), 1 when not known."""
        g = 0
        todo = [o for _, o in phi.d["in"] if o[0] == "v"]; seen = {phi.id}
        while todo:
            o = todo.pop()
            I = F.insts.get(o[1]) if o[0] == "v" else None
            if I is None or I.id in seen:
                continue
            if I.op == "getelementptr":
                steps = I.d.get("steps", ())
                if len(steps) != 1 or steps[0][0] != "p" or steps[0][1][0] != "c":
                    if self._reaches(F, I, phi.id):
                        return 1
                    continue
                if self._reaches(F, I, phi.id):
                    g = math.gcd(g, abs(steps[0][2] * steps[0][1][1]))
                    todo.append(I.ops[0])
            elif I.op in ("phi", "select") and self._reaches(F, I, phi.id):
                todo += [y for _, y in I.d["in"]] if I.op == "phi" else I.ops[1:]
            seen.add(I.id)
        return g or 1

    def _reaches(self, F, I, x):
        work = [I.id]; seen = set()
        while work:
            i = work.pop()
            if i == x:
                return True
            J = F.insts.get(i)
            if i in seen or J is None:
                continue
            seen.add(i)
            acc = []
            if J.op == "phi":
                for _, o in J.d["in"]:
                    _operand_ids(o, acc)
            elif J.op in ("getelementptr", "select", "add", "sub", "mul", "sext", "zext", "trunc"):
                acc = uses(J)
            work += acc
        return False

    def _inductive(self, F, phi):
        arith = {"add", "sub", "mul", "getelementptr", "shl", "sdiv", "udiv", "xor", "or", "and",
                 "urem", "srem", "lshr", "ashr"}
        work = [(phi.id, False)]; seen = set()
        while work:
            x, a = work.pop()
            if (x, a) in seen:
                continue
            seen.add((x, a))
            I = F.insts.get(x)
            if I is None:
                continue
            if I.op == "phi":
                acc = []
                for _, o in I.d["in"]:
                    _operand_ids(o, acc)
            elif I.op in arith or I.op in ("sext", "zext", "trunc", "select", "bitcast"):
                acc = uses(I)
            else:
                continue
            na = a or I.op in arith
            for y in acc:
                if y == phi.id and na:
                    return True
                work.append((y, na))
        return False


def load(inline=(), keep=(), config="release", cxx=False, extra_sources=(), no_inline=False, only=None):
    t = tool()
    d = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        srcs = (c_sources() if not cxx else cpp_sources()) if only is None else list(only)
        if not srcs:
            raise EngineError("no sources found in " + REPO)
        srcs += list(extra_sources)
        bcs = compile_bc(srcs, d, config, cxx)
        out = os.path.join(d, "m.json")
        cmd = [t]
        if inline:
            cmd.append("--inline=" + ",".join(inline))
        if keep:
            cmd.append("--keep=" + ",".join(keep))
        if no_inline:
            cmd.append("--no-inline")
        cmd += ["-o", out, *bcs]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise EngineError("irdump failed: " + r.stderr[-1500:])
        m = Module(json.load(open(out)))
        m.units = [os.path.basename(s) for s in srcs]
        m.config = config
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def locstr(inst):
    """file:line of the instruction, with the inlining chain."""
    l = inst.loc
    if not l:
        return inst.fn.name
    s = "%s:%d" % (os.path.basename(l[0][0]), l[0][1])
    return s


def srcfunc(inst):
    """Name of the source function the instruction was written in."""
    l = inst.loc
    return l[0][2] if l else inst.fn.name
