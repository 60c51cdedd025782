"""Every supported combination of the build macros compiles and links."""
import itertools, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import ir
from ir import EngineError

LEVEL = "other"
ASSUMPTIONS = ["clang 18 on x86-64 Linux stands for the supported C11/C++17 compilers; the MSVC-only code is not seen",
               "the macros enumerated are the documented build options (common-cxx readme and CMake/vcxproj definitions)"]
MACROS = ["FIFTYONE_DEGREES_NO_THREADING", "FIFTYONE_DEGREES_MEMORY_ONLY", "FIFTYONE_DEGREES_EXCEPTIONS_DISABLED",
          "FIFTYONE_DEGREES_MEMORY_TRACK_ENABLED", "FIFTYONE_DEGREES_CACHE_VALIDATE", "_DEBUG"]
# the C++ classes report errors with exceptions only, and are built with them
STRICT = ["-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types",
          "-Werror=return-type", "-Werror=format", "-Werror=incompatible-function-pointer-types"]


def flags(c):
    return ["-D%s%s" % (m, "=1" if m == "FIFTYONE_DEGREES_NO_THREADING" else "") for m in c] + \
           ([] if "_DEBUG" in c else ["-DNDEBUG"])


def name(c):
    return "+".join(m.replace("FIFTYONE_DEGREES_", "") for m in c) or "default"


def run(cmd, cwd=None):
    return subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)


def check(tier):
    found = {}
    combos = [c for r in range(len(MACROS) + 1) for c in itertools.combinations(MACROS, r)
              if tier == "thorough" or r <= 2]
    csrc, xsrc = ir.c_sources(), ir.cpp_sources()
    if not csrc or not xsrc:
        raise EngineError("no sources found")
    headers = sorted(h for h in os.listdir(ir.REPO) if h.endswith(".h"))
    tmp = tempfile.mkdtemp(prefix="verif-g01-")
    units = decls = syms = 0

    def rep(rule, fn, subj, msg, file, line):
        found.setdefault((rule, fn, subj), {"rule": rule, "function": fn, "subject": subj, "message": msg,
                                            "file": file, "line": line})

    def one(job):
        c, s, o = job
        if s.endswith(".cpp"):
            cmd = [ir.CLANGXX, "-std=gnu++17", "-w", "-fsyntax-only", *flags(c), s]
        else:
            cmd = [ir.CLANG, "-std=gnu11", "-w", *STRICT, "-mcx16", *flags(c), "-c", s, "-o", o]
        return c, s, run(cmd)
    try:
        open(os.path.join(tmp, "all.c"), "w").write("".join('#include "%s"\n' % h for h in headers))
        jobs = []
        for i, c in enumerate(combos):
            d = os.path.join(tmp, "%d" % i)
            os.mkdir(d)
            jobs += [(c, s, os.path.join(d, os.path.basename(s) + ".o")) for s in csrc]
            if "FIFTYONE_DEGREES_EXCEPTIONS_DISABLED" not in c and (tier == "thorough" or len(c) <= 1):
                jobs += [(c, s, None) for s in xsrc]
        allh = headers + sorted(h for h in os.listdir(ir.REPO) if h.endswith(".hpp"))

        def hdr(h):
            x = h.endswith(".hpp")
            f = os.path.join(tmp, "one_" + h.replace(".", "_") + (".cpp" if x else ".c"))
            open(f, "w").write('#include "%s"\n' % h)
            return h, run([ir.CLANGXX if x else ir.CLANG, "-std=gnu++17" if x else "-std=gnu11", "-w", "-fsyntax-only",
                           "-iquote", ir.REPO, f])
        with ThreadPoolExecutor(8) as ex:
            for h, r in ex.map(hdr, allh):
                units += 1
                if r.returncode:
                    m = re.search(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
                    rep("header-not-self-contained", h, re.sub(r"\s+", " ", m.group(3)) if m else "?",
                        "a source that includes only %s does not compile" % h, h, int(m.group(2)) if m else 0)
        failed = set()
        with ThreadPoolExecutor(8) as ex:
            for c, s, r in ex.map(one, jobs):
                units += 1
                if r.returncode:
                    failed.add(c)
                    m = re.search(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
                    msg = m.group(3) if m else r.stderr[:200]
                    if not m and "No space" in r.stderr:
                        raise EngineError(r.stderr[:300])
                    rep("does-not-compile", os.path.basename(m.group(1) if m else s), re.sub(r"\s+", " ", msg),
                        "with %s: %s" % (name(c), msg), os.path.basename(m.group(1) if m else s), int(m.group(2)) if m else 0)

            def link(ic):
                i, c = ic
                d = os.path.join(tmp, "%d" % i)
                objs = sorted(os.path.join(d, f) for f in os.listdir(d))
                r = run(["llvm-nm-18", "-A", *objs])
                if r.returncode:
                    raise EngineError("nm: " + r.stderr[:300])
                a = run([ir.CLANG, "-std=gnu11", *flags(c), "-iquote", ir.REPO, "-w", "-fsyntax-only", "-Xclang", "-ast-dump",
                         os.path.join(tmp, "all.c")])
                if a.returncode:
                    raise EngineError("headers do not compile together: " + a.stderr[:300])
                return c, r.stdout, a.stdout
            for c, nm, ast in ex.map(link, [(i, c) for i, c in enumerate(combos) if c not in failed]):
                defs, und = {}, {}
                for l in nm.splitlines():
                    m = re.match(r"(.*?): *(?:[0-9a-f]+)? ([A-Za-z]) (\S+)$", l)
                    if not m:
                        continue
                    f = os.path.basename(m.group(1))[:-2]
                    if m.group(2) in "TDBR":
                        defs.setdefault(m.group(3), []).append(f)
                    elif m.group(2) in "CVW":
                        defs.setdefault(m.group(3), [])
                    elif m.group(2) == "U":
                        und.setdefault(m.group(3), f)
                syms += len(und)
                for s, f in und.items():
                    if s.startswith(("fiftyoneDegrees", "FiftyoneDegrees")) and s not in defs:
                        rep("undefined-symbol", f, s, "with %s: %s is used but not defined" % (name(c), s), f, 0)
                for s, fs in defs.items():
                    if len(fs) > 1:
                        rep("duplicate-symbol", fs[0], s, "with %s: %s is defined in %s" % (name(c), s, ", ".join(fs)), fs[0], 0)
                want = set()
                for l in ast.splitlines():
                    m = re.search(r"-(?:FunctionDecl|VarDecl) .* (fiftyoneDegrees\w+) '.*?'(.*)$", l)
                    if m and (l.find("FunctionDecl") >= 0 and "static" not in m.group(2) and "inline" not in m.group(2)
                              or "extern" in m.group(2)) and not l.startswith((" " * 4, "| ")):
                        want.add(m.group(1))
                decls += len(want)
                for s in sorted(want):
                    if s not in defs:
                        rep("declared-not-defined", "headers", s,
                            "with %s: the headers declare %s, which no source file defines" % (name(c), s), "", 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return found, {"explanation": "Every source is compiled under each combination of the build macros (quick: up to two at a "
                   "time, thorough: all); the symbols the objects use and the headers declare are resolved against those defined.",
                   "configurations": len(combos), "translation_units": units, "symbols_resolved": syms,
                   "declarations_resolved": decls}
