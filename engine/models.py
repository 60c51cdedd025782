"""Models of the C library and of the repository's primitive operations."""
from ai import atom, const, ladd, lsub, ZERO, ONE, islin, atoms_of, Dead, lneg, isbool

I8 = ("*", "i8")
W = {"mod": {I8}, "cap": ()}
N = {"mod": set(), "cap": ()}

# name -> {"mod": what may be written through pointer arguments, "cap": captured arguments}
EXTERNAL = {n: N for n in (
    "strlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr atoi atof strtol strtod "
    "fclose fopen ftell fseek feof ferror fputs fwrite remove mkdir opendir closedir readdir exit "
    "__errno_location umask srand rand clock_gettime powf pow frexp __ctype_b_loc getpid tolower "
    "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock "
    "pthread_cond_init pthread_cond_destroy pthread_cond_signal pthread_cond_wait "
    "malloc aligned_alloc calloc free qsort bsearch fprintf printf fputc putc puts time localtime "
    "abs labs llvm.dbg llvm.lifetime llvm.va_start llvm.va_end llvm.va_copy llvm.fabs llvm.fmuladd llvm.assume llvm.trap "
    "llvm.floor llvm.ceil sched_yield nanosleep usleep access stat fileno fflush floor ceil log2f "
    "log10f logf isnan abort __assert_fail getenv _exit llvm.abs llvm.umax llvm.umin llvm.smax llvm.smin "
    "llvm.stacksave llvm.stackrestore strdup fgets fgetc rewind "
    "__cxa_begin_catch __cxa_end_catch __cxa_allocate_exception __cxa_free_exception __cxa_throw").split()}
EXTERNAL["__atomic_compare_exchange"] = {"mod": {("*", "i128"), ("*", "i64"), ("*", "ptr")}, "cap": ()}
for n in "strcpy strncpy strcat strncat snprintf sprintf vsnprintf memcpy memmove memset fread readlink getcwd llvm.memcpy llvm.memmove llvm.memset".split():
    EXTERNAL[n] = W
# functions returning (a pointer into) their argument
for n in "strcpy strncpy strchr strrchr strstr strcat memcpy".split():
    e = dict(EXTERNAL[n]); e["cap"] = ()
    EXTERNAL[n] = e

BASE = {}


def failed(A, st, I, kind):
    """A NULL result which remembers the call that failed."""
    n = "n%s%d" % (kind, I.id)
    A.info[n] = (True, None)
    st.rng[n] = (0, 0)
    return atom(n)



def model(*names):
    def d(f):
        for n in names:
            BASE[n] = f
        return f
    return d


@model("malloc", "calloc", "aligned_alloc", "*fiftyoneDegreesMalloc", "*fiftyoneDegreesMallocAligned",
       "fiftyoneDegreesMemoryStandardMalloc", "fiftyoneDegreesMemoryStandardMallocAligned", "strdup",
       "fiftyoneDegreesMemoryTrackingMalloc", "fiftyoneDegreesMemoryTrackingMallocAligned")
def m_malloc(A, st, I, args):
    """A fresh object or NULL."""
    s2 = st.copy()
    h = A.fresh_heap(st, I)
    A.p.on_alloc(A, st, I, h, args) if hasattr(A.p, "on_alloc") else None
    if not getattr(A.p, "alloc_fails", True):
        return [(st, h)]
    A.p.on_alloc_fail(A, s2, I, args) if hasattr(A.p, "on_alloc_fail") else None
    return [(st, h), (s2, failed(A, s2, I, "z"))]


@model("free", "*fiftyoneDegreesFree", "*fiftyoneDegreesFreeAligned", "fiftyoneDegreesMemoryStandardFree",
       "fiftyoneDegreesMemoryStandardFreeAligned")
def m_free(A, st, I, args):
    if hasattr(A.p, "on_free"):
        A.p.on_free(A, st, I, args[0])
    return [(st, None)]


@model("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def m_memcpy(A, st, I, args):
    d, s, n = (A.lin(st, args[i], "%d.%d" % (I.id, i)) for i in range(3))
    if A.p.on_access(A, st, I, d, n, "memwrite", A.tag(I.ops[0])) is False:
        return []
    if A.p.on_access(A, st, I, s, n, "memread", A.tag(I.ops[1])) is False:
        return []
    A.memcpy(st, I, d, s, n)
    return [(st, d)]


@model("llvm.memset", "memset")
def m_memset(A, st, I, args):
    d, c, n = (A.lin(st, args[i], "%d.%d" % (I.id, i)) for i in range(3))
    if A.p.on_access(A, st, I, d, n, "memwrite", A.tag(I.ops[0])) is False:
        return []
    n = A.canon(st, n); d = A.canon(st, d); c = A.canon(st, c)
    A.kill_region(st, d, n)
    if not n[1] and n[0] > 0 and c == ZERO:
        inner = dict(st.mem.get(d[1]) or {})
        inner["Z"] = tuple(inner.get("Z", ())) + ((d[0], n[0]),)
        st.mem[d[1]] = inner
    return [(st, d)]


@model("strlen")
def m_strlen(A, st, I, args):
    s = A.lin(st, args[0], "%d" % I.id)
    if A.p.on_access(A, st, I, s, ONE, "memread", None) is False:
        return []
    r = A.mk(st, "r%d" % I.id, 0, 1 << 62)
    s = A.canon(st, s)
    o = A.root(s[1])
    n = A.object_size(o) if o is not None else None
    if n is not None:
        # the terminator is within the object
        try:
            A.add_le0(st, ladd(ladd(r, lsub(s, atom(o))), const(1 - n)))
        except Dead:
            return []
    return [(st, r)]


@model("strchr", "strrchr", "strstr", "memchr", "bsearch")
def m_strchr(A, st, I, args):
    s = A.lin(st, args[0], "%d" % I.id)
    if A.p.on_access(A, st, I, s, ONE, "memread", None) is False:
        return []
    s2 = st.copy()
    o = A.mk(st, "r%d" % I.id, 0, 1 << 62)
    return [(st, ladd(s, o)), (s2, ZERO)]


@model("strcpy", "strncpy", "strcat")
def m_strcpy(A, st, I, args):
    d = A.lin(st, args[0], "%d" % I.id)
    s = A.lin(st, args[1], "%d" % I.id)
    if A.p.on_access(A, st, I, d, args[2] if len(args) > 2 and islin(args[2]) else ONE, "memwrite", A.tag(I.ops[0])) is False:
        return []
    if A.p.on_access(A, st, I, s, ONE, "memread", None) is False:
        return []
    A.kill_region(st, d, args[2] if len(args) > 2 and islin(args[2]) else None)
    return [(st, d)]


@model("fread")
def m_fread(A, st, I, args):
    d = A.lin(st, args[0], "%d" % I.id)
    n = None
    a = A.canon(st, A.lin(st, args[1], "%da" % I.id)); b = A.canon(st, A.lin(st, args[2], "%db" % I.id))
    if not a[1]:
        n = (b[0] * a[0], tuple((t, c * a[0]) for t, c in b[1]))
    elif not b[1]:
        n = (a[0] * b[0], tuple((t, c * b[0]) for t, c in a[1]))
    A.p.on_access(A, st, I, d, ONE if n is None else n, "memwrite", A.tag(I.ops[0]))
    A.kill_region(st, d, n)
    r = A.mk(st, "r%d" % I.id, 0, None)
    st.facts = st.facts | {lsub(r, b)}
    return [(st, r)]


@model("snprintf", "vsnprintf", "getcwd", "readlink")
def m_snprintf(A, st, I, args):
    k = 1 if I.d["callee"][1] == "readlink" else 0
    d = A.lin(st, args[k], "%d" % I.id)
    A.p.on_access(A, st, I, d, args[k + 1] if islin(args[k + 1]) else ONE, "memwrite", A.tag(I.ops[k]))
    A.kill_region(st, d, None)
    name = I.d["callee"][1]
    if name == "getcwd":
        s2 = st.copy()
        return [(st, d), (s2, ZERO)]
    r = A.mk(st, "r%d" % I.id, -1, (1 << 31) - 1)
    if name == "readlink" and islin(args[k + 1]):
        st.facts = st.facts | {lsub(r, args[k + 1])}
    return [(st, r)]


@model("exit", "abort", "_exit", "__assert_fail", "llvm.trap")
def m_exit(A, st, I, args):
    return []


@model("fopen", "opendir")
def m_open(A, st, I, args):
    s2 = st.copy()
    h = A.fresh_heap(st, I)
    st.esc = st.esc | {"h%d" % I.id}
    return [(st, h), (s2, ZERO)]


@model("fiftyoneDegreesExceptionCheckAndExit")
def m_exit_check(A, st, I, args):
    return [(st, None)]
