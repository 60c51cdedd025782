"""What each function may write, directly or through what it calls: effects by type and field."""
import os, re
import ai, driver
from ir import srcfunc

# API that builds, loads, replaces or frees what requests share, and so does not run beside them
SETUP = re.compile(r"(Create|Init|Free|Reset|Reload|Replace|Add|Set[A-Z]|SetUp|Unset|ReadFromFile|FromFile|FromMemory|Close|Delete|Copy|"
                   r"Write|Open|Tracking|Malloc|MemoryStandard|Temp|FilePool|CollectionHeader|InitList|Pool|Remove)")
# structures every request of a data set or engine shares
SHARED = re.compile(r"^(fiftyone_degrees_(dataset_base_t|collection_t|collection_memory_t|collection_file_t|collection_header_t|"
                    r"cache_t|cache_shard_t|pool_t|file_pool_t|pool_item_t|resource_manager_t|resource_handle_t|header_t|header_segment_t|"
                    r"array_fiftyoneDegreesHeader_t|array_fiftyone_degrees_header_segment_t|array_fiftyoneDegreesHeaderSegment_t|"
                    r"array_fiftyoneDegreesPropertyAvailable_t|property_available_t|array_fiftyoneDegreesOverrideProperty_t|"
                    r"override_property_t|array_fiftyoneDegreesEvidenceProperties_t|evidence_properties_t|properties_required_t|"
                    r"property_t|profile_offset_t|value_t|component_t|string_t|float_type|component_keyvaluepair_t|config_base_t|"
                    r"collection_config_t|evidence_prefix_map_t|data_t)|fiftyoneDegrees_\w+|_\w+_t)$")
# what is shared and may change while requests are served, because something guards it:
# a lock (T01) or a compare and exchange (T02)
SYNCHRONISED = {
    ("fiftyone_degrees_cache_shard_t", "first"), ("fiftyone_degrees_cache_shard_t", "last"),
    ("fiftyone_degrees_cache_shard_t", "allocated"), ("fiftyone_degrees_cache_t", "hits"), ("fiftyone_degrees_cache_t", "misses"),
    ("fiftyone_degrees_pool_t", "head"), ("fiftyone_degrees_pool_item_t", "next"),
    ("fiftyone_degrees_resource_handle_t", "counter"),
    # a request's own description of what it holds
    ("fiftyone_degrees_data_t", "ptr"), ("fiftyone_degrees_data_t", "allocated"), ("fiftyone_degrees_data_t", "used"),
}
# C library functions that keep or change state of the whole process
HIDDEN = {"strtok", "strerror", "localtime", "gmtime", "asctime", "ctime", "setlocale", "putenv", "setenv", "unsetenv", "tmpnam",
          "mktemp", "getpwnam", "gethostbyname", "inet_ntoa", "chdir", "umask", "srand", "rand", "signal", "exit", "abort"}


# objects a request made for itself, whatever their type: what these functions fill
REQUEST_OWNED = {"fiftyoneDegreesOverridesAdd", "fiftyoneDegreesOverridesExtractFromEvidence"}
# the file utilities stand on their own: they work on the files they are given, not on data requests share
UTILITY = re.compile(r"fiftyoneDegrees(File(?!Handle)|TextFile|YamlFile|ExceptionCheckAndExit)")


def bases(F, o):
    """Where the object an address lies in comes from: ("g",name) ("al",) ("arg",k) ("fresh",) ("other",) - all of them."""
    out, seen = set(), set()

    def go(o):
        if o[0] == "gep":
            return go(o[1])
        if o[0] == "g":
            out.add(("g", o[1])); return
        if o[0] != "v":
            if o[0] == "ce":
                out.add(("other",))
            return
        if o[1] in seen:
            return
        seen.add(o[1])
        I = F.insts.get(o[1])
        if I is None:
            k = F.argix.get(o[1])
            out.add(("arg", k) if k is not None else ("other",)); return
        if I.op in ("getelementptr", "bitcast", "freeze"):
            return go(I.ops[0])
        if I.op == "phi":
            for _, x in I.d["in"]:
                go(x)
            return
        if I.op == "select":
            go(I.ops[1]); go(I.ops[2]); return
        if I.op == "alloca":
            out.add(("al",)); return
        if I.op in ("call", "invoke") and is_alloc(F, I):
            out.add(("fresh",)); return
        if I.op == "load":
            t = tuple(I.d["tag"]) if I.d.get("tag") else tagof(F, I.ops[0])
            if t:
                out.add(("via",) + tuple(t)); return
        out.add(("other",))
    go(o)
    return out


def is_alloc(F, I):
    c = I.d["callee"]
    if c[0] == "f":
        return "Malloc" in c[1] or c[1] in ("malloc", "calloc")
    if c[0] == "v":
        L = F.insts.get(c[1])
        if L is not None and L.op == "load" and L.ops[0][0] == "g":
            return "Malloc" in L.ops[0][1]
    return False


def tagof(F, o, d=0):
    if o[0] == "gep":
        for s in reversed(o[2]):
            if s[0] == "f":
                return (s[1], s[3])
        return tagof(F, o[1], d + 1)
    if o[0] == "g":
        return ("g", o[1])
    if o[0] == "v" and d < 8:
        I = F.insts.get(o[1])
        if I is not None and I.op == "getelementptr":
            for s in reversed(I.d["steps"]):
                if s[0] == "f":
                    return (s[1], s[3])
            return tagof(F, I.ops[0], d + 1)
    return None


def direct(m, S, F):
    """[(kind, tag, base, inst)] of one function, its inlined helpers included."""
    out = []

    def add(kind, o, tags, I):
        for b in bases(F, o):
            if b[0] in ("al", "fresh"):
                continue
            if b[0] == "g":
                out.append((kind, ("g", b[1]), ("other",), I))
                continue
            if b[0] == "via":
                # what a pointer kept in a structure leads to
                if not any(tags):
                    out.append((kind, (b[1], b[2] + "*"), ("other",), I))
                b = ("other",)
            elif b[0] == "arg" and not any(tags):
                out.append((kind, ("bytes", ""), b, I))
            for t in tags:
                if t and t[0] != "g":
                    out.append((kind, t, b, I))
    for I in F.insts.values():
        if I.op in ("store", "atomicrmw", "cmpxchg"):
            o = I.ops[1] if I.op == "store" else I.ops[0]
            t = tuple(I.d["tag"]) if I.d.get("tag") else tagof(F, o)
            add("write" if I.op == "store" else "atomic", o, [t], I)
        elif I.op in ("call", "invoke"):
            c = I.d["callee"]
            n = c[1] if c[0] == "f" else ""
            if n.startswith(("llvm.mem", "memcpy", "memset", "memmove")):
                o = I.ops[0]
                t = tagof(F, o)
                tags = [t]
                ty = F.vtys.get(o[1]) if o[0] == "v" else None
                if t and t[0] != "g":
                    for f in m.structs.get(t[0], {"fields": ()})["fields"]:
                        if f[0] == t[1] and f[2].startswith("%"):
                            tags += list(S.alltags(f[2][1:]))
                elif ty and ty.startswith("struct:") and ty.endswith("*"):
                    tags += list(S.alltags(ty[7:-1]))
                add("write", o, tags, I)
            elif n in HIDDEN:
                out.append(("hidden", ("c", n), ("other",), I))
    return out


def effects(m, S):
    """name -> {(kind, tag, base): (path of functions, inst)}: base says whether the object written
    is one the caller passed ("arg", k)."""
    eff, calls = {}, {}
    for F in m.funcs.values():
        if F.decl:
            continue
        F.argix = {a["id"]: k for k, a in enumerate(F.args)}
    for F in m.funcs.values():
        if F.decl:
            continue
        e = eff[F.name] = {}
        for k, t, b, I in direct(m, S, F):
            e.setdefault((k, t, b), ((F.name,), I))
        cs = calls[F.name] = []
        for I in F.insts.values():
            if I.op in ("call", "invoke"):
                for t in S.targets(F, I):
                    if t is not None and t in m.funcs and not m.funcs[t].decl:
                        cs.append((t, I))
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            F = m.funcs[n]
            for t, C in cs:
                for (k, tag, b), (path, I) in list(eff[t].items()):
                    if len(path) >= 10:
                        continue
                    bs = [b]
                    if b[0] == "arg":
                        bs = bases(F, C.ops[b[1]]) if b[1] < len(C.ops) else [("other",)]
                    for x in bs:
                        if x[0] in ("al", "fresh"):
                            continue
                        tg = tag
                        if x[0] == "via":
                            if tag[0] == "bytes":
                                tg = (x[1], x[2] + "*")
                            x = ("other",)
                        key = (k, ("g", x[1]) if x[0] == "g" else tg, ("other",) if x[0] == "g" else x)
                        if key not in eff[n]:
                            eff[n][key] = ((n,) + path, I)
                            ch = True
    return eff
