"""Constant tables and the short names: read from the compiled program and the preprocessor."""
import glob, os, re, shutil, subprocess, tempfile
import ir
from ir import EngineError

# status -> a word its message has
WORDS = {
    "SUCCESS": "success", "INSUFFICIENT_MEMORY": "memory", "CORRUPT_DATA": "format", "INCORRECT_VERSION": "version",
    "FILE_NOT_FOUND": "found", "FILE_BUSY": "busy", "FILE_FAILURE": "unknown", "POINTER_OUT_OF_BOUNDS": "smaller",
    "NULL_POINTER": "null", "TOO_MANY_OPEN_FILES": "too many", "REQ_PROP_NOT_PRESENT": "propert", "PROFILE_EMPTY": "empty",
    "COLLECTION_FAILURE": "collection", "FILE_COPY_ERROR": "copy", "FILE_EXISTS_ERROR": "exists", "FILE_WRITE_ERROR": "write",
    "FILE_READ_ERROR": "read", "FILE_PERMISSION_DENIED": "permission", "FILE_PATH_TOO_LONG": "longer",
    "FILE_END_OF_DOCUMENT": "document", "FILE_END_OF_DOCUMENTS": "documents", "FILE_END_OF_FILE": "end of file",
    "ENCODING_ERROR": "encoding", "INVALID_COLLECTION_CONFIG": "collection", "INVALID_CONFIG": "config",
    "INSUFFICIENT_HANDLES": "handles", "COLLECTION_INDEX_OUT_OF_RANGE": "index", "COLLECTION_OFFSET_OUT_OF_RANGE": "offset",
    "COLLECTION_FILE_SEEK_FAIL": "seek", "COLLECTION_FILE_READ_FAIL": "read", "INCORRECT_IP_ADDRESS_FORMAT": "ip address",
    "TEMP_FILE_ERROR": "temporary",
}
# the status which is never returned to a caller
SILENT = {"NOT_SET"}
# prefix -> what comes before the name of a piece of evidence
PREFIX = {"HTTP_HEADER_STRING": "header.", "SERVER": "server.", "QUERY": "query.", "COOKIE": "cookie."}
# short names which stand for something else than their own long name
OTHER = {"TreeIterate": "fiftyoneDegreesTreeIterateNodes"}


def text(m, o):
    if o and o[0] == "g":
        g = m.globals.get(o[1])
        i = g and g.get("init")
        if i and i[0] == "s" and g.get("const"):
            return i[1].rstrip("\0")
        if i and i[0] == "z":
            return ""
    return None


def rows(m, want):
    """Tables of which each row has constants or strings in the given pattern of kinds."""
    for n, g in sorted(m.globals.items()):
        i = g.get("init")
        if not i or i[0] != "agg" or not i[1]:
            continue
        out = []
        for r in i[1]:
            cells = r[1] if r and r[0] == "agg" else ([["n"]] * 9 if r and r[0] == "z" else None)
            if cells is None:
                break
            cells = [("s", text(m, c)) if c[0] == "g" else ("c", c[1]) if c[0] == "c" else ("?",) for c in cells]
            if [c[0] for c in cells][:len(want)] != list(want):
                break
            out.append([c[1] if len(c) > 1 else None for c in cells])
        else:
            yield g, out


def enum(m, prefix):
    for n, vs in m.enums.items():
        if vs and all(x[0].startswith(prefix) for x in vs):
            return {x[0][len(prefix):]: x[1] for x in vs}
    return {}


class Tables:
    def __init__(t, m, found, info):
        t.m, t.found, t.info = m, found, info

    def n(t, k, by=1):
        t.info[k] = t.info.get(k, 0) + by

    def report(t, rule, table, subject, g, msg):
        t.found.setdefault((rule, table, subject), {"rule": rule, "function": table, "file": os.path.basename(g["file"]),
                                                    "line": g["line"], "message": msg})

    def messages(t):
        codes = enum(t.m, "FIFTYONE_DEGREES_STATUS_")
        if len(codes) < 20:
            raise EngineError("the status codes were not found")
        name = {v: k for k, v in codes.items()}
        if len(name) < len(codes):
            g = {"file": "status.h", "line": 0}
            t.report("same", "status codes", "values", g, "two status codes have the same value")
        for g, rs in rows(t.m, "cs"):
            if os.path.basename(g["file"]) != "status.c" or len(rs) < 8:
                continue
            t.n("message_tables")
            seen = {}
            for code, msg in (r[:2] for r in rs):
                t.n("messages")
                who = name.get(code)
                if who is None:
                    t.report("unknown", g["name"], str(code), g, "%s has a message for %s which is not a status code" % (g["name"], code))
                    continue
                if code in seen:
                    t.report("twice", g["name"], who, g, "%s has two messages for %s: the second is never used" % (g["name"], who))
                    continue
                seen[code] = msg
                if not msg:
                    t.report("blank", g["name"], who, g, "the message for %s is empty" % who)
                    continue
                conv = re.findall(r"%([^%]|$)", msg.replace("%%", ""))
                if conv not in ([], ["s"]):
                    t.report("format", g["name"], who, g, "the message for %s is formatted with the file's name only but has the conversions %s"
                             % (who, ", ".join("%" + c for c in conv)))
                if "%%" in msg:
                    t.report("format", g["name"], who, g, "the message for %s has %%%%" % who)
                w = WORDS.get(who)
                if w:
                    t.n("meanings_compared")
                    if w not in msg.lower():
                        t.report("meaning", g["name"], who, g, "the message for %s says nothing of \"%s\": \"%s\"" % (who, w, msg[:60]))
            for who, code in sorted(codes.items()):
                if code not in seen and who not in SILENT:
                    t.report("none", g["name"], who, g, "%s has no message of its own" % who)

    def prefixes(t):
        codes = enum(t.m, "FIFTYONE_DEGREES_EVIDENCE_")
        codes = {k: v for k, v in codes.items() if not k.startswith("IP_TYPE")}
        if not codes:
            for n, vs in t.m.enums.items():
                if "evidence_prefix" in n:
                    codes = {x[0].replace("FIFTYONE_DEGREES_EVIDENCE_", ""): x[1] for x in vs}
        if len(codes) < 4:
            raise EngineError("the evidence prefixes were not found")
        g0 = {"file": "evidence.h", "line": 0}
        for k, v in codes.items():
            t.n("bits")
            if v <= 0 or v & (v - 1):
                t.report("bit", "evidence prefixes", k, g0, "the evidence prefix %s (%d) is not one bit: a set of prefixes that has its bits selects it wrongly" % (k, v))
            for j, u in codes.items():
                if j < k and u & v:
                    t.report("bit", "evidence prefixes", k, g0, "the evidence prefixes %s and %s share a bit" % (j, k))
        name = {v: k for k, v in codes.items()}
        for g, rs in rows(t.m, "scc"):
            if os.path.basename(g["file"]) != "evidence.c":
                continue
            t.n("prefix_tables")
            have = {}
            for s, n, code in (r[:3] for r in rs):
                t.n("prefixes")
                who = name.get(code)
                if who is None:
                    t.report("unknown", g["name"], str(code), g, "%s maps \"%s\" to %s which is not one evidence prefix" % (g["name"], s, code))
                    continue
                if n != len(s or ""):
                    t.report("length", g["name"], who, g, "the prefix \"%s\" is said to have %d characters" % (s, n))
                if who in PREFIX and s != PREFIX[who]:
                    t.report("text", g["name"], who, g, "evidence of kind %s starts with \"%s\", not \"%s\"" % (who, PREFIX[who], s))
                for o in have:
                    if (s or "").startswith(have[o] or "") or (have[o] or "").startswith(s or ""):
                        t.report("clash", g["name"], who, g, "the prefixes \"%s\" and \"%s\" start the same: which is found depends on their order" % (have[o], s))
                have[who] = s
            for who in PREFIX:
                if who in codes and who not in have:
                    t.report("none", g["name"], who, g, "evidence of kind %s has no prefix" % who)

    def names(t, config):
        """The short names of fiftyone.h."""
        src = os.path.join(ir.REPO, "fiftyone.h")
        r = subprocess.run([ir.CLANG, "-std=gnu11", "-E", "-dM", "-x", "c", *ir.CONFIGS[config], src], capture_output=True, text=True)
        if r.returncode:
            raise EngineError("fiftyone.h cannot be preprocessed: " + r.stderr[-500:])
        macros = {}
        for l in r.stdout.splitlines():
            mm = re.match(r"#define (\w+)(\([^)]*\))?(?: (.*))?$", l)
            if mm:
                macros[mm.group(1)] = (mm.group(2), (mm.group(3) or "").strip())
        alias = {k: v for k, (p, v) in macros.items() if p is None and re.match(r"(fiftyoneDegrees|FIFTYONE_DEGREES)\w*$", v)
                 and not k.startswith(("fiftyoneDegrees", "FIFTYONE_DEGREES"))}
        if len(alias) < 50:
            raise EngineError("only %d short names were found" % len(alias))
        line = {}
        for i, l in enumerate(open(src, errors="replace"), 1):
            mm = re.match(r"\s*#\s*define\s+(\w+)", l)
            if mm:
                line[mm.group(1)] = i
        d = tempfile.mkdtemp(prefix="verif-names-")
        try:
            ask = []
            for k, v in sorted(alias.items()):
                own = [p + k for p in ("fiftyoneDegrees", "FIFTYONE_DEGREES_", "FIFTYONE_DEGREES_STATUS_")]
                ask += [x for x in [v] + own if x not in macros]
            ask = sorted(set(ask))
            f = os.path.join(d, "names.c")
            heads = [src] + sorted(x for x in glob.glob(os.path.join(ir.REPO, "*.h")) if x != src)
            first = len(heads) + 1
            open(f, "w").write("".join('#include "%s"\n' % h for h in heads) + "".join("__typeof__(%s) *v%d;\n" % (x, i) for i, x in enumerate(ask)))
            r = subprocess.run([ir.CLANG, "-std=gnu11", "-fsyntax-only", "-w", "-ferror-limit=0", *ir.CONFIGS[config], f], capture_output=True, text=True)
            missing = set()
            for mm in re.finditer(r"^%s:(\d+):\d+: (?:fatal )?error:" % re.escape(f), r.stderr, re.M):
                i = int(mm.group(1)) - first
                if i < 0:
                    raise EngineError("the headers do not compile: " + r.stderr[:300])
                missing.add(ask[i])
            if r.stderr and "error:" in r.stderr and not missing:
                raise EngineError("the headers do not compile: " + r.stderr[:300])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for k, v in sorted(alias.items()):
            t.n("short_names")
            g = {"file": "fiftyone.h", "line": line.get(k, 0)}
            if v not in macros and v in missing:
                t.report("nothing", "fiftyone.h", k, g, "the short name %s stands for %s, which does not exist" % (k, v))
                continue
            if OTHER.get(k) == v:
                continue
            for p in ("FIFTYONE_DEGREES_STATUS_", "FIFTYONE_DEGREES_", "fiftyoneDegrees"):
                x = p + k
                if x != v and (x in macros or x in ask and x not in missing):
                    t.report("another", "fiftyone.h", k, g, "the short name %s stands for %s although there is a %s" % (k, v, x))
                    break
