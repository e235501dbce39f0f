"""Runs one scenario through the abstract interpreter and reads its verdicts.

A scenario is a C file in /verif/scenarios that starts with a META comment (JSON).
The sources of /repo are mirrored afresh into a temporary directory on every run,
capacity constants are scaled down there, and everything is handed to Frama-C/Eva.
"""
import json, os, re, shutil, subprocess, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DW_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLANG = shutil.which("clang-18") or shutil.which("clang")

DEFAULT_CAPS = {"MAX_CONNS": "4", "BUF_SIZE": "512", "MAX_REQS": "4u", "MAX_THREADS": "3", "MAX_PKTS": "8"}
FALLBACK_OBJS = {
    "dw_node": "dw_node thread_affinity priority_queue request connection message address_utils".split(),
    "dw_client": "dw_client ccmd distrib thread_affinity queue connection request message address_utils".split(),
}
# alarms that are genuine undefined behaviour of the program at run time
ALARM_KINDS = (
    ("out of bounds write", "write outside an object"),
    ("out of bounds read", "read outside an object"),
    ("accessing out of bounds index", "index outside an array"),
    ("accessing uninitialized", "use of an uninitialised value"),
    ("accessing left-value that contains escaping addresses", "use of a dangling pointer"),
    ("division by zero", "division by zero"),
    ("function memcpy: precondition", "memory copy outside an object"),
    ("function memmove: precondition", "memory copy outside an object"),
    ("function memset: precondition", "memory fill outside an object"),
    ("function strlen", "string function on a non-string"),
    ("function free", "free of a pointer that is not the start of a live allocation"),
    ("function realloc", "realloc of a pointer that is not the start of a live allocation"),
    ("pointer to function", "call through an invalid function pointer"),
    ("invalid RHS operand for shift", "shift by an invalid amount"),
    ("overflow in conversion from floating-point", "float-to-integer conversion out of range"),
)
IGNORED_ALARMS = ("signed overflow", "unsigned overflow", "pointer comparison", "pointer subtraction",
                  "downcast", "trap representation", "NaN or infinite", "pointer arithmetic", "object pointer")


# modelled by the analyser itself
BUILTINS = set("""Frama_C_interval_split malloc calloc realloc free memcpy memmove memset strlen strnlen strchr memchr
alloca floor ceil sqrt log log10 exp pow cos sin atan2 fmod round trunc""".split())


class Broken(Exception):
    """The analysis could not be carried out (not a verdict about the property)."""


class Unbounded(Exception):
    """A run to a fixpoint that adds to bounded ones did not converge: nothing is concluded from it."""


def objects_of(program):
    """Source files linked into a program, as its Makefile says."""
    try:
        for line in open(os.path.join(SRC, "Makefile")):
            m = re.match(r"\s*%s\s*:\s*(.*)$" % re.escape(program), line)
            if m:
                objs = [o[:-2] for o in m.group(1).split() if o.endswith(".o")]
                objs = list(dict.fromkeys(objs))
                if objs and all(os.path.exists(os.path.join(SRC, o + ".c")) for o in objs):
                    return objs
    except OSError:
        pass
    return FALLBACK_OBJS.get(program, [program])


def load_meta(path):
    txt = open(path).read()
    m = re.match(r"/\*META\s*(\{.*?\})\s*\*/", txt, re.S)
    if not m:
        raise Broken("no META block in " + path)
    meta = json.loads(m.group(1))
    meta["name"] = os.path.splitext(os.path.basename(path))[0]
    meta["path"] = path
    return meta


def all_scenarios():
    return [load_meta(p) for p in sorted(glob.glob(os.path.join(VERIF, "scenarios", "*.c")))]


def mirror(dst, caps):
    os.makedirs(dst)
    scaled = []
    for p in sorted(glob.glob(os.path.join(SRC, "*.[ch]"))):
        txt = open(p, errors="replace").read()
        for name, val in caps.items():
            txt, n = re.subn(r"(?m)^(\s*#\s*define\s+%s)\b[ \t]+[^\n]*$" % re.escape(name), r"\1 " + val, txt)
            # constants declared as enumerators or const objects instead of macros
            txt, k = re.subn(r"(?m)^(\s*(?:enum\s*\{\s*|(?:static\s+)?const\s+[\w ]+\s)%s\s*=)[^,;}\n]+" % re.escape(name), r"\1 " + val, txt)
            if n or k:
                scaled.append(name)
        open(os.path.join(dst, os.path.basename(p)), "w").write(txt)
    return sorted(set(scaled))


CPP = ["-w", "-E", "-include", os.path.join(VERIF, "model", "include", "dwm_builtins.h"), "-D__builtin_memset=memset", "-D__thread=", "-Dvolatile=", "-U__SIZEOF_INT128__",
       "-Dprintf=dwm_printf", "-Dfprintf=dwm_fprintf", "-Dsprintf=dwm_sprintf",
       "-Dsscanf=dwm_sscanf", "-Dsnprintf=dwm_snprintf", "-D__builtin_nanf(x)=(0.0f/0.0f)", "-D__builtin_nan(x)=(0.0/0.0)", "-D__builtin_isnan=isnan",
       "-D__builtin_isfinite(x)=((x)-(x)==0)", "-D__builtin_isinf_sign(x)=((x)==(x)&&(x)-(x)!=0)",
       "-D_FORTIFY_SOURCE=0", "-D__NO_CTYPE"]


def preprocess(work, meta, variant):
    caps = dict(DEFAULT_CAPS)
    caps.update(meta.get("caps", {}))
    caps.update(variant.get("caps", {}))
    src = os.path.join(work, "src")
    scaled = mirror(src, caps)
    inc = ["-I" + os.path.join(VERIF, "model", "include"), "-I" + os.path.join(VERIF, "model"),
           "-I" + os.path.join(VERIF, "scenarios")]
    units = []
    objs = meta["units"] if "units" in meta else objects_of(meta["program"])
    defs = variant.get("defs", [])
    for o in objs:
        out = os.path.join(work, o + ".i")
        cmd = [CLANG] + CPP + inc + ["-Dmain=pgm_main"] + meta.get("srcdefs", []) + [os.path.join(src, o + ".c"), "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("preprocessing %s failed: %s" % (o, r.stderr[-400:]))
        units.append(out)
    capdefs = ["-DCAP_%s=%s" % (k, v) for k, v in caps.items()]
    models = [os.path.join(VERIF, "model", m) for m in meta.get("models", ["env.c", "libc.c"])]
    for f in models + [meta["path"]]:
        out = os.path.join(work, "m_" + os.path.basename(f)[:-2] + ".i")
        cmd = [CLANG] + CPP + ["-CC"] + inc + ["-I" + src] + capdefs + defs + [f, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("preprocessing model %s failed: %s" % (f, r.stderr[-400:]))
        units.append(out)
    return units, objs, scaled


def frama_cmd(units, meta):
    return ["frama-c", "-machdep", "gcc_x86_64", "-no-frama-c-stdlib", "-c11"] + units + [
        "-kernel-warn-key", "typing:implicit-function-declaration=active",
        "-eva", "-main", "main", "-eva-slevel", str(meta.get("slevel", 1000000)), "-eva-no-show-progress", "-eva-no-print",
        "-eva-msg-key=-summary,-initial-state,-final-states", "-eva-print-callstacks",
        "-warn-special-float", "none", "-no-warn-signed-overflow", "-no-warn-left-shift-negative",
        "-eva-alloc-builtin", "fresh", "-eva-no-alloc-returns-null", "-eva-mlevel", "100000",
        "-eva-split-return", "full", "-eva-unroll-recursive-calls", str(meta.get("unroll_rec", 6))] + meta.get("fc", [])


MSG = re.compile(r"^\[([a-z:\-]+)\] ?(.*)$")


def split_messages(text):
    """Frama-C messages with their continuation lines."""
    cur = None
    for line in text.splitlines():
        if MSG.match(line):
            if cur is not None:
                yield cur
            cur = [line]
        elif cur is not None:
            cur.append(line)
    if cur is not None:
        yield cur


def repo_frame(stack, src):
    """Innermost frame of the call stack that lies in /repo."""
    for fn, where in stack:
        if where.startswith(src) or "/src/" in where and not where.startswith(VERIF):
            return where
    return None


def parse_stack(lines, src):
    stack = []
    joined = " ".join(lines)
    m = re.search(r"stack:\s*(.*)$", joined)
    if not m:
        return stack
    for part in m.group(1).split("<-"):
        part = part.strip()
        mm = re.match(r"(\S+)\s*::\s*(\S+)$", part)
        if mm:
            stack.append((mm.group(1), mm.group(2)))
        elif part:
            stack.append((part, ""))
    return stack


def short(where, work):
    where = where.replace(os.path.join(work, "src") + "/", "src/")
    m = re.search(r"(?:^|/)src/([^/]+:\d+)$", where)
    if m:
        return "src/" + m.group(1)
    return where.replace(VERIF + "/", "")


class Deadline:
    """Common to all the runs of a check; moved forward once there is a violation to report."""

    def __init__(self, seconds):
        self.at = time.time() + seconds

    def shorten(self, seconds):
        self.at = min(self.at, time.time() + seconds)


def run(meta, variant, deadline, keep=None):
    """Returns a result dict; raises Broken if no verdict could be reached."""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="dwfc-")
    try:
        units, objs, scaled = preprocess(work, meta, variant)
        p = subprocess.Popen(frama_cmd(units, meta), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=work)
        complete = False
        while not complete:
            try:
                text, _ = p.communicate(timeout=1)
                complete = True
            except subprocess.TimeoutExpired:
                if time.time() > deadline.at or variant.get("optional") and time.time() > t0 + variant["optional"]:
                    p.kill()
                    text, _ = p.communicate()
                    break
        if keep:
            open(keep, "w").write(text)
        if not complete:
            # what was found so far counts, but there is no verdict without it
            r = digest(text, meta, variant, work, objs, scaled, time.time() - t0, False)
            if r["violations"]:
                return r
            if variant.get("optional"):
                raise Unbounded("%s/%s" % (meta["name"], variant["name"]))
            raise Broken("%s/%s: analysis exceeded %d s" % (meta["name"], variant["name"], time.time() - t0))
        if p.returncode != 0:
            tail = "\n".join(text.splitlines()[-12:])
            raise Broken("%s/%s: frama-c exit %d\n%s" % (meta["name"], variant["name"], p.returncode, tail))
        return digest(text, meta, variant, work, objs, scaled, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def digest(text, meta, variant, work, objs, scaled, wall, complete=True):
    src = os.path.join(work, "src")
    obl, marks, viol, sites, funcs, alarms_ignored = {}, {}, [], set(), set(), 0
    unknown, broken = set(), None
    for msg in split_messages(text):
        head = " ".join(x.strip() for x in msg)
        m = re.search(r"Frama_C_show_each_(OBL|MARK|BROKEN)_(\w+):\s*(.*?)(?:\s*stack:|$)", head)
        if m:
            kind, name, vals = m.groups()
            stack = parse_stack(msg, src)
            for fn, w in stack:
                if "/src/" in w and not w.startswith(VERIF):
                    sites.add(short(w, work))
            if kind == "BROKEN":
                broken = broken or Broken("%s/%s: %s" % (meta["name"], variant["name"], name))
                continue
            first = re.match(r"\s*(\{[^}]*\}|\[[^\]]*\]|[^,]*)", vals).group(1)
            if kind == "MARK":
                marks.setdefault(name, set()).add(vals.strip())
                continue
            ok = first.replace(" ", "") == "{1}"
            obl[name] = obl.get(name, 0) + 1
            if not ok:
                viol.append({"rule": name, "value": vals.strip(), "where": short(repo_frame(stack, src) or meta.get("subject", ""), work),
                             "stack": ["%s <- %s" % (f, short(w, work)) for f, w in stack]})
            continue
        if head.startswith("[eva:alarm]"):
            kinds = [d for k, d in ALARM_KINDS if k in head]
            mm = re.match(r"\[eva:alarm\] (\S+?):(\d+):", head)
            loc = short("%s:%s" % (mm.group(1), mm.group(2)), work) if mm else "?"
            if kinds:
                stack = parse_stack(msg, src)
                a = re.search(r"Warning:\s*(.*?)(?:\s*stack:|$)", head)
                viol.append({"rule": "memory: " + kinds[0], "value": a.group(1) if a else "",
                             "where": loc if loc.startswith("src/") else short(repo_frame(stack, src) or loc, work),
                             "stack": ["%s <- %s" % (f, short(w, work)) for f, w in stack]})
            elif any(k in head for k in IGNORED_ALARMS):
                alarms_ignored += 1
            else:
                broken = broken or Broken("%s/%s: unclassified alarm: %s" % (meta["name"], variant["name"], head[:300]))
            continue
        m = re.search(r"Neither code nor (?:specification|explicit).*? for function (\w+)", head)
        if m:
            unknown.add(m.group(1))
        m = re.search(r"Neither code nor.*function ['`]?(\w+)", head)
        if m:
            unknown.add(m.group(1))
        if "Implicit declaration" in head or "implicit declaration" in head:
            pass
    unknown -= BUILTINS
    unknown -= set(meta.get("allow_unknown", []))
    if unknown:
        raise Broken("%s/%s: functions outside the environment model: %s" % (meta["name"], variant["name"], ", ".join(sorted(unknown))))
    res = {"scenario": meta["name"], "variant": variant["name"], "obligations": obl, "marks": {k: sorted(v) for k, v in marks.items()},
           "violations": viol, "sites": sorted(sites), "units": objs, "scaled": scaled, "wall": wall,
           "alarms_ignored": alarms_ignored}
    if broken and not viol:
        raise broken
    if not complete:
        return res
    need = list(variant.get("marks", meta.get("marks", ["END"])))
    if not viol:
        for k in need:
            name, _, cnt = k.partition(":")
            have = len(marks.get(name, ()))
            if have < int(cnt or 1):
                # every path of the scenario must come to its end
                viol.append({"rule": "completes", "value": "%s reached on %d of %d histories" % (name, have, int(cnt or 1)),
                             "where": meta.get("subject", ""), "stack": []})
    if not viol:
        total = sum(obl.values())
        mn = variant.get("min_obl", meta.get("min_obl", 1))
        if total < mn:
            raise Broken("%s/%s: only %d obligations evaluated, expected at least %d" % (meta["name"], variant["name"], total, mn))
        for name in meta.get("need", []) + variant.get("need", []):
            if not obl.get(name):
                raise Broken("%s/%s: obligation %s was never evaluated" % (meta["name"], variant["name"], name))
    return res
