"""Reads the LLVM IR of a whole program (as text) into functions, blocks and instructions."""
import os, re, subprocess, tempfile
import fc

OPT = "/usr/bin/opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"
LINK = "/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"


def split(s):
    """Splits at top-level commas."""
    out, depth, cur, quote = [], 0, "", False
    for c in s:
        if c == '"':
            quote = not quote
        if not quote:
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            elif c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def value_of(operand):
    """'i32 noundef %5' -> '%5'; keeps constant expressions."""
    operand = operand.strip()
    if operand.endswith(")"):
        m = re.search(r"(getelementptr|inttoptr|ptrtoint|bitcast|byval|sret|null|zeroinitializer).*$", operand)
        if m and m.group(1) in ("getelementptr", "inttoptr", "ptrtoint", "bitcast"):
            return operand[m.start():]
    return operand.split()[-1]


class Instr:
    __slots__ = ("op", "res", "line", "text", "a", "fn", "bb", "idx")

    def __init__(self, op, res, text, line):
        self.op, self.res, self.text, self.line, self.a = op, res, text, line, {}


class Func:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.order, self.file, self.defs = name, [], {}, [], "?", {}

    def instrs(self):
        for b in self.order:
            yield from self.blocks[b]

    def succ(self, b):
        t = self.blocks[b][-1]
        return t.a.get("succ", [])


class Module:
    def __init__(self, program, source=None, flags=()):
        self.program, self.source, self.flags = program, source, list(flags)
        self.funcs, self.globals, self.types = {}, {}, {}
        self.units = [program] if source else fc.objects_of(program)
        self.parse(self.build())

    def build(self):
        with tempfile.TemporaryDirectory(prefix="dwir-") as w:
            bcs = []
            for u in self.units:
                src = self.source or os.path.join(fc.SRC, u + ".c")
                if not os.path.exists(src):
                    raise fc.Broken("source file of %s is missing: %s" % (self.program, src))
                o = os.path.join(w, u + ".bc")
                r = subprocess.run([fc.CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-c", "-emit-llvm", "-I", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "model", "ir"), "-I", fc.SRC] + self.flags + [src, "-o", o],
                                   capture_output=True, text=True)
                if r.returncode:
                    raise fc.Broken("%s does not compile: %s" % (u, r.stderr[:400]))
                bcs.append(o)
            r = subprocess.run([LINK] + bcs + ["-o", w + "/all.bc"], capture_output=True, text=True)
            if r.returncode:
                raise fc.Broken("cannot link %s: %s" % (self.program, r.stderr[:400]))
            r = subprocess.run([OPT, "-S", "-passes=function(sroa)", w + "/all.bc", "-o", w + "/all.ll"], capture_output=True, text=True)
            if r.returncode:
                raise fc.Broken("cannot simplify %s: %s" % (self.program, r.stderr[:400]))
            return open(w + "/all.ll").read()

    def parse(self, txt):
        locs, subs, files = {}, {}, {}
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!DI(Location|Subprogram|File)\((.*)\)$", txt, re.M):
            n, kind, body = m.groups()
            if kind == "Location":
                locs[n] = int(re.search(r"line: (\d+)", body).group(1))
            elif kind == "File":
                files[n] = re.search(r'filename: "([^"]*)"', body).group(1)
            else:
                f = re.search(r"file: !(\d+)", body)
                subs[n] = f.group(1) if f else None
        fn = bb = None
        for line in txt.split("\n"):
            if fn is None:
                m = re.match(r"(%[\w.\-]+) = type (.*)$", line)
                if m:
                    self.types[m.group(1)] = m.group(2)
                    continue
                m = re.match(r"@([\w.$\-]+) = (.*)$", line)
                if m:
                    body = m.group(2)
                    self.globals[m.group(1)] = {"tls": "thread_local" in body, "const": bool(re.search(r"\bconstant\b", body)), "external": bool(re.search(r"\bexternal\b", body)),
                                                "type": re.sub(r"^.*?\b(global|constant) ", "", body)}
                    continue
                m = re.match(r"define .*?@([\w.$\-]+)\((.*)\)[^()]*\{$", line)
                if m:
                    fn = Func(m.group(1))
                    for i, p in enumerate(split(m.group(2))):
                        if p == "...":
                            continue
                        last = p.split()[-1]
                        fn.params.append(last if last.startswith("%") else "%%arg%d" % i)
                    d = re.search(r"!dbg !(\d+)", line)
                    if d and subs.get(d.group(1)):
                        fn.file = os.path.basename(files.get(subs[d.group(1)], "?"))
                    self.funcs[fn.name] = fn
                    bb = "entry"
                    fn.blocks[bb] = []
                    fn.order.append(bb)
                continue
            if line == "}":
                fn = None
                continue
            m = re.match(r"([\w.\-]+):", line)
            if m:
                bb = m.group(1)
                fn.blocks[bb] = []
                fn.order.append(bb)
                continue
            s = line.strip()
            if not s or s.startswith(";"):
                continue
            if bb is not None and fn.blocks[bb] and fn.blocks[bb][-1].op == "switch" and "succ_open" in fn.blocks[bb][-1].a:
                sw = fn.blocks[bb][-1]
                if s.startswith("]"):
                    del sw.a["succ_open"]
                else:
                    sw.a["succ"] += re.findall(r"label %([\w.\-]+)", s)
                continue
            d = re.search(r", !dbg !(\d+)", s)
            ln = locs.get(d.group(1), 0) if d else 0
            s = re.sub(r"(, ![\w.]+ ![\d]+)+$", "", s)
            s = re.sub(r" #\d+$", "", s)
            i = self.instr(s, ln)
            if i is None:
                continue
            i.fn, i.bb, i.idx = fn, bb, len(fn.blocks[bb])
            fn.blocks[bb].append(i)
            if i.res:
                fn.defs[i.res] = i

    def instr(self, s, ln):
        res = None
        m = re.match(r"(%[\w.\-]+) = (.*)$", s)
        if m:
            res, s = m.groups()
        s = re.sub(r"^(tail |musttail |notail )", "", s)
        op = s.split()[0]
        i = Instr(op, res, s, ln)
        a = i.a
        if op == "load":
            m = re.match(r"load (atomic )?(?:volatile )?(.*)$", s)
            p = split(m.group(2))
            a["atomic"], a["type"], a["ptr"] = bool(m.group(1)), p[0], value_of(re.sub(r" (unordered|monotonic|acquire|seq_cst)$", "", p[1]))
            o = re.search(r" (unordered|monotonic|acquire|seq_cst)\b", s)
            a["order"] = o.group(1) if o else None
        elif op == "store":
            m = re.match(r"store (atomic )?(?:volatile )?(.*)$", s)
            p = split(m.group(2))
            o = re.search(r" (unordered|monotonic|release|seq_cst)\b", s)
            a["atomic"], a["val"], a["order"] = bool(m.group(1)), value_of(p[0]), o.group(1) if o else None
            a["ptr"] = value_of(re.sub(r" (unordered|monotonic|release|seq_cst)$", "", p[1]))
        elif op == "atomicrmw":
            m = re.match(r"atomicrmw (?:volatile )?(\w+) (.*)$", s)
            p = split(m.group(2))
            q = p[1].split()
            a["rmw"], a["ptr"], a["val"], a["order"] = m.group(1), value_of(p[0]), q[1], q[-1]
        elif op == "cmpxchg":
            m = re.match(r"cmpxchg (?:weak )?(?:volatile )?(.*)$", s)
            p = split(m.group(1))
            q = p[2].split()
            a["ptr"], a["cmp"], a["val"], a["order"] = value_of(p[0]), value_of(p[1]), q[1], q[2]
        elif op == "getelementptr":
            m = re.match(r"getelementptr (?:inbounds )?(.*)$", s)
            p = split(m.group(1))
            a["type"], a["ptr"], a["index"] = p[0], value_of(p[1]), [value_of(x) for x in p[2:]]
        elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "sitofp", "uitofp", "fptoui", "fpext", "fptrunc"):
            m = re.match(r"\w+ (?:nneg )?(.*) to .*$", s)
            a["ops"] = [value_of(m.group(1))]
        elif op == "phi":
            a["ops"] = [x.strip() for x in re.findall(r"\[ ([^,\]]+(?:\([^)]*\))?), %", s)]
            a["in"] = re.findall(r", %([\w.\-]+) \]", s)
        elif op == "select":
            p = split(s[7:])
            a["ops"] = [value_of(p[1]), value_of(p[2])]
            a["cond"] = value_of(p[0])
        elif op in ("icmp", "fcmp"):
            p = split(s)
            a["pred"] = s.split()[1]
            a["ops"] = [value_of(p[0]), value_of(p[1])]
        elif op in ("extractvalue",):
            a["ops"] = [value_of(split(s[len(op):])[0])]
        elif op == "call":
            m = re.match(r"call .*?(@[\w.$\-]+|%[\w.\-]+)\((.*)\)[^()]*$", s)
            if m is None:
                m2 = re.search(r"asm ", s)
                if m2:
                    return None
                raise fc.Broken("cannot read call: " + s)
            # a prototype may come before the callee: call i32 (ptr, ...) @printf(...)
            m = re.match(r"call (?:[^@%]|%struct[\w.\-]*|%union[\w.\-]*)*?(@[\w.$\-]+|%[\w.\-]+)\((.*)\)[^()]*$", s)
            a["callee"] = m.group(1)
            if a["callee"].startswith("@llvm.dbg") or a["callee"].startswith("@llvm.lifetime"):
                return None
            args = split(m.group(2))
            a["args"] = [value_of(x) for x in args]
            a["argt"] = args
        elif op == "br":
            a["succ"] = re.findall(r"label %([\w.\-]+)", s)
            m = re.match(r"br i1 (%[\w.\-]+|true|false),", s)
            a["cond"] = m.group(1) if m else None
        elif op == "switch":
            a["succ"] = re.findall(r"label %([\w.\-]+)", s)
            if s.rstrip().endswith("["):
                a["succ_open"] = 1
        elif op == "ret":
            a["ops"] = [value_of(s[4:])] if s != "ret void" else []
        elif op == "unreachable":
            a["succ"] = []
        elif op == "alloca":
            a["type"] = split(s[7:])[0]
        else:
            m = re.match(r"\w+ (?:nuw |nsw |exact |fast |disjoint )*(.*)$", s)
            a["ops"] = [value_of(x) for x in split(m.group(1))]
        return i
