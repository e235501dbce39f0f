#!/usr/bin/env python3
"""C27: what the threads of the node and of the client share is only shared safely.

A provenance and lockset analysis over the LLVM IR of the two whole programs (see llir.py): which memory every
thread-reachable access may refer to, and whether the accesses that several threads may make to the same memory are
atomic, under a common lock, or to an element that belongs to the thread or was claimed by it.
"""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fc, llir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN, OTHER, CONST = ("own",), ("other",), ("const",)

# library functions that write through an argument
WRITES = {"sprintf": [0], "snprintf": [0], "vsprintf": [0], "vsnprintf": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0],
          "memcpy": [0], "memmove": [0], "memset": [0], "read": [1], "pread": [1], "recv": [1], "recvfrom": [1, 4, 5], "accept": [1, 2],
          "accept4": [1, 2], "clock_gettime": [1], "gettimeofday": [0], "drand48_r": [0, 1], "lrand48_r": [0, 1], "srand48_r": [1],
          "epoll_wait": [1], "fgets": [0], "fread": [0], "getsockopt": [3, 4], "getsockname": [1, 2], "getpeername": [1, 2],
          "timerfd_gettime": [1], "timerfd_settime": [3], "strtok_r": [2], "fstat": [1], "stat": [1], "poll": [0], "pthread_create": [0],
          "strsep": [0], "strtol": [1], "strtoul": [1], "strtod": [1], "rand_r": [0], "random_r": [0, 1], "pipe": [0]}
# library functions that keep state without synchronisation
UNSAFE = {"strtok", "drand48", "lrand48", "mrand48", "srand48", "seed48", "lcong48", "localtime", "gmtime", "ctime", "asctime",
          "gethostbyname", "gethostbyaddr", "getservbyname", "getprotobyname", "readdir", "setenv", "putenv", "unsetenv", "ecvt", "fcvt",
          "ttyname", "getpwnam", "getpwuid", "hsearch", "tmpnam", "l64a", "setlocale", "getopt", "getopt_long", "basename_r"}
# smallest instance counts confirmed by hand; fewer means that the analysis does not see the program any more
MINIMUM = {"dw_node": {"thread entry points": 2, "functions run by threads": 30, "memory accesses": 400, "shared accesses": 20, "slot tables": 2,
                       "claims": 2, "releases": 2, "atomic updates": 6},
           "dw_client": {"thread entry points": 2, "functions run by threads": 20, "memory accesses": 250, "shared accesses": 10, "slot tables": 1,
                         "claims": 1, "releases": 1, "own elements": 5, "accesses ordered by messages": 2}}


class Access:
    def __init__(self, i, kind, obj, field, own, atomic, locks):
        self.i, self.kind, self.obj, self.field, self.own, self.atomic, self.locks = i, kind, obj, field, own, atomic, locks


class Program:
    def __init__(self, name, source=None, flags=()):
        self.m = llir.Module(name, source, flags)
        self.name = name
        self.found = []         # (rule, instruction, message)
        self.count = {}
        self.sccs = {}
        self.analyse()

    def where(self, i):
        return "%s:%d (%s)" % (i.fn.file, i.line, i.fn.name)

    def bad(self, rule, i, msg):
        if not any(r == rule and j.fn is i.fn and j.line == i.line for r, j, _ in self.found):
            self.found.append((rule, i, msg))

    # ---- control flow helpers
    def cycle_of(self, fn, b):
        """Blocks of fn on a cycle through b (empty if none)."""
        if fn.name not in self.sccs:
            self.sccs[fn.name] = {}
        memo = self.sccs[fn.name]
        if b not in memo:
            fwd, todo = set(), list(fn.succ(b))
            while todo:
                x = todo.pop()
                if x not in fwd:
                    fwd.add(x)
                    todo += fn.succ(x)
            memo[b] = fwd
        if b not in memo[b]:
            return set()
        out = set()
        for x in memo[b]:
            self.cycle_of(fn, x) if x not in memo else None
            if b in memo[x]:
                out.add(x)
        return out

    def after(self, i, stop=lambda j: False):
        """Instructions that may execute after i in its function; paths end where stop() holds."""
        fn, seen, out = i.fn, set(), []
        todo = [(i.bb, i.idx + 1)]
        while todo:
            b, k = todo.pop()
            ins = fn.blocks[b]
            ended = False
            for j in ins[k:]:
                if stop(j):
                    ended = True
                    break
                out.append(j)
            if not ended:
                for s in fn.succ(b):
                    if s not in seen:
                        seen.add(s)
                        todo.append((s, 0))
        return out

    def preds(self, fn):
        if not hasattr(fn, "pred"):
            fn.pred = {b: [] for b in fn.order}
            for b in fn.order:
                for s in fn.succ(b):
                    fn.pred[s].append(b)
        return fn.pred

    def only_through(self, fn, target, src, dst):
        """Is every path from the entry to block target through the edge src->dst?"""
        if target == "entry":
            return False
        seen, todo = {"entry"}, ["entry"]
        while todo:
            b = todo.pop()
            for s in fn.succ(b):
                if b == src and s == dst:
                    continue
                if s == target:
                    return False
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return True

    # ---- provenance
    def globals_in(self, v):
        return re.findall(r"@([\w.$\-]+)", v)

    def val(self, fn, v):
        """Where the value may come from."""
        if v.startswith("%"):
            return self.tags.get((fn.name, v), frozenset())
        gs = self.globals_in(v)
        out = set()
        for g in gs:
            if g in self.m.funcs or g not in self.m.globals:
                continue
            d = self.m.globals[g]
            if d["const"] or d["external"]:
                out.add(CONST)
                continue
            out.add(OWN if d["tls"] else ("slot", g) if g in self.tables else ("g", g, False))
        return frozenset(out) if out else frozenset([CONST])

    def owned_index(self, tags):
        return OWN in tags and OTHER not in tags and CONST not in tags

    def transfer(self, fn, i):
        op, a = i.op, i.a
        if op == "alloca":
            return frozenset([OWN])
        if op == "load":
            pt = self.val(fn, a["ptr"])
            base = self.base(fn, a["ptr"])
            if base and base.op == "alloca":
                c = self.content.get((fn.name, base.res), frozenset())
                return (c - {CONST} or c) if c else frozenset([OWN])
            out = set()
            for t in pt:
                if t[0] in ("own", "slot") or t[0] == "g" and t[2]:
                    out.add(OWN)
                elif t[0] in ("g", "via"):
                    out.add(("via", t[1]) if a["type"] == "ptr" else OTHER)
            return frozenset(out)
        if op == "getelementptr":
            out = set()
            idx = a["index"]
            for t in self.val(fn, a["ptr"]):
                if t[0] == "g":
                    own = t[2]
                    var = [x for x in idx if x.startswith("%")]
                    if any(not self.val(fn, x) for x in var):
                        continue        # not known yet
                    if own and var and idx[0] != "0" and not self.owned_index(self.val(fn, idx[0])):
                        own = False
                    elif not own and var:
                        own = any(self.owned_index(self.val(fn, x)) for x in var)
                    out.add(("g", t[1], own))
                else:
                    out.add(t)
            return frozenset(out)
        if op in ("atomicrmw", "cmpxchg"):
            pt = self.val(fn, a["ptr"])
            return frozenset([OWN if all(t[0] in ("own", "slot") for t in pt) else OTHER])
        if op == "call":
            f = a["callee"][1:]
            if a["callee"].startswith("@llvm.threadlocal"):
                return frozenset([OWN])
            if f in self.m.funcs:
                return self.rets.get(f, frozenset())
            if re.match(r"call .*?\bptr\b", i.text.split("@")[0]) and f not in ("strerror",):
                if f in ("strchr", "strrchr", "strstr", "strcpy", "strcat", "memcpy", "memmove", "memset", "strncpy", "fgets"):
                    return self.val(fn, a["args"][0])
                return frozenset([OWN])
            return frozenset([OWN]) if f in ("pthread_self", "gettid", "syscall", "socket", "accept", "open", "eventfd", "timerfd_create") else frozenset([OTHER])
        if op in ("icmp", "fcmp"):
            return frozenset([OTHER])
        out = set()
        for v in a.get("ops", []):
            out |= self.val(fn, v)
        if op not in ("phi", "select") and len(out) > 1:
            out.discard(CONST)
        return frozenset(out)

    def base(self, fn, p):
        """The instruction at the root of a chain of address computations."""
        while p.startswith("%"):
            d = fn.defs.get(p)
            if d is None:
                return None
            if d.op != "getelementptr":
                return d
            p = d.a["ptr"]
        return None

    def root(self, fn, p):
        """The SSA value (or global) an address is computed from, with the element index when the root is a global."""
        last = ()
        while p.startswith("%"):
            d = fn.defs.get(p)
            if d is None or d.op != "getelementptr":
                return (p,) + last
            var = tuple(self.strip(fn, x) for x in d.a["index"] if x.startswith("%"))
            if var:
                last = var + last
            p = d.a["ptr"]
        return (p,) + last

    def strip(self, fn, v):
        while v.startswith("%") and v in fn.defs and fn.defs[v].op in ("sext", "zext", "trunc"):
            v = fn.defs[v].a["ops"][0]
        return v

    def field(self, fn, p):
        """The last struct member an address refers to."""
        while p.startswith("%"):
            d = fn.defs.get(p)
            if d is None or d.op != "getelementptr":
                return None
            if d.a["type"].startswith("%struct") and len(d.a["index"]) >= 2:
                return d.a["type"][1:] + "." + d.a["index"][1]
            p = d.a["ptr"]
        m = re.search(r"%(struct[\w.]*), ptr .*?, i32 \d+, i32 (\d+)\)", p)
        return "%s.%s" % m.groups() if m else None

    # ---- the analysis
    def calls(self, fn):
        return [i for i in fn.instrs() if i.op == "call"]

    def analyse(self):
        m = self.m
        # thread entry points
        self.creates = [i for f in m.funcs.values() for i in self.calls(f) if i.a["callee"] == "@pthread_create"]
        self.entries = {}
        for i in self.creates:
            e = i.a["args"][2].lstrip("@")
            if e in m.funcs:
                self.entries.setdefault(e, []).append(i)
        if not self.entries:
            raise fc.Broken("no thread entry point found in %s" % self.name)
        graph = {f: {i.a["callee"][1:] for i in self.calls(fn) if i.a["callee"][1:] in m.funcs} for f, fn in m.funcs.items()}

        def closure(e):
            seen, todo = set(), [e]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += graph[x]
            return seen
        self.reach = {e: closure(e) for e in self.entries}
        self.multi = set()
        for _ in range(3):
            for e, sites in self.entries.items():
                for s in sites:
                    if len(sites) > 1 or self.cycle_of(s.fn, s.bb) or any(s.fn.name in self.reach[x] for x in self.multi):
                        self.multi.add(e)
        self.ctx = {}
        for e, r in self.reach.items():
            for f in r:
                self.ctx.setdefault(f, set()).add(e)
        self.conc = set(self.ctx)
        # instructions of main that run while threads may be running
        self.main_region = set()
        main = m.funcs.get("main")
        if main is None:
            raise fc.Broken("no main function in %s" % self.name)
        fork = [s for s in self.creates if s.fn is main]
        joins = [i for i in self.calls(main) if i.a["callee"] == "@pthread_join"]
        for s in fork:
            for j in self.after(s):
                if any(k in joins for k in [j]) or any(k.a.get("callee") == "@pthread_join" for k in self.after(j) if k.op == "call"):
                    self.main_region.add(id(j))
        self.tables, self.claims, self.claimfield = {}, [], {}
        self.propagate()
        self.find_tables()
        self.propagate()
        self.locksets()
        self.collect()
        self.rule_sharing()
        self.rule_updates()
        self.rule_slots()
        self.rule_locks()
        self.rule_calls()
        self.rule_arguments()
        self.rule_messages()
        self.rule_replies()
        self.count["thread entry points"] = len(self.entries)
        self.count["functions run by threads"] = len(self.conc)

    def find_tables(self):
        """Arrays of structures whose elements are claimed by an atomic exchange on one of their members."""
        self.claimers = set()
        for f in sorted(self.conc):
            fn = self.m.funcs[f]
            for i in fn.instrs():
                if i.op == "cmpxchg" or i.op == "atomicrmw" and i.a["rmw"] == "xchg":
                    fld = self.field(fn, i.a["ptr"])
                    if not fld:
                        continue
                    for t in self.val(fn, i.a["ptr"]):
                        if t[0] == "g" and not t[2] and re.match(r"\[\d+ x %struct", self.m.globals[t[1]]["type"]):
                            self.tables[t[1]] = fld
                            self.claimfield[fld] = t[1]
                            if i not in self.claims:
                                self.claims.append(i)
                                self.claimers.add(f)
        self.count["slot tables"] = len(self.tables)
        self.count["claims"] = len(self.claims)

    def propagate(self):
        self.tags, self.rets, self.content = {}, {}, {}
        m = self.m

        def add(d, k, s):
            old = d.get(k, frozenset())
            if not s <= old:
                d[k] = old | s
                return True
            return False
        # what the threads get as argument
        for e, sites in self.entries.items():
            fn = m.funcs[e]
            if not fn.params:
                continue
            for s in sites:
                v = s.a["args"][3]
                cyc = self.cycle_of(s.fn, s.bb)
                out = set()
                for t in self.arg_tags(s.fn, v):
                    if t[0] == "g":
                        out.add(("g", t[1], not cyc or self.varies(s.fn, v, cyc)))
                    else:
                        out.add(OWN)
                if not out:
                    out.add(OWN if not cyc or self.varies(s.fn, v, cyc) else OTHER)
                add(self.tags, (e, fn.params[0]), frozenset(out))
        for _ in range(60):
            change = False
            for f in sorted(self.conc):
                fn = m.funcs[f]
                for i in fn.instrs():
                    if i.res:
                        change |= add(self.tags, (f, i.res), self.transfer(fn, i))
                    if i.op == "store":
                        b = self.base(fn, i.a["ptr"])
                        if b and b.op == "alloca":
                            change |= add(self.content, (f, b.res), self.val(fn, i.a["val"]))
                    if i.op == "call":
                        g = i.a["callee"][1:]
                        if g in self.conc:
                            callee = m.funcs[g]
                            for p, v in zip(callee.params, i.a["args"]):
                                if g in self.entries:
                                    continue
                                s = self.val(fn, v)
                                if not s and not v.startswith("%"):
                                    s = frozenset()
                                change |= add(self.tags, (g, p), s)
                    if i.op == "ret":
                        for v in i.a["ops"]:
                            change |= add(self.rets, f, self.val(fn, v))
            if not change:
                return
        raise fc.Broken("provenance analysis of %s does not converge" % self.name)

    def arg_tags(self, fn, v):
        """Objects an argument of pthread_create refers to (fn may be main)."""
        out, seen, todo = set(), set(), [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if not x.startswith("%"):
                out |= {("g", g, False) for g in self.globals_in(x) if g in self.m.globals}
                continue
            d = fn.defs.get(x)
            if d is None:
                continue
            if d.op == "getelementptr":
                todo.append(d.a["ptr"])
            elif d.op in ("phi", "select", "bitcast"):
                todo += d.a["ops"]
            elif d.op in ("alloca", "call"):
                out.add(OWN)
        return out

    def varies(self, fn, v, cyc):
        """Does the value change from one turn of the loop to the next?"""
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x in seen or not x.startswith("%"):
                continue
            seen.add(x)
            d = fn.defs.get(x)
            if d is None:
                continue
            if d.op in ("phi", "load", "call", "atomicrmw") and d.bb in cyc:
                return True
            todo += d.a.get("ops", []) + d.a.get("index", []) + ([d.a["ptr"]] if d.op == "getelementptr" else [])
        return False

    # ---- locks
    LOCKS = {"pthread_mutex_lock": 1, "pthread_mutex_unlock": 0, "pthread_spin_lock": 1, "pthread_spin_unlock": 0,
             "pthread_rwlock_wrlock": 1, "pthread_rwlock_rdlock": 1, "pthread_rwlock_unlock": 0, "mtx_lock": 1, "mtx_unlock": 0}

    def lock_name(self, fn, v):
        gs = self.globals_in(v)
        if gs:
            return gs[0]
        r = self.root(fn, v)
        return "%s/%s" % (r[0] if r[0].startswith("@") else "?", self.field(fn, v))

    def locksets(self):
        """Locks held at every instruction, on all paths from the start of the threads."""
        m = self.m
        self.effect = {}
        for _ in range(6):          # what calling a function does to the locks held
            old = dict(self.effect)
            for f in sorted(self.conc):
                paths = self.exit_locks(m.funcs[f])
                if paths:
                    self.effect[f] = (frozenset.intersection(*[g for g, _ in paths]), frozenset.union(*[l for _, l in paths]))
            if old == self.effect:
                break
        entry = {f: None for f in self.conc}
        for e in self.entries:
            entry[e] = frozenset()
        self.held = {}
        for _ in range(40):
            change = False
            for f in sorted(self.conc):
                if entry[f] is None:
                    continue
                fn = m.funcs[f]
                inb, out = {fn.order[0]: entry[f]}, {}
                todo = [fn.order[0]]
                while todo:
                    b = todo.pop()
                    cur = inb[b]
                    for i in fn.blocks[b]:
                        self.held[id(i)] = cur
                        if i.op == "call":
                            g = i.a["callee"][1:]
                            if g in self.conc and g not in self.entries:
                                new = cur if entry[g] is None else entry[g] & cur
                                if new != entry[g]:
                                    entry[g] = new
                                    change = True
                            cur = self.lock_step(fn, i, cur, frozenset())[0]
                    if b not in out or out[b] != cur:
                        out[b] = cur
                        for s in fn.succ(b):
                            new = cur if s not in inb else inb[s] & cur
                            if s not in inb or new != inb[s] or s not in out:
                                inb[s] = new
                                todo.append(s)
            if not change:
                break

    def lock_step(self, fn, i, gained, lost):
        g = i.a["callee"][1:]
        if g in self.LOCKS:
            n = frozenset([self.lock_name(fn, i.a["args"][0])])
            return (gained | n, lost - n) if self.LOCKS[g] else (gained - n, lost | n)
        if g in self.effect and g != fn.name:
            eg, el = self.effect[g]
            return (gained - el) | eg, (lost | el) - eg
        return gained, lost

    def exit_locks(self, fn):
        """Locks taken and given back by the function when it returns: one pair per path."""
        paths, seen = set(), set()
        todo = [(fn.order[0], frozenset(), frozenset())]
        while todo:
            b, gained, lost = todo.pop()
            if (b, gained, lost) in seen:
                continue
            seen.add((b, gained, lost))
            for i in fn.blocks[b]:
                if i.op == "call":
                    gained, lost = self.lock_step(fn, i, gained, lost)
                elif i.op == "ret":
                    paths.add((gained, lost))
            todo += [(s, gained, lost) for s in fn.succ(b)]
        return paths

    # ---- accesses
    def collect(self):
        self.acc = []
        total = 0
        shared = set()
        own = set()
        for f in sorted(self.conc):
            fn = self.m.funcs[f]
            for i in fn.instrs():
                for kind, ptr, atomic in self.touches(fn, i):
                    total += 1
                    for t in self.val(fn, ptr):
                        if t[0] == "g":
                            fld = self.field(fn, ptr)
                            if i.op == "call" and fld is None:
                                fld = "*"
                            self.acc.append(Access(i, kind, "g:" + t[1], fld, t[2], atomic, self.held.get(id(i), frozenset())))
                            (own if t[2] else shared).add(id(i))
                        elif t[0] == "via":
                            fld = self.field(fn, ptr)
                            self.acc.append(Access(i, kind, "via:" + t[1], fld, False, atomic, self.held.get(id(i), frozenset())))
                            shared.add(id(i))
        main = self.m.funcs["main"]
        self.mainacc = []
        for i in main.instrs():
            if id(i) not in self.main_region or i.op not in ("load", "store", "atomicrmw", "cmpxchg"):
                continue
            g = None
            p = i.a["ptr"]
            while p.startswith("%") and p in main.defs and main.defs[p].op == "getelementptr":
                p = main.defs[p].a["ptr"]
            gs = self.globals_in(p) if not p.startswith("%") else []
            if gs and gs[0] in self.m.globals and not self.m.globals[gs[0]]["const"] and not self.m.globals[gs[0]]["tls"]:
                if self.before_creation(main, i):
                    continue
                atomic = i.op not in ("load", "store") or i.a["atomic"]
                self.mainacc.append(Access(i, "r" if i.op == "load" else "w", "g:" + gs[0], self.field(main, i.a["ptr"]), False, atomic, frozenset()))
        self.count["memory accesses"] = total
        self.count["shared accesses"] = len(shared)
        self.count["own elements"] = len(own)

    def before_creation(self, main, i):
        """Is the access to an element that belongs to a thread that is only created later in the same pass of a loop?"""
        r = self.root(main, i.a["ptr"])
        if len(r) != 2 or not r[1].startswith("%") or main.defs.get(r[1]) is None or main.defs[r[1]].op != "phi":
            return False
        own = [s for s in self.creates if s.fn is main and self.root(main, s.a["args"][3]) == r]
        phi = main.defs[r[1]]
        return bool(own) and not any(i in self.after(s, stop=lambda j: j is phi) for s in own)

    def touches(self, fn, i):
        """(kind, address, atomic) of the memory accesses of an instruction."""
        if i.op == "load":
            return [("r", i.a["ptr"], i.a["atomic"])]
        if i.op == "store":
            return [("w", i.a["ptr"], i.a["atomic"])]
        if i.op in ("atomicrmw", "cmpxchg"):
            return [("w", i.a["ptr"], True)]
        if i.op == "call":
            f = i.a["callee"][1:]
            m = re.match(r"llvm\.(memcpy|memmove|memset)", f)
            name = m.group(1) if m else f
            if name.startswith("__isoc99_"):
                name = name[9:]
            if name in self.m.funcs:
                return []
            out = [("w", i.a["args"][k], False) for k in WRITES.get(name, []) if k < len(i.a["args"])]
            if name in ("sscanf", "fscanf", "scanf"):
                out += [("w", v, False) for v in i.a["args"][2 if name != "scanf" else 1:]]
            if name in ("memcpy", "memmove"):
                out.append(("r", i.a["args"][1], False))
            return out
        return []

    def concurrent(self, a, b):
        ca = self.ctx.get(a.i.fn.name, set()) if a.i.fn.name != "main" else {"main"}
        cb = self.ctx.get(b.i.fn.name, set()) if b.i.fn.name != "main" else {"main"}
        return any(x != y or x in self.multi for x in ca for y in cb)

    def overlap(self, a, b):
        return a.obj == b.obj and (a.field == b.field or "*" in (a.field, b.field) or a.field is None or b.field is None)

    def rule_sharing(self):
        """Conflicting accesses of different threads: atomic, or under a common lock, or on the thread's own element."""
        n = 0
        allacc = self.acc + self.mainacc
        by = {}
        for a in allacc:
            by.setdefault(a.obj, []).append(a)
        pairs = 0
        for obj, accs in by.items():
            writes = [a for a in accs if a.kind == "w"]
            for w in writes:
                for a in accs:
                    if w.own and a.own:
                        continue
                    if not self.overlap(w, a) or not self.concurrent(w, a):
                        continue
                    if a is w and w.i.fn.name == "main":
                        continue
                    pairs += 1
                    if w.atomic and a.atomic:
                        continue
                    if w.locks & a.locks:
                        continue
                    if w.locks and a.kind == "r" and w.field is not None and a.i.fn.name != "main" and not self.same_pass(w, a):
                        continue        # another member of a tagged union, or another object of the same type
                    what = self.m.globals.get(obj.split(":", 1)[1], {})
                    n += 1
                    self.bad("unsynchronised-sharing", w.i, "%s, shared by threads, is written without synchronisation here and %s at %s" % (
                        ("memory reached through %s" if obj.startswith("via:") else "%s") % obj.split(":", 1)[1] + (" (member %s)" % w.field if w.field else ""),
                        "written" if a.kind == "w" else "read", self.where(a.i)))
                    break
        self.count["pairs of conflicting accesses"] = pairs

    def same_pass(self, w, a):
        """Does one pass over the function make both accesses, to the same address?"""
        if w.i.fn is not a.i.fn:
            return False
        fn = w.i.fn
        pw, pa = w.i.a.get("ptr"), a.i.a.get("ptr")
        if pw is None or pa is None or self.root(fn, pw) != self.root(fn, pa):
            return False
        for x, y in ((w.i, a.i), (a.i, w.i)):
            heads = {b for b in fn.order if b != x.bb and self.dominates(fn, b, x.bb)}
            if y in self.after(x, stop=lambda j: j.bb in heads):
                return True
        return False

    def dominates(self, fn, d, b):
        if d == "entry":
            return True
        seen, todo = {"entry"}, ["entry"]
        while todo:
            x = todo.pop()
            if x == b:
                return False
            for s in fn.succ(x):
                if s != d and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return True

    def rule_updates(self):
        """An atomic object is not updated by separate load and store."""
        n = 0
        for f in sorted(self.conc):
            fn = self.m.funcs[f]
            for i in fn.instrs():
                if i.op == "atomicrmw":
                    n += 1
                if i.op != "store" or not i.a["atomic"]:
                    continue
                n += 1
                key = self.field(fn, i.a["ptr"]) or i.a["ptr"]
                seen, todo = set(), [i.a["val"]]
                while todo:
                    v = todo.pop()
                    if v in seen or not v.startswith("%"):
                        continue
                    seen.add(v)
                    d = fn.defs.get(v)
                    if d is None:
                        continue
                    if d.op == "load" and d.a["atomic"]:
                        k2 = self.field(fn, d.a["ptr"]) or d.a["ptr"]
                        if k2 == key and self.root(fn, d.a["ptr"]) == self.root(fn, i.a["ptr"]) and key not in self.claimfield \
                                and not (self.held.get(id(d), frozenset()) & self.held.get(id(i), frozenset())):
                            tg = self.val(fn, i.a["ptr"])
                            if any(t[0] in ("g", "via") for t in tg):
                                self.bad("lost-update", i, "shared atomic object updated by separate load (line %d) and store: updates of other threads in between are lost" % d.line)
                    elif d.op in ("add", "sub", "or", "and", "xor", "mul", "sext", "zext", "trunc", "select", "urem", "srem", "sdiv", "udiv"):
                        todo += d.a["ops"]
        self.count["atomic updates"] = n

    # ---- slots
    def free_values(self):
        """The value of the claim member that marks a free slot."""
        out = {}
        for i in self.claims:
            fld = self.field(i.fn, i.a["ptr"])
            if i.op == "cmpxchg":
                v = self.const(i.fn, i.a["cmp"])
                if v is not None:
                    out.setdefault(fld, set()).add(v)
            else:
                for j in i.fn.instrs():
                    if j.op == "icmp" and i.res in [self.strip(i.fn, x) for x in j.a["ops"]]:
                        o = [x for x in j.a["ops"] if self.strip(i.fn, x) != i.res]
                        if o and not o[0].startswith("%"):
                            out.setdefault(fld, set()).add(o[0])
        return out

    def const(self, fn, v, depth=0):
        if not v.startswith("%"):
            return v
        d = fn.defs.get(v)
        if d is None or depth > 6:
            return None
        if d.op == "load":
            b = self.base(fn, d.a["ptr"])
            if b and b.op == "alloca":
                vals = {self.const(fn, j.a["val"], depth + 1) for j in fn.instrs() if j.op == "store" and j.a["ptr"] == b.res}
                vals = {x for x in vals if x is not None}
                return vals.pop() if len(vals) == 1 else None
        if d.op == "phi":
            vals = {self.const(fn, x, depth + 1) for x in d.a["ops"]} - {None}
            return vals.pop() if len(vals) == 1 else None
        return None

    def success_edges(self, i):
        """Edges taken only when the claim i succeeded: [(src, dst)]."""
        fn, out = i.fn, []
        fld = self.field(fn, i.a["ptr"])
        vals = {}
        if i.op == "cmpxchg":
            for j in fn.instrs():
                if j.op == "extractvalue" and j.a["ops"][0] == i.res and j.text.rstrip().endswith(", 1"):
                    vals[j.res] = True
        else:
            for j in fn.instrs():
                if j.op == "icmp" and i.res in [self.strip(fn, x) for x in j.a["ops"]]:
                    vals[j.res] = j.a["pred"] == "eq"
        for _ in range(4):
            for j in fn.instrs():
                if j.op == "xor" and j.a["ops"][0] in vals and j.a["ops"][1] in ("true", "1"):
                    vals[j.res] = not vals[j.a["ops"][0]]
                if j.op in ("zext", "trunc", "sext") and j.a["ops"][0] in vals:
                    vals[j.res] = vals[j.a["ops"][0]]
                if j.op == "icmp" and j.a["ops"][0] in vals and j.a["ops"][1] in ("0", "false") and j.res not in vals:
                    vals[j.res] = vals[j.a["ops"][0]] if j.a["pred"] == "ne" else not vals[j.a["ops"][0]]
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == "br" and t.a.get("cond") in vals and len(t.a["succ"]) == 2:
                out.append((b, t.a["succ"][0 if vals[t.a["cond"]] else 1]))
        return out

    def is_scan(self, fn, p):
        """Is the slot chosen by a loop counter of this function (so it may belong to any thread)?"""
        def counter(v):
            v = self.strip(fn, v)
            d = fn.defs.get(v)
            if d is None or d.op != "phi" or not self.cycle_of(fn, d.bb):
                return False
            hasconst = False
            for x in d.a["ops"]:
                x = self.strip(fn, x)
                if not x.startswith("%"):
                    hasconst = True
                    continue
                e = fn.defs.get(x)
                if e is None or not (e.op in ("add", "sub", "phi") or e.op == "getelementptr"):
                    return False
            return hasconst
        while p.startswith("%"):
            d = fn.defs.get(p)
            if d is None:
                return False
            if d.op == "getelementptr":
                if d.a["ptr"].startswith("@") and d.a["ptr"][1:] in self.tables:
                    return any(counter(x) for x in d.a["index"])
                p = d.a["ptr"]
            elif d.op == "phi":
                return counter(p) and any(g in self.tables for x in d.a["ops"] for g in self.globals_in(x))
            else:
                return False
        return False

    def rule_slots(self):
        m, free = self.m, self.free_values()
        releases, guards, owners = [], {}, {}
        for i in self.claims:
            if not any(i.res in [self.strip(i.fn, x) for x in j.a.get("ops", []) + j.a.get("args", [])] for j in i.fn.instrs()):
                self.bad("claim-ignored", i, "slot of %s taken without looking at who held it: two threads may take the same slot" % self.claimfield[self.field(i.fn, i.a["ptr"])])
                free.setdefault(self.field(i.fn, i.a["ptr"]), {"0"})
        if any(f not in free for f in self.claimfield):
            raise fc.Broken("cannot tell which value marks a free slot: %s" % sorted(set(self.claimfield) - set(free)))
        for i in self.claims:
            if i.a["order"] == "monotonic":
                self.bad("weak-claim", i, "slot of %s claimed without ordering (relaxed)" % self.claimfield[self.field(i.fn, i.a["ptr"])])
        for f in sorted(self.conc):
            fn = m.funcs[f]
            claims = [i for i in self.claims if i.fn is fn]
            claimer = bool(claims) or any(c.a["callee"][1:] in self.claimers for c in self.calls(fn))
            edges = {id(i): self.success_edges(i) for i in claims}
            for i in fn.instrs():
                fld = self.field(fn, i.a["ptr"]) if "ptr" in i.a and i.op != "getelementptr" else None
                if fld in self.claimfield:
                    t = self.claimfield[fld]
                    if i.op in ("load", "store") and not i.a["atomic"]:
                        self.bad("plain-claim", i, "member %s that marks the slots of %s free is accessed without atomics" % (fld, t))
                    elif i.op == "store":
                        v = self.const(fn, i.a["val"])
                        if v in free[fld]:
                            if i not in releases:
                                releases.append(i)
                            if i.a["order"] == "monotonic":
                                self.bad("weak-release", i, "slot of %s released without ordering (relaxed)" % t)
                        else:
                            # a claimed slot may change the mark only when it is already its owner
                            if not any(self.only_through(fn, i.bb, s, d) for c in claims for s, d in edges[id(c)]):
                                if self.is_scan(fn, i.a["ptr"]) or v is not None:
                                    self.bad("claim-by-store", i, "slot of %s is taken by a plain store after a separate test: two threads may take the same slot" % t)
                # accesses to slots chosen by a scan
                for kind, ptr, atomic in self.touches(fn, i):
                    if not self.is_scan(fn, ptr):
                        continue
                    if claimer and (not claims or not self.cycle_of(fn, i.bb)):
                        continue        # after the loop that looks for a free slot
                    if any(self.only_through(fn, i.bb, s, d) for c in claims for s, d in edges[id(c)]):
                        continue
                    if atomic:
                        if i.op == "load":
                            for j in fn.instrs():
                                if j.op == "icmp" and i.res in [self.strip(fn, x) for x in j.a["ops"]]:
                                    o = [x for x in j.a["ops"] if self.strip(fn, x) != i.res]
                                    if o and re.match(r"-?\d+$", o[0]) and fld not in self.claimfield:
                                        guards.setdefault(fld, []).append((i, o[0]))
                                    elif o and o[0].startswith("%"):
                                        owners.setdefault(fld, []).append(i)
                        continue
                    if not self.owner_checked(fn, i, ptr):
                        self.bad("foreign-slot", i, "a slot that may belong to another thread, or be in the middle of being set up, is %s without synchronisation" % ("written" if kind == "w" else "read"))
        self.count["releases"] = len(releases)
        # nothing touches a slot after its release
        relfn = {}
        for r in releases:
            fn = r.fn
            root = self.root(fn, r.a["ptr"])
            for j in self.after(r, stop=lambda j: j.res is not None and (j.res in root)):
                for kind, ptr, atomic in self.touches(fn, j):
                    if self.root(fn, ptr) == root and not (j.op == "load" and self.field(fn, ptr) in self.claimfield):
                        self.bad("use-after-release", j, "slot of %s used after its release at line %d: another thread may own it already" % (self.claimfield[self.field(fn, r.a["ptr"])], r.line))
            for k, p in enumerate(fn.params):
                if p in root:
                    relfn.setdefault(fn.name, set()).add((k, root[0] != p))
        # the same for the callers of the functions that release (through a pointer or an index)
        n = 0
        for f in sorted(self.conc):
            fn = m.funcs[f]
            for c in self.calls(fn):
                for k, byindex in relfn.get(c.a["callee"][1:], ()):
                    v = self.strip(fn, c.a["args"][k])
                    if not v.startswith("%"):
                        continue
                    n += 1
                    alias = {v}
                    if byindex:
                        alias |= {j.res for j in self.calls(fn) if j.res and j.a["args"] and [self.strip(fn, x) for x in j.a["args"]] == [v]
                                  and j.a["callee"][1:] in m.funcs and any(t[0] == "slot" for t in self.rets.get(j.a["callee"][1:], ()))}
                    for j in self.after(c, stop=lambda j: j.res == v):
                        for kind, ptr, atomic in self.touches(fn, j):
                            r = self.root(fn, ptr)
                            if (r[0] in alias if not byindex else (r[0] in alias - {v} or (len(r) > 1 and r[1] == v))) and (fn.defs.get(r[0]) is None or fn.defs[r[0]].bb != "x"):
                                if self.redefined(fn, c, j, r[0]):
                                    continue
                                self.bad("use-after-release", j, "slot used after its release by %s at line %d: another thread may own it already" % (c.a["callee"][1:], c.line))
        self.count["calls that release"] = n
        # members that lookups test must be reset before the release, and set last when a slot is set up
        for fld, sites in guards.items():
            struct = fld.rsplit(".", 1)[0]
            for r in releases:
                rf = self.field(r.fn, r.a["ptr"])
                if rf.rsplit(".", 1)[0] != struct:
                    continue
                vals = {v for _, v in sites}
                if (r.fn.name in self.claimers or any(c.a["callee"][1:] in self.claimers for c in self.calls(r.fn))) and not any(
                        r in self.after(j) for j in r.fn.instrs() if j.op == "store" and self.field(r.fn, j.a["ptr"]) == fld and self.const(r.fn, j.a["val"]) not in vals):
                    continue        # given back before it was visible
                if not self.resets(r.fn.name, fld, vals):
                    self.bad("stale-guard", r, "slot released while member %s, which lookups of other threads test, still names the old owner" % fld)
        for c in self.claims:
            struct = self.field(c.fn, c.a["ptr"]).rsplit(".", 1)[0]
            gs = [x for x in guards if x.rsplit(".", 1)[0] == struct]
            os_ = [x for x in owners if x.rsplit(".", 1)[0] == struct]
            for i in c.fn.instrs():
                if i.op == "store" and self.field(c.fn, i.a["ptr"]) in gs and i.a["val"].startswith("%"):
                    for j in self.after(i, stop=lambda j: j is c):
                        if j.op == "store" and self.field(c.fn, j.a["ptr"]) in os_:
                            self.bad("early-publication", i, "slot becomes visible to lookups before its owner is recorded (line %d)" % j.line)
        self.count["lookup guards"] = len(guards)

    def redefined(self, fn, c, j, v):
        """Is v always recomputed between c and j?"""
        d = fn.defs.get(v)
        if d is None:
            return False
        return j not in self.after(c, stop=lambda x: x is d)

    def facts(self, fn, block):
        """Conditions that hold whenever the block runs: [(value, truth)]."""
        out = []
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == "br" and t.a.get("cond") and len(t.a["succ"]) == 2 and t.a["succ"][0] != t.a["succ"][1]:
                for k in (0, 1):
                    if self.only_through(fn, block, b, t.a["succ"][k]):
                        out += self.implied(fn, t.a["cond"], k == 0)
        return out

    def implied(self, fn, v, truth, depth=0):
        out = [(v, truth)]
        d = fn.defs.get(v)
        if d is None or depth > 8:
            return out
        if d.op in ("zext", "sext", "trunc"):
            out += self.implied(fn, d.a["ops"][0], truth, depth + 1)
        elif d.op == "xor" and d.a["ops"][1] in ("true", "1"):
            out += self.implied(fn, d.a["ops"][0], not truth, depth + 1)
        elif d.op == "icmp" and d.a["ops"][1] in ("0", "false") and d.a["pred"] in ("eq", "ne"):
            out += self.implied(fn, d.a["ops"][0], truth == (d.a["pred"] == "ne"), depth + 1)
        elif d.op == "and" and truth or d.op == "or" and not truth:
            for x in d.a["ops"]:
                out += self.implied(fn, x, truth, depth + 1)
        elif d.op == "phi":
            same = [(x, b) for x, b in zip(d.a["ops"], d.a["in"]) if x not in (("false", "0") if truth else ("true", "1"))]
            if len(same) == 1:
                x, b = same[0]
                out += self.implied(fn, x, truth, depth + 1)
                if depth < 3:
                    out += self.facts(fn, b)
        return out

    def owner_checked(self, fn, i, ptr):
        """Is the access only reached when an atomic member of the same slot equals a value of this thread?"""
        root = self.root(fn, ptr)
        for v, truth in self.facts(fn, i.bb):
            d = fn.defs.get(v)
            if d is None:
                continue
            if d.op == "call":
                g = d.a["callee"][1:]
                if g in self.m.funcs and any(self.strip(fn, x) in root or self.root(fn, x) == root for x in d.a["args"]):
                    return True         # a helper decides about this slot
                if g != "pthread_equal" or not truth:
                    continue
                pair = d.a["args"]
            elif d.op == "icmp" and d.a["pred"] in ("eq", "ne") and truth == (d.a["pred"] == "eq"):
                pair = d.a["ops"]
            else:
                continue
            for x, y in (pair, pair[::-1]):
                l = fn.defs.get(self.strip(fn, x))
                if l is None or l.op != "load" or not l.a["atomic"] or not y.startswith("%"):
                    continue
                if self.root(fn, l.a["ptr"]) == root and (OWN in self.val(fn, y) or self.strip(fn, y) in fn.params):
                    return True
        return False

    def resets(self, f, fld, vals, seen=None):
        seen = seen or set()
        if f in seen or f not in self.m.funcs:
            return False
        seen.add(f)
        fn = self.m.funcs[f]
        for i in fn.instrs():
            if i.op in ("store", "atomicrmw") and self.field(fn, i.a["ptr"]) == fld and self.const(fn, i.a["val"]) in vals:
                return True
            if i.op == "call" and self.resets(i.a["callee"][1:], fld, vals, seen):
                return True
        return False

    def rule_locks(self):
        """A lock taken is released on every path, and not taken twice."""
        n = 0
        for f in sorted(self.conc):
            fn = self.m.funcs[f]
            for i in self.calls(fn):
                g = i.a["callee"][1:]
                if self.LOCKS.get(g) == 1 and "rdlock" not in g:
                    n += 1
                    lock = self.lock_name(fn, i.a["args"][0])
                    if lock in self.held.get(id(i), frozenset()):
                        self.bad("double-lock", i, "lock %s taken while already held" % lock)
            paths = self.exit_locks(fn) or {(frozenset(), frozenset())}
            must, may = frozenset.intersection(*[g for g, _ in paths]), frozenset.union(*[g for g, _ in paths])
            if may - must:
                last = [i for i in self.calls(fn) if self.LOCKS.get(i.a["callee"][1:]) == 1] or [next(fn.instrs())]
                self.bad("lock-not-released", last[0], "lock %s stays held on some path out of %s" % (", ".join(sorted(may - must)), f))
            if f in self.entries and may:
                self.bad("lock-not-released", next(fn.instrs()), "thread %s ends holding %s" % (f, ", ".join(sorted(may))))
        self.count["lock acquisitions"] = n

    def rule_calls(self):
        n = 0
        for f in sorted(self.conc):
            fn = self.m.funcs[f]
            for i in self.calls(fn):
                g = i.a["callee"][1:]
                if g not in self.m.funcs:
                    n += 1
                    if g in UNSAFE and not self.held.get(id(i)):
                        self.bad("unsafe-library-call", i, "%s(), which keeps unsynchronised state, is called by threads" % g)
        self.count["library calls"] = n

    def rule_arguments(self):
        """What a new thread gets a pointer to is not overwritten for the next one while the thread may read it."""
        n = 0
        for s in self.creates:
            fn = s.fn
            b = self.base(fn, s.a["args"][3])
            n += 1
            if b is None or b.op != "alloca":
                continue
            cyc = self.cycle_of(fn, s.bb)
            if not cyc:
                continue
            if any(i.op == "call" and i.a["callee"] == "@pthread_join" for x in cyc for i in fn.blocks[x]):
                continue
            for x in sorted(cyc):
                for i in fn.blocks[x]:
                    for kind, ptr, atomic in self.touches(fn, i):
                        d = self.base(fn, ptr)
                        if kind == "w" and d is b:
                            self.bad("reused-argument", i, "memory passed to the thread created at line %d is overwritten while the thread may read it" % s.line)
        self.count["thread creations"] = n

    def has_ptr(self, t, seen=()):
        t = t.strip()
        if t in seen:
            return False
        if t.startswith("%"):
            return self.has_ptr(self.m.types.get(t, ""), seen + (t,))
        return bool(re.search(r"\bptr\b", t)) or any(self.has_ptr(x, seen + (t,)) for x in re.findall(r"%[\w.\-]+", t))

    def rule_messages(self):
        """What threads send each other through pipes carries no pointers into memory that the sender keeps changing."""
        writers = {"write": 1}
        for _ in range(3):
            for f, fn in self.m.funcs.items():
                for i in self.calls(fn):
                    k = writers.get(i.a["callee"][1:])
                    if k is None or k >= len(i.a["args"]):
                        continue
                    r = self.root(fn, i.a["args"][k])[0]
                    d = fn.defs.get(r)
                    if d is not None and d.op == "phi":
                        rs = [self.root(fn, x)[0] for x in d.a["ops"]]
                    else:
                        rs = [r]
                    for x in rs:
                        if x in fn.params and f not in writers:
                            writers[f] = fn.params.index(x)
        n = 0
        for f in sorted(self.conc):
            fn = self.m.funcs[f]
            for i in self.calls(fn):
                k = writers.get(i.a["callee"][1:])
                if k is None or k >= len(i.a["args"]):
                    continue
                d = self.base(fn, i.a["args"][k])
                if d is not None and d.op == "alloca":
                    n += 1
                    if self.has_ptr(d.a["type"]):
                        self.bad("pointer-sent", i, "%s sent to another thread contains a pointer to memory of the sender" % d.a["type"].lstrip("%"))
        self.count["messages between threads"] = n

    # ---- order imposed by messages
    SEND = {"send", "sendto", "sendmsg", "write", "writev"}
    RECEIVE = {"recv", "recvfrom", "recvmsg", "read", "readv"}

    def leading_to(self, names):
        """Functions of the program that may call one of the library functions."""
        out = set()
        for _ in range(len(self.m.funcs)):
            new = {f for f, fn in self.m.funcs.items() if f not in out and any(i.a["callee"][1:] in names | out for i in self.calls(fn))}
            if not new:
                return out
            out |= new
        return out

    def objects(self, fn, v, depth=0):
        """Global arrays an address is computed from, and through how many pointers."""
        out, seen, todo = set(), set(), [(v, 0)]
        while todo:
            x, n = todo.pop()
            if x in seen or n > 3:
                continue
            seen.add(x)
            if not x.startswith("%"):
                out |= {(g, n) for g in self.globals_in(x) if g in self.m.globals and not self.m.globals[g]["const"] and not self.m.globals[g]["tls"]}
                continue
            d = fn.defs.get(x)
            if d is None:
                if x in fn.params and depth < 4:
                    k = fn.params.index(x)
                    for g in self.m.funcs.values():
                        for c in self.calls(g):
                            if c.a["callee"][1:] == fn.name and k < len(c.a["args"]):
                                out |= {(o, n + m) for o, m in self.objects(g, c.a["args"][k], depth + 1)}
            elif d.op in ("getelementptr", "load"):
                todo.append((d.a["ptr"], n + (d.op == "load")))
            elif d.op in ("phi", "select", "bitcast"):
                todo += [(y, n) for y in d.a["ops"]]
            elif d.op == "call" and d.a["callee"][1:] in self.m.funcs and depth < 4:
                g = self.m.funcs[d.a["callee"][1:]]
                for r in g.instrs():
                    if r.op == "ret":
                        for y in r.a["ops"]:
                            out |= {(o, n + m) for o, m in self.objects(g, y, depth + 1)}
        return out

    def cells(self, e):
        """{(object, kind): {function: instructions}} of the accesses to plain cells of global arrays by thread e, calls included."""
        out = {}
        for f in sorted(self.reach[e]):
            fn = self.m.funcs[f]
            for i in fn.instrs():
                for kind, ptr, atomic in self.touches(fn, i):
                    if atomic or not ptr.startswith("%"):
                        continue
                    b = self.base(fn, ptr)
                    if b is not None and b.op == "alloca":
                        continue
                    for g, n in self.objects(fn, ptr):
                        t = self.m.globals[g]["type"]
                        if t.startswith("[") and g not in self.tables and "i8]" not in t:
                            out.setdefault(((g, n, self.field(fn, ptr)), kind), {}).setdefault(f, set()).add(i)
        for sites in out.values():
            for _ in range(len(self.reach[e])):
                n = sum(map(len, sites.values()))
                for f in self.reach[e]:
                    for c in self.calls(self.m.funcs[f]):
                        if sites.get(c.a["callee"][1:]):
                            sites.setdefault(f, set()).add(c)
                if n == sum(map(len, sites.values())):
                    break
        return out

    def headers(self, fn, x, y):
        """First blocks of the loops that contain both instructions."""
        out = set()
        for b in fn.order:
            for p in self.preds(fn)[b]:
                if self.dominates(fn, b, p) or b == p:
                    body, todo = {b, p}, [p]
                    while todo:
                        z = todo.pop()
                        if z != b:
                            for q in self.preds(fn)[z]:
                                if q not in body:
                                    body.add(q)
                                    todo.append(q)
                    if x.bb in body and y.bb in body:
                        out.add(b)
        return out

    def rule_replies(self):
        """A thread that sends does not touch afterwards what the thread that gets the answer may be using already."""
        snd, rcv = self.leading_to(self.SEND), self.leading_to(self.RECEIVE)
        pairs = 0
        for s, sites in sorted(self.entries.items()):
            for r in sorted(self.entries):
                if r == s or not any(c.fn.name in self.reach[r] for c in sites) or s not in snd or r not in rcv:
                    continue        # r creates s: the two share a connection
                cs, cr = self.cells(s), self.cells(r)
                for (g, ks), where in sorted(cs.items()):
                    others = [(kr, w) for (h, kr), w in sorted(cr.items()) if h == g and "w" in (ks, kr)]
                    late = []
                    for kr, w in others:
                        for f in sorted(w):
                            fn = self.m.funcs[f]
                            got = [c for c in self.calls(fn) if c.a["callee"][1:] in self.RECEIVE | rcv]
                            cyc = set().union(*[self.cycle_of(fn, c.bb) for c in sites if c.fn is fn])
                            for b in sorted(w[f], key=lambda i: i.line):
                                if cyc and b.bb not in cyc:
                                    continue        # when all is over
                                if any(b in self.after(c, stop=lambda j: j.op == "call" and j.a["callee"] == "@pthread_join") for c in got if c is not b):
                                    late.append((kr, b))
                    if not late:
                        continue
                    for f in sorted(where):
                        fn = self.m.funcs[f]
                        out = [c for c in self.calls(fn) if c.a["callee"][1:] in self.SEND | snd]
                        for a in sorted(where[f], key=lambda i: i.line):
                            pairs += len(late)
                            for c in out:
                                if c is a:
                                    continue
                                heads = self.headers(fn, c, a)
                                if a in self.after(c, stop=lambda j: j.bb in heads and j.bb != c.bb and j.idx == 0):
                                    self.bad("touched-after-send", a, "%s is %s after the message was sent (line %d), when the answer may have come and %s at %s" % (
                                        g[0], "written" if ks == "w" else "read", c.line, "been recorded there" if late[0][0] == "w" else "been used", self.where(late[0][1])))
        self.count["accesses ordered by messages"] = pairs


def main():
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    ev = {"property": "C27", "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {"explanation": "Provenance and lockset analysis of every function that threads can run, over the LLVM IR of the two whole "
                                      "programs: each pair of conflicting accesses to shared memory must be atomic, under a common lock, or on "
                                      "an element of the thread itself; slots of shared tables are claimed atomically, published last, and "
                                      "not used after their release."},
          "assumptions": ["memory reached from a thread's own argument, its own array element, its stack or a slot it holds is its own",
                          "paths the compiler sees are feasible; indirect calls are absent (checked)"]}
    rc = 0
    try:
        progs = [Program(p) for p in ("dw_node", "dw_client")]
        for p in progs:
            ev["coverage"][p.name] = p.count
            ev["coverage"][p.name + " threads"] = {e: "several" if e in p.multi else "one" for e in p.entries}
            print("C27: %s: %s" % (p.name, ", ".join("%d %s" % (v, k) for k, v in sorted(p.count.items()))))
            for f in p.conc:
                for i in p.calls(p.m.funcs[f]):
                    if i.a["callee"].startswith("%"):
                        raise fc.Broken("indirect call at %s" % p.where(i))
        found = [(p, r, i, msg) for p in progs for r, i, msg in p.found]
        if not found:
            for p in progs:
                for k, v in MINIMUM[p.name].items():
                    if p.count.get(k, 0) < v:
                        raise fc.Broken("%s: only %d %s, at least %d expected" % (p.name, p.count.get(k, 0), k, v))
        d = os.path.join(ROOT, "evidence", "replay")
        for p, r, i, msg in found:
            print("C27: %s: %s: %s: %s" % (p.name, p.where(i), r, msg))
        if found:
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "C27.txt")
            with open(rp, "w") as f:
                f.write("Analysed: the LLVM IR of /repo/src for dw_node and dw_client (engine/threads.py).\n")
                for p, r, i, msg in found:
                    f.write("%s: %s: rule %s: %s\n" % (p.name, p.where(i), r, msg))
            print("VIOLATION property=C27 replay=%s" % rp)
            rc = 1
        ev["violations"] = len(found)
    except fc.Broken as e:
        print("analysis broken: %s" % e)
        rc = 2
        ev["violations"] = 0
        ev["coverage"]["broken"] = str(e)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C27.json"), "w"), indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
