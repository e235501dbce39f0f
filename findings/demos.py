# One demonstration per fix: exits 1 where the defect shows, 0 where it does not.
import sys, threading, re
from dwt import *
DEMOS = {}
def demo(commit, flags=""):
    def deco(f):
        DEMOS[commit] = (f, flags)
        return f
    return deco
ASAN = "-O1 -fsanitize=address -fno-omit-frame-pointer"
UBSAN = "-O1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment -fno-sanitize-recover=float-cast-overflow,shift"
TSAN = "-O1 -fno-inline -fsanitize=thread"

def slow_conn(n, bufsize=4096, timeout=5):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, bufsize)
    s.settimeout(timeout)
    s.connect(("127.0.0.1", n.port))
    return s
def preload(code):
    src = os.path.join(SCRATCH, "pre.c"); lib = os.path.join(SCRATCH, "pre.so")
    open(src, "w").write("#define _GNU_SOURCE\n#include <unistd.h>\n#include <stdlib.h>\n#include <errno.h>\n#include <dlfcn.h>\n#include <fcntl.h>\n#include <sys/socket.h>\n" + code)
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-o", lib, src, "-ldl"])
    return lib
def unit(units, code, flags=()):
    src = os.path.join(SCRATCH, "t.c"); exe = os.path.join(SCRATCH, "t")
    open(src, "w").write("#define _GNU_SOURCE\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n" + code)
    subprocess.check_call(["gcc", "-w", "-g", "-fsanitize=address", *flags, "-I", SRC, "-o", exe, src] + ["%s/%s.c" % (SRC, u) for u in units] + ["-lpthread", "-lm"])
    return subprocess.run([exe], capture_output=True, text=True, cwd=SCRATCH, timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
def stats(n):
    before = n.text().count("total-active-conns")
    n.p.send_signal(signal.SIGUSR1)
    for _ in range(100):
        t = n.text()
        if t.count("total-active-conns") > before: break
        time.sleep(0.02)
    m = re.findall(r"total-active-conns: (-?\d+), total-active-reqs: (-?\d+)", n.text())
    return tuple(map(int, m[-1])) if m else None
STDBUF = ("stdbuf", "-oL")
def client(*opts, timeout=20, env=None):
    r = subprocess.Popen([BIN + "/dw_client", *opts], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})), cwd=SCRATCH)
    PROCS.append(r)
    try: out, _ = r.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.kill(); out, _ = r.communicate(); return None, out
    return r.returncode, out
class Server:
    """a node played by the script: handler(conn, index) in a thread per connection"""
    def __init__(self, handler):
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0)); self.l.listen(64)
        self.port = self.l.getsockname()[1]; self.to = "--to=tcp://127.0.0.1:%d" % self.port
        self.reqs = []
        def loop():
            k = 0
            while True:
                s, _ = self.l.accept(); s.settimeout(20)
                threading.Thread(target=handler, args=(self, s, k), daemon=True).start(); k += 1
        threading.Thread(target=loop, daemon=True).start()
ans = lambda rid, size=32, st=0: (struct.pack("<IIb3x", rid, size, st) + EOM).ljust(size, b"\0")
def answer_all(self, s, k):
    while True:
        r = get(s)
        if r is None: return
        self.reqs.append(r)
        try: s.sendall(ans(r[0]))
        except OSError: return

# ---- streams -------------------------------------------------------------------------------------
@demo("150e182")
def _():
    n = Node(); s = slow_conn(n)
    for i in range(3): s.sendall(msg(i, compute(1), reply(5000000)))
    time.sleep(0.5)
    for i in range(3):
        r = get(s)
        expect(r is not None and (r[0], r[1], r[2]) == (i, 5000000, 0), "reply %d to a peer that reads late: %s" % (i, r and r[:3]))
@demo("20c4039")
def _():
    n = Node(); s = slow_conn(n)
    s.sendall(msg(1, compute(1), reply(12000000)) + msg(2, compute(1), reply(1000)))
    time.sleep(0.5)
    for i, sz in ((1, 12000000), (2, 1000)):
        r = get(s)
        expect(r is not None and r[:2] == (i, sz), "reply %d: the slow peer was disconnected" % i)
@demo("b59102a")
def _():
    n = Node(); first = n.conn(); s = slow_conn(n, timeout=4)
    s.sendall(msg(1, compute(1), reply(12000000)))
    time.sleep(0.5)
    first.settimeout(2); first.sendall(msg(2, compute(1), reply(32)))
    expect(get(first), "the first connection is not served while output is pending on the second one")
    r = get(s)
    expect(r is not None and r[1] == 12000000, "a large reply on the second connection is never completed")
@demo("13fbb60")
def _():
    n = Node(); s = slow_conn(n, timeout=4)
    s.sendall(msg(1, store(100), reply(12000000)))
    time.sleep(0.5)
    r = get(s)
    expect(r is not None and r[1] == 12000000, "a large reply after a store is never completed")
# ---- disconnections and storage ------------------------------------------------------------------
@demo("7134409")
def _():
    n = Node(wrap=STDBUF); h = Hop()
    s = n.conn(); s.sendall(msg(1, fwd(h.port, timeout=0), compute(1), reply(32), reply(32)))
    h.get(); s.close(); time.sleep(0.3)
    st = stats(n)
    expect(st is not None and st[1] == 0, "requests active after their connection was closed: %s" % (st,))
SLOW_WRITE = '''
ssize_t write(int fd, const void *b, size_t n) { static ssize_t (*o)(int, const void*, size_t); if (!o) o = dlsym(RTLD_NEXT, "write");
  char p[64], q[256]; int k; snprintf(p, sizeof(p), "/proc/self/fd/%d", fd); k = readlink(p, q, 255); q[k > 0 ? k : 0] = 0;
  if (strstr(q, "/store-")) { usleep(400000); int f = open("writes", O_CREAT|O_WRONLY|O_APPEND, 0600); dprintf(f, "%d\\n", (int)n); close(f); }
  return o(fd, b, n); }
'''
SLOW_WRITE = "#include <stdio.h>\n#include <string.h>\n" + SLOW_WRITE
@demo("4833c70")
def _():
    n = Node(env={"LD_PRELOAD": preload(SLOW_WRITE)}); s = n.conn(8)
    # completing the first store moves the next two requests; a fourth one then overwrites where the third one was
    s.sendall(b"".join(msg(i, store(z), reply(32), size=200) for i, z in ((1, 100), (2, 50), (3, 60))))
    time.sleep(0.6); s.sendall(msg(4, store(70), reply(32), size=200))
    got = [get(s) for _ in range(4)]; w = open(os.path.join(SCRATCH, "writes")).read().split()
    expect(all(got) and w == ["100", "50", "60", "70"], "pipelined stores of 100, 50, 60 and 70 bytes: bytes written %s" % w)
@demo("779c8af")
def _():
    n = Node(env={"LD_PRELOAD": preload(SLOW_WRITE)})
    s = n.conn(); s.sendall(msg(1, store(100), reply(32))); time.sleep(0.1); s.close()
    time.sleep(1)
    expect(n.alive(), "the node crashed at the completion of a store whose client had disconnected")
@demo("ba789ae")
def _():
    n = Node(env={"LD_PRELOAD": preload(SLOW_WRITE)}); s = n.conn(4)
    s.sendall(b"".join(msg(i, store(10 * i), reply(32), size=100 + 40 * i) for i in (1, 2, 3)))
    got = [get(s) for _ in range(3)]
    expect(all(got) and [g[0] for g in got] == [1, 2, 3], "pipelined requests waiting for storage: answers %s" % [g and g[0] for g in got])
# ---- forwards ------------------------------------------------------------------------------------
@demo("7b7687b")
def _():
    n = Node(); h = Hop(); a = n.conn(3); b = n.conn(3)
    a.sendall(msg(1, fwd(h.port), compute(1), reply(32), reply(32))); x = h.get()
    b.sendall(msg(2, fwd(h.port), compute(1), reply(32), reply(32))); y = h.get()
    expect(x and y, "both forwarded")
    h.answer(x[0]); r1 = get(a); time.sleep(0.2)
    try: h.answer(y[0])
    except OSError: pass
    r2 = get(b)
    expect(r1 and r2, "two requests forwarded to the same node: the second one gets no answer")
@demo("ec305d2")
def _():
    n = Node(); h = Hop(); s = n.conn(3)
    s.sendall(msg(77, fwd(h.port, timeout=200000), compute(1), reply(32), reply(32)))
    r = get(s)
    expect(r is not None and r[2] == -1, "a forward that times out is not reported")
@demo("c9ba793")
def _():
    n = Node(); h = Hop(); a = n.conn(3); b = n.conn(3)
    for i, s in enumerate((a, b)): s.sendall(msg(i, fwd(h.port, timeout=300000), compute(1), reply(32), reply(32)))
    h.get(); h.get(); n.p.send_signal(signal.SIGSTOP); time.sleep(0.6); n.p.send_signal(signal.SIGCONT)
    ra, rb = get(a), get(b)
    expect(ra and rb, "two forwards expiring together: only %d reported" % (bool(ra) + bool(rb)))
@demo("d9921f7")
def _():
    u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.bind(("127.0.0.1", 0)); u.settimeout(3)
    n = Node(); s = n.conn(3)
    s.sendall(msg(5, fwd(u.getsockname()[1], proto=0), compute(1), reply(32), reply(40)))
    try: d, frm = u.recvfrom(65536)
    except socket.timeout: expect(False, "a forward over UDP is not sent over UDP")
    u.sendto(ans(struct.unpack("<I", d[:4])[0]), frm)
    r = get(s)
    expect(r and r[:2] == (5, 40), "the reply to a forward over UDP is not taken into account")
@demo("3b7f8db")
def _():
    n = Node(); h = Hop(); s = n.conn(3)
    s.sendall(msg(1, fwd(h.port, size=24), *[compute(i) for i in range(1, 9)], reply(32), reply(32)))
    m = h.get()
    expect(m is not None and m[3].startswith(b"".join(compute(i) for i in range(1, 9)) + reply(32)) , "forwarded commands truncated: %s" % (m and (m[1], len(m[3])),))
@demo("bdfc753")
def _():
    n = Node(); h = Hop(); s = n.conn(3)
    inner = fwd(h.port, multi=True) + fwd(h.port, multi=True) + compute(9) + reply(32, 2)
    s.sendall(msg(1, fwd(h.port, size=256), inner, reply(33), reply(32)))
    m = h.get()
    expect(m is not None and m[3].startswith(inner + reply(33)), "a multi-forward first within a forward is not forwarded whole")
@demo("8569ba6")
def _():
    n = Node(); h = Hop(); h2 = Hop(); s = n.conn(2)
    s.sendall(msg(1, fwd(h.port, multi=True), fwd(h.port, multi=True), compute(1), reply(32, 1), fwd(h2.port), compute(1), reply(32), reply(40)))
    x, y = h.get(), h.get()
    h.answer(x[0]); z = h2.get(); expect(z, "second forward")
    h.answer(y[0])                      # late reply to the first forward
    r = get(s)
    expect(r is None, "answered before the reply to the second forward, because of a late one to the first")
@demo("e213cc7")
def _():
    n = Node(); h = Hop(); s = n.conn(1.5)
    s.sendall(msg(1, fwd(h.port, timeout=3000000000), compute(1), reply(32), reply(32)))
    expect(h.get(), "forwarded")
    expect(get(s) is None, "a forward with a timeout of 3000 s timed out at once")
# ---- messages, datagrams -------------------------------------------------------------------------
@demo("71c3720")
def _():
    n = Node(); s = n.conn()
    s.sendall(struct.pack("<IIb3x", 1, 4, 0) + b"\0" * 100)
    time.sleep(0.5)
    expect(n.alive(), "the node aborted on a message of declared size 4")
@demo("1a9eb9e")
def _():
    n = Node(proto="udp"); u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.settimeout(2); u.connect(("127.0.0.1", n.port))
    u.send(msg(1, compute(1), reply(100000)))        # cannot be sent in one datagram
    time.sleep(0.2)
    u.send(msg(2, compute(1), reply(50)))
    try: d = u.recv(65536)
    except socket.timeout: d = b""
    expect(len(d) == 50 and d[:4] == struct.pack("<I", 2), "after a reply that cannot be sent, got %d bytes" % len(d))
@demo("8b538b8", ASAN)
def _():
    n = Node(env={"ASAN_OPTIONS": "detect_leaks=0"}); h = Hop(); s = n.conn(); m = b"".join(msg(i, reply(16)) for i in range(100))
    for k in range(655): s.sendall(m); recvn(s, 1600)
    s.sendall(b"".join(msg(i, reply(16)) for i in range(35))); recvn(s, 35 * 16)
    # the last slot is left by a request that was waiting for a reply
    s.sendall(msg(1, fwd(h.port), compute(1), reply(32), reply(32))); h.get(); s.close(); time.sleep(0.3)
    b = n.conn(); b.sendall(struct.pack("<IIb3x", 0xffffffff, 16, 0) + EOM); time.sleep(0.5)
    expect(n.alive(), "a message with id -1 resumed a request that is over: the node crashed")
# ---- accepting -----------------------------------------------------------------------------------
@demo("e06b957")
def _():
    n = Node(wrap=("bash", "-c", 'ulimit -n 30; exec "$@"', "x")); s = n.conn(); cs = []
    for _ in range(25):
        c = socket.socket(); c.setblocking(False); c.connect_ex(("127.0.0.1", n.port)); cs.append(c); time.sleep(0.02)
    time.sleep(0.5)
    s.settimeout(2)
    if n.alive(): s.sendall(msg(1, compute(1), reply(32)))
    expect(n.alive() and get(s), "the node exited when running out of descriptors")
@demo("353512d")
def _():
    n = Node("-a", "parent", "--nt", "3", wrap=STDBUF)
    time.sleep(0.2)
    cs = [n.conn() for _ in range(4)]
    for i, s in enumerate(cs): s.sendall(msg(i, compute(1), reply(32))); get(s)
    stats(n); time.sleep(0.2)
    per = [int(x) for x in re.findall(r"worker-id: \d+, active-conns: (-?\d+)", n.text())][-3:]
    expect(len(per) == 3 and max(per) <= 2 and min(per) >= 0, "connections per worker, in parent mode: %s" % per)
@demo("2c07254")
def _():
    u = Hop(); n = Node(wrap=STDBUF, env={"LD_PRELOAD": preload('#include <poll.h>\nint connect(int fd, const struct sockaddr *a, socklen_t l) { static int (*o)(int, const struct sockaddr*, socklen_t); if (!o) o = dlsym(RTLD_NEXT, "connect"); int f = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, f & ~O_NONBLOCK); int r = o(fd, a, l); fcntl(fd, F_SETFL, f); return r; }')}); s = n.conn(3)
    s.sendall(msg(1, fwd(u.port), compute(1), reply(32), reply(32))); m = u.get(); u.answer(m[0]); get(s)
    st = stats(n)
    expect(st == (2, 0), "a connection from a client and one to a next hop counted as %s" % (st and st[0],))
@demo("014995b")
def _():
    n = Node(); h = Hop(); a = n.conn(5); s = n.conn(5)
    a.sendall(msg(0, fwd(h.port), compute(1), reply(32), reply(32))); h.get()
    m = b"".join(msg(i, reply(16)) for i in range(100))
    for k in range(700):
        try: s.sendall(m)
        except OSError: expect(False, "refused after %d requests" % (k * 100))
        expect(recvn(s, 1600), "a request was refused after %d ones, with a single one active" % (k * 100))
@demo("cfbbc7c")
def _():
    lib = preload('''
#include <string.h>
void *calloc(size_t k, size_t n) { if (k == 16 * 1024 * 1024 && access("fail", F_OK) == 0) { errno = ENOMEM; return 0; } void *p = malloc(k * n); if (p) memset(p, 0, k * n); return p; }''')
    n = Node(env={"LD_PRELOAD": lib}); f = os.path.join(SCRATCH, "fail")
    open(f, "w").close()
    mc = int(re.search(r"define MAX_CONNS\s+(\d+)", open(SRC + "/connection.h").read()).group(1))
    for _ in range(mc + 5):
        c = n.conn(2); c.settimeout(0.01)
        try: c.recv(1)
        except OSError: pass
        c.close()
    os.unlink(f)
    s = n.conn(2); s.sendall(msg(1, compute(1), reply(32)))
    expect(get(s), "no connection is accepted any more, after %d failed allocations" % (mc + 5))
@demo("e545ba2")
def _():
    n = Node("-a", "shared", "--nt", "4", proto="udp"); bad = 0
    us = [socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for _ in range(8)]
    for u in us: u.connect(("127.0.0.1", n.port)); u.settimeout(1)
    for k in range(400):
        for i, u in enumerate(us): u.send(msg(k * 8 + i, compute(20), reply(32 + 8 * i)))
        for i, u in enumerate(us):
            try: d = u.recv(65536)
            except OSError: d = b""
            if len(d) != 32 + 8 * i or d[:4] != struct.pack("<I", k * 8 + i): bad += 1
        if bad: break
    expect(bad == 0 and n.alive(), "wrong or missing reply datagrams with several workers: %d, node alive: %s" % (bad, n.alive()))
@demo("52892f5")
def _():
    n = Node("-a", "shared", "--nt", "3", proto="udp"); u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.connect(("127.0.0.1", n.port)); u.settimeout(2)
    for i in range(20): u.send(msg(i, compute(1), reply(32))); u.recv(100)
    time.sleep(0.3)
    expect(n.term(timeout=5) == 0, "workers blocked waiting for a datagram taken by another one: the node does not terminate")
# ---- storage -------------------------------------------------------------------------------------
@demo("877edf4")
def _():
    n = Node(); s = n.conn(); off = (1 << 32) + 4096
    s.sendall(msg(1, store(100, off), reply(32)))
    expect(get(s) and os.path.getsize(n.store) == off + 100, "a store at offset %d made a file of %d bytes" % (off, os.path.getsize(n.store)))
# ---- options -------------------------------------------------------------------------------------
@demo("d3d2b8f")
def _():
    home = (SCRATCH + "/").ljust(95, "x"); os.mkdir(home)          # the path would be 105 characters long, the maximum is 99
    p = subprocess.Popen([BIN + "/dw_node", "-b", "127.0.0.1:%d" % free_port()], env=dict(os.environ, HOME=home), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=SCRATCH)
    PROCS.append(p); time.sleep(0.5)
    expect(p.poll() == 1, "a default storage path that is too long is written past its array")
@demo("de88ee3")
def _():
    tr = os.path.join(SCRATCH, "opts")
    lib = preload('#include <netinet/tcp.h>\n#include <netinet/in.h>\nint setsockopt(int fd, int l, int o, const void *v, socklen_t n) { static int (*f)(int, int, int, const void*, socklen_t); if (!f) f = dlsym(RTLD_NEXT, "setsockopt"); if (l == IPPROTO_TCP && o == TCP_NODELAY) { int k = open("opts", O_CREAT|O_WRONLY|O_APPEND, 0600); write(k, *(int*)v ? "1" : "0", 1); close(k); } return f(fd, l, o, v, n); }')
    n = Node("--no-delay", "0", env={"LD_PRELOAD": lib}); s = n.conn(); s.sendall(msg(1, compute(1), reply(32))); get(s)
    t = open(tr).read() if os.path.exists(tr) else ""
    expect("0" in t and "1" not in t, "--no-delay 0: TCP_NODELAY set to %s on accepted connections" % (list(t) or "nothing"))
# ---- libraries -----------------------------------------------------------------------------------
@demo("3e5f954")
def _():
    r = unit(["queue"], '#include "queue.h"\nint main() { queue_t *q = queue_alloc(3); data_t d = {0}; for (int i = 0; i < 3; i++) queue_enqueue(q, i, d); queue_dequeue_head(q); queue_enqueue(q, 3, d); queue_dequeue_tail(q); node_t *t = queue_tail(q); printf("%d\\n", t->key); return 0; }')
    expect(r.returncode == 0 and r.stdout == "2\n", "tail after removal in a wrapped queue: %s" % (r.stdout.strip() or "invalid access"))
@demo("6033a49")
def _():
    r = unit(["thread_affinity"], '#include <sched.h>\n#include "thread_affinity.h"\nint main() { cpu_set_t m; CPU_ZERO(&m); char s[] = "0-6:2,4-7"; aff_list_parse(s, &m, 8); for (int i = 0; i < 8; i++) if (CPU_ISSET(i, &m)) printf("%d ", i); }')
    expect(r.stdout.split() == "0 2 4 5 6 7".split(), "CPU list 0-6:2,4-7 taken as %s" % r.stdout)
@demo("61fa76d")
def _():
    r = unit(["distrib"], '#include "distrib.h"\nint main() { pd_spec_t p; char s[] = "aseq:min=1,max=5,step=-2"; char g[] = "gseq:min=1,max=1000,step=10"; if (pd_parse(&p, s)) { pd_init(1); printf("%d ", pd_len(&p)); } if (pd_parse(&p, g)) printf("%d", pd_len(&p)); }')
    expect(r.returncode == 0 and r.stdout.split() == ["3", "4"], "lengths of sequences: %s" % r.stdout)
@demo("601ddf0")
def _():
    r = unit(["distrib"], '#include "distrib.h"\nint main() { pd_spec_t p; char s[] = "unif:min=1kb,max=2kb"; if (pd_parse_bytes(&p, s)) printf("%.0f %.0f", p.min, p.max); }')
    expect(r.stdout in ("1024 2048", "1000 2000"), "unif:min=1kb,max=2kb parsed as %s" % r.stdout)
# ---- client --------------------------------------------------------------------------------------
def sent(*opts, n=1, timeout=8, flags_env=None):
    sv = Server(answer_all)
    rc, out = client(sv.to, "-n", str(n), *opts, timeout=timeout, env=flags_env)
    return sv.reqs, rc, out
CT = lambda body: [x for x in cmds(body)]
def cmds(b):
    SZ = {0: 8, 1: 28, 2: 20, 3: 8, 4: 28, 5: 28, 6: 12, 7: 4}; o = 0; l = []
    while o + 4 <= len(b):
        t = struct.unpack("<I", b[o:o+4])[0]
        if t not in SZ: l.append("?"); break
        l.append((t, b[o+4:o+SZ[t]])); o += SZ[t]
        if t == 7: break
    return l
@demo("d778837")
def _():
    q, rc, out = sent("-F", "127.0.0.1:1", "-F", "127.0.0.1:2", "-C", "5", "-R", "100", "-C", "6", "-R", "200", "-C", "7")
    t = q and [x[0] for x in cmds(q[0][3])]
    expect(t == [4, 4, 0, 6, 0, 6, 0, 6, 7], "commands sent for nested forwards: %s" % t)
@demo("26de782")
def _():
    q, rc, out = sent("-S", "unif:min=100,max=200")
    expect(rc == 0 and q, "--store-data unif:min=100,max=200 refused")
@demo("164fcab")
def _():
    q, rc, out = sent("-C", "1", "-R", "unif:min=100,max=200")
    expect(rc == 0 and q, "--reply unif:min=100,max=200 refused")
@demo("b92fc2a")
def _():
    q, rc, out = sent("-s", "3", "-C", "1", timeout=3)
    t = q and [x[0] for x in cmds(q[0][3])]
    expect(t == [6, 7], "commands sent when skipping all of them: %s" % t)
@demo("f6ce7a1")
def _():
    o = []
    for i in range(20): o += ["-C", str(i + 1)]
    q, rc, out = sent("--ps", "64", *o, timeout=3)
    t = q and [x[0] for x in cmds(q[0][3])]
    expect(rc != 0 and not q or t == [0] * 20 + [6, 7], "commands sent: %s" % t)
@demo("8144113", UBSAN)
def _():
    q, rc, out = sent("-S", "100", flags_env={"ASAN_OPTIONS": "detect_leaks=0"})
    expect("outside the range of representable values" not in out, "undefined conversion of the default offset")
@demo("047f4d7", ASAN)
def _():
    q, rc, out = sent("-S", "unif:min=1234567,max=7654321,nosync", "--store-offset", "unif:min=123456789012,max=987654321098", flags_env={"ASAN_OPTIONS": "detect_leaks=0"})
    expect("AddressSanitizer" not in out, "printing the request template overflows the stack")
@demo("ff5912a")
def _():
    q, rc, out = sent("-F", "tcp", "-C", "1")
    t = q and cmds(q[0][3])
    expect(rc == 0 and t and t[0][0] == 4 and t[0][1][8:10] == struct.pack(">H", 7891), "--forward tcp: exit %s" % rc)
@demo("daecc6b")
def _():
    rc, out = client("--to=127.0.0.1:70000", "-n", "1", "-C", "1", timeout=5)
    sv = Server(answer_all); p = sv.port + 65536
    rc, out = client("--to=127.0.0.1:%d" % p, "-n", "1", "-C", "1", timeout=5)
    expect(not sv.reqs, "port %d taken as %d" % (p, sv.port))
@demo("6e38cfb")
def _():
    r = unit(["address_utils"], '#include "address_utils.h"\nint main() { char h[100] = ""; proto_t p = TCP; char s[] = "udpserver:80"; addr_proto_parse(s, h, &p); printf("%s %s", p == TCP ? "tcp" : "udp", h); return 0; }')
    expect(r.stdout == "tcp udpserver:80", "address udpserver:80 taken as %s" % (r.stdout or r.stderr[-80:]))
@demo("8e5e4ea")
def _():
    def h(self, s, k):
        while True:
            r = get(s)
            if r is None: return
            self.reqs.append((k, r[0]))
            if k == 0 and r[0] == 1: s.close(); return        # goes away instead of answering the last packet of the first session
            s.sendall(ans(r[0]))
    sv = Server(h); rc, out = client(sv.to, "-n", "4", "--ns", "2", "-p", "20000", "-C", "1", timeout=8)
    expect([x for x in sv.reqs if x[0] == 1] != [], "the session after the one that lost its last packet was skipped: %s" % sv.reqs)
@demo("1e48e95", ASAN)
def _():
    def h(self, s, k):
        get(s); s.close()
    sv = Server(h); rc, out = client(sv.to, "-n", "40", "--ns", "1", "-p", "1000", "-C", "1", timeout=8, env={"ASAN_OPTIONS": "detect_leaks=0"})
    t = [int(x) for x in re.findall(r"^t: (-?\d+) us", out, re.M)]
    expect("AddressSanitizer" not in out and len(t) == 40 and min(t) >= 0 and max(t) < 8000000, "after the node closed the session: sanitizer report or times such as %s" % t[-1:])
@demo("38878d1")
def _():
    n = Node()
    rc, out = client("--to=127.0.0.1:%d" % n.port, "-n", "30", "-p", "2000", "-C", "1", "-R", "1000000", timeout=15)
    ok = len(re.findall(r"elapsed: [1-9]\d* us", out))
    expect(ok == 30, "%d of 30 replies of 1 MB received in a session" % ok)
@demo("a7759e7")
def _():
    def h(self, s, k):
        time.sleep(1)
        answer_all(self, s, k)
    sv = Server(h); sv.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    rc, out = client(sv.to, "-n", "3", "-p", "1000", "--non-block", "--ps", "8000000", "-C", "1", timeout=12)
    expect(rc == 0 and [r[0] for r in sv.reqs] == [0, 1, 2], "large requests with --non-block: received %s" % [r[0] for r in sv.reqs])
@demo("c711d47")
def _():
    t0 = time.time()
    rc, out = client(*(lambda sv: (sv.to,))(Server(answer_all)), "--nt", "2", "-n", "auto", "-r", "aseq:min=10,max=40,step=10", "--rss", "1", "-C", "1", timeout=30)
    t = {}
    for a, th in re.findall(r"t: (\d+) us.*thr_id: (\d+)", out): t.setdefault(th, []).append(int(a))
    n = {k: [sum(1 for x in v if s * 1e6 <= x < (s + 1) * 1e6) for s in range(4)] for k, v in t.items()}
    expect(len(n) == 2 and all(abs(c - r) <= 3 for v in n.values() for c, r in zip(v, (10, 20, 30, 40))), "packets per step of the ramp, per thread: %s" % n)
@demo("1af73e6")
def _():
    rc, out = client("--to=127.0.0.1:%d" % free_port(), "-n", "1", "-C", "1", timeout=10)
    expect("refused" in out and "Bad file" not in out, "reason printed for a refused connection: " + out.strip().splitlines()[-1])
@demo("ab16962", TSAN)
def _():
    rc, out = client(Server(answer_all).to, "--nt", "4", "-n", "200", "-p", "100", "-C", "aseq:min=1,max=50,step=1", timeout=60)
    expect("pd_sample" not in out, "race on the position in a sequence (thread sanitizer)")
@demo("fdf43da")
def _():
    n = Node(env={"LD_PRELOAD": preload('#include <stdio.h>\nvoid perror(const char *s) { fprintf(stderr, "%s\\n", s); errno = ENOTTY; }')})
    s = n.conn()
    for i in range(5): n.p.send_signal(signal.SIGSTOP); time.sleep(0.1); n.p.send_signal(signal.SIGCONT); time.sleep(0.1)
    s.sendall(msg(1, compute(1), reply(32)))
    expect(n.alive() and get(s), "the node exited when resumed")
@demo("9f1e23b")
def _():
    # with 4 slots, so that going through all of the ids takes little
    d = os.path.join(SCRATCH, "few"); shutil.copytree(SRC, d); h = open(d + "/request.h").read()
    open(d + "/request.h", "w").write(h.replace("(1u << 16)", "4u").replace("(1 << 16)", "4"))
    open(d + "/t.c", "w").write("""
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include "message.h"
#include "request.h"
static int owners[4], twice;
void *go(void *x) { for (int i = 0; i < 3000000 && !twice; i++) { req_info_t *r = req_alloc(); if (!r) continue; int k = r - reqs;
  if (__sync_fetch_and_add(&owners[k], 1)) twice = 1; __sync_fetch_and_sub(&owners[k], 1); req_free(r); } return 0; }
int main() { pthread_t t[6]; req_init(); for (int i = 0; i < 6; i++) pthread_create(&t[i], 0, go, 0); for (int i = 0; i < 6; i++) pthread_join(t[i], 0); return twice; }
""")
    subprocess.check_call(["gcc", "-w", "-O1", "-I", d, "-o", d + "/t", d + "/t.c", d + "/request.c", "-lpthread"])
    expect(subprocess.run([d + "/t"]).returncode == 0, "two threads got the same request slot")
@demo("c927d1d", TSAN)
def _():
    n = Node("--nt", "4"); hs = [Hop() for _ in range(2)]
    def go(k):
        for i in range(15):
            s = n.conn(3); s.sendall(msg(i, fwd(hs[k % 2].port), compute(1), reply(32), reply(32))); time.sleep(0.01); s.close()
    ts = [threading.Thread(target=go, args=(k,)) for k in range(8)]
    for t in ts: t.start()
    for t in ts: t.join()
    n.term()
    expect(not re.search(r"data race.*\n(.*\n){0,30}.*conn_find_existing", n.text()), "race in looking up a connection (thread sanitizer)")
@demo("1a81f70", ASAN)
def _():
    bad = ""
    for _ in range(10):
        sv = Server(answer_all)
        lib = preload('#include <netinet/in.h>\nint connect(int fd, const struct sockaddr *a, socklen_t l) { static int (*o)(int, const struct sockaddr*, socklen_t); static int k; if (!o) o = dlsym(RTLD_NEXT, "connect"); if (__sync_fetch_and_add(&k, 1) == 2) { usleep(100000); errno = ECONNREFUSED; return -1; } return o(fd, a, l); }\nvoid exit(int r) { usleep(100000); _exit(r); }')
        asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        rc, out = client(sv.to, "--nt", "3", "-n", "30000", "-p", "100", "--ws", "-C", "1", timeout=10, env={"LD_PRELOAD": asan + " " + lib, "ASAN_OPTIONS": "detect_leaks=0"})
        if "AddressSanitizer" in out: bad = out; break
    expect(not bad, "commands released by a thread that fails to connect, while others send them")
@demo("a482fc2")
def _():
    n = Node(); h = Hop()
    a = n.conn(2); a.sendall(msg(9, fwd(h.port), compute(1), reply(32), reply(40)))
    m = h.get()
    b = n.conn(2); b.sendall(ans(m[0]))
    expect(get(a) is None, "a client that was sent nothing completed the forwarded request of another one")
    h.answer(m[0])
    expect(get(a) is not None, "the reply of the next hop completes it")
if __name__ == "__main__":
    DEMOS[sys.argv[1]][0]()
