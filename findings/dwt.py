# Minimal driver for the programs under test, found in $DW_BIN.
import atexit, os, shutil, signal, socket, struct, subprocess, sys, tempfile, time
BIN = os.environ["DW_BIN"]; SRC = os.environ["DW_SRC"]
SCRATCH = tempfile.mkdtemp(prefix="dwdemo-")
PROCS = []
def _cleanup():
    for p in PROCS:
        if p.poll() is None:
            p.kill(); p.wait()
    shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_cleanup)

def free_port(kind=socket.SOCK_STREAM):
    s = socket.socket(socket.AF_INET, kind)
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p

class Node:
    def __init__(self, *opts, proto="tcp", env=None, wrap=()):
        self.port = free_port(socket.SOCK_STREAM if proto == "tcp" else socket.SOCK_DGRAM)
        self.store = os.path.join(SCRATCH, "store-%d" % self.port)
        e = dict(os.environ, HOME=SCRATCH)
        e.update(env or {})
        self.out = os.path.join(SCRATCH, "out-%d" % self.port)
        self.p = subprocess.Popen(list(wrap) + [BIN + "/dw_node", "-b", "%s://127.0.0.1:%d" % (proto, self.port), "-s", self.store] + list(opts),
                                  stdout=open(self.out, "w"), stderr=subprocess.STDOUT, env=e, cwd=SCRATCH)
        PROCS.append(self.p)
        end = time.time() + 10
        if proto == "tcp":
            while True:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    break
                except OSError:
                    if time.time() > end: raise SystemExit("node did not start")
                    time.sleep(0.02)
            time.sleep(0.05)
        else:
            time.sleep(0.5)
    def alive(self): return self.p.poll() is None
    def conn(self, timeout=5):
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        s.settimeout(timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s
    def text(self): return open(self.out).read()
    def term(self, sig=signal.SIGTERM, timeout=10):
        self.p.send_signal(sig)
        try: return self.p.wait(timeout)
        except subprocess.TimeoutExpired: return None

ip = lambda a: struct.unpack("<I", socket.inet_aton(a))[0]
compute = lambda us: struct.pack("<II", 0, us)
store = lambda n, off=0xffffffffffffffff, sync=0: struct.pack("<IQQB7x", 1, off, n, sync)
load = lambda n, off=0xffffffffffffffff: struct.pack("<IQQ", 2, off, n)
def fwd(port, size=64, host="127.0.0.1", timeout=0, retries=0, skip=1, proto=1, multi=False):
    return struct.pack("<III", 5 if multi else 4, size, ip(host)) + struct.pack(">H", port) + struct.pack("<2xIBB2xI", timeout, retries, skip, proto)
reply = lambda n, ack=1: struct.pack("<IIB3x", 6, n, ack)
EOM = struct.pack("<I", 7)
def msg(rid, *cmds, size=0):
    body = b"".join(cmds) + EOM
    n = max(size, 12 + len(body))
    return (struct.pack("<IIb3x", rid, n, 0) + body).ljust(n, b"\0")
def recvn(s, n):
    b = b""
    while len(b) < n:
        try: d = s.recv(n - len(b))
        except (socket.timeout, ConnectionError): return None
        if not d: return None
        b += d
    return b
def get(s):
    """one message: (id, size, status, body) or None"""
    h = recvn(s, 12)
    if h is None: return None
    rid, size, st = struct.unpack("<IIb3x", h)
    b = recvn(s, size - 12)
    return None if b is None else (rid, size, st, b)

class Hop:
    """a next hop controlled by the test"""
    def __init__(self):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0)); self.l.listen(16)
        self.l.settimeout(5)
        self.port = self.l.getsockname()[1]
        self.s = None
    def get(self, timeout=5):
        if self.s is None:
            try: self.s, _ = self.l.accept()
            except socket.timeout: return None
        self.s.settimeout(timeout)
        return get(self.s)
    def answer(self, rid, size=64, status=0):
        self.s.sendall((struct.pack("<IIb3x", rid, size, status) + EOM).ljust(size, b"\0"))

def expect(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
