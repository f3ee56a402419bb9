"""S01: an interrupt stops accepting requests and answers the running ones."""
TECHNIQUE = 'TLA+ model of connections, listeners and the end of the process, exhausted by TLC with liveness; the histories TLC prints are replayed on real processes with requests held inside of their handling'
NOTE = 'Shutdown: connections in every phase, an interrupt at any point, one or more listeners; no request being handled is lost, the listeners close whatever the handlers do, and the process ends with success; variants (interrupts caught too late, waiting only for the listeners, closing one listener after the other) are refuted. TLC prints every history of the environment; a sample is replayed with HTTP and HTTPS listeners of one or two services. Requests are held inside of their handling by a named pipe in place of the file being scanned, or by a client which does not read a large answer, so that each interleaving is produced on purpose. Answers are validated by RodbTrace, and the refusal of connections, the end and its status are observed.'
import ssl
import wire as wr
from gen import *

CERT = os.path.join(VERIF, "data", "cert.pem")
KEY = os.path.join(VERIF, "data", "key.pem")
PAD = "0123456789abcdef" * 512


class Rig:
    """A process with two listeners and, for each connection, an input which can be held."""

    def __init__(self, rng, conns=3, both=None, big=True):
        self.rng = rng
        self.w = w = World()
        self.files = {}
        self.contents = {}
        w.csv("link", [("t", "string"), ("n", "integer")], [[t, str(k)] for k, t in enumerate(["a", "é", "x" * 50] * 2)], die=False)
        for name, kind, props in (("lm", "map", ["t"]), ("ls", "sqlite", ["t"]), ("lq", "sqlite", ["t"]), ("lw", "wildcard", ["t"])):
            w.index(name, kind, "link", props, **({"dsn": ":memory:"} if name == "lq" else {}))
        for c in range(1, conns + 1):
            recs = [{"id": i, "c": c, "t": rng.choice(["a", "é", "x" * 50])} for i in range(rng.randint(0, 4))]
            self.files[c] = w.json("in%d" % c, recs, die=False)
            self.contents[c] = open(self.files[c], "rb").read()
            w.output("o%d" % c, "array", "in%d" % c, {"id": ("id", "default", "float")},
                     rels={"r" + x: rel("link", [("t", "t", x)], isArray=True) for x in ("lm", "ls", "lq", "lw")} if rng.random() < 0.7 else None)
            w.route("o%d" % c)
        w.csv("big", [("id", "integer"), ("t", "string")], [["1", PAD]] * 1000, die=False)
        w.output("big", "array", "big", {"id": ("id", "default", "integer")})
        w.W["inputs"]["big"]["rows"] = []     # its answers are compared as they are
        w.route("big")
        self.ports = {1: free_port(), 2: free_port()}
        kind = both or rng.choice(["http+https", "two http", "http, https"])
        self.tls = {1: False, 2: kind != "two http"}
        h = {l: {"listen": "127.0.0.1:%d" % p, **({"certificatePath": CERT, "privateKeyPath": KEY} if self.tls[l] else {})} for l, p in self.ports.items()}
        if kind == "http+https":
            svs = [{"name": "s", "type": "http", "http": h[1], "https": h[2], "routes": w.routes}]
        else:
            svs = [{"name": "s%d" % l, "type": "http", "https" if self.tls[l] else "http": h[l], "routes": w.routes} for l in (1, 2)]
        w.cfg["services"] = svs
        self.kind = kind

    def start(self, **k):
        w = self.w
        w.server = self.s = Server(w.cfg, w.d, None, wait=0, port=self.ports[1], **k)
        t0 = time.time()
        while time.time() - t0 < 60 and not all(self.accepts(l) for l in self.ports):
            if self.s.p.poll() is not None:
                raise Infra("rodb does not start: " + self.s.logtext()[-1000:])
            time.sleep(0.005)
        for c, p in self.files.items():   # from now on a scan of the file waits for a writer
            os.mkfifo(p + ".fifo")
            os.rename(p + ".fifo", p)
        return self.s

    def accepts(self, l):
        try:
            s = socket.create_connection(("127.0.0.1", self.ports[l]), timeout=5)
            s.close()
            return True
        except OSError:
            return False

    def connect(self, l, small=False):
        s = wr.connect(self.ports[l], 20, 4096 if small else None)
        if self.tls[l]:
            x = ssl.create_default_context()
            x.check_hostname, x.verify_mode = False, ssl.CERT_NONE
            s = x.wrap_socket(s)
        return s


class Conn:
    def __init__(self, rig, c, l):
        self.rig, self.c, self.l = rig, c, l
        self.pending, self.fd, self.kind, self.req = b"", None, None, None
        self.ph = "closed"
        self.small = rig.rng.random() < 0.2     # holds by not reading
        try:
            self.s = rig.connect(l, self.small)
            self.r = wr.Reader(self.s)
            self.ph = "open"
        except OSError:
            pass

    def prepare(self):
        rig = self.rig
        if self.small:
            self.req = Req("/big", [("limit", "1000")])
        else:
            n = len(rig.w.W["inputs"]["in%d" % self.c]["recs"])
            self.req = Req("/o%d" % self.c, rig.rng.choice([[], [("id", str(rig.rng.randint(0, n)))], [("offset", "1")]]))
        self.pending = wr.message("GET", self.req.target(), headers=[("Connection", "keep-alive")] if rig.rng.random() < 0.2 else ())

    def part(self):
        self.prepare()
        k = self.rig.rng.randrange(1, len(self.pending))
        try:
            self.s.sendall(self.pending[:k])
        except OSError:
            self.ph = "closed"
        self.pending = self.pending[k:]

    def send(self, must):
        """True when the request is now being handled."""
        if not self.pending:
            self.prepare()
        try:
            self.s.sendall(self.pending)
        except OSError:
            self.ph = "closed"
        self.pending = b""
        end = time.time() + (10 if must else 0.4)
        if self.small:
            try:
                self.s.settimeout(max(0.05, end - time.time()))
                self.ph = "held" if self.r.more() else "closed"
            except OSError:
                self.ph = "closed"
            if self.ph == "held":
                self.s.settimeout(20)
            return self.ph == "held"
        while time.time() < end:
            try:   # succeeds once the handler has opened the file to read it
                self.fd = os.open(self.rig.files[self.c], os.O_WRONLY | os.O_NONBLOCK)
                self.ph = "held"
                return True
            except OSError:
                time.sleep(0.002)
        self.ph = "closed"
        return False

    def finish(self):
        if self.fd is not None:
            os.set_blocking(self.fd, True)
            try:
                os.write(self.fd, self.rig.contents[self.c])
            except OSError:
                pass
            os.close(self.fd)
            self.fd = None
        try:
            got, close = self.r.response("GET")
            if self.r.buf:
                got = DROPPED()
        except (OSError, wr.Broken, ValueError, IndexError):
            got, close = DROPPED(), True
        self.ph = "closed" if close else "open"
        return got

    def leave(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None
        if self.ph != "closed":
            self.s.close()
        self.ph = "closed"


found = []     # enough violations: the rest is left out


def replay(job):
    rng, h, opts = job
    if len(found) >= 4:
        return None, [], []
    try:
        return replay_(rng, h, opts)
    except Infra:
        if found:
            return None, [], []
        raise


def replay_(rng, h, opts):
    rig = Rig(rng, both=opts.get("both"))
    out, wrong = [], []
    conns, told, signalled = {}, [], False
    w = rig.w

    def bad(key, text):
        found.append(key)
        wrong.append((key, text + ". History: " + ", ".join(told), {"config": w.cfg, "history": h, "log": w.server.logtext()[-2000:]}))

    s = rig.start()
    try:
        for e in h:
            a = e["a"]
            told.append(a + (" %d" % e["c"] if e["c"] else "") + (" on %s" % ("https" if rig.tls[e["l"]] else "http") if e["l"] else ""))
            k = conns.get(e["c"])
            if a == "open":
                conns[e["c"]] = k = Conn(rig, e["c"], e["l"])
                if k.ph == "closed" and not signalled:
                    bad("refused", "a connection is refused before any interrupt")
                    break
            elif a == "signal":
                os.kill(s.p.pid, signal.SIGINT)
                signalled = True
                if rng.random() < 0.2 and not opts["hold"]:
                    continue    # the rest runs as close to it as possible
                held = [x for x in conns.values() if x.ph == "held"]
                t0 = time.time()
                open_ = set(rig.ports)
                while open_ and time.time() - t0 < 4 and s.p.poll() is None:
                    open_ = {l for l in open_ if rig.accepts(l)}
                    time.sleep(0.01)
                if open_ and s.p.poll() is None:
                    bad("accepts", "connections are still accepted %d s after the interrupt (%s), %d requests being handled" % (time.time() - t0, rig.kind, len(held)))
                    break
                if rng.random() < 0.3:
                    s.p.poll() is None and os.kill(s.p.pid, signal.SIGINT)   # a second one changes nothing
                if held:
                    time.sleep(opts["hold"] or rng.choice([0, 0, 0.05, 0.6]))
            elif k is None or k.ph == "closed":
                if e["must"] and a == "send":
                    bad("lost", "a connection was closed before any interrupt")
                    break
            elif a == "part":
                k.part()
            elif a == "send":
                if not k.send(e["must"]) and e["must"]:
                    bad("unhandled", "a request sent before the interrupt is not handled")
                    break
                k.must = e["must"]
            elif a == "finish" and k.ph == "held":
                if s.p.poll() is not None and k.must:
                    bad("early", "the process ended (status %s) while a request was being handled" % s.p.poll())
                    break
                got = k.finish()
                if k.must or not got.dropped:
                    out.append((k.req, got, list(told)))
            elif a == "leave":
                k.leave()
        for k in conns.values():
            if k.ph == "held" and not wrong:
                if s.p.poll() is not None and k.must:
                    bad("early", "the process ended (status %s) while a request was being handled" % s.p.poll())
                    break
                got = k.finish()
                if k.must or not got.dropped:
                    out.append((k.req, got, list(told)))
        if not wrong:
            t0 = time.time()
            try:
                rc = s.p.wait(25)
                if rc != 0:
                    bad("status", "the process ends with status %s after an interrupt" % rc)
            except subprocess.TimeoutExpired:
                bad("endless", "the process has not ended %d s after the interrupt and the end of all requests" % (time.time() - t0))
            for l in rig.ports:
                if not wrong and rig.accepts(l):
                    bad("accepts", "a connection is accepted after the end")
    finally:
        for k in conns.values():
            k.leave()
        s.kill()
        s.log.close()
    return rig, out, wrong


def stalled(c, rng, both):
    """The output of the process is not read for a while just when it begins to serve: it must be ready for interrupts already."""
    rig = Rig(rng, both=both)
    d = rig.w.d
    log = os.path.join(d, "out.fifo")
    os.mkfifo(log)
    fd = os.open(log, os.O_RDWR | os.O_NONBLOCK)
    full = 0
    try:
        while True:
            full += os.write(fd, b"-" * 4096)
    except BlockingIOError:
        pass
    w = rig.w
    w.server = rig.s = s = Server(w.cfg, d, None, wait=0, port=rig.ports[1], prefix=("sh", "-c", 'exec "$0" "$@" >"%s" 2>&1' % log))
    try:
        t0 = time.time()
        up = set()
        while time.time() - t0 < 3 and not up:
            up = {l for l in rig.ports if rig.accepts(l)}
            time.sleep(0.005)
        c.cov["stalled_outputs"] = c.cov.get("stalled_outputs", 0) + bool(up)
        if not up:
            return   # it says something before it serves: nothing to see
        for cc, p in rig.files.items():
            os.mkfifo(p + ".fifo")
            os.rename(p + ".fifo", p)
        l = sorted(up)[0]
        k = Conn(rig, 1, l)
        k.small = False
        told = "the output of the process is blocked; a request is being handled on %s; interrupt" % ("https" if rig.tls[l] else "http")
        if not k.send(True):
            c.violation("unhandled", "a request is not handled while the output is blocked", {"config": w.cfg})
            return
        os.kill(s.p.pid, signal.SIGINT)
        time.sleep(0.3)
        early = s.p.poll()
        stop = threading.Event()

        def drain():
            while not stop.is_set():
                try:
                    os.read(fd, 65536)
                except BlockingIOError:
                    time.sleep(0.005)
        t = threading.Thread(target=drain)
        t.start()
        time.sleep(0.2)
        got = k.finish()
        if early is not None or got.dropped:
            c.violation("signal-window", "the process died (status %s) from an interrupt while it was answering a request: %s -> %r" % (s.p.poll(), told, got), {"config": w.cfg, "history": told})
        else:
            c.record(c.use_world(w), k.req, got, w, "stalled")
            try:
                rc = s.p.wait(20)
            except subprocess.TimeoutExpired:
                rc = "none after 20 s"
            if rc != 0:
                c.violation("status", "the process ends with status %s after: %s" % (rc, told), {"config": w.cfg})
        stop.set()
        t.join()
        k.leave()
    finally:
        s.kill()
        s.log.close()
        os.close(fd)


def run(c):
    rng = c.rng
    good = {"Conns": "{1,2}", "Listeners": "{1,2}", "MaxSends": "2", "History": "FALSE", "NotifyFirst": "TRUE", "WaitHandlers": "TRUE", "Together": "TRUE"}
    c.design("Shutdown", good, [{"NotifyFirst": "FALSE"}, {"WaitHandlers": "FALSE"}, {"Together": "FALSE"}], small={"MaxSends": "1"})
    if THOROUGH:   # safety only
        c.model("Shutdown", cfg="ShutdownHistories.cfg", constants={**good, "Conns": "{1,2,3}"})
    hs = set()
    for k in ({"MaxSends": "2" if THOROUGH else "1"}, {"Conns": "{1}", "MaxSends": "3"}) + (({"Conns": "{1,2,3}", "Listeners": "{1}"},) if THOROUGH else ()):
        r = c.model("Shutdown", cfg="ShutdownHistories.cfg", constants={**good, "MaxSends": "1", **k, "History": "TRUE"})
        hs |= {json.loads(ln[len('<<"BEHAVIOUR", '):-2]) for ln in r.out.splitlines() if ln.startswith('<<"BEHAVIOUR", ')}
    hs = [json.loads(h) for h in sorted(hs)]
    c.cov["different_histories_in_the_models"] = len(hs)

    def held_at_signal(h):
        held = set()
        for e in h:
            if e["a"] == "send":
                held.add(e["c"])
            if e["a"] == "finish":
                held.discard(e["c"])
            if e["a"] == "signal":
                return len(held)
    many = 900 if THOROUGH else 130
    pick = []
    for want in (0, 1, 2):
        g = [h for h in hs if held_at_signal(h) == want]
        pick += rng.sample(g, min(len(g), many // 2 if want else many // 5))
    kinds = ["http+https", "two http", "http, https"]
    jobs = [(random.Random(rng.random()), h, {"both": kinds[i % 3], "hold": 0}) for i, h in enumerate(pick)]
    # requests which are still being handled long after the interrupt
    long_ = [h for h in hs if held_at_signal(h) and len(h) < 8]
    jobs = [(random.Random(rng.random()), h, {"both": kinds[i % 3], "hold": (125 if THOROUGH else 62) if i < 3 else 35 if i < 6 else 11}) for i, h in enumerate(rng.sample(long_, 24 if THOROUGH else 9))] + jobs
    with cf.ThreadPoolExecutor(24) as ex:
        res = list(ex.map(replay, jobs))
    big = big_answer()
    for (_, h, _), (rig, out, wrong) in zip(jobs, res):
        for x in wrong:
            c.violation(*x)
        wl = None
        for q, r, told in out:
            if q.path == "/big":
                c.traces += 1
                if r.status != 200 or r.dropped or r.body != big:
                    c.violation("answer", "a large answer is not the whole one around an interrupt: %d bytes instead of %d. History: %s" % (len(r.body), len(big), ", ".join(told)), {"config": rig.w.cfg, "history": h})
            else:
                wl = wl or c.use_world(rig.w)
                c.record(wl, q, r, rig.w, "answer")
    c.cov["histories_replayed"] = len(jobs)
    for both in kinds * (4 if THOROUGH else 1):
        stalled(c, random.Random(rng.random()), both)
    c.samples += [", ".join(e["a"] + (" %d" % e["c"] if e["c"] else "") for e in h) for h in pick[-3:]]
    c.validate()


def big_answer():
    return (json.dumps([{"id": 1, "t": PAD}] * 1000, separators=(",", ":")) + "\n").encode()


from check import *
