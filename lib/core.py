"""Shared plumbing: scratch space, building rodb from /repo, running it, talking HTTP to it."""
import atexit, hashlib, http.client, json, os, random, shutil, signal, socket, subprocess, sys, tempfile, threading, time, urllib.parse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Infra(Exception):
    """The check itself could not do its work (never reported as a violation)."""


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rodbverif-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_n = [0]
_nl = threading.Lock()


def subdir(prefix="d"):
    with _nl:
        _n[0] += 1
        d = os.path.join(scratch(), "%s%d" % (prefix, _n[0]))
    os.makedirs(d)
    return d


def keep_replay(pid, name, data):
    """Writes a replay file that survives the run."""
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s" % (pid, name))
    mode = "wb" if isinstance(data, bytes) else "w"
    with open(p, mode) as f:
        f.write(data)
    return p


# ---------------------------------------------------------------- build
def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


_bins = {}


def build(race=False):
    key = "race" if race else "plain"
    if key in _bins:
        return _bins[key]
    out = os.path.join(scratch(), "rodb-" + key)
    cmd = ["go", "build", "-tags", "sqlite_fts5", "-o", out]
    if race:
        cmd.insert(2, "-race")
    r = subprocess.run(cmd + ["./cmd"], cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Infra("go build failed: " + r.stdout.decode(errors="replace")[-3000:])
    _bins[key] = out
    return out


# ---------------------------------------------------------------- ports
_port = [20000 + (os.getpid() * 97) % 11000]
_pl = threading.Lock()


def free_port():
    with _pl:
        for _ in range(4000):
            _port[0] += 1
            if _port[0] > 31900:
                _port[0] = 20000
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("127.0.0.1", _port[0]))
                return _port[0]
            except OSError:
                continue
            finally:
                s.close()
    raise Infra("no free port")


# ---------------------------------------------------------------- server
class Response:
    __slots__ = ("status", "ctype", "body", "dropped", "headers")

    def __init__(self, status, ctype, body, dropped=False, headers=None):
        self.status, self.ctype, self.body, self.dropped, self.headers = status, ctype, body, dropped, headers

    def __repr__(self):
        return "<dropped>" if self.dropped else "<%s %s %r>" % (self.status, self.ctype, self.body[:300])

    def json(self):
        return json.loads(self.body.decode("utf-8"))


DROPPED = lambda: Response(0, "", b"", True)


class Server:
    """A running rodb process. cfg: dict (written as JSON, which is YAML); services are added unless present."""

    def __init__(self, cfg, cwd, routes=None, race=False, wait=60, args=(), env=None, prefix=(), name=None, port=None, binary=None):
        self.cwd = cwd
        self.port = port or free_port()
        cfg = dict(cfg)
        if routes is not None:
            cfg["services"] = [{"name": "svc", "type": "http", "http": {"listen": "127.0.0.1:%d" % self.port}, "routes": routes}]
        self.cfg = cfg
        self.cfg_path = os.path.join(cwd, "rodb-%d.yaml" % self.port)
        with open(self.cfg_path, "w") as f:
            f.write(cfg if isinstance(cfg, str) else to_yaml(cfg))
        self.log_path = os.path.join(cwd, "rodb-%d.log" % self.port)
        self.log = open(self.log_path, "wb")
        e = dict(os.environ)
        if env:
            e.update(env)
        if race:
            e.setdefault("GORACE", "halt_on_error=0 exitcode=66")
        cmd = list(prefix) + [binary or build(race), "-c", self.cfg_path] + list(args)
        self._spawn = lambda: subprocess.Popen(cmd, cwd=cwd, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e,
                                               start_new_session=True)
        self.p = self._spawn()
        self.up = self.hung = False
        self._tl = threading.local()
        self._conns = []
        if wait:
            self.wait_up(wait)

    def wait_up(self, timeout):
        t0 = time.time()
        delay = 0.002
        while time.time() - t0 < timeout:
            if self.p.poll() is not None:
                # every input takes one of the few inotify instances of the system, which other processes may be using:
                # nothing has been done by then, so it can be started again
                if "Error initializing inputs: too many open files" in self.logtext() and time.time() - t0 < timeout / 2:
                    time.sleep(0.5)
                    self.log.truncate(0)
                    self.log.seek(0)
                    self.p = self._spawn()
                    continue
                return False
            try:
                s = socket.create_connection(("127.0.0.1", self.port), timeout=1)
                s.close()
                if self.p.poll() is None:
                    self.up = True
                    return True
            except OSError:
                pass
            time.sleep(delay)
            delay = min(delay * 1.5, 0.05)
        self.hung = True   # neither started nor stopped: it does not serve
        self.kill()
        return False

    def logtext(self):
        try:
            with open(self.log_path, "rb") as f:
                return f.read().decode(errors="replace")
        except OSError:
            return ""

    def _conn(self, timeout):
        c = getattr(self._tl, "c", None)
        if c is None:
            c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
            self._tl.c = c
            self._conns.append(c)
        return c

    def get(self, target, method="GET", body=None, headers=None, timeout=30, retry=True):
        """target: raw request target (already percent-encoded)."""
        for attempt in (0, 1):
            c = self._conn(timeout)
            fresh = c.sock is None
            try:
                c.putrequest(method, target, skip_accept_encoding=True)
                for k, v in (headers or {}).items():
                    c.putheader(k, v)
                if body is not None:
                    c.putheader("Content-Length", str(len(body)))
                c.endheaders()
                if body is not None:
                    c.send(body)
                r = c.getresponse()
                data = r.read()
                return Response(r.status, r.getheader("Content-Type") or "", data, headers=r.getheaders())
            except (OSError, http.client.HTTPException):
                c.close()
                # a reused idle connection may have been closed by the peer: try once more on a fresh one
                if fresh or attempt or not retry:
                    return DROPPED()
        return DROPPED()

    def alive(self):
        return self.p.poll() is None

    def stop(self, sig=signal.SIGINT, timeout=20):
        """Asks for termination; returns the exit code (None: had to be killed)."""
        for c in self._conns:
            c.close()
        self._conns = []
        self._tl = threading.local()
        if self.p.poll() is None:
            self.p.send_signal(sig)
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            self.kill()
        self.log.close()
        return rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.p.poll() is None:
            self.kill()
        for c in self._conns:
            c.close()
        try:
            self.log.close()
        except Exception:
            pass


def to_yaml(cfg):
    """JSON is YAML, except that JSON escapes such as \\/ and surrogate pairs are not; emit UTF-8 text."""
    return json.dumps(cfg, ensure_ascii=False)


def q(s):
    return urllib.parse.quote(s, safe="")


def target(path, params=None):
    """path: raw text path; params: list of (k, v)."""
    t = urllib.parse.quote(path, safe="/")
    if params:
        t += "?" + "&".join(q(k) + "=" + q(v) for k, v in params)
    return t


# ---------------------------------------------------------------- files
def write(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return path


def csv_field(s, delim=",", force=False):
    if force or any(c in s for c in '"\r\n' + delim) or s[:1] in (" ", "\t"):
        return '"' + s.replace('"', '""') + '"'
    return s


def csv_bytes(rows, delim=",", rng=None, eol="\n", last_eol=True):
    out = []
    for r in rows:
        fs = []
        for i, f in enumerate(r):
            force = rng is not None and rng.random() < 0.2
            if f == "" and len(r) == 1:
                force = True  # an empty line is no record at all
            fs.append(csv_field(f, delim, force))
        out.append(delim.join(fs))
    t = eol.join(out)
    if out and last_eol:
        t += eol
    return t.encode("utf-8")
