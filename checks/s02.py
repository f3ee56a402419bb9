"""S02: a change of an input file stops the process unless disabled."""
TECHNIQUE = 'TLA+ model of names, files, watches and events, exhausted by TLC with liveness; the histories of file operations TLC prints are replayed on real files under a real process'
NOTE = 'Watcher: two inputs with their own option, other names in the same and in another directory, hard links; writing, touching, creating, removing, renaming and linking, any of them any number of times up to the bound, the queue of events overflowing while the process is stopped; a change of an input stops the process (liveness), nothing else does; variants which do not watch the file, its directory, the names, the kinds of events or the option, or do not look again when events were lost, are refuted. TLC prints every history of operations with what the process must do after it; a sample (every different last operation; thorough: several thousands) is replayed with CSV, JSON and XML inputs, several spellings of their path, symbolic links, and many concrete ways to do each operation. A process which must stop has to end by itself with a failure; one which must go on is observed and its answers are validated by RodbTrace.'
import fcntl, signal
from gen import *

QUEUE = int(open("/proc/sys/fs/inotify/max_queued_events").read())
LOCALS = ["%s.bak", "%s~", ".%s.swp", "x%s", "%s.tmp", "log.txt", "IN.CSV", "a b"]


def content(rng, kind, n):
    rows = [["%d" % i, rng.choice(["a", "b", "é"])] for i in range(n)]
    return rows


class Site:
    """The files of one history, and a process reading the first two."""

    def __init__(self, rng, h):
        self.rng, self.h = rng, h
        self.w = w = World()
        self.kinds = [rng.choice(["csv", "json", "xml"]) for _ in (1, 2)]
        self.names = {}
        links = h["link"] or any(o["op"] == "link" for o in h["ops"])
        for i in (1, 2):
            k = self.kinds[i - 1]
            name = "in%d" % i
            die = h["die"][i - 1]
            die = None if die and rng.random() < 0.5 else die     # the default
            rows = content(rng, k, rng.randint(1, 5))
            if k == "csv":
                self.names[i] = w.csv(name, [("k", "string"), ("t", "string")], rows, die=die)
            elif k == "json":
                self.names[i] = w.json(name, [{"k": a, "t": b} for a, b in rows], die=die)
            else:
                recs = [elem("r", {"k": a, "t": b}) for a, b in rows]
                root = elem("root", c=recs)
                self.names[i] = w.xml(name, [{"name": x, "parser": "string", "type": "primitive", "x": X("string", attr=x)} for x in "kt"],
                                      recs, xml_text(root, rng), "//r", die=die)
            self.path(i)
            if rng.random() < 0.4:
                w.index("m%d" % i, rng.choice(["map", "sqlite", "wildcard", "fts5"]), name, ["k"])
            w.output("o%d" % i, "array", name, {"t": ("t", "default", "string")})
            w.route("o%d" % i)
        base = os.path.basename(self.names[1])
        x = rng.choice(LOCALS)
        self.names[3] = os.path.join(w.d, x % base if "%" in x else x)
        sub = os.path.join(w.d, "sub") if rng.random() < 0.5 else subdir("other")
        os.makedirs(sub, exist_ok=True)
        self.names[4] = os.path.join(sub, rng.choice([base, base, "y"]))
        write(self.names[3], rng.choice([b"", b"z", open(self.names[1], "rb").read()]))
        self.symlink = None
        if h["link"]:
            os.link(self.names[1], self.names[4])
        else:
            write(self.names[4], rng.choice([b"z", open(self.names[1], "rb").read()]))
            if not links and rng.random() < 0.25:   # the name of the input is a symbolic link
                i = self.symlink = rng.choice([1, 2])
                t = os.path.join(subdir("target"), "t")
                os.rename(self.names[i], t)
                os.symlink(t if rng.random() < 0.5 else os.path.relpath(t, w.d), self.names[i])
        self.fds = {n: os.open(p, os.O_RDWR) for n, p in self.names.items() if rng.random() < 0.3}    # opened before the start
        self.told = []

    def path(self, i):
        """Another spelling of the path in the configuration (the working directory is the one of the files)."""
        c = self.w.cfg["inputs"][-1]
        d, b = os.path.split(c["path"])
        up = os.path.basename(d)
        c["path"] = self.rng.choice([c["path"], c["path"], b, "./" + b, "../%s/%s" % (up, b), d + "//" + b, d + "/./" + b, d + "/../%s/%s" % (up, b)])

    def do(self, o):
        rng, n, m = self.rng, self.names.get(o["n"]), self.names.get(o["m"])
        op = o["op"]
        if op == "serve":
            how = "serve"
            for _ in range(rng.randint(1, 3)):
                self.w.server.get(rng.choice(["/o1", "/o2", "/o1?t=a", "/o2?limit=1", "/nowhere"]))
        elif op == "flood":   # it cannot run while other files are used, until the queues of events are full
            how = ""
            os.kill(self.w.server.p.pid, signal.SIGSTOP)
            a, b = [write(os.path.join(self.w.d, x), b"") for x in rng.sample(["zz1", "zz2", "zz3"], 2)]
            for i in range(QUEUE // 2 + 100):
                os.chmod(a, 0o600 + i % 2)
                os.chmod(b, 0o600 + i % 2)
        elif op == "resume":
            how = ""
            os.kill(self.w.server.p.pid, signal.SIGCONT)
        elif op == "write":
            how = rng.choice(["append", "rewrite", "rewrite same", "truncate", "half", "extend", "byte", "copy", "held" if o["n"] in self.fds and os.path.samestat(os.fstat(self.fds[o["n"]]), os.stat(n)) else "append"])
            size = os.path.getsize(n)
            if how in ("half", "byte", "truncate", "rewrite same") and size == 0:
                how = "append"
            data = open(n, "rb").read()
            if how == "append":
                with open(n, "ab") as f:
                    f.write(b"1,z\n")
            elif how == "rewrite":
                write(n, b"k,t\n9,changed\n")
            elif how == "rewrite same":
                write(n, data)
            elif how == "truncate":
                os.truncate(n, 0)
            elif how == "half":
                os.truncate(n, size // 2)
            elif how == "extend":
                os.truncate(n, size + 10)
            elif how in ("byte", "held"):
                fd = self.fds[o["n"]] if how == "held" else os.open(n, os.O_RDWR)
                os.pwrite(fd, b"#", rng.randrange(size + 1))
                if how == "byte":
                    os.close(fd)
            else:
                a, b = os.open(write(os.path.join(subdir("src"), "s"), b"0,copied\n"), os.O_RDONLY), os.open(n, os.O_WRONLY)
                os.copy_file_range(a, b, 9) if rng.random() < 0.5 else os.sendfile(b, a, 0, 9)
                os.close(a)
                os.close(b)
        elif op == "touch":
            how = rng.choice(["read", "open rw", "open append", "utime", "chmod", "lock", "stat", "rename onto itself"])
            if how == "read":
                open(n, "rb").read()
            elif how in ("open rw", "open append"):
                os.close(os.open(n, os.O_RDWR | (os.O_APPEND if "append" in how else 0)))
            elif how == "utime":
                os.utime(n, (1000, rng.choice([1000, 2 ** 31 + 5])))
            elif how == "chmod":
                os.chmod(n, rng.choice([0o600, 0o444, 0o666]))
            elif how == "lock":
                with open(n, "r+b") as f:
                    fcntl.flock(f, fcntl.LOCK_EX)
            elif how == "stat":
                os.stat(n)
                os.listdir(os.path.dirname(n))
            else:
                os.rename(n, n)
        elif op == "create":
            how = rng.choice(["file", "file", "empty file", "directory", "symlink"]) if o["n"] in (3, 4) and self.last(o) else "file"
            if how == "directory":
                os.mkdir(n)
            elif how == "symlink":
                os.symlink(self.names[1], n)
            else:
                write(n, b"" if how == "empty file" else b"k,t\n1,new\n")
        elif op == "unlink":
            how = ""
            os.unlink(n)
        elif op == "rename":
            how = "replace" if os.path.lexists(m) else "move"
            os.rename(n, m)
        else:
            how = ""
            os.link(n, m)
        self.told.append("%s %s%s%s" % (op, self.label(o["n"]), " to " + self.label(o["m"]) if m else "", " (%s)" % how if how else ""))

    def last(self, o):
        return o is self.h["ops"][-1]

    def label(self, n):
        if not n:
            return ""
        p = os.path.relpath(self.names[n], self.w.d)
        return p + (" [input%s%s]" % ("" if self.h["die"][n - 1] else ", option disabled", ", symbolic link" if self.symlink == n else "") if n < 3 else "")


found = []


def replay(job):
    rng, h = job
    if len(found) >= 6:
        return None
    site = Site(rng, h)
    w = site.w
    wrong, out = [], []
    s = w.start()

    def bad(key, text):
        found.append(key)
        wrong.append((key, text + ". Operations: " + ", ".join(site.told) + ". Paths: " + ", ".join(x["path"] for x in w.cfg["inputs"]),
                      {"config": w.cfg, "history": h, "log": s.logtext()[-2000:]}))

    try:
        if not s.up:
            bad("startup", "rodb does not start: " + s.logtext()[-500:])
            return site, wrong, out
        clean = {1, 2}
        for o in h["ops"]:
            site.do(o)
            if o["op"] not in ("serve", "touch", "flood", "resume"):
                clean -= {o["n"], o["m"]}
                if h["link"] and o["op"] == "write" and o["n"] == 4:
                    clean -= {1}
            if o["stop"]:
                try:
                    rc = s.p.wait(15)
                    if rc <= 0:
                        bad("status", "the process ends with status %s after a change of an input file" % rc)
                except subprocess.TimeoutExpired:
                    bad("unnoticed", "a change of an input file does not stop the process")
                break
            if rng.random() < 0.5:
                time.sleep(rng.choice([0.001, 0.02, 0.1]))
        else:
            time.sleep(0.5)
            if s.p.poll() is not None:
                bad("stopped", "the process stopped (status %s) although no input which stops it has changed" % s.p.poll())
            else:
                for i in sorted(clean):
                    q = Req("/o%d" % i, rng.choice([[], [("t", "a")], [("limit", "2")]]))
                    out.append((q, s.get(q.target())))
                if s.p.poll() is not None:
                    bad("stopped", "the process stopped (status %s) although no input which stops it has changed" % s.p.poll())
    finally:
        for fd in site.fds.values():
            os.close(fd)
        s.__exit__()
    return site, wrong, out


def building(c, rng, die):
    """The input changes while the indexes are being built."""
    w = World()
    rows = [["%d" % (i % 7), "text %d %s" % (i, "abcdefgh" * 20)] for i in range(30000)]
    w.csv("in1", [("k", "string"), ("t", "string")], rows, die=die)
    kind = rng.choice(["fts5", "sqlite", "wildcard"])
    w.index("m", kind, "in1", ["t"] if kind != "wildcard" else ["t", "k"])
    w.W["inputs"]["in1"]["rows"] = []
    w.output("o1", "array", "in1")
    w.route("o1")
    s = w.start(wait=0)
    try:
        f = os.path.join(w.d, "m.idx" if kind == "wildcard" else "m.db")
        t0 = time.time()
        while time.time() - t0 < 20 and not os.path.exists(f) and s.p.poll() is None:
            time.sleep(0.001)
        with open(os.path.join(w.d, "in1.csv"), "ab") as g:
            g.write(b"7,added\n")
        up = "Started" in s.logtext()
        try:
            rc = s.p.wait(15 if die else 2)
        except subprocess.TimeoutExpired:
            rc = None
        if die and (rc is None or rc <= 0):
            c.violation("building", "a change of an input while the index %s is being built does not stop the process (status %s)" % (kind, rc), {"config": w.cfg, "log": s.logtext()[-1000:]})
        if not die and rc is not None:
            c.violation("building", "a change of an input while the index %s is being built stops the process (status %s) although this is disabled" % (kind, rc), {"config": w.cfg, "log": s.logtext()[-1000:]})
        c.cov["changes_while_indexing"] = c.cov.get("changes_while_indexing", 0) + (not up)
        c.traces += 1
    finally:
        s.__exit__()


def run(c):
    rng = c.rng
    good = {"MaxOps": "2", "History": "FALSE", "WatchFile": "TRUE", "WatchDir": "TRUE", "ByName": "TRUE", "Entries": "TRUE", "ByFlag": "TRUE", "Rescan": "TRUE", "Others": "FALSE"}
    c.design("Watcher", good, [{k: "FALSE"} for k in ("WatchFile", "WatchDir", "ByName", "Entries", "ByFlag")] + [{"Rescan": "FALSE", "MaxOps": "2"}] + [{"Others": "TRUE"}], small={"MaxOps": "1"})
    if THOROUGH:
        c.model("Watcher", constants={**good, "MaxOps": "3"})
    hs = set()
    for n in "123":
        r = c.model("Watcher", cfg="WatcherHistories.cfg", constants={**good, "History": "TRUE", "MaxOps": n})
        hs |= {json.loads(ln[len('<<"BEHAVIOUR", '):-2]) for ln in r.out.splitlines() if ln.startswith('<<"BEHAVIOUR", ')}
    hs = [json.loads(h) for h in sorted(hs)]
    c.cov["different_histories_in_the_models"] = len(hs)
    # for each different last operation, outcome and options: some histories, short ones first
    groups = {}
    for h in hs:
        o = h["ops"][-1]
        groups.setdefault((o["op"], o["n"], o["m"], o["stop"], tuple(h["die"]), h["link"]), []).append(h)
    pick = []
    for k in sorted(groups):
        g = groups[k]
        one = [h for h in g if len(h["ops"]) == 1]
        pick += rng.sample(one, min(1, len(one))) + rng.sample(g, min(len(g), 8 if THOROUGH else 1))
    # events lost before the last operation
    lost = [h for h in hs if h["ops"][-1]["op"] == "resume" and len(h["ops"]) > 2]
    for want in (True, False):
        g = [h for h in lost if h["ops"][-1]["stop"] is want]
        pick += rng.sample(g, min(len(g), 150 if THOROUGH else 12))
    # the simple changes with every way to make them
    for h in hs:
        if len(h["ops"]) == 1 and h["ops"][0]["op"] in ("write", "touch") and h["ops"][0]["n"] in (1, 4):
            pick += [h] * (20 if THOROUGH else 6)
    rng.shuffle(pick)
    jobs = [(random.Random(rng.random()), h) for h in pick]
    with cf.ThreadPoolExecutor(16) as ex:
        res = list(ex.map(replay, jobs))
    for r in res:
        if r is None:
            continue
        site, wrong, out = r
        for x in wrong:
            c.violation(*x)
        if out:
            wl = c.use_world(site.w)
            for q, a in out:
                c.record(wl, q, a, site.w, "answer")
        c.traces += 1
        if len(c.samples) < 8 and len(site.told) > 1:
            c.samples.append(", ".join(site.told))
    c.cov["histories_replayed"] = len(jobs)
    c.cov["histories_which_stop"] = sum(h["ops"][-1]["stop"] for h in pick)
    for i in range(12 if THOROUGH else 4):
        building(c, rng, i % 2 == 0)
    c.validate()
    c.assumptions.append("not specified: replacing the target of a symbolic link given as input, renaming the directory of an input, writing through a memory mapping, moving another hard link of an input")


from check import *
