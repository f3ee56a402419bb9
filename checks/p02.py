"""P02: a crash while indexing never leaves a usable partial index."""
TECHNIQUE = 'TLA+ models of the index builds, dying anywhere, exhausted by TLC; on the real program every recorded sequence of writes is cut at every point, restarted on, and the answers validated by TLC'
NOTE = 'WildcardBuild (cells through a buffer, the completed mark, a death in any state) and SqliteBuild (statements writing pages in any order, several deaths and restarts) are exhausted, with refuted variants. The writes of real builds (wildcard, sqlite, full-text, alone, together, sharing a database, added to a finished one) are recorded with strace; for each prefix of them (for the wildcard file also inside a write) the files are rebuilt and rodb restarted, twice: it must refuse, or give answers RodbQuery allows; so must it after a second death, after a failing record, a full disk (file size limit) and a kill at a random time.'
from crash import *


def small(rng, kinds, n, wide=0, shared=False, xdir=None):
    w = World(xdir)
    pad = lambda: "".join(rng.choice("xyzt ") for _ in range(rng.randint(0, wide)))
    ws = ["ab", "ba", "abc", "b", "é", "cab"]
    rows = [[str(i), rng.choice(ws) + pad(), rng.choice(ws), rng.choice(ws) + " " + rng.choice(ws)] for i in range(n)]
    if rng.random() < 0.5:
        w.csv("in", [("id", "integer"), ("a", "string"), ("b", "string"), ("t", "string")], rows)
        idp = "integer"
    else:
        w.json("in", [dict(zip(("id", "a", "b", "t"), [int(r[0])] + r[1:])) for r in rows])
        idp = "float"
    os.utime(w.cfg["inputs"][0]["path"], ns=(1600000000 * 10 ** 9 + 5, 1600000000 * 10 ** 9 + 5))
    ps = {}
    reqs = []
    T = lambda: (rng.choice(["t", "p"]), codes(rng.choice(ws)))
    for k, kind in enumerate(kinds):
        name = "%s%d" % (kind, k)
        dsn = os.path.join(w.d, "shared.db") if shared else None
        if kind == "wildcard":
            w.index(name, kind, "in", rng.choice([["a"], ["a", "b"], ["b", "a"]]), icase=rng.random() < .3)
            p = {"a%d" % k: ("a", name, "string")}
            qs = [[("a%d" % k, x)] for x in ["a", "b", "ab", "c", "é", ""]]
        elif kind == "sqlite":
            w.index(name, kind, "in", rng.choice([["a", "b"], ["b"], ["id", "b", "t"]]), dsn=dsn)
            p = {"b%d" % k: ("b", name, "string")}
            qs = [[("b%d" % k, x)] for x in ws]
        else:
            w.index(name, kind, "in", ["t", "a"], dsn=dsn)
            p = {"m%d" % k: ("match", name, "string")}
            qs = None
        w.route(w.output("o%d" % k, "array", "in", p))
        if qs is None:
            reqs += [Req("/o%d" % k, fts={"m%d" % k: ("p", codes(x))}) for x in ("a", "b", "c", "é")]
        else:
            reqs += [Req("/o%d" % k, q) for q in qs]
    w.index("map", "map", "in", ["id"])
    w.route(w.output("om", "array", "in", {"id": ("id", "map", idp)}))
    reqs.append(Req("/om", [("id", "1")]))
    return w, reqs


def cuts(rng, ops, many):
    """Where to cut: every operation if there are few of them, else the first and last ones and some others.
    Writes to the wildcard file are also cut inside."""
    ks = list(range(len(ops) + 1))
    if len(ks) > many:
        ks = sorted(set(ks[:many // 4] + ks[-many // 3:] + rng.sample(ks, many // 2)))
    out = []
    for k in ks:
        out.append((k, None))
        if k < len(ops) and ops[k][1] == "write" and ops[k][0].endswith(".idx"):
            n = len(ops[k][3])
            at = set(range(1, n)) if n <= 64 and rng.random() < .3 else {rng.randrange(1, n) for _ in range(2)} if n > 1 else set()
            out += [(k, b) for b in sorted(at)[:60 if k in (0, len(ops) - 1) else 8]]
    return out


def image(before, ops, cut):
    k, b = cut
    done = list(ops[:k])
    if b is not None:
        done.append(ops[k][:3] + (ops[k][3][:b],))
    return apply_ops(before, done)


def restart(w, files, reqs):
    """Two starts on what a crash left: [(served?, exit status, answers)]."""
    v = clone(w, files)
    res = []
    for _ in range(2):
        s = v.start()
        rs = []
        if s.up:
            with s:
                rs = [s.get(q.target()) for q in reqs]
                s.stop()
        res.append((s.up, s.p.poll(), rs, s.logtext()[-800:]))
    shutil.rmtree(v.d, ignore_errors=True)
    return res


def judge(c, w, reqs, tried, what):
    """tried: [(description, results of restart, must it serve?)]."""
    wl, n = None, 0
    for desc, res, must in tried:
        for j, (up, rc, rs, log) in enumerate(res):
            if must and not up:
                c.violation("refused", "rodb refuses to start on a complete index (%s): %s" % (desc, log), {"config": w.cfg, "files": read_files(w)})
            if not up and rc == 0:
                c.violation("status", "a refused start ends with status 0 (%s)" % desc, {"config": w.cfg, "log": log})
            if up and n < 60:
                n += 1
                if wl is None:
                    wl = c.use_world(w)
                w.server = type("S", (), {"logtext": lambda self, d=desc, l=log: "%s\n%s" % (d, l)})()
                for q, r in zip(reqs, rs):
                    c.record(wl, q, r, w, "partial")
    served = sum(r[0] for _, res, _ in tried for r in res)
    c.cov["crash_images"] = c.cov.get("crash_images", 0) + len(tried)
    c.cov["crash_images_served"] = c.cov.get("crash_images_served", 0) + served
    c.cov.setdefault("builds", []).append("%s: %d images" % (what, len(tried)))


def cut_everywhere(c, w, reqs, many, what, again=0):
    up, before, ops = record_build(w)
    if not up:
        c.violation("startup", "rodb refuses to build an index: " + w.server.logtext()[-600:], {"config": w.cfg})
        return
    cs = cuts(c.rng, ops, many)
    full = (len(ops), None)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: restart(w, image(before, ops, x), reqs), cs))
    judge(c, w, reqs, [("stopped after %d of %d writes%s" % (x[0], len(ops), "" if x[1] is None else " and %d bytes" % x[1]), r, x == full) for x, r in zip(cs, res)], what)
    # a second death, in a start on what the first one left
    for x in c.rng.sample(cs, min(again, len(cs))):
        v = clone(w, image(before, ops, x))
        up2, before2, ops2 = record_build(v)
        if ops2:
            cs2 = cuts(c.rng, ops2, 25)
            with cf.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda y: restart(v, image(before2, ops2, y), reqs), cs2))
            judge(c, v, reqs, [("stopped after %d of %d writes, restarted and stopped after %d of %d" % (x[0], len(ops), y[0], len(ops2)), r, False) for y, r in zip(cs2, res)], what + " (second death)")
        shutil.rmtree(v.d, ignore_errors=True)
    c.validate()
    shutil.rmtree(w.d, ignore_errors=True)


def limited(c, w, reqs, tries):
    """A full disk, at several points (the size of any file is limited), and kills at random times."""
    w0 = clone(w, {})
    t = time.time()
    s = w0.start()
    dur = time.time() - t
    if not s.up:
        return
    s.stop()
    sizes = [os.path.getsize(p) for p in store_files(w0)]
    shutil.rmtree(w0.d, ignore_errors=True)
    tried = []

    def one(k):
        v = clone(w, {})
        rng = random.Random(k)
        if k % 2:
            lim = max(600, int(max(sizes) * rng.random()))
            s = Server(v.cfg, v.d, v.routes, prefix=("prlimit", "--fsize=%d" % lim), env={"GOTRACEBACK": "none"}, wait=60)
            d = "file sizes limited to %d bytes" % lim
            s.kill()
        else:
            s = Server(v.cfg, v.d, v.routes, wait=0)
            time.sleep(rng.random() * dur * 1.1)
            s.kill()
            d = "killed at a random time of the build"
        s.log.close()
        files = present(v.d, store_files(v))
        r = restart(w, {p.replace(v.d, w.d): b for p, b in files.items()}, reqs)
        shutil.rmtree(v.d, ignore_errors=True)
        return d, r, False
    with cf.ThreadPoolExecutor(6) as ex:
        tried = list(ex.map(one, [c.rng.randrange(10 ** 9) * 2 + i % 2 for i in range(tries)]))
    judge(c, w, reqs, tried, "limits and kills")
    c.validate()
    shutil.rmtree(w.d, ignore_errors=True)


def broken_record(c, kind):
    """The build fails at a record; the file is then repaired with the same size and time."""
    rng = c.rng
    for at in range(5):
        w = World()
        w.csv("in", [("id", "integer"), ("a", "string")], [[str(i), "ab"] for i in range(5)])
        p = w.cfg["inputs"][0]["path"]
        good = open(p, "rb").read()
        lines = good.split(b"\n")
        lines[at + 1] = b'%d,"b' % at      # a quote which never ends
        bad = b"\n".join(lines)
        bad = (bad + b"#" * 100)[:len(good)] if len(bad) < len(good) else bad[:len(good)]
        name = w.index("x", kind, "in", ["a"])
        w.route(w.output("o", "array", "in", {"a": ("match" if kind == "fts5" else "a", name, "string")}))
        q = Req("/o", fts={"a": ("t", codes("ab"))}) if kind == "fts5" else Req("/o", [("a", "ab")])
        res = []
        for data in (bad, bad, good, good):
            open(p, "wb").write(data)
            os.utime(p, (1600000000, 1600000000))
            s = w.start()
            rs = []
            if s.up:
                with s:
                    rs = [s.get(q.target())]
                    s.stop()
            res.append((s.up, s.p.poll(), rs, s.logtext()[-600:]))
            if s.up and data is bad:
                c.violation("unreadable", "rodb starts although record %d cannot be read" % at, {"config": w.cfg, "files": read_files(w)})
        judge(c, w, [q], [("built on a file whose record %d is unreadable, then repaired" % at, res[2:], False)], "unreadable record")
        c.validate()


def run(c):
    c.design("WildcardBuild", {"MaxNodes": "5" if THOROUGH else "4", "MaxWrites": "9" if THOROUGH else "7", "MaxBuffer": "2", "FlushFirst": "TRUE", "MarkLast": "TRUE"}, [{"FlushFirst": "FALSE"}, {"MarkLast": "FALSE"}])
    c.design("SqliteBuild", {"Rows": "4", "MaxDeaths": "4", "MarkLast": "TRUE", "RefuseUnmarked": "TRUE", "Resume": "FALSE"}, [{"MarkLast": "FALSE"}, {"RefuseUnmarked": "FALSE"}, {"Resume": "TRUE"}])
    rng = c.rng
    k = 1 if not THOROUGH else 5
    traced = strace_works()
    c.cov["writes_recorded_with_strace"] = traced
    if traced:
        for _ in range(k):
            for kinds, n, wide, shared, many, again in [
                    (["wildcard"], 4, 0, False, 60, 1), (["wildcard"], 14, 60, False, 90, 1), (["sqlite"], 5, 0, False, 90, 2), (["fts5"], 4, 0, False, 90, 2),
                    (["sqlite"], 40, 400, False, 120, 0), (["fts5"], 40, 200, False, 90, 0), (["sqlite", "fts5", "sqlite"], 3, 0, True, 150, 2), (["wildcard", "fts5", "sqlite"], 3, 0, False, 120, 1)]:
                w, reqs = small(rng, kinds, n, wide, shared)
                cut_everywhere(c, w, reqs, many * (1 if not THOROUGH else 4), "+".join(kinds) + (" in one database" if shared else ""), again if not THOROUGH else 4)
            # an index added to a database which already holds a finished one
            w, reqs = small(rng, ["sqlite", "fts5"], 4, 0, True)
            part = copy.copy(w)
            part.cfg = {**w.cfg, "indexes": [x for x in w.cfg["indexes"] if x["name"] != "fts51"], "outputs": [o for o in w.cfg["outputs"] if o["name"] != "o1"]}
            part.routes = [r for r in w.routes if r["output"] != "o1"]
            s = part.start()
            if s.up:
                s.stop()
                cut_everywhere(c, w, reqs, 100, "full-text index added to a finished database", 1)
    for kinds in (["wildcard"], ["sqlite"], ["fts5"]) if not THOROUGH else [["wildcard"], ["sqlite"], ["fts5"]] * 3 + [["wildcard", "fts5", "sqlite"]]:
        w, reqs = small(rng, kinds, 300, 40, False)
        limited(c, w, reqs, 12 if not THOROUGH else 60)
    for kind in ("wildcard", "sqlite", "fts5"):
        broken_record(c, kind)
    c.assumptions.append("a process dies between two system calls, or inside a write to the wildcard file; the system itself does not lose or reorder completed writes")
