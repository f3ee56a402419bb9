"""Replaying histories of spec/Lifecycle.tla on real files, indexes and processes."""
import hashlib, sqlite3
from gen import *

WORDS = ["ab", "ba", "aa", "bb", "Ab", "bA", "cc", "é a", "a é", "b b"]


def behaviours(c, rng, many, want=lambda h: True, slots="wqf", one_change=False, **constants):
    """The histories TLC prints for the starts from different states; a sample of the longest ones."""
    k = {"Times": "{1,2,3}", "CheckSize": "TRUE", "CheckTime": '"equal"', "CheckDone": "TRUE", "CheckFormat": "TRUE", "CheckSettings": "TRUE", "Rebuild": "FALSE", "Order": '"%s"' % slots, **constants}
    r = c.model("Lifecycle", constants=k)
    hs = []
    for ln in r.out.splitlines():
        if ln.startswith('<<"BEHAVIOUR", '):
            h = json.loads(json.loads(ln[len('<<"BEHAVIOUR", '):-2]))
            if want(h):
                hs.append(h)
    if one_change:   # one history for each different single change between an accepted start and the next
        keys = {}
        for h in hs:
            if len(h) >= 3 and h[-3]["a"] == "start" and h[-3]["up"] and h[-2]["a"] != "start":
                keys.setdefault((json.dumps(state_before(h), sort_keys=True), json.dumps(h[-2], sort_keys=True)), []).append(h)
        hs = [rng.choice(sorted(v, key=lambda h: json.dumps(h, sort_keys=True))) for k, v in sorted(keys.items())]
    hs.sort(key=lambda h: (len(h), json.dumps(h, sort_keys=True)))
    c.cov["different_starts_in_the_models"] = c.cov.get("different_starts_in_the_models", 0) + len(hs)
    if len(hs) <= many:
        return [(slots, h) for h in hs]
    short = [h for h in hs if len(h) <= 3]
    short = short if len(short) < many // 4 else rng.sample(short, many // 4)
    # as many refused as accepted starts among the longer ones
    rest = [h for h in hs if len(h) > 3]
    up, down = [h for h in rest if h[-1]["up"]], [h for h in rest if not h[-1]["up"]]
    n = many - len(short)
    a = rng.sample(up, min(len(up), n // 2))
    return [(slots, h) for h in short + a + rng.sample(down, min(len(down), n - len(a)))]


def state_before(h):
    """The file and settings before the last change of a history."""
    f, k = {"c": 1, "t": 2}, {"icase": False, "props": 2}
    for e in h[:-2]:
        if e["a"] == "edit":
            f = {"c": e["c"], "t": e["t"]}
        if e["a"] == "config":
            k = {"icase": e["icase"], "props": e["props"]}
    return f if h[-2]["a"] == "edit" else k


class Installation:
    """Three contents (two of the same size), one wildcard, one sqlite and one full-text index."""

    def __init__(self, rng, slots="wqf"):
        self.rng, self.slots = rng, slots
        self.d = subdir("life")
        self.kind = rng.choice(["csv", "csv", "json", "xml"])
        n = rng.randint(3, 7)
        one = [[rng.choice(WORDS), rng.choice(WORDS), rng.choice(WORDS)] for _ in range(n)]
        two = one
        while two == one:
            two = [list(r) for r in one]
            how = rng.choice(["reverse", "swap", "columns", "letter"])
            if how == "reverse":
                two.reverse()
            elif how == "swap":
                i, j = rng.randrange(n), rng.randrange(n)
                two[i], two[j] = two[j], two[i]
            elif how == "columns":
                two = [[r[2], r[0], r[1]] for r in two]
            else:
                i, j = rng.randrange(n), rng.randrange(3)
                two[i][j] = "".join({"a": "b", "b": "a", "A": "B"}.get(x, x) for x in two[i][j])
            if one == [list(r) for r in two] and len({tuple(r) for r in one}) == 1:
                one[0][0], one[0][1] = "ab", "ba"
        three = rng.choice([one + [[rng.choice(WORDS) for _ in range(3)]], one[:-1], one[1:], one + two])
        self.contents = {1: one, 2: two, 3: three}
        base = rng.choice([1000, 10 ** 9, 1600000000, 2 ** 31 - 1, 2 ** 31 + 7, 4000000000])
        delta = rng.choice([1, 1, 1, 60, 86400])
        self.times = {t: (base + (t - 2) * delta) * 10 ** 9 + rng.choice([0, 1, 999999999, 123456789]) for t in (1, 2, 3)}
        self.order = rng.sample("wqf", 3)     # the order of the requests
        self.c, self.t, self.conf = 1, 2, {"icase": False, "props": 2}
        self.w = self.world()

    def world(self):
        w = World(self.d)
        rows = self.contents[self.c]
        if self.kind == "csv":
            p = w.csv("in", [("id", "integer"), ("a", "string"), ("b", "string"), ("t", "string")], [[str(i % 10)] + list(r) for i, r in enumerate(rows)], die=False)
        elif self.kind == "json":
            p = w.json("in", [{"id": i % 10, "a": r[0], "b": r[1], "t": r[2]} for i, r in enumerate(rows)], die=False)
        else:
            recs = [elem("item", c=[elem("id", t=str(i % 10))] + [elem(k, t=v) for k, v in zip("abt", r)]) for i, r in enumerate(rows)]
            p = w.xml("in", [{"name": "id", "x": X("number", "id"), "parser": "integer"}] + [{"name": k, "x": X("string", k)} for k in "abt"], recs,
                      "<r>" + "".join(map(xml_text, recs)) + "</r>", "//item", die=False)
        os.utime(p, ns=(self.times[self.t], self.times[self.t]))
        self.path = p
        for s in self.slots:
            if s == "w":
                w.index("w", "wildcard", "in", ["a", "b"][:self.conf["props"]], icase=self.conf["icase"])
            else:
                w.index(s, *(("sqlite", "in", ["a", "b"]) if s == "q" else ("fts5", "in", ["t", "b"])))
        ps = {"w": {"w": ("a", "w", "string"), **({"wb": ("b", "w", "string")} if self.conf["props"] == 2 else {})},
              "q": {"q": ("a", "q", "string"), "qb": ("b", "q", "string")}, "f": {"m": ("match", "f", "string")}}
        for s in self.slots:
            w.output("o" + s, "array", "in", ps[s])
            w.route("o" + s)
        w.output("oa", "array", "in", {n: p for s in self.slots for n, p in list(ps[s].items())[-1:]})
        w.route("oa")
        return w

    def store(self, s):
        return os.path.join(self.d, s + (".idx" if s == "w" else ".db"))

    def snapshot(self, s):
        p = self.store(s)
        try:
            st = os.stat(p)
            return (st.st_size, st.st_mtime_ns, hashlib.sha256(open(p, "rb").read()).hexdigest())
        except (FileNotFoundError, IsADirectoryError):
            return None

    def requests(self):
        rng = self.rng
        v = lambda: rng.choice(rng.choice(list(self.contents[self.c]))) if rng.random() < 0.8 else "zz"
        word = lambda: rng.choice(["ab", "ba", "aa", "bb", "cc", "a", "b", "zz"])
        sub = lambda: rng.choice(["a", "b", "B", "A", "ab", "é", v(), v()])
        fq = lambda: {"m": (rng.choice(["t", "p"]), codes(word()))}
        rs, wn = [], ["w", "wb"][:self.conf["props"]]
        for s in self.slots:
            rs.append(Req("/ow", [(rng.choice(wn), sub())]) if s == "w" else Req("/oq", [(rng.choice(["q", "qb"]), v())]) if s == "q" else Req("/of", fts=fq()))
        rs.append(Req("/oa", ([(wn[-1], rng.choice("ab"))] if "w" in self.slots else []) + ([("qb", v())] if "q" in self.slots else []), fts=fq() if "f" in self.slots else None))
        rng.shuffle(rs)
        return rs

    def tamper(self, s, field):
        p, rng = self.store(s), self.rng
        if os.path.isdir(p) or (s == "w" and field != "readable" and os.path.getsize(p) < 47):
            return   # destroyed by an earlier step
        if s == "w":
            b = bytearray(open(p, "rb").read())
            if field == "version":
                b[19:21] = rng.choice([b"\0\0", b"\0\2", b"\1\1", b"\xff\xff", b"\1\0"])
            elif field == "magic":
                i = rng.randrange(19)
                b[i] ^= rng.choice([1, 32, 128])
            elif field == "done":
                b[38] = 0
            else:
                how = rng.choice(["cut", "cut", "dir", "text", "empty"])
                if how == "dir":
                    os.unlink(p)
                    os.mkdir(p)
                    return
                b = b[:rng.randrange(47)] if how == "cut" else b"" if how == "empty" else b"# something else\n" * rng.randint(1, 30)
            keep = b
            open(p, "wb").write(bytes(keep))
            return
        m = '"rodb_%s_metadata"' % s
        if field == "readable":
            how = rng.choice(["text", "norow", "notable", "header"])
            if how in ("norow", "notable"):
                try:
                    self.sql(p, ("DELETE FROM " if how == "norow" else "DROP TABLE ") + m)
                except sqlite3.DatabaseError:
                    pass
            else:
                b = bytearray(open(p, "rb").read())
                if how == "header":
                    b[0] ^= 1
                else:
                    b = b"# something else\n" * 60
                open(p, "wb").write(bytes(b))
            return
        try:
            self.sql(p, "UPDATE %s SET %s" % (m, '"version" = %d' % rng.choice([0, 2, 65535, 257]) if field == "version" else '"completed" = 0'))
        except sqlite3.DatabaseError:
            pass   # no longer a database, from an earlier step

    @staticmethod
    def sql(p, q):
        db = sqlite3.connect(p)
        try:
            db.execute(q)
            db.commit()
        finally:
            db.close()

    def apply(self, e):
        if e["a"] == "edit":
            self.c, self.t = e["c"], e["t"]
            self.w = self.world()
        elif e["a"] == "config":
            self.conf = {"icase": e["icase"], "props": e["props"]}
            self.w = self.world()
        elif e["a"] == "tamper":
            self.tamper(e["slot"], e["field"])
        elif e["a"] == "remove":
            p = self.store(e["slot"])
            if os.path.isdir(p):
                os.rmdir(p)
            else:
                os.unlink(p)


def describe(inst, h):
    return {"history": h, "kind": inst.kind, "contents": inst.contents, "times_ns": inst.times, "config": inst.w.cfg, "files": read_files(inst.w)}


def replay(c, job):
    """Runs one history; returns the records to be validated and the disagreements found."""
    inst, h = job
    out, wrong = [], []
    again = inst.rng.random() < 0.3
    for i, e in enumerate(h + ([h[-1]] if again else [])):
        if e["a"] != "start":
            inst.apply(e)
            continue
        broken = {x["slot"] for x in h[:i] if x["a"] == "tamper" and x["field"] == "readable"}   # no store any more: nothing to keep
        kept = {s: inst.snapshot(s) for s in (e["kept"] if i < len(h) else [s for s in inst.slots if inst.snapshot(s)])}
        w = inst.w
        s = w.start()
        rs = []
        if s.up:
            reqs = inst.requests()
            with s:
                rs = [(q, s.get(q.target())) for q in reqs]
                if inst.rng.random() < 0.8:
                    rc = s.stop()
                    if rc != 0:
                        wrong.append(("stop", "the process ends with status %s after an interrupt" % rc, describe(inst, h[:i + 1])))
        else:
            rc = s.p.poll()
            if rc == 0:
                wrong.append(("status", "a refused start ends with status 0", {**describe(inst, h[:i + 1]), "log": s.logtext()[-2000:]}))
        if s.up != e["up"]:
            wrong.append(("start", "the process %s; the specification says it must %s. History: %s" % ("serves" if s.up else "refuses to start", "serve" if e["up"] else "refuse to start", brief(h[:i + 1])),
                          {**describe(inst, h[:i + 1]), "log": s.logtext()[-2000:], "answers": [(q.target(), repr(r)) for q, r in rs]}))
        out.append((w, rs))
        for k, before in kept.items():
            if before is not None and k not in broken and inst.snapshot(k) != before:
                wrong.append(("modified", "the stored index %s is modified by a start (%s before, %s after). History: %s" % (k, before, inst.snapshot(k), brief(h[:i + 1])), describe(inst, h[:i + 1])))
        if wrong:
            break
    shutil.rmtree(inst.d, ignore_errors=True)
    return out, wrong


def brief(h):
    t = []
    for e in h:
        t.append(e["a"] + (" content %d at time %d" % (e["c"], e["t"]) if e["a"] == "edit" else " icase=%s props=%d" % (e["icase"], e["props"]) if e["a"] == "config"
                           else " %s.%s" % (e["slot"], e["field"]) if e["a"] == "tamper" else " " + e["slot"] if e["a"] == "remove" else " -> %s" % ("up" if e["up"] else "refused")))
    return "; ".join(t)


def replay_all(c, hs, prefix=""):
    """hs: [(slots, history)]"""
    jobs = [(Installation(random.Random(c.rng.random()), slots), h) for slots, h in hs]
    with cf.ThreadPoolExecutor(10) as ex:
        res = list(ex.map(lambda j: replay(c, j), jobs))
    worlds = {}
    for (inst, h), (out, wrong) in zip(jobs, res):
        for key, text, rep in wrong:
            c.violation(prefix + key, text, rep)
        for w, rs in out:
            if rs:
                k = json.dumps(w.W, sort_keys=True)
                if k not in worlds:
                    worlds[k] = c.use_world(w)
                for q, r in rs:
                    c.record(worlds[k], q, r, w, prefix + "answer")
    c.cov["histories_replayed"] = c.cov.get("histories_replayed", 0) + len(hs)
    c.cov["starts_of_the_program"] = c.cov.get("starts_of_the_program", 0) + sum(len(o) for o, _ in res)
    if len(c.samples) < 3:
        c.samples += [brief(h) for _, h in hs[-3:]]


from check import *
