"""P04: indexes sharing a SQLite database do not interfere."""
TECHNIQUE = 'TLA+ model of the names several indexes make in one database over several starts, exhausted by TLC; the histories TLC prints are replayed with real databases and hostile names, answers validated by TLC'
NOTE = 'SharedDb has 8 indexes (sqlite and full-text, two inputs) whose names and properties collide in every way the naming scheme allows (case, an index name which continues another, the names of SQL indexes and of shadow tables), every order of up to 3 of them in one configuration and 2 (thorough: 3) starts; TLC checks that an index in use only reads a complete table of its own and prints every different start. A sample is replayed on one real database each: names are built from random texts with quotes, dots, spaces, brackets, SQL words and other letters, keeping the collisions. Where the specification says it must serve it must, and whatever serves must answer as RodbQuery says, after restarts too. Variants with shared table names, or where an existing table is kept, are refuted.'
from life import *

KINDS = {1: "q", 2: "q", 3: "q", 4: "f", 5: "f", 6: "q", 7: "q", 8: "f"}
INPUT = {1: 1, 2: 2, 3: 1, 4: 1, 5: 2, 6: 2, 7: 2, 8: 2}
JUNK = ["", "", "'", '"', '""', "`", " ", "  ", ".", ";", "--", "%", "%w", "_", "\\", "[", "]", "[x]", "(", ")", ",", "?", ":n", "@p", "=", "/*", "*/", "é", "ß", "日本", " select", "table", "\t", "\n", "#", "|", "&", "1", "e1", "😀", "'; drop table x; --", '" (', "sqlite_", "rowid", "__offset", "rank", "offset", "null"]


class Names:
    def __init__(self, rng):
        junk = lambda: "".join(rng.choice(JUNK) for _ in range(rng.choice([0, 1, 1, 2])))
        a, b, cc = ("%s%s%s" % (junk() if rng.random() < 0.3 else "", x, junk()) for x in ("a", "b", "c"))
        if len({a.lower().replace("_", ""), b.lower().replace("_", ""), cc.lower().replace("_", "")}) < 3:
            a, b, cc = "a", "b", "c"
        sw = lambda s: "".join(ch.swapcase() if ch.isascii() else ch for ch in s)
        pj = lambda: "".join(rng.choice([j for j in JUNK if "." not in j]) for _ in range(rng.choice([0, 1, 1, 2])))
        y, z, x = "y" + pj(), "z" + pj(), "x" + pj()
        nest = rng.choice(["", "", "k", "é", "1x"])
        if nest:
            z += "." + nest
        self.props = {"x": x, "y_z": y + "_" + z, "z": z}
        self.index = {1: a, 2: sw(a), 3: a + "_" + y, 4: b, 5: sw(b), 6: cc, 7: a + "_index", 8: b + "_index"}
        ps = {1: ["x", "y_z"], 2: ["x"], 3: ["z"], 4: ["x", "z"], 5: ["z"], 6: ["x", "z"], 7: ["x"], 8: ["x"]}
        self.of = {n: [self.props[p] for p in l] for n, l in ps.items()}


def records(rng, props, n):
    recs = []
    for _ in range(n):
        r = {}
        for p in props:
            at = r
            ks = p.split(".")
            for k in ks[:-1]:
                at = at.setdefault(k, {})
            at[ks[-1]] = rng.choice(WORDS)
        recs.append(r)
    return recs


class Shared:
    def __init__(self, rng):
        self.rng, self.d, self.n = rng, subdir("shared"), Names(rng)
        ps = list(self.n.props.values())
        self.recs = {1: records(rng, ps, rng.randint(2, 6)), 2: records(rng, ps, rng.randint(2, 6))}
        self.db = os.path.join(self.d, rng.choice(["x.db", "x y.db", "é.db", "x"]))

    def world(self, cfg):
        w = World(self.d)
        for i in (1, 2):   # the files must stay as they are over the starts
            p = w.json("in%d" % i, self.recs[i], die=False)
            os.utime(p, (1000, 1000))
        for k in cfg:
            nm = self.n.index[k]
            w.index(nm, {"q": "sqlite", "f": "fts5"}[KINDS[k]], "in%d" % INPUT[k], self.n.of[k], dsn=self.db)
            if KINDS[k] == "q":
                w.output("o%d" % k, "array", "in%d" % INPUT[k], {"p%d" % j: (p, nm, "string") for j, p in enumerate(self.n.of[k])})
            else:
                w.output("o%d" % k, "array", "in%d" % INPUT[k], {"m": ("match", nm, "string")})
            w.route("o%d" % k)
        return w

    def requests(self, cfg):
        rng, rs = self.rng, []
        for k in cfg:
            for _ in range(2):
                if KINDS[k] == "f":
                    rs.append(Req("/o%d" % k, fts={"m": (rng.choice(["t", "p"]), codes(rng.choice(["ab", "ba", "aa", "bb", "cc", "a", "b"])))}))
                else:
                    j = rng.sample(range(len(self.n.of[k])), rng.randint(1, len(self.n.of[k])))
                    rs.append(Req("/o%d" % k, [("p%d" % i, rng.choice(WORDS)) for i in j]))
        rng.shuffle(rs)
        return rs


def replay(job):
    sh, h = job
    out, wrong = [], []
    again = sh.rng.random() < 0.4
    for i, e in enumerate(h + ([h[-1]] if again and h[-1]["up"] else [])):
        w = sh.world(e["cfg"])
        s = w.start()
        rs = []
        if s.up:
            with s:
                rs = [(q, s.get(q.target())) for q in sh.requests(e["cfg"])]
                s.stop()
        out.append((w, rs))
        told = "; ".join(",".join("%s %r on %r" % ({"q": "sqlite", "f": "fts5"}[KINDS[k]], sh.n.index[k], sh.n.of[k]) for k in x["cfg"]) + " -> %s" % ("up" if x["up"] else "refused") for x in h[:i + 1])
        if e["up"] and not s.up:
            wrong.append(("refused", "indexes whose names do not collide are refused. History: %s" % told, {"config": w.cfg, "routes": w.routes, "files": read_files(w), "log": s.logtext()[-2000:]}))
        if s.up != e["up"]:
            break
    shutil.rmtree(sh.d, ignore_errors=True)
    return out, wrong


def run(c):
    good = {"MaxStarts": "2", "MaxTogether": "2", "Universe": "{1,2,3,4,5,6,7,8}", "ByIndex": "TRUE", "FailIfExists": "TRUE", "QualifySql": "TRUE"}
    for b in ({"ByIndex": "FALSE", "FailIfExists": "FALSE"}, {"FailIfExists": "FALSE"}):
        c.model_refutes("SharedDb", constants={**good, **b})
    k = 1 if not THOROUGH else 6
    hs = []
    for extra in ({}, {"MaxTogether": "3", "MaxStarts": "1"}) + (({"MaxStarts": "3", "Universe": "{1,2,3,4,5}"}, {"MaxStarts": "3", "Universe": "{1,3,6,7,8}"}) if THOROUGH else ()):
        r = c.model("SharedDb", constants={**good, **extra})
        b = [json.loads(json.loads(ln[len('<<"BEHAVIOUR", '):-2])) for ln in r.out.splitlines() if ln.startswith('<<"BEHAVIOUR", ')]
        c.cov["different_starts_in_the_models"] = c.cov.get("different_starts_in_the_models", 0) + len(b)
        # mostly the starts which are not simply of indexes each alone
        up = [h for h in b if h[-1]["up"]]
        down = [h for h in b if not h[-1]["up"]]
        hs += c.rng.sample(up, min(len(up), 160 * k)) + c.rng.sample(down, min(len(down), 60 * k))
    jobs = [(Shared(random.Random(c.rng.random())), h) for h in hs]
    with cf.ThreadPoolExecutor(12) as ex:
        res = list(ex.map(replay, jobs))
    for (sh, h), (out, wrong) in zip(jobs, res):
        for x in wrong:
            c.violation(*x)
        for w, rs in out:
            if rs:
                wl = c.use_world(w)
                for q, r in rs:
                    c.record(wl, q, r, w, "answer")
    c.cov["histories_replayed"] = len(hs)
    c.cov["starts_of_the_program"] = sum(len(o) for o, _ in res)
    reserved(c)
    c.validate()


def reserved(c):
    """Properties a full-text table cannot have are refused, and stay refused; the others in the database keep answering."""
    rng = c.rng
    for p in ["__offset", "rank", "rowid", "ROWID", "Rank", "__Offset"]:
        sh = Shared(random.Random(rng.random()))
        sh.n.of[4] = ["x0", p]
        for r in sh.recs[1] + sh.recs[2]:
            r.update({"x0": rng.choice(WORDS), p: rng.choice(WORDS)})
        for cfg in ([6], [6, 4], [6, 4], [6]):
            w = sh.world(cfg)
            s = w.start()
            if not s.up and cfg == [6]:
                c.violation("reserved", "an index is refused because of another one which could not be made: %r" % p, {"config": w.cfg, "log": s.logtext()[-2000:]})
            if s.up:
                with s:
                    wl = c.use_world(w)
                    for q in sh.requests(cfg):
                        c.record(wl, q, s.get(q.target()), w, "reserved")
                    s.stop()


from check import *
