"""P01: restarting on a persisted index gives the same answers."""
TECHNIQUE = 'TLA+ model of the life of an installation exhausted by TLC; histories of builds, stops, kills, removals and restarts on real processes, every answer validated by TLC'
NOTE = 'Lifecycle without changes of the file (starts and removed stores, every order of three index kinds) is exhausted and its histories are replayed. Then larger random worlds (wildcard indexes over several nodes buffers, every tokenizer and collation, several indexes per input, JSON, CSV and XML inputs) are served by a chain of processes: built, stopped or killed, restarted several times, also two processes at once, or with one store removed; in each process other requests are asked, every answer must be the one of RodbQuery, whichever process gives it, the same request gets one same answer in all of them, and the stored indexes keep their bytes and modification times.'
from life import *
import q02, q03


def wildcard_world(c, n, ln, alpha, nr):
    return q02.random_world(c, n, ln, alpha, nr)


def fts_world(c, n, nr):
    w, ps, specs = q03.world(c, n)
    return w, q03.requests(c.rng, ps, specs, nr)


def mixed_world(c, n, nr, wide):
    """Every kind of input and of stored index, sharing inputs; exact values of every type."""
    rng = c.rng
    w = World()
    w.parser("list", "split", delim="|", parser="string")
    doms = {}
    doms["c"] = csv_typed(w, rng, "c", n, wide=wide)
    doms["j"] = json_typed(w, rng, "j", n)
    doms["x"] = xml_typed(w, rng, "x", n)
    reqs, outs = [], []
    for inp in "cjx":
        ps = {}
        kinds = ["sqlite"] * 2 + (["wildcard"] if inp != "j" else []) + ["map"]
        for k, kind in enumerate(kinds):
            scal = [p for p in doms[inp] if p not in ("arr", "o", "m", "l1", "l2")]
            if kind == "wildcard":
                scal = [p for p in scal if doms[inp][p][0] == "string" and inp == "x"] or None
            if not scal:
                continue
            cols = rng.sample(scal, min(len(scal), rng.randint(1, 4)))
            if kind == "wildcard":
                cols = [p for p in cols if p in ("s1", "k")] or ["s1"]
            ix = w.index("%s%d%s" % (kind, k, inp), kind, inp, cols, collate={p: rng.choice(["binary", "nocase", "rtrim"]) for p in cols} if kind == "sqlite" else None, icase=rng.random() < .5)
            for p in cols:
                ps["%s_%d" % (safe(p), k)] = (p, ix, doms[inp][p][0])
        w.route(w.output("o" + inp, "array", inp, ps, ldef=1000))
        outs.append((inp, ps))
    for _ in range(nr):
        inp, ps = rng.choice(outs)
        reqs.append(Req("/o" + inp, [(n_, rng.choice(doms[inp][ps[n_][0]][1] + ["zz", "1"])) for n_ in rng.sample(sorted(ps), rng.choice([1, 1, 2]))]))
    return w, reqs


def stores(w):
    out = {}
    for ix in w.cfg["indexes"]:
        p = ix.get("path") or ix.get("dsn")
        if p and p != ":memory:" and os.path.exists(p):
            st = os.stat(p)
            out[p] = (st.st_size, st.st_mtime_ns, hashlib.sha256(open(p, "rb").read()).hexdigest())
    return out


def chain(c, w, reqs, steps):
    """steps: what happens before each further start."""
    rng, history = c.rng, {}
    wl = c.use_world(w)

    def ask(s, share):
        some = rng.sample(reqs, max(1, int(len(reqs) * share)))
        with cf.ThreadPoolExecutor(4) as ex:
            for q, r in zip(some, ex.map(lambda q: s.get(q.target()), some)):
                history.setdefault(q.target(), (q, []))[1].append(r)
    told = []
    for i, step in enumerate(["build"] + steps):
        told.append(step)
        before = stores(w)
        if step == "remove" and before:
            p = rng.choice(sorted(before))
            os.unlink(p)
            del before[p]
        s = w.start()
        if not s.up:
            c.violation("restart", "rodb refuses to start on unchanged files after: %s\n%s" % (", ".join(told), s.logtext()[-600:]), {"config": w.cfg, "routes": w.routes, "history": told, "files": read_files(w)})
            return
        with s:
            ask(s, 1.0 if i in (0, 1) else 0.5)
            if step == "two at once":
                other = Server(w.cfg, w.d, w.routes)
                if not other.up:
                    c.violation("restart", "a second process refuses to start on the stored indexes: " + other.logtext()[-600:], {"config": w.cfg, "history": told})
                    return
                with other:
                    ask(other, 0.5)
                    ask(s, 0.3)
                    other.stop()
            if step == "kill":
                s.kill()
            else:
                rc = s.stop()
                if rc != 0:
                    c.violation("stop", "the process ends with status %s after an interrupt" % rc, {"history": told, "log": s.logtext()[-2000:]})
        after = stores(w)
        for p in before:
            if after.get(p) != before[p]:
                c.violation("modified", "the stored index %s is modified by a restart on unchanged files (%s -> %s), after: %s" % (os.path.basename(p), before[p], after.get(p), ", ".join(told)), {"config": w.cfg, "history": told, "files": read_files(w)})
        c.cov["starts_of_the_program"] = c.cov.get("starts_of_the_program", 0) + 1
    for q, rs in history.values():
        c.answers(wl, q, rs, w)
    c.cov["chains"] = c.cov.get("chains", 0) + 1


def run(c):
    base = {"Times": "{2}", "CheckSize": "TRUE", "CheckTime": '"equal"', "CheckDone": "TRUE", "CheckFormat": "TRUE", "CheckSettings": "TRUE", "Rebuild": "FALSE", "Order": '"wqf"'}
    c.model_refutes("Lifecycle", constants={**base, "MaxSteps": "4", "Times": "{1,2,3}", "Changes": '{"edit"}', "CheckSize": "FALSE"})
    hs = []
    for order in ("wqf", "fqw", "qfw"):
        hs += behaviours(c, c.rng, 60 if not THOROUGH else 600, lambda h: h[-1]["kept"], slots=order, MaxSteps="5" if not THOROUGH else "7", Changes='{"remove"}')
    replay_all(c, hs)
    c.validate()
    k = 1 if not THOROUGH else 3
    A1, A2, A3 = list("ab"), list("abAéèÉ"), list("abcdefghijABCDEFGHIJ éàÉ日本語")
    for _ in range(k):
        plans = [wildcard_world(c, 14, 10, A1, 80), wildcard_world(c, 40, 40, A3, 80), wildcard_world(c, 30, 150, A2, 50), fts_world(c, 30, 100), fts_world(c, 80, 60),
                 mixed_world(c, 12, 80, 0), mixed_world(c, 60, 80, 300), mixed_world(c, 200, 60, 0)]
        if THOROUGH:
            plans += [wildcard_world(c, 12, 2500, A1, 40), wildcard_world(c, 150, 60, A3, 150), fts_world(c, 300, 100), mixed_world(c, 1000, 100, 20)]
        for w, reqs in plans:
            steps = ["stop", "kill", "remove", "two at once", "stop"]
            c.rng.shuffle(steps)
            chain(c, w, reqs, ["stop"] + steps[:3 if not THOROUGH else 5])
            c.validate()
            shutil.rmtree(w.d, ignore_errors=True)
