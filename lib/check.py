"""A check run: design models, recorded traces, verdict, evidence, known findings."""
import json, re, sys, time, traceback, concurrent.futures as cf
from core import *
from tlc import tlc
from world import *


class Check:
    def __init__(self, pid, level="model_checking", technique=""):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.states = self.transitions = self.traces = 0
        self.violations = []   # (key, text, replay path)
        self.known = load_known(pid)
        self.known_seen = {}
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.lines = []        # pending trace lines
        self.meta = {}         # request id -> description
        self.next_id = 1
        self.requests = 0
        self.kinds = {}

    # -- design models
    def model(self, module, **k):
        k.setdefault("want_ok", True)
        r = tlc(module, **k)
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", []).append({"module": module, "config": k.get("cfg") or k.get("constants") or "", "distinct": r.distinct, "generated": r.generated})
        return r

    def model_refutes(self, module, **k):
        """A deliberately broken variant of a model must be refuted (the model is not vacuous)."""
        r = tlc(module, **k)
        if r.ok:
            raise Infra("the broken variant of %s is not refuted: the model proves nothing" % module)
        self.cov.setdefault("refuted_variants", []).append({"module": module, "config": k.get("cfg") or k.get("constants") or ""})
        return r

    def design(self, module, good, broken=(), small=None, **k):
        """The design model holds with the constants `good`; each broken variant (constant overrides, on the smaller
        constants if given) is refuted, so none of the modelled mechanisms is there for nothing."""
        s = self.model(module, constants=good, **k)
        for b in broken:
            self.model_refutes(module, constants={**good, **(small or {}), **b}, **k)
        return s

    # -- starting rodb on a world that must be accepted
    def boot(self, w, key="startup", **k):
        s = w.start(**k)
        if s.up:
            return True
        self.violation(key, "rodb refuses to start on a valid configuration: " + s.logtext()[-600:],
                       {"config": w.cfg, "routes": w.routes, "files": read_files(w), "log": s.logtext()[-3000:]})
        return False

    # -- traces
    def use_world(self, w):
        self.lines.append({"ev": "world", "w": w.W})
        return len(self.lines)

    def record(self, wl, req, resp, ctx=None, key=None):
        got = classify(resp, req.method)
        i = self.next_id
        self.next_id += 1
        self.lines.append({"ev": "req", "id": i, "wl": wl, "req": req.spec(), "got": got})
        self.meta[i] = (req, resp, ctx, key, len(self.lines) - 1)
        self.requests += 1
        self.kinds[got["kind"]] = self.kinds.get(got["kind"], 0) + 1
        return got

    def start(self, w, wl, key="startup", **k):
        """Starts rodb on a world, records whether it serves (validated like a response)."""
        s = w.start(**k)
        self.started(w, wl, s.up, key)
        return s.up

    def started(self, w, wl, up, key="startup"):
        i = self.next_id
        self.next_id += 1
        self.lines.append({"ev": "start", "id": i, "wl": wl, "up": up})
        self.meta[i] = (None, up, w, key, len(self.lines) - 1)
        self.cov["starts"] = self.cov.get("starts", 0) + 1

    def answers(self, wl, req, resps, ctx, key=None):
        """Several answers to one same request: each different one is recorded, and they must be one same answer."""
        different = {}
        for r in resps:
            different.setdefault((r.status, r.ctype, r.body if r.status == 200 else b"", r.dropped), r)
        for r in different.values():
            self.record(wl, req, r, ctx, key)
        self.requests += len(resps) - len(different)
        i = self.next_id
        self.next_id += 1
        self.lines.append({"ev": "same", "id": i, "wl": wl, "gots": [classify(r) for r in different.values()]})
        self.meta[i] = (req, list(different.values()), ctx, key, len(self.lines) - 1)

    def ask(self, w, wl, req, key=None):
        r = w.server.get(req.target(), method=req.method)
        return self.record(wl, req, r, w, key)

    def ask_all(self, w, wl, reqs, threads=1, key=None):
        if threads == 1:
            return [self.ask(w, wl, r, key) for r in reqs]
        with cf.ThreadPoolExecutor(threads) as ex:
            rs = list(ex.map(lambda r: w.server.get(r.target(), method=r.method), reqs))
        return [self.record(wl, q, r, w, key) for q, r in zip(reqs, rs)]

    def run_jobs(self, jobs, threads=8, key=None, **k):
        """jobs: [(world, requests)]. One process each, several at a time; starts and answers are recorded.
        The processes together stay below the system's number of inotify instances (128 per user, one per input)."""
        budget, cv = [96], threading.Condition()

        def one(job):
            w, reqs = job
            need = min(96, len(w.cfg["inputs"]))
            with cv:
                cv.wait_for(lambda: budget[0] >= need)
                budget[0] -= need
            try:
                s = w.start(**k)
                rs = []
                if s.up:
                    with s:
                        rs = [s.get(r.target(), method=r.method) for r in reqs]
                return s.up, rs
            finally:
                with cv:
                    budget[0] += need
                    cv.notify_all()
        with cf.ThreadPoolExecutor(threads) as ex:
            res = list(ex.map(one, jobs))
        for (w, reqs), (up, rs) in zip(jobs, res):
            wl = self.use_world(w)
            self.started(w, wl, up, key or "startup")
            for q, r in zip(reqs, rs):
                self.record(wl, q, r, w, key)

    def validate(self, timeout=700, canaries=6):
        """Hands the recorded trace to TLC. Every line must be accepted, except the corrupted copies added here."""
        if not self.lines:
            return
        lines = list(self.lines)
        good = [i for i, e in enumerate(lines) if e["ev"] == "req" and e["got"]["kind"] in ("json", "error")]
        self.rng.shuffle(good)
        can = {}   # id of a corrupted copy -> id of the original
        for i in [i for i, e in enumerate(lines) if e["ev"] == "start"][:2]:
            can[self.next_id] = lines[i]["id"]
            lines.append({**lines[i], "up": not lines[i]["up"], "id": self.next_id})
            self.next_id += 1
        for i in [i for i, e in enumerate(lines) if e["ev"] == "same" and e["gots"][0]["kind"] == "json"][:1]:
            e = json.loads(json.dumps(lines[i]))
            e["gots"].append(corrupt(e["gots"][0], self.rng))
            if e["gots"][-1] is not None:
                can[self.next_id] = e["id"]
                e["id"] = self.next_id
                self.next_id += 1
                lines.append(e)
        for i in good:
            if len(can) >= canaries + 2:
                break
            e = json.loads(json.dumps(lines[i]))
            c = corrupt(e["got"], self.rng)
            if c is None:
                continue
            e["got"] = c
            can[self.next_id] = e["id"]
            e["id"] = self.next_id
            self.next_id += 1
            lines.append(e)
        p = os.path.join(scratch(), "trace-%s-%d.ndjson" % (self.pid, self.next_id))
        with open(p, "w") as f:
            for e in lines:
                f.write(json.dumps(e) + "\n")
        r = tlc("RodbTrace", env={"TRACE": p}, timeout=timeout, want_ok=True)
        self.states += r.distinct
        self.transitions += r.generated
        bad = {}
        for ln in re.findall(r'<<"MISMATCH", (\d+), (.*?)>>\s*$', r.out, re.M | re.S) and re.findall(r'<<"MISMATCH", (\d+), ([^\n]*)', r.out):
            bad[int(ln[0])] = ln[1]
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),', r.out):
            bad.setdefault(int(m.group(1)), "")
        missed = {k for k, o in can.items() if o not in bad} - set(bad)
        if missed:
            raise Infra("the trace specification accepted corrupted responses %r" % [(e.get("got") or e, e.get("req"), lines[e["wl"] - 1]["w"]["inputs"] if TIER == "debug" else "") for e in lines if e.get("id") in missed][:1])
        n = len([e for e in self.lines if e["ev"] != "world"])
        self.traces += n
        self.cov["canaries_refused"] = self.cov.get("canaries_refused", 0) + len(can)
        if len(self.samples) < 4:
            for i, (req, resp, ctx, key, pos) in list(self.meta.items())[:: max(1, len(self.meta) // 3)][:3]:
                if req is None or isinstance(resp, list):
                    continue
                self.samples.append("%s %s -> %s %s" % (req.method, req.target()[:160], resp.status, resp.body[:160].decode(errors="replace")))
        for i in sorted(set(bad) - set(can)):
            req, resp, ctx, key, pos = self.meta[i]
            W = self.lines[self.lines[pos]["wl"] - 1]["w"]
            if self.lines[pos]["ev"] == "same":
                self.violation(key or "same", "%s %s is answered in different ways: %r" % (req.method, req.target(), resp),
                               {"request": req.target(), "config": ctx.cfg, "routes": ctx.routes, "answers": [repr(r) for r in resp], "files": read_files(ctx)})
                continue
            if req is None:
                self.violation(key, "rodb %s on a configuration and files on which the specification says it must%s" % ("starts" if resp else "refuses to start", " not" if resp else ""),
                               {"config": ctx.cfg, "routes": ctx.routes, "world": W, "files": read_files(ctx), "log": ctx.server.logtext()[-3000:]})
                continue
            self.violation(key or "request", "%s %s -> %r, not allowed by the specification (records expected: %s)" % (req.method, req.target(), resp, bad[i]),
                           {"request": req.target(), "method": req.method, "response": resp.body.decode(errors="replace"), "status": resp.status,
                            "config": ctx.cfg if ctx else None, "routes": ctx.routes if ctx else None, "world": W, "expected": bad[i],
                            "files": read_files(ctx) if ctx else None, "log": ctx.server.logtext()[-3000:] if ctx and ctx.server else None})
        self.lines, self.meta = [], {}
        os.unlink(p)

    # -- verdict
    def violation(self, key, text, replay=None):
        if key in self.known:
            self.known_seen.setdefault(key, text)
            return
        n = len(self.violations)
        path = ""
        if n < 20:
            path = keep_replay(self.pid, "%s-%d.json" % (TIER, n + 1), json.dumps({"property": self.pid, "what": text, "replay": replay}, indent=1, default=str))
        self.violations.append((key, text, path))

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"])
        else:
            cov.setdefault("samples", self.samples or ["(none)"])
            cov.update(states=self.states, transitions=self.transitions)
        if self.requests:
            cov["http_requests"] = self.requests
            cov["response_kinds"] = self.kinds
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, what in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for key, text, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  [%s] %s" % (key, text[:1500]))
        if len(self.violations) > 10:
            print("  ... %d violations in all" % len(self.violations))
        print("%s %s: %s, %d model states, %d traces/events checked against the implementation, %.1fs" % (
            self.pid, TIER, "VIOLATED" if self.violations else "held", self.states, self.traces, wall))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(pid):
    """known-findings.txt: 'finding: property=<id> key=<key> <what fails>' suppresses exactly that key;
    'fixed: ...' lines suppress nothing."""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def read_files(w):
    out = {}
    try:
        for f in sorted(os.listdir(w.d)):
            if f.rsplit(".", 1)[-1] in ("csv", "json", "xml") and os.path.isfile(os.path.join(w.d, f)) and os.path.getsize(os.path.join(w.d, f)) < 20000:
                out[f] = open(os.path.join(w.d, f), "rb").read().decode(errors="replace")
    except OSError:
        pass
    return out


def corrupt(got, rng):
    """A changed copy of an observed response that the specification must not accept."""
    g = json.loads(json.dumps(got))
    if g["kind"] == "error":
        return {"status": 200, "kind": "json", "body": ["a", [["o", {"zz": ["n"]}]]]}
    b = g["body"]
    if b[0] == "a" and b[1]:
        c = rng.choice(["drop", "dup", "edit"])
        if c == "drop":
            b[1].pop(rng.randrange(len(b[1])))
        elif c == "dup":
            b[1].append(b[1][0])
        else:
            b[1][rng.randrange(len(b[1]))][1]["zz"] = ["n"]
        return g
    if b[0] == "o":
        b[1]["zz"] = ["b", True]
        return g
    b[1].append(["o", {"zz": ["n"]}])
    return g


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except Infra as e:
        if c.violations:
            c.cov["incomplete"] = str(e)[:500]
            rc = c.finish()
        else:
            print("CHECK ERROR %s: %s" % (pid, e))
            rc = 3
    except Exception:
        traceback.print_exc()
        if c.violations:
            rc = c.finish()
        else:
            rc = 4
    sys.exit(rc)
