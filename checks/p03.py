"""P03: a stale or foreign index is refused."""
TECHNIQUE = 'TLA+ model of the life of an installation (starts, changes of file, settings and stored indexes) exhausted by TLC; the histories TLC prints are replayed on real files and processes, answers validated by TLC'
NOTE = 'Lifecycle enumerates every history of up to 6 (thorough: 7) steps over three contents (two of the same size), three times, the settings, tampered and removed stores, for a wildcard, a sqlite and a full-text index, alone or together in several orders; TLC prints, for each different state in which a start can happen, a shortest history with the outcome the specification requires. A sample (all the short ones; thorough: thousands) is replayed with real files (CSV, JSON, XML), times and index files: the outcome of each start, the answers given (RodbTrace) and the fact that stored indexes are left as they are must agree. Variants of the model without one of the comparisons are refuted.'
from life import *


ALL = '{"edit","config","tamper","remove"}'


def renamed(c, kind):
    """Known finding: an index stored for other properties of the same input."""
    d = subdir("renamed")
    rows = [["1", "ab", "cd"], ["2", "ef", "gh"]]
    for props in (["a"], ["b"]):
        w = World(d)
        p = w.csv("in", [("id", "integer"), ("a", "string"), ("b", "string")], rows, die=False)
        os.utime(p, (10 ** 9, 10 ** 9))
        w.index("x", kind, "in", props)
        w.route(w.output("o", "array", "in", {"q": (props[0], "x", "string")}))
        s = w.start()
        if not s.up:   # a refusal is right the second time
            return
        with s:
            c.ask(w, c.use_world(w), Req("/o", [("q", "cd" if props == ["b"] else "ab")]), key="other-properties-%s" % kind if props == ["b"] else None)
    w.server.stop()


def run(c):
    small = {"MaxSteps": "5", "Order": '"wqf"', "Changes": ALL, "Times": "{1,2,3}", "CheckSize": "TRUE", "CheckTime": '"equal"', "CheckDone": "TRUE", "CheckFormat": "TRUE", "CheckSettings": "TRUE", "Rebuild": "FALSE"}
    for b in ({"CheckSize": "FALSE"}, {"CheckTime": '"no"'}, {"CheckTime": '"newer"'}, {"CheckDone": "FALSE"}, {"CheckFormat": "FALSE"}, {"CheckSettings": "FALSE"}, {"Rebuild": "TRUE"}):
        c.model_refutes("Lifecycle", constants={**small, **b})
    k = 1 if not THOROUGH else 8
    hs = []
    for slot in "wqf":   # each kind alone, where nothing else notices the change
        hs += behaviours(c, c.rng, 100 * k, slots=slot, MaxSteps="5" if not THOROUGH else "6", Changes=ALL)
        hs += behaviours(c, c.rng, 400, one_change=True, slots=slot, MaxSteps="5", Changes=ALL)
    for order in ("wqf", "fqw", "qfw"):
        hs += behaviours(c, c.rng, 80 * k, slots=order, MaxSteps="5" if not THOROUGH else "6", Changes=ALL)
    replay_all(c, hs)
    for kind in ("sqlite", "wildcard"):
        renamed(c, kind)
    c.validate()
    c.assumptions.append("two contents of one same size and modification second are not distinguished (the model never produces them)")
