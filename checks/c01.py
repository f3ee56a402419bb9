"""C01: configurations are accepted exactly when they are consistent."""
TECHNIQUE = 'TLA+ rules on configuration documents and their normal form; TLC enumerates all documents at one or two edits from a valid one with their verdict, and each one is given to the real process'
NOTE = 'ConfigRules states, on the document itself, its shape, names, references, suitability, allowed values, and its normal form (the documented defaults filled in). TLC enumerates every document one edit away from a valid configuration using every kind of object (each setting removed, nulled, emptied, replaced by a wrong kind, by an unknown, another or a forbidden value; objects removed, doubled, added), and pairs of edits; it prints the verdict for each. Each document is written, possibly through environment variables, and given to a process: it must serve all its services, or exit with a failure and an error message (not a crash); when the normal form is the same, all answers must be the same too.'
import concurrent.futures as cf, re, ssl, urllib.error, urllib.request
from gen import *

FILES = {
    "a.csv": "1,ann,1|2,yes\n20,bob,,no\n3,anna,7,yes\n4,,1|1|1,no\n",
    "b.csv": "id,name,city\n" + "".join("%d,%s,%s\n" % (i, "ann" if i % 2 else "bob", "xyz"[i % 3]) for i in range(1, 1011)),
    "c.json": "".join(json.dumps({"id": i, "name": n, "rank": r}) + "\n" for i, n, r in [(1, "one two", 3), (1, "two", 1), (2, "Three", 2), (20, "two", 5), (5, "\u00c9lan running", 0)]),
    "d.xml": "<r><i k=\"1\"><name>one</name><sub><p>x</p></sub></i><i k=\"2\"><name>two</name><t>1</t><t>2</t></i></r>",
    "bad.pem": "not a certificate\n",
}

BASE = {
    "parsers": [
        {"name": "p_bool", "type": "boolean", "trueValues": ["yes", "y"], "falseValues": ["no"]},
        {"name": "p_int", "type": "integer", "ignoreCharacters": ","},
        {"name": "p_float", "type": "float", "decimalSeparator": ",", "ignoreCharacters": ""},
        {"name": "p_str", "type": "string", "convertFromCharset": ""},
        {"name": "p_split", "type": "split", "delimiter": "|", "delimiterIsRegexp": False, "parser": "string"},
        {"name": "p_deep", "type": "split", "delimiter": "[,;]+", "delimiterIsRegexp": True, "parser": "p_split"},
        {"name": "p_json", "type": "json"}],
    "inputs": [
        {"name": "a", "type": "csv", "path": "a.csv", "dieOnInputChange": True, "ignoreFirstRow": False, "autodetectColumns": False, "delimiter": ",",
         "columns": [{"name": "id", "parser": "p_int"}, {"name": "name", "parser": "string"}, {"name": "tags", "parser": "p_split"}, {"name": "ok", "parser": "p_bool"}]},
        {"name": "b", "type": "csv", "path": "b.csv", "dieOnInputChange": False, "ignoreFirstRow": True, "autodetectColumns": True, "delimiter": ","},
        {"name": "c", "type": "json", "path": "c.json", "dieOnInputChange": True},
        {"name": "d", "type": "xml", "path": "d.xml", "dieOnInputChange": True, "recordXpath": "//i", "properties": [
            {"name": "k", "type": "primitive", "parser": "string", "xpath": "string(@k)"},
            {"name": "name", "type": "primitive", "parser": "string", "xpath": "string(name)"},
            {"name": "ts", "type": "array", "xpath": "t", "items": {"type": "primitive", "parser": "string", "xpath": "string(.)"}},
            {"name": "o", "type": "object", "xpath": "sub", "properties": [{"name": "p", "type": "primitive", "parser": "string", "xpath": "string(p)"}]}]}],
    "indexes": [
        {"name": "m", "type": "map", "input": "a", "properties": ["id", "name"]},
        {"name": "w", "type": "wildcard", "path": "w.idx", "input": "a", "ignoreCase": False, "properties": ["name"]},
        {"name": "q", "type": "sqlite", "dsn": "q.db", "input": "c", "properties": [{"name": "id", "collate": "BINARY"}, {"name": "name", "collate": "BINARY"}]},
        {"name": "f", "type": "fts5", "dsn": "f.db", "input": "c", "tokenize": "unicode61", "prefix": [], "properties": ["name"]},
        {"name": "n", "type": "noop"}],
    "outputs": [
        {"name": "list", "type": "jsonArray", "input": "a", "limit": {"default": 100, "max": 1000, "parameter": "limit"}, "offset": {"parameter": "offset"},
         "parameters": {"id": {"property": "id", "index": "m", "parser": "p_int"}, "name": {"property": "name", "index": "w", "parser": "string"}, "ok": {"property": "ok", "index": "default", "parser": "p_bool"}},
         "relationships": {"r": {"input": "c", "isArray": True, "limit": 0, "sort": [{"property": "name", "ascending": True}, {"property": "rank", "ascending": False}],
                                 "match": [{"parentProperty": "id", "childProperty": "id", "childIndex": "q"}],
                                 "relationships": {"x": {"input": "d", "isArray": False, "match": [{"parentProperty": "name", "childProperty": "name", "childIndex": "default"}]}}}}},
        {"name": "one", "type": "jsonObject", "input": "a", "parameters": {"id": {"property": "id", "index": "m", "parser": "p_int"}}, "relationships": {}},
        {"name": "search", "type": "jsonArray", "input": "c", "parameters": {"q": {"property": "match", "index": "f", "parser": "string"}, "name": {"property": "name", "index": "q", "parser": "p_str"}}},
        {"name": "xs", "type": "jsonArray", "input": "d", "parameters": {"name": {"property": "name", "index": "n", "parser": "string"}}},
        {"name": "bs", "type": "jsonArray", "input": "b", "limit": {"default": 100, "max": 1000, "parameter": "limit"}, "offset": {"parameter": "offset"}}],
    "services": [
        {"name": "s", "type": "http", "http": {"listen": "PORT1"}, "errorsType": "application/json",
         "routes": [{"path": "/list", "output": "list"}, {"path": "/one/{id}", "output": "one"}, {"path": "/ok/{ok}/{name}", "output": "list"}, {"path": "/search", "output": "search"}, {"path": "/xs", "output": "xs"}, {"path": "/bs", "output": "bs"}]},
        {"name": "t", "type": "http", "https": {"listen": "PORT2", "certificatePath": "cert.pem", "privateKeyPath": "key.pem"}, "routes": [{"path": "/", "output": "bs"}]}],
}
PROBES = ["/list", "/list?limit=2&offset=1", "/list?limit=1001", "/list?name=nn", "/list?name=NN", "/list?id=2", "/list?id=2%2C0&ok=no", "/one/3", "/one/77", "/one/x", "/ok/yes/*nn*", "/ok/no/bob",
          "/search?q=two", "/search?q=tw*", "/search?name=two", "/search?name=TWO", "/search?q=%22", "/xs", "/xs?name=two", "/bs", "/bs?limit=1", "/bs?limit=1000", "/bs?limit=1001", "/bs?limit=900&offset=1005", "/search?q=elan", "/search?q=run", "/nothing"]


def tag(v):
    if v is None:
        return ["z"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["u", v] if v >= 0 else ["i", v]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, list):
        return ["l", [tag(x) for x in v]]
    return ["m", {k: tag(x) for k, x in v.items()}]


UNSET = object()


def edits():
    """[(path, op, value)]"""
    out = []

    def add(p, op, v=None):
        out.append((list(map(str, p)), op, v))
    wrong = {str: [{}, ["x"]], bool: ["maybe", []], int: ["x", -1, {}], list: ["x", {"a": 1}], dict: ["x", ["x"]]}

    def walk(p, v):
        if p:
            add(p, "unset")
            if not (isinstance(v, str) and isinstance(p[-1], int)):
                add(p, "set", None)
            for x in wrong[type(v)]:
                add(p, "set", x)
        if isinstance(v, dict):
            add(p + ["zzz"], "set", "x")
            if p:
                add(p, "set", {})
            for k in v:
                walk(p + [k], v[k])
        elif isinstance(v, list):
            add(p, "set", [])
            if v and not isinstance(v[0], str):
                add(p, "add", None)
            if v:
                add(p, "add", v[0])       # doubled
                if len(v) > 1:
                    add(p, "add", v[-1])
            for i, x in enumerate(v):
                if isinstance(x, (dict, str)):
                    walk(p + [i + 1], x)
        elif isinstance(v, str):
            add(p, "set", "")
    walk([], BASE)
    # a missing property to sort by is only noticed by the requests; a process without services has nothing to do
    out = [e for e in out if e[0] != ["services"] or e[1] == "add" or isinstance(e[2], str) or e[2]]
    out = [e for e in out if e[0] != [] or e[2] is not None]
    out = [e for e in out if not ("sort" in e[0] and (e[0][-1] == "property" and e[2] in (None, "") or e[2] == {}))]
    out = [e for e in out if not (e[0] and e[0][-1] == "listen" and e[1] == "set" and e[2] == "")] + [(["services", "1", "http", "listen"], "set", "")]
    ref = {"parser": ["unknown", "p_str", "string", "p_split", "p_deep", "p_json", "json", "list"], "input": ["unknown", "a", "b", "c", "d", "m", "A"], "index": ["unknown", "default", "n", "m", "w", "q", "f", "a", "M"],
           "childIndex": ["unknown", "default", "n", "m", "q", "f"], "output": ["unknown", "list", "one", "search", "xs", "bs", "a"], "property": ["nosuch", "match", "id"], "childProperty": ["match", "name", "id"], "parentProperty": ["name"],
           "type": ["unknown", "Map", "primitive", "array", "object", "csv", "json", "xml", "integer", "float", "string", "boolean", "split", "noop", "map", "sqlite", "fts5", "wildcard", "jsonArray", "jsonObject", "graphql", "http"],
           "name": ["a", "x y.z", "p_int", "m", "list", "s", "id", "name"], "path": ["nosuch", "dir", "a.csv/x", "nodir/x"], "collate": ["nocase", "NoCase", "RTRIM", "rtrim", "binary", "latin"], "xpath": ["[", "//", "count(", "string(x"],
           "recordXpath": ["[", "/r/i", "//i[", "string("], "errorsType": ["text/html", "application/xml"], "listen": ["nonsense", "127.0.0.1:99999", "127.0.0.1", "127.0.0.1:0"], "tokenize": ["porter", "ascii", "trigram", "nosuch", "unicode61 remove_diacritics 0"],
           "certificatePath": ["key.pem", "bad.pem", "nosuch", "dir", "a.csv/x"], "privateKeyPath": ["cert.pem", "bad.pem", "nosuch", "dir", "a.csv/x"], "convertFromCharset": ["Shift_JIS", "ISO-8859-1", "nosuch"],
           "dsn": ["x.db", "nodir/x.db", ":memory:", "dir"], "decimalSeparator": [".", "..", "é"], "ignoreCharacters": ["-_ ", "é"], "default": [1, 1000, 1001, 0], "max": [99, 100, 0, 5000000], "parameter": ["name", "p", "id", "offset", "limit"]}

    def special(p, v):
        if isinstance(v, dict):
            for k, x in v.items():
                if k in ref and not isinstance(x, (dict, list)):
                    for y in ref[k]:
                        if y == x:
                            continue
                        if k == "path" and p[0] == "services":
                            continue
                        if k == "parser" and p[0] == "inputs" and y in ("json", "p_json", "p_deep") and p[:2] == ["inputs", 1]:
                            continue     # its cells could not be parsed
                        if k == "parameter" and y in ("offset", "limit"):
                            continue     # one parameter for both: not specified
                        add(p + [k], "set", y)
                special(p + [k], x)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                special(p + [i + 1], x)
    special([], BASE)
    for v in ['"', "\n", "\r", ";;", ";", "\t", "é", "é;", "�"]:
        add(["inputs", 2, "delimiter"], "set", v)
    for v in ['"', "\n", "\r", ",,"]:
        add(["inputs", 1, "delimiter"], "set", v)
    add(["inputs", 2, "columns"], "set", [{"name": "id"}])
    add(["inputs", 2, "columns"], "set", [])
    add(["inputs", 1, "autodetectColumns"], "set", True)
    add(["inputs", 2, "autodetectColumns"], "set", False)
    for i in (5, 6):
        for v in ("(", "[", "*", "a{2", "|"):
            add(["parsers", i, "delimiter"], "set", v)
        add(["parsers", i, "delimiterIsRegexp"], "set", i == 5)
        add(["parsers", i, "parser"], "set", BASE["parsers"][i - 1]["name"])
    add(["parsers"], "add", {"name": "p_more", "type": "split", "delimiter": "", "parser": "p_deep"})
    add(["parsers"], "add", {"name": "p_self", "type": "split", "delimiter": "-", "parser": "p_self"})
    add(["parsers", 5, "parser"], "set", "p_more")
    add(["parsers"], "add", {"name": "float", "type": "float", "decimalSeparator": ","})
    add(["parsers"], "add", {"name": "json", "type": "json"})
    add(["indexes"], "add", {"name": "default", "type": "noop"})
    add(["indexes"], "add", {"name": "m2", "type": "map", "input": "b", "properties": ["city"]})
    add(["indexes"], "add", {"name": "m2", "type": "map", "input": "b", "properties": ["nosuch"]})
    add(["indexes"], "add", {"name": "m2", "type": "map", "input": "c", "properties": ["nosuch"]})
    for i, more in ((1, "id"), (2, "name"), (4, "name")):
        add(["indexes", i, "properties"], "add", more)
    add(["indexes", 1, "properties"], "add", "ok")
    add(["indexes", 1, "properties"], "add", "nosuch")
    for v in ([2, 3], [0], [-1], [1000], [1]):
        add(["indexes", 4, "prefix"], "set", v)
    for n in ("limit", "offset", "p"):
        add(["outputs", 1, "parameters", n], "set", {"property": "name"})
        add(["outputs", 2, "parameters", n], "set", {"property": "name"})
        add(["outputs", 5, "parameters"], "set", {n: {"property": "city", "parser": "string"}})
    add(["outputs", 1, "limit"], "set", {"max": 50})
    add(["outputs", 1, "limit"], "set", {"max": 100})
    add(["outputs", 1, "limit"], "set", {"default": 5})
    r = ["outputs", 1, "relationships", "r"]
    add(r + ["isArray"], "set", False)
    add(r + ["limit"], "set", 2)
    add(r + ["sort", 2, "property"], "set", "name")
    add(r + ["sort"], "add", {"property": "other"})
    add(r + ["match"], "add", {"parentProperty": "name", "childProperty": "name", "childIndex": "q"})
    add(r + ["match"], "add", {"parentProperty": "name", "childProperty": "id"})
    add(r + ["match"], "add", {"parentProperty": "name", "childProperty": "anything"})
    add(["outputs", 2, "relationships", "new"], "set", {"input": "b", "match": [{"parentProperty": "name", "childProperty": "name"}]})
    add(["outputs", 2, "relationships", "new"], "set", {"input": "b", "sort": [{"property": "id"}], "match": [{"parentProperty": "name", "childProperty": "name"}]})
    add(["outputs", 3, "parameters", "name", "property"], "set", "rank")
    add(["outputs"], "add", {"name": "gq", "type": "graphql"})
    rt = ["services", 1, "routes"]
    add(rt + [2, "path"], "set", "/one/{nosuch}")
    add(rt + [2, "path"], "set", "/one")
    add(rt + [2, "path"], "set", "/list")
    add(rt + [4, "path"], "set", "/search/{q}/{limit}/{offset}")
    add(rt + [2, "path"], "set", "/one/{limit}")
    add(rt, "add", {"path": "/again", "output": "bs"})
    add(rt, "add", {"path": "/bs", "output": "xs"})
    add(["services", 1, "https"], "set", {"listen": "PORT3", "certificatePath": "cert.pem", "privateKeyPath": "key.pem"})
    add(["services", 1, "https"], "set", {"listen": "PORT3", "certificatePath": "cert.pem", "privateKeyPath": "bad.pem"})
    add(["services", 1, "https"], "set", {})
    add(["services", 1, "http"], "set", {})
    add(["services"], "add", {"name": "u", "type": "http", "http": {"listen": "PORT4"}, "routes": [{"path": "/", "output": "bs"}]})
    add(["services"], "add", {"name": "u", "type": "http", "http": {"listen": "PORT4"}, "routes": [{"path": "/", "output": "nosuch"}]})
    seen, res = set(), []
    for p, op, v in out:
        k = json.dumps([p, op, v], sort_keys=True)
        if k not in seen and not (op == "set" and looked(BASE, p) is not UNSET and tag(looked(BASE, p)) == tag(v)):
            seen.add(k)
            res.append((p, op, v))
    return res


def looked(d, p):
    for k in p:
        if isinstance(d, list):
            if not k.isdigit() or int(k) > len(d):
                return UNSET
            d = d[int(k) - 1]
        elif isinstance(d, dict) and k in d:
            d = d[k]
        else:
            return UNSET
    return d


def apply(d, e):
    p, op, v = e
    d = json.loads(json.dumps(d))
    if not p:
        return v
    at = d
    for k in p[:-1]:
        at = at[int(k) - 1] if isinstance(at, list) else at[k]
    k = int(p[-1]) - 1 if isinstance(at, list) else p[-1]
    v = json.loads(json.dumps(v))
    if op == "unset":
        if isinstance(at, list):
            del at[k]
        else:
            at.pop(k, None)
    elif op == "add":
        at[k].append(v)
    else:
        at[k] = v
    return d


def texts(v, key, out):
    if isinstance(v, dict):
        for k, x in v.items():
            texts(x, k, out)
    elif isinstance(v, list):
        for x in v:
            texts(x, key, out)
    elif isinstance(v, str):
        out.setdefault(key, set()).add(v)
    return out


def facts(es):
    t = texts(BASE, "", {})
    for p, op, v in es:
        texts(v, next((x for x in reversed(p) if not x.isdigit()), ""), t)
    params = {}
    for x in t["path"]:
        params[x] = re.findall("{([^}]+)}", x)
    params[""] = []
    bad = {"(", "[", "*"}
    return {"charsets": ["Shift_JIS", "ISO-8859-1"], "badregexps": sorted(bad), "badxpaths": ["", "[", "//i[", "string(", "//", "count(", "string(x"], "files": sorted(set(FILES) | {"cert.pem", "key.pem"}),
            "delimiters": [x for x in t["delimiter"] if len(x) == 1 and x not in '"\r\n�'], "collations": ["nocase", "NoCase", "RTRIM", "rtrim", "binary", "BINARY"],
            "tokenizers": ["unicode61", "porter", "ascii", "trigram", "unicode61 remove_diacritics 0"], "notpaths": ["dir", "a.csv/x", "nodir/x"], "dsns": ["q.db", "f.db", "x.db", ":memory:"],
            "addresses": ["PORT1", "PORT2", "PORT3", "PORT4", "127.0.0.1:0"], "pairs": [["cert.pem", "key.pem"]], "params": params, "headers": {"a.csv": ["1", "ann", "1|2", "yes"], "b.csv": ["id", "name", "city"], **{x: [] for x in t["path"] | {""} if x not in ("a.csv", "b.csv")}},
            "numbers": {str(i): i for i in range(1, 12)}}


def enumerate_(c, es, n, **k):
    p = write(os.path.join(subdir("cfg"), "c.json"), json.dumps({"base": tag(BASE), "edits": [{"path": p, "op": op, "value": tag(v)} for p, op, v in es], "facts": facts(es)}))
    good = {"MaxEdits": str(n), "References": "TRUE", "Duplicates": "TRUE", "Cycles": "TRUE", "Suitable": "TRUE"}
    if k:
        return c.model_refutes("ConfigRules", constants={**good, **k}, env={"CONFIG": p})
    r = c.model("ConfigRules", constants=good, env={"CONFIG": p})
    return [json.loads(json.loads(ln[len('<<"CONFIG", '):-2])) for ln in r.out.splitlines() if ln.startswith('<<"CONFIG"')]


found = []


def render(rng, d):
    """The document as a file, maybe with some texts given by environment variables; and these."""
    ports = {"PORT%d" % i: "127.0.0.1:%d" % free_port() for i in (1, 2, 3, 4)}
    env = {}

    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, str):
            v = ports.get(v, v)
            if v and rng.random() < 0.02 and v.isprintable() and '"' not in v and "\\" not in v and len(env) < 3:
                n = "RODB_V%d" % len(env)
                i = rng.randrange(len(v))
                j = rng.randrange(i, len(v)) + 1
                env[n] = v[i:j]
                return v[:i] + "${%s}" % n + v[j:]
        return v
    return go(d), env


def replay(job):
    rng, d, tell = job
    if len(found) >= int(os.environ.get("C01_MAX", 6)):
        return None
    dr = subdir("c01")
    for n, t in FILES.items():
        write(os.path.join(dr, n), t)
    for n in ("cert.pem", "key.pem"):
        write(os.path.join(dr, n), open(os.path.join(VERIF, "data", n)).read())
    os.mkdir(os.path.join(dr, "dir"))
    doc, env = render(rng, d)
    args = rng.choice([(), (), ("-l", "debug"), ("--loglevel", "trace")])
    s = Server(doc, dr, None, wait=0, env=env, args=args)
    try:
        names = len((doc.get("services") or [])) if isinstance(doc, dict) else 0
        t0 = time.time()
        up = False
        addr = {}
        while time.time() - t0 < 10:
            rc = s.p.poll()
            log = s.logtext()
            addr = dict(re.findall(r"Service '([^']*)' is up and available here: (https?://[\d.:]+)", log.replace("\\n", " ")))
            if rc is not None:
                break
            if names and len(addr) == names:
                up = True
                break
            time.sleep(0.004)
        if up:
            time.sleep(0.03)
            if s.p.poll() is not None:
                up = False
        if not up:
            rc = s.p.poll()
            return {"up": False, "rc": rc, "log": s.logtext(), "cfg": doc, "env": env}
        got = []
        x = ssl.create_default_context()
        x.check_hostname, x.verify_mode = False, ssl.CERT_NONE
        for name, base in sorted(addr.items()):
            for q in (PROBES if name == "s" else ["/", "/?limit=1", "/nothing"]):
                try:
                    with urllib.request.urlopen(urllib.request.Request(base + q), timeout=20, context=x if base.startswith("https") else None) as r:
                        got.append((name, q, r.status, r.headers.get("Content-Type", ""), r.read().decode()))
                except urllib.error.HTTPError as e:
                    got.append((name, q, e.code, e.headers.get("Content-Type", ""), e.read().decode()))
                except OSError as e:
                    got.append((name, q, 0, "", str(e)))
        # every listener, not only the one which is announced
        dead = []
        for sv in doc["services"]:
            for kind in ("http", "https"):
                h = (sv.get(kind) or {}).get("listen") if isinstance(sv, dict) else None
                if h and not h.endswith(":0") and "$" not in h:
                    try:
                        with urllib.request.urlopen(urllib.request.Request(kind + "://" + h + "/nothing"), timeout=20, context=x if kind == "https" else None):
                            pass
                    except urllib.error.HTTPError:
                        pass
                    except (OSError, urllib.error.URLError) as e:
                        dead.append("%s://%s: %s" % (kind, h, e))
        return {"up": True, "got": got, "dead": dead, "rc": s.p.poll(), "log": s.logtext(), "cfg": doc, "env": env}
    finally:
        s.__exit__()


def describe(es):
    return "; ".join("%s %s%s" % ({"unset": "remove", "set": "set", "add": "add to"}[op], ".".join(p), "" if op == "unset" else " " + json.dumps(v)[:120]) for p, op, v in es)


def run(c):
    rng = c.rng
    es = edits()
    c.cov["edits"] = len(es)
    jobs = [([], True, True)]
    one = enumerate_(c, es, 1)
    jobs += [([es[n - 1] for n in h["edits"]], h["accept"], h["same"]) for h in one]
    easy = [es[h["edits"][0] - 1] for h in one if h["accept"]]     # still accepted alone
    hard = [es[h["edits"][0] - 1] for h in one if not h["accept"]]
    for rule, sel in (("References", lambda p: p[-1] in ("input", "output")), ("Duplicates", lambda p: p[-1] in ("name", "indexes")), ("Cycles", lambda p: p[0] == "parsers"), ("Suitable", lambda p: p[0] == "outputs" and p[-1] == "parser")):
        enumerate_(c, [e for e in es if e[0] and sel(e[0])], 1, **{rule: "FALSE"})
    for _ in range(8 if THOROUGH else 1):
        sub = sorted(rng.sample(easy, min(len(easy), 70)) + rng.sample(hard, 30), key=es.index)
        two = [h for h in enumerate_(c, sub, 2) if len(h["edits"]) == 2]
        a, b = [h for h in two if h["accept"]], [h for h in two if not h["accept"]]
        for g in (a, b):
            jobs += [([sub[n - 1] for n in h["edits"]], h["accept"], h["same"]) for h in rng.sample(g, min(len(g), 250))]
        # more edits which leave the normal form as it is
    same = [e for e, h in zip([es[h["edits"][0] - 1] for h in one], one) if h["same"]]
    c.cov["edits_accepted"], c.cov["edits_neutral"] = len(easy), len(same)
    work = []
    for edit, accept, eq in jobs:
        d = BASE
        for e in edit:
            d = apply(d, e)
        work.append((random.Random(rng.random()), d, edit))
    with cf.ThreadPoolExecutor(12) as ex:
        res = list(ex.map(lambda j: judge(j, jobs, c), enumerate(work)))
    c.cov["configurations_tried"] = len([r for r in res if r])
    c.cov["accepted"] = len([r for r in res if r and r["up"]])
    base = res[0]
    if base is None or not base["up"]:
        return
    for (edit, accept, eq), r in zip(jobs, res):
        if r is None:
            continue
        c.traces += 1
        if r["up"] and accept and eq and r["got"] != base["got"]:
            diff = [(x, y) for x, y in zip(base["got"], r["got"]) if x != y][:2]
            c.violation("default", "a configuration with the same meaning (%s) gives other answers: %r" % (describe(edit), diff), {"config": r["cfg"], "env": r["env"], "edits": describe(edit)})
        if r["up"] and accept:
            for name, q, st, ct, body in r["got"]:
                try:
                    json.loads(body)
                    ok = st in (200, 404, 500) and ct.startswith("application/json")
                except ValueError:
                    ok = False
                if not ok:
                    c.violation("answer", "with an accepted configuration (%s), %s is answered by %s %s %r" % (describe(edit), q, st, ct, body[:200]), {"config": r["cfg"], "env": r["env"]})
                    break
    # the documented defaults, once more, on the answers themselves
    c.samples += [describe(e) + " -> " + ("accepted" if a else "refused") for e, a, s in rng.sample(jobs[1:], 6)]


def judge(ij, jobs, c):
    i, job = ij
    edit, accept, eq = jobs[i]
    r = replay(job)
    if r is None:
        return r
    what = describe(edit) or "(none)"
    detail = {"config": r["cfg"], "env": r["env"], "edits": what, "log": r["log"][-3000:]}
    crash = "panic:" in r["log"] or "goroutine " in r["log"] or "fatal error:" in r["log"]

    def bad(key, text):
        found.append(key)
        c.violation(key, text + ": " + r["log"][-400:], detail)
    if accept and not r["up"]:
        bad("refused", "a consistent configuration is not served (status %s) after the edits: %s" % (r["rc"], what))
    elif not accept and r["up"] and r["rc"] is None:
        bad("accepted", "an inconsistent configuration is served after the edits: %s" % what)
    elif not accept and crash:
        bad("crash", "an inconsistent configuration crashes the process after the edits: %s" % what)
    elif not accept and (r["rc"] is None or r["rc"] <= 0):
        bad("status", "an inconsistent configuration ends the process with status %s after the edits: %s" % (r["rc"], what))
    elif not accept and not re.search(r"level=(error|fatal) msg=.{12,}", r["log"]):
        bad("silent", "an inconsistent configuration is refused without a message after the edits: %s" % what)
    elif accept and r["dead"]:
        bad("dead", "a listener of an accepted configuration does not answer after the edits: %s: %s" % (what, r["dead"]))
    return r
