"""Worlds: a configuration with its data files, in the vocabulary of spec/RodbQuery.tla, rendered to real files."""
import copy, json, math, random
from core import *


def codes(s):
    return [ord(c) for c in s]


NOTNUM = -999


def seg(k):
    try:
        if k != k.strip() or not k.lstrip("+-").isdigit() or len(k) - len(k.lstrip("+-")) > 1:
            raise ValueError
        n = int(k)
        if not -2 ** 63 <= n < 2 ** 63:
            raise ValueError
        n = max(-10 ** 9, min(10 ** 9, n))   # out of the range of any array, whatever it is exactly
        assert n != NOTNUM
    except ValueError:
        n = NOTNUM
    return {"k": k, "i": n}


def path(p):
    return [seg(x) for x in p.split(".")]


def number(x, small, large):
    """A number as the specification writes it: thousandths (or units, for integers) below a million, else [large, sign, digits, power]."""
    import decimal
    d = decimal.Decimal(repr(x))
    sign, digits, e = d.as_tuple()
    t = "".join(map(str, digits)).lstrip("0")
    z = t.rstrip("0")
    e += len(t) - len(z)
    sg = -1 if sign else 1
    if not z:
        return [small, 0]
    lo = 0 if small == "i" else -3
    if e >= lo and len(z) + e <= 6:
        return [small, sg * int(z + "0" * (e - lo))]
    return [large, sg, codes(z), e]


def wire(v):
    """A decoded JSON response -> tagged wire value."""
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, (int, float)):
        return number(v, "d", "D")
    if isinstance(v, str):
        return ["s", codes(v)]
    if isinstance(v, list):
        return ["a", [wire(x) for x in v]]
    return ["o", {k: wire(x) for k, x in v.items()}]


def names(text):
    """Code -> character, for all the characters a name read in this text may hold."""
    t = {str(c): chr(c) for c in set(map(ord, text)) | set(range(32, 127)) | {8, 9, 10, 12, 13, 0xfffd}}
    return t


def jval(v):
    """A Python value as rodb's JSON decoding sees it (numbers are floats) -> tagged value."""
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, (int, float)):
        return number(v, "f", "F")
    if isinstance(v, str):
        return ["s", codes(v)]
    if isinstance(v, list):
        return ["a", [jval(x) for x in v]]
    return ["o", {k: jval(x) for k, x in v.items()}]


DEFAULT_PARSERS = {
    "string": {"type": "string"},
    "integer": {"type": "integer", "ignore": []},
    "float": {"type": "float", "sep": codes("."), "ignore": []},
    "boolean": {"type": "boolean", "t": [codes(x) for x in ("true", "1", "TRUE")], "f": [codes(x) for x in ("false", "0", "FALSE")]},
    "json": {"type": "json"},
}


def charset_table(cs, chars):
    one = []
    for b in range(256):
        try:
            one.append(ord(bytes([b]).decode(cs)))
        except UnicodeDecodeError:
            one.append(-1)
    return {"one": one, "two": [{"b": list(ch.encode(cs)), "c": ord(ch)} for ch in chars if len(ch.encode(cs)) > 1]}


class World:
    """Collects the TLA+ view (self.W) and the rodb view (self.cfg, files) of the same thing."""

    def __init__(self, d=None):
        self.d = d or subdir("w")
        self.W = {"parsers": copy.deepcopy(DEFAULT_PARSERS), "inputs": {}, "indexes": {"default": {"kind": "noop", "input": "", "props": [], "icase": False}},
                  "outputs": {}, "routes": []}
        self.cfg = {"parsers": [], "inputs": [], "indexes": [], "outputs": []}
        self.routes = []
        self.charsets = {}
        self.server = None
        self.defaults_used = True

    # -- parsers
    def parser(self, name, type, **k):
        c = {"name": name, "type": type}
        if type == "string":
            w = {"type": "string"}
            if k.get("charset"):
                c["convertFromCharset"] = k["charset"]
                self.charsets[name] = k["charset"]
                w["charset"] = charset_table(k["charset"], k.get("chars", ""))
        elif type == "integer":
            w = {"type": type, "ignore": codes(k.get("ignore", ""))}
            if k.get("ignore"):
                c["ignoreCharacters"] = k["ignore"]
        elif type == "float":
            w = {"type": type, "ignore": codes(k.get("ignore", "")), "sep": codes(k.get("sep", "."))}
            c["decimalSeparator"] = k.get("sep", ".")
            if k.get("ignore"):
                c["ignoreCharacters"] = k["ignore"]
        elif type == "boolean":
            w = {"type": type, "t": [codes(x) for x in k["t"]], "f": [codes(x) for x in k["f"]]}
            c["trueValues"], c["falseValues"] = k["t"], k["f"]
        elif type == "split":
            w = {"type": type, "delim": codes(k["delim"]), "parser": k["parser"]}
            c["delimiter"], c["parser"] = k["delim"], k["parser"]
            if "re" in k:     # [(characters, at least, several?)]
                w["re"] = [{"any": codes(cs), "min": lo, "many": many} for cs, lo, many in k["re"]]
                c["delimiter"] = "".join("[%s]%s" % ("".join("\\x{%x}" % ord(x) for x in cs), {(1, False): "", (1, True): "+", (0, False): "?", (0, True): "*"}[(lo, many)]) for cs, lo, many in k["re"])
                c["delimiterIsRegexp"] = True
        elif type == "jsontext":
            c["type"] = "json"
            w = {"type": type}
        else:
            w = {"type": type}
        self.W["parsers"][name] = w
        self.cfg["parsers"].append(c)
        return name

    # -- inputs
    def csv(self, name, columns, rows, header=True, auto=False, delim=",", rng=None, eol="\n", last_eol=True, die=None, prefix=b""):
        """columns: [(name, parser)]; rows: lists of str (or ("json", value) cells)."""
        d = delim
        out = []
        W_rows = []
        enc_rows = [[n for n, _ in columns]] if header or auto else []
        for r in rows:
            er, wr = [], []
            for i, c in enumerate(r):
                if isinstance(c, tuple):
                    er.append(json.dumps(c[1], ensure_ascii=False))
                    wr.append(["json", jval(c[1])])
                else:
                    er.append(c)
                    pt = self.W["parsers"][columns[i][1]]["type"] if i < len(columns) else "string"
                    cs = self.charsets.get(columns[i][1]) if i < len(columns) else None
                    wr.append(["badjson"] if pt in ("json", "jsontext") else list(c.encode(cs)) if cs else codes(c))
            enc_rows.append(er)
            W_rows.append(wr)
        data = csv_bytes(enc_rows, d, rng, eol, last_eol)
        if self.charsets and any(p in self.charsets for _, p in columns):
            cs = next(self.charsets[p] for _, p in columns if p in self.charsets)
            data = data.decode("utf-8").encode(cs)
        p = write(os.path.join(self.d, name + ".csv"), prefix + data)
        c = {"name": name, "type": "csv", "path": p}
        if header or (auto and header is not None):
            c["ignoreFirstRow"] = True
        if auto:
            c["autodetectColumns"] = True
        else:
            c["columns"] = [{"name": n, "parser": pp} for n, pp in columns]
        if delim != ",":
            c["delimiter"] = delim
        if die is not None:
            c["dieOnInputChange"] = die
        self.cfg["inputs"].append(c)
        if auto and not header:
            W_rows.insert(0, [codes(n) for n, _ in columns])
        self.W["inputs"][name] = {"kind": "csv", "columns": [{"name": n, "parser": pp} for n, pp in columns], "rows": W_rows}
        return p

    def json(self, name, recs, rng=None, sep="\n", die=None):
        parts = []
        for r in recs:
            t = json.dumps(r, ensure_ascii=bool(rng and rng.random() < 0.3), indent=(rng.choice([None, None, 1]) if rng else None))
            parts.append(t)
        if rng:
            data = ""
            for i, t in enumerate(parts):
                data += t + rng.choice(["\n", "\n", "", " ", "\n\n", "\r\n", "\t\n "])
        else:
            data = sep.join(parts) + ("\n" if parts else "")
        p = write(os.path.join(self.d, name + ".json"), data)
        c = {"name": name, "type": "json", "path": p}
        if die is not None:
            c["dieOnInputChange"] = die
        self.cfg["inputs"].append(c)
        self.W["inputs"][name] = {"kind": "json", "recs": [jval(r) for r in recs]}
        return p

    # -- inputs given by their text: the specification reads it itself
    def csvtext(self, name, columns, text, delim=",", header=False, auto=False, charset=None, die=None):
        p = write(os.path.join(self.d, name + ".csv"), text.encode(charset or "utf-8"))
        c = {"name": name, "type": "csv", "path": p}
        if header:
            c["ignoreFirstRow"] = True
        if auto:
            c["autodetectColumns"] = True
        else:
            c["columns"] = [{"name": n, "parser": pp} for n, pp in columns]
        if delim != ",":
            c["delimiter"] = delim
        if die is not None:
            c["dieOnInputChange"] = die
        self.cfg["inputs"].append(c)
        self.W["inputs"][name] = {"kind": "csvtext", "text": list(text.encode(charset)) if charset else codes(text), "delim": ord(delim), "header": header, "auto": auto,
                                  "columns": [{"name": n, "parser": pp} for n, pp in columns], "names": names(text) if auto or any(self.W["parsers"][p]["type"] == "jsontext" for _, p in columns) else {}}
        return p

    def jsontext(self, name, text, die=None):
        p = write(os.path.join(self.d, name + ".json"), text)
        c = {"name": name, "type": "json", "path": p}
        if die is not None:
            c["dieOnInputChange"] = die
        self.cfg["inputs"].append(c)
        self.W["inputs"][name] = {"kind": "jsontext", "text": codes(text), "names": names(text)}
        return p

    def xmldoc(self, name, props, root, sel, text, die=None):
        """root: an element; sel: [(descendant?, name or *, attr or "", value or None)]; text: a rendering of root."""
        xp = "".join(("//" if d else "/") + n + ("[@%s]" % a if a and v is None else "[@%s='%s']" % (a, v) if a else "") for d, n, a, v in sel)
        p = write(os.path.join(self.d, name + ".xml"), text)
        c = {"name": name, "type": "xml", "path": p, "recordXpath": xp, "properties": [xml_prop(x) for x in props]}
        if die is not None:
            c["dieOnInputChange"] = die
        self.cfg["inputs"].append(c)
        self.W["inputs"][name] = {"kind": "xmldoc", "props": [fill_prop(x) for x in props], "root": root,
                                  "sel": [{"d": d, "n": n, "attr": a, "anyval": v is None, "val": codes(v or "")} for d, n, a, v in sel]}
        return p

    def xml(self, name, props, recs, text, record_xpath, die=None):
        """props: spec-shaped property list; recs: spec-shaped elements, in document order; text: the document."""
        p = write(os.path.join(self.d, name + ".xml"), text)
        c = {"name": name, "type": "xml", "path": p, "recordXpath": record_xpath, "properties": [xml_prop(x) for x in props]}
        if die is not None:
            c["dieOnInputChange"] = die
        self.cfg["inputs"].append(c)
        self.W["inputs"][name] = {"kind": "xml", "props": [fill_prop(x) for x in props], "recs": recs}
        return p

    # -- indexes
    def index(self, name, kind, input="", props=(), collate=None, icase=False, file=None, dsn=None, **extra):
        """props: list of property paths."""
        collate = collate or {}
        self.W["indexes"][name] = {"kind": kind, "input": input, "icase": icase,
                                   "props": [{"key": p, "path": path(p), "collate": collate.get(p, "binary")} for p in props]}
        c = {"name": name, "type": kind}
        if kind != "noop":
            c["input"] = input
            c["properties"] = list(props)
        if kind == "sqlite":
            c["properties"] = [dict([("name", p)] + ([("collate", collate[p])] if p in collate else [])) for p in props]
        if kind in ("sqlite", "fts5"):
            c["dsn"] = dsn or os.path.join(self.d, name + ".db")
        if kind == "wildcard":
            c["path"] = file or os.path.join(self.d, name + ".idx")
            if icase:
                c["ignoreCase"] = True
        if kind == "fts5":
            self.W["indexes"][name]["tok"] = extra.get("tokenize", "unicode61")
        c.update(extra)
        self.cfg["indexes"].append(c)
        return name

    # -- outputs and routes
    def output(self, name, kind, input, params=None, ldef=None, lmax=None, lpar=None, opar=None, rels=None):
        """params: name -> (property, index, parser)."""
        params = params or {}
        c = {"name": name, "type": "jsonArray" if kind == "array" else "jsonObject", "input": input}
        c["parameters"] = {}
        W_params = {}
        for n, (prop, index, parser) in params.items():
            pc = {"property": prop}
            if index != "default":
                pc["index"] = index
            if parser != "string":
                pc["parser"] = parser
            c["parameters"][n] = pc
            W_params[n] = {"key": prop, "path": path(prop), "index": index, "parser": parser}
        if kind == "array":
            lim = {}
            if ldef is not None:
                lim["default"] = ldef
            if lmax is not None:
                lim["max"] = lmax
            if lpar is not None:
                lim["parameter"] = lpar
            if lim:
                c["limit"] = lim
            if opar is not None:
                c["offset"] = {"parameter": opar}
        if rels:
            c["relationships"] = {n: rel_cfg(r) for n, r in rels.items()}
        self.cfg["outputs"].append(c)
        self.W["outputs"][name] = {"kind": kind, "input": input, "params": W_params, "ldef": ldef or 100, "lmax": lmax or 1000,
                                   "lpar": lpar or "limit", "opar": opar or "offset",
                                   "rels": {n: rel_w(r) for n, r in (rels or {}).items()}}
        return name

    def route(self, output, *segs):
        """segs: str literals and ("name",) parameters. Default: /<output>."""
        segs = segs or ("/" + output,)
        p = "".join("{%s}" % s[0] if isinstance(s, tuple) else s for s in segs)
        self.cfg_routes_path = p
        self.routes.append({"output": output, "path": p})
        self.W["routes"].append({"output": output, "segs": [{"t": "par", "p": s[0]} if isinstance(s, tuple) else {"t": "lit", "s": codes(s)} for s in segs]})
        return p

    def start(self, **k):
        self.server = Server(self.cfg, self.d, self.routes, **k)
        return self.server


def xpath_text(x):
    t = "".join("/" + s for s in x["steps"])
    if x["attr"]:
        t += "/@" + x["attr"]
    if not t:
        t = "."
    return t if x["fn"] == "nodes" else "%s(%s)" % (x["fn"], t)


def X(fn, *steps, attr=""):
    return {"fn": fn, "steps": list(steps), "attr": attr}


def xml_prop(p):
    c = {"xpath": xpath_text(p["x"])}
    if p.get("name"):
        c["name"] = p["name"]
    t = p.get("type", "primitive")
    if t != "primitive":
        c["type"] = t
    if t == "primitive" and p.get("parser", "string") != "string":
        c["parser"] = p["parser"]
    if t == "array":
        c["items"] = xml_prop(p["items"])
    if t == "object":
        c["properties"] = [xml_prop(x) for x in p["props"]]
    return c


def fill_prop(p):
    t = p.get("type", "primitive")
    w = {"name": p.get("name", ""), "type": t, "x": p["x"], "parser": p.get("parser", "string")}
    if t == "array":
        w["items"] = fill_prop(p["items"])
    if t == "object":
        w["props"] = [fill_prop(x) for x in p["props"]]
    return w


def elem(n, a=None, t="", c=()):
    return {"n": n, "a": {k: codes(v) for k, v in (a or {}).items()}, "t": codes(t), "c": list(c)}


def xml_esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def xml_text(e, rng=None):
    s = "<" + e["n"] + "".join(' %s="%s"' % (k, xml_esc("".join(map(chr, v)))) for k, v in e["a"].items())
    body = xml_esc("".join(map(chr, e["t"]))) + "".join(xml_text(c, rng) for c in e["c"])
    if not body and rng and rng.random() < 0.5:
        return s + "/>"
    return s + ">" + body + "</" + e["n"] + ">"


def rel(input, match, isArray=False, limit=0, sort=(), rels=None):
    """match: [(parent, child property, index)]; sort: [(property, ascending)]"""
    return {"input": input, "match": match, "isArray": isArray, "limit": limit, "sort": list(sort), "rels": rels or {}}


def rel_cfg(r):
    c = {"input": r["input"], "match": []}
    for p, ch, ix in r["match"]:
        m = {"parentProperty": p, "childProperty": ch}
        if ix != "default":
            m["childIndex"] = ix
        c["match"].append(m)
    if r["isArray"]:
        c["isArray"] = True
    if r["limit"]:
        c["limit"] = r["limit"]
    if r["sort"]:
        c["sort"] = [dict([("property", p)] + ([("ascending", a)] if a is not None else [])) for p, a in r["sort"]]
    if r["rels"]:
        c["relationships"] = {n: rel_cfg(x) for n, x in r["rels"].items()}
    return c


def rel_w(r):
    return {"input": r["input"], "isArray": r["isArray"], "limit": r["limit"],
            "sort": [{"path": path(p), "asc": a is not False} for p, a in r["sort"]],
            "match": [{"parent": p, "key": ch, "path": path(ch), "index": ix} for p, ch, ix in r["match"]],
            "rels": {n: rel_w(x) for n, x in r["rels"].items()}}


# ---------------------------------------------------------------- requests
def fts_text(q):
    """FTS query AST -> query text."""
    t = q[0]
    if t == "t":
        return "".join(map(chr, q[1]))
    if t == "p":
        return "".join(map(chr, q[1])) + "*"
    if t == "ph":
        seps = [" ", " ", "'", ", ", "-", " ; ", '""', ".", "(", "\n", "*", " ` "]   # all the same between the words of a phrase
        return '"' + "".join(("" if i == 0 else seps[(sum(q[1][0]) + i + len(q[1])) % len(seps)]) + "".join(map(chr, w)) for i, w in enumerate(q[1])) + '"'
    if t == "c":
        col = q[1] if q[1].isalnum() else '"' + q[1] + '"'
        return col + " : " + fts_text(q[2]) if q[2][0] in ("t", "p", "ph") else col + " : (" + fts_text(q[2]) + ")"
    if t == "bad":
        return q[1]
    return "(" + fts_text(q[1]) + ") " + t.upper() + " (" + fts_text(q[2]) + ")"


class Req:
    def __init__(self, path, query=(), method="GET", fts=None, raw_query=None, note=""):
        self.path, self.query, self.method, self.fts, self.note = path, list(query), method, fts or {}, note
        for n, ast in self.fts.items():
            self.query.append((n, fts_text(ast)))

    def target(self):
        return target(self.path, self.query)

    def spec(self):
        return {"method": self.method, "path": codes(self.path), "query": [{"k": k, "v": codes(v)} for k, v in self.query],
                "fts": {n: fts_spec(a) for n, a in self.fts.items()}}


def fts_spec(q):
    return ["bad"] if q[0] == "bad" else [q[0]] + [fts_spec(x) if isinstance(x, tuple) else x for x in q[1:]]


def strict_json(text):
    """Rejects duplicate keys, NaN and the like: exactly one well-formed JSON text."""
    def pairs(ps):
        d = {}
        for k, v in ps:
            if k in d:
                raise ValueError("duplicate key")
            d[k] = v
        return d

    def const(c):
        raise ValueError("bad constant")
    return json.loads(text, object_pairs_hook=pairs, parse_constant=const)


def classify(r, method="GET"):
    """A raw response -> [status, kind, body] for the trace."""
    if method == "HEAD" and r.status >= 400 and not r.body:   # the same answer, without its body
        r = Response(r.status, r.ctype, b'{"error":"?"}', r.dropped)
    if r.dropped:
        return {"status": 0, "kind": "dropped", "body": ["n"]}
    ct = r.ctype.replace(" ", "").lower()
    if ct != "application/json;charset=utf-8":
        return {"status": r.status, "kind": "untyped", "body": ["n"]}
    try:
        v = strict_json(r.body.decode("utf-8"))
    except Exception:
        return {"status": r.status, "kind": "garbled", "body": ["n"]}
    if r.status != 200:
        if isinstance(v, dict) and set(v) == {"error"} and isinstance(v["error"], str) and v["error"]:
            return {"status": r.status, "kind": "error", "body": ["n"]}
        return {"status": r.status, "kind": "garbled", "body": ["n"]}
    return {"status": 200, "kind": "json", "body": wire(v)}
