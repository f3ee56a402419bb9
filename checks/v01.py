"""V01: parsers convert exactly the texts they accept."""
TECHNIQUE = 'TLA+ definition of every parser checked against reading automata by TLC; cells, query and route parameters of the real server validated against it'
NOTE = 'ParserCases: the definitions of RodbValues equal character-by-character automata for all short texts and settings, with refuted variants. On rodb, for each parser setting (ignored characters, separators, boolean values, delimiters, regular expressions, charsets), all texts up to a bounded length over an alphabet made for it, plus boundary ones, are read as cells (each row alone), as query parameters and as route parameters; the values or errors must be those of the definition.'
import itertools
from gen import *


def words(alpha, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


BIGINT = ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "00000000000000000000000001", "99999999999999999999", "1234567", "-1000000", "999999", "1e3", "0x10", "1_000", "٣", "１", "\u22125", "1\n", "\t1", "", "null", "12345678901234567"]
BIGFLT = ["inf", "-inf", "+Infinity", "NaN", "nan", "-nan", "1e308", "1e309", "-1e999", "1e-999", "1e-300", "123456789012345", "0.000001", "999999.9995", "00000000000000000000.5", "1e+05", "1e0000000000000000001", "1ee1", "1e1.5", "0x", "infinit", "nano", "1 000,5", "١", "5\n", "1.2.3", "--1", "+-1", "1-", "1e--1", "1000000", "12345678.25"]
# (name, spec of the parser, alphabet, texts of interest)
INTS_ = [("i0", {}, "09+- x.", BIGINT), ("i1", {"ignore": ", €"}, "01-,€ +", BIGINT + ["€ 1,234", "1€2", "-€5", "€-5", ",", "1 ,"]), ("i2", {"ignore": "-"}, "01-+", ["1-2", "-", "--", "-5-"]),
         ("i3", {"ignore": "]^\\"}, "01]^\\-", []), ("i4", {"ignore": "0"}, "01-", ["0", "100", "-0"]), ("i5", {"ignore": "+"}, "1+-", ["+-1", "++", "-+1"])]
FLTS_ = [("f0", {"sep": "."}, "05.-e", BIGFLT), ("f1", {"sep": ","}, "05,.-", BIGFLT), ("f2", {"sep": ",", "ignore": "."}, "05,.-", ["1.234,5", "1.234.567,25", "1,234.5"]),
         ("f3", {"sep": "::", "ignore": " "}, "5: -", ["1::5", "1:5", "1::::5", "::5", "5::"]), ("f4", {"sep": "é", "ignore": "€$"}, "5é€-.", ["€1é5", "1é2é3"]),
         ("f5", {"sep": "-"}, "5-.", ["1-5", "-1-5", "-1", "--5"]), ("f6", {"sep": ".", "ignore": "e"}, "5.e+", ["1e3", "e", "in", "1e+3"])]
BOOLS_ = [("b0", {"t": ["true", "1", "TRUE"], "f": ["false", "0", "FALSE"]}), ("b1", {"t": ["y", "yes"], "f": ["n", "no", ""]}), ("b2", {"t": ["a.c", "x|y", "("], "f": ["abc", "x", "[0-9]"]}),
          ("b3", {"t": ["a", "ab"], "f": ["abc", "b"]}), ("b4", {"t": ["oui "], "f": [" non", "é"]}), ("b5", {"t": ["same"], "f": ["same", "other"]})]
RES = [[(",;", 1, False)], [(" \t", 1, True)], [(",", 1, False), (" ", 0, True)], [("ab", 1, True)], [("\\", 1, False), ("]-^", 0, False)], [(".", 1, False)], [("1", 1, False)]]
SPLITS = [("s_comma", {"delim": ","}, "1a, "), ("s_multi", {"delim": "ab"}, "ab1"), ("s_aa", {"delim": "aa"}, "a1"), ("s_empty", {"delim": ""}, "1é "), ("s_dot", {"delim": "."}, "1.a"),
          ("s_pipe", {"delim": "|"}, "1|a"), ("s_nl", {"delim": "\n"}, "1\na"), ("s_sp", {"delim": " "}, "1 a"), ("s_uni", {"delim": "é"}, "1éa"), ("s_star", {"delim": ".*"}, "1.*")]
CHARSETS = [("iso-8859-1", "aé÷ÿ£\xa0"), ("windows-1252", "a€é™“"), ("iso-8859-15", "a€éŒ"), ("koi8-r", "aдЯ°"), ("windows-1251", "aдЯ№"), ("Shift_JIS", "aあ日本ｱ"), ("EUC-JP", "aあ日本"), ("GBK", "a中文é"), ("Big5", "a中文"), ("UTF-8", "aé日😀")]


def reader_world(c, parsers, texts_of):
    """Each text is the cell of a row of its own, read without any filter so that only that row is."""
    w = World()
    reqs = []
    for name in parsers:
        parsers[name](w)
        ts = texts_of(name)
        w.csv("in_" + name, [("id", "integer"), ("v", name)], [[str(i), t] for i, t in enumerate(ts)])
        w.route(w.output("c_" + name, "array", "in_" + name))
        reqs += [Req("/c_" + name, [("limit", "1"), ("offset", str(i))]) for i in range(len(ts))]
    return w, reqs


def param_world(c, parsers, texts_of, values):
    """The same texts as query and route parameters, against a file of known values."""
    w = World()
    reqs = []
    for name, kind in parsers.items():
        kind(w)
        typ = w.W["parsers"][name]["type"]
        w.csv("in_" + name, [("id", "integer"), ("v", typ)], [[str(i), t] for i, t in enumerate(values[typ])])
        w.route(w.output("q_" + name, "array", "in_" + name, {"p": ("v", "default", name)}))
        w.route("q_" + name, "/r_" + name + "/", ("p",))
        w.route("q_" + name, "/m_" + name + "/", ("p",), "/end")
        for t in texts_of(name):
            reqs.append(Req("/q_" + name, [("p", t)]))
            if c.rng.random() < (0.6 if THOROUGH else 0.35):
                reqs.append(Req(c.rng.choice(["/r_%s/%s", "/m_%s/%s/end"]) % (name, t)))
    return w, reqs


def enough(c, alpha, n, extra, cap):
    ws = words(alpha, n)
    if len(ws) > cap:
        ws = [x for x in ws if len(x) < 3] + c.rng.sample([x for x in ws if len(x) >= 3], cap - len([x for x in ws if len(x) < 3]))
    return list(dict.fromkeys(ws + extra))


def bool_texts(c, k):
    vs = k["t"] + k["f"]
    out = set(vs) | {v.upper() for v in vs} | {v.lower() for v in vs} | {v + " " for v in vs} | {" " + v for v in vs} | {v[:-1] for v in vs} | {v[1:] for v in vs} | {a + b for a in vs for b in vs} | {v + "\n" for v in vs}
    return sorted(out | {"t", "f", "yes", "no", "2", "-1", "on", "null", "abxc", "5"})


def run(c):
    n = "6" if THOROUGH else "4"
    good = {"Alphabet": "{48,53,43,45,44,46,32,101}", "MaxLen": n, "Ignore": "{32}", "Sep": "44", "SignOnce": "TRUE", "IgnoreAnywhere": "TRUE", "NeedsDigit": "TRUE"}
    c.design("ParserCases", good, [{"SignOnce": "FALSE"}, {"IgnoreAnywhere": "FALSE"}, {"NeedsDigit": "FALSE"}], {"MaxLen": "3"})
    for ig, sep in (("{}", "46"), ("{45}", "46"), ("{101,43}", "44"), ("{53}", "32")):
        c.model("ParserCases", constants={**good, "Ignore": ig, "Sep": sep})
    cap, ln = (1500, 5) if THOROUGH else (350, 4)
    texts, mk = {}, {}
    for name, k, alpha, extra in INTS_:
        texts[name] = enough(c, alpha, ln, extra, cap)
        mk[name] = lambda w, name=name, k=k: w.parser(name, "integer", **k)
    for name, k, alpha, extra in FLTS_:
        texts[name] = enough(c, alpha, ln, extra, cap)
        mk[name] = lambda w, name=name, k=k: w.parser(name, "float", **k)
    for name, k in BOOLS_:
        texts[name] = bool_texts(c, k)
        mk[name] = lambda w, name=name, k=k: w.parser(name, "boolean", **k)
    jobs = [reader_world(c, {n_: mk[n_]}, texts.get) for n_ in mk]
    values = {"integer": [str(i) for i in list(range(-12, 14)) + [-21, 19, 90, 91, 99, 100, 111, 999, 1234, 1234567, 9223372036854775807, -9223372036854775808]], "boolean": ["true", "false"],
              "float": ["%g" % (i / 2) for i in range(-11, 12)] + ["0.05", "-0.05", "5.05", "50", "55", "-50", "15", "0.55", "0.005", "50.05", "500", "5000", "50000", "1e308", "123456789012345", "1234.5", "0.055"]}
    jobs += [param_world(c, {n_: mk[n_]}, texts.get, values) for n_ in mk]
    # split
    sp = {}
    for inner in ("string", "integer", "boolean"):
        for name, k, alpha in SPLITS:
            nm = name + "_" + inner
            sp[nm] = ((lambda w, nm=nm, k=k, inner=inner: w.parser(nm, "split", parser=inner, **k)), words(alpha, 4 if THOROUGH else 3)[: 400])
        for j, re_ in enumerate(RES):
            nm = "s_re%d_%s" % (j, inner)
            alpha = "".join(dict.fromkeys("".join(cs for cs, _, _ in re_)))[:4] + "1x"
            sp[nm] = ((lambda w, nm=nm, re_=re_, inner=inner: w.parser(nm, "split", delim="", parser=inner, re=re_)), words(alpha, 4 if THOROUGH else 3)[: 400])
    sp["s_nest"] = ((lambda w: (w.parser("s_in", "split", delim="-", parser="integer"), w.parser("s_nest", "split", delim=",", parser="s_in"))), words("1,-", 5))
    sp["s_flt"] = ((lambda w: (w.parser("s_f", "float", sep=","), w.parser("s_flt", "split", delim=";", parser="s_f"))), words("1,;", 5))
    names_ = list(sp)
    c.rng.shuffle(names_)
    for i in range(0, len(names_), 6):
        jobs.append(reader_world(c, {n_: sp[n_][0] for n_ in names_[i:i + 6]}, lambda n_: c.rng.sample(sp[n_][1], min(len(sp[n_][1]), 300 if THOROUGH else 70))))
    # JSON cells, read by the grammar
    tok = ["{", "}", "[", "]", ",", ":", '"a"', '"\\u00e9"', "1", "-0.5", "1e3", "true", "null", " ", "\n", "01", "x"]
    js = ["", '{"a":{"b":[1,null]},"a":2}', '[1,[2,[3]]]', '"a', '{"a" 1}', "1 2", "[1,]", "{,}", "nul", "1e999", "NaN", "'a'", " [ ] ", "\ufeff1", "{}{}", '"\x01"', '{"é":"😀"}'] + ["".join(t) for k in (1, 2) for t in itertools.product(tok, repeat=k)]
    js += ["".join(c.rng.choice(tok) for _ in range(c.rng.randint(3, 6))) for _ in range(1000 if THOROUGH else 150)]
    for i in range(0, len(js), 40):
        w = World()
        w.parser("j", "jsontext")
        rows = js[i:i + 40]
        w.csvtext("i", [("id", "integer"), ("v", "j")], csv_bytes([[str(k), t] for k, t in enumerate(rows)]).decode())
        w.route(w.output("o", "array", "i"))
        jobs.append((w, [Req("/o", [("limit", "1"), ("offset", str(k))]) for k in range(len(rows))]))
    # texts which are often taken for something else
    sp = ["\ufeff", "\ufeffa", "a\ufeff", "\u200b", "\u2028a", "\xa0a\xa0", " a ", "\ta\t", "\x00", "a\x00b", "\x1a", "\x7f", "\x1b[0m", "e\u0301", "é", "\ufffd", "\ufffe", "😀", "👨\u200d👩", "\u202eabc", "\r", "a\rb", "\\", "\\n", "\"", "'", "<a>", "&amp;", "%41", "+", "${x}", "null", "NULL", "\\N",
          "0", "-0", "1e3", "ß", "ſ", "İ", "ı", "K", "a" * 200]
    w = World()
    w.parser("sl", "split", delim="|", parser="string")
    w.csv("i", [("id", "integer"), ("v", "string"), ("l", "sl")], [[str(k), t, t + "|" + t] for k, t in enumerate(sp)])
    w.json("j", [{"id": k, "v": t} for k, t in enumerate(sp)])
    for n_ in "ij":
        w.route(w.output("o" + n_, "array", n_, {"v": ("v", "default", "string")}))
    jobs.append((w, [Req("/o" + n_, [("limit", "1"), ("offset", str(k))]) for k in range(len(sp)) for n_ in "ij"] + [Req("/o" + n_, [("v", t)]) for t in sp for n_ in "ij"]))
    # lists of many pieces
    w = World()
    w.parser("sl", "split", delim="|", parser="string")
    w.parser("si", "split", delim="", parser="integer", re=[(",;", 1, True)])
    w.parser("sn", "split", delim="/", parser="si")
    w.csv("i", [("id", "integer"), ("l", "sl"), ("n", "si"), ("m", "sn")],
          [[str(n), "|".join("abcdefg"[i % 7] for i in range(n)), ",;"[n % 2].join(str(i % 5) for i in range(n)), "/".join(["1;2"] * (n // 2))] for n in (9, 10, 11, 64, 101, 129, 257, 600)])
    w.route(w.output("o", "array", "i"))
    jobs.append((w, [Req("/o", [("limit", "1"), ("offset", str(k))]) for k in range(8)]))
    # charsets: cells in that charset, and request texts (UTF-8) read as bytes of it
    for cs, chars in CHARSETS:
        w = World()
        w.parser("cs", "string", charset=cs, chars=chars)
        ws = words(chars, 2) + [chars * 3, chars * (1200 if cs in ("iso-8859-1", "Shift_JIS", "UTF-8") or THOROUGH else 30)]
        w.csv("i", [("id", "integer"), ("v", "cs")], [[str(k), t] for k, t in enumerate(ws)])
        w.route(w.output("o", "array", "i"))
        w.csv("u", [("id", "integer"), ("v", "string")], [[str(k), t.encode("utf-8").decode(cs, "replace")] for k, t in enumerate(ws[:40])] if len(charset_table(cs, chars)["two"]) == 0 and cs != "UTF-8" else [["0", "a"]])
        w.route(w.output("p", "array", "u", {"v": ("v", "default", "cs")}))
        reqs = [Req("/o", [("limit", "1"), ("offset", str(k))]) for k in range(len(ws))] + [Req("/o")]
        if cs in ("iso-8859-1", "windows-1251", "koi8-r", "iso-8859-15"):
            reqs += [Req("/p", [("v", t)]) for t in ws[:40] if cs == "iso-8859-1" or not any("\x80" <= x <= "\x9f" for x in t.encode("utf-8").decode(cs))]
        jobs.append((w, reqs))
    c.run_jobs(jobs)
    c.validate()
