"""Explains a replay file of a refused response: which property of which record differs from the specification.
   python3 tools/diag.py evidence/replay/X.json     (a debugging aid, not part of any check)"""
import sys, os, json, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tlc as T
import world

DIAG = """---- MODULE Diag ----
EXTENDS RodbTrace
ADiag == LET e == Trace[l]
             W == Resolve(Trace[1].w, DOMAIN Trace[1].w.inputs)
             out == W.outputs[W.routes[RouteOf(W, e.req)].output]
             inp == W.inputs[out.input]
             want == IF "expected" \\in DOMAIN e THEN e.expected ELSE [i \\in 1..NRecs(inp) |-> i]
             g == IF Tag(e.got.body) = "a" THEN e.got.body[2] ELSE <<e.got.body>>
  IN /\\ pc = "sent" /\\ pc' = "d" /\\ UNCHANGED l
     /\\ PrintT(<<"RECORDS", NRecs(inp), "GOT", Len(g)>>)
     /\\ \\A j \\in 1..Len(want) : LET r == RecAll(W.parsers, inp, want[j]) IN
          IF ~IsOk(r) THEN PrintT(<<"ERROR EXPECTED IN", want[j], {n \\in Names(inp) : ~IsOk(TopValue(W.parsers, inp, want[j], n))}>>)
          ELSE IF j > Len(g) THEN PrintT(<<"MISSING", want[j]>>)
          ELSE \\A k \\in DOMAIN Val(r) : IF k \\in DOMAIN g[j][2] /\\ g[j][2][k] = Wire(Val(r)[k]) THEN TRUE
                 ELSE PrintT(<<"DIFF", want[j], k, Wire(Val(r)[k]), IF k \\in DOMAIN g[j][2] THEN g[j][2][k] ELSE "none">>)
DSpec == Init /\\ [][ADiag]_<<l, pc>>
====
"""
r = json.load(open(sys.argv[1]))["replay"]
W = r["world"]
resp = world.strict_json(r["response"])
got = {"status": r["status"], "kind": "json", "body": world.wire(resp)}
from urllib.parse import urlsplit, parse_qsl, unquote
u = urlsplit(r["request"])
req = {"method": r["method"], "path": [ord(c) for c in unquote(u.path)], "query": [{"k": k, "v": [ord(c) for c in v]} for k, v in parse_qsl(u.query, True)], "fts": {}}
e = {"ev": "req", "id": 1, "wl": 1, "req": req, "got": got}
x = r["expected"]
i, j = x.find("<<"), x.find(">>")
if i >= 0 and j > i and x[i + 2:j].strip().replace(",", "").replace(" ", "").isdigit():
    e["expected"] = [int(v) for v in x[i + 2:j].split(",")]
p = write(os.path.join(scratch(), "t.ndjson"), json.dumps({"ev": "world", "w": W}) + "\n" + json.dumps(e) + "\n")
d = T.SPEC
os.makedirs(os.path.join(scratch(), "spec"))
write(os.path.join(scratch(), "spec", "Diag.tla"), DIAG)
for f in os.listdir(d):
    shutil.copy(os.path.join(d, f), os.path.join(scratch(), "spec"))
T.SPEC = os.path.join(scratch(), "spec")
o = T.tlc("Diag", env={"TRACE": p}, cfg_text="SPECIFICATION DSpec\nCHECK_DEADLOCK FALSE\n").out
for l in o.split("Finished computing")[-1].splitlines():
    print(l)
