"""Recording the writes of an indexing process (strace), and rebuilding the files it would leave by dying between two of them."""
import re, resource
from life import *


def strace_works():
    try:
        d = subdir("st")
        r = subprocess.run(["strace", "-f", "-o", os.path.join(d, "o"), "true"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        return r.returncode == 0 and os.path.getsize(os.path.join(d, "o")) > 0
    except (OSError, subprocess.TimeoutExpired):
        return False


def unhex(s):
    return bytes.fromhex(s.replace("\\x", ""))


LINE = re.compile(r"^\d+\s+(\w+)\((.*)\)\s+= (-?\d+|0x[0-9a-f]+)")


def parse(path, keep):
    """The operations on the files `keep` accepts: (file, "trunc", size) | (file, "write", offset, data) | (file, "unlink")."""
    ops, pending, pos = [], {}, {}
    for ln in open(path, errors="replace"):
        pid, rest = ln.rstrip("\n").split(None, 1)
        if rest.endswith("<unfinished ...>"):
            pending[pid] = rest[:-len("<unfinished ...>")].rstrip()
            continue
        m = re.match(r"<\.\.\. \w+ resumed>(.*)", rest)
        if m:
            rest = pending.pop(pid, "") + m.group(1)
        m = re.match(r"(\w+)\((.*)\)\s+= (-?\d+)", rest)
        if not m or int(m.group(3)) < 0:
            continue
        call, args, res = m.group(1), m.group(2), int(m.group(3))
        if call in ("pwrite64", "write", "ftruncate", "lseek"):
            f = re.match(r'(\d+)<((?:\\x[0-9a-f]{2})*|[^>]*)>, (.*)$', args, re.S)
            if not f:
                continue
            name = unhex(f.group(2)).decode() if f.group(2).startswith("\\x") else f.group(2)
            if not keep(name):
                continue
            if call == "ftruncate":
                ops.append((name, "trunc", int(f.group(3))))
            elif call == "lseek":
                pos[(f.group(1), name)] = res
            else:
                a = re.match(r'"((?:\\x[0-9a-f]{2})*)", (\d+)(?:, (\d+))?$', f.group(3))
                if not a:
                    raise Infra("unreadable trace line: " + ln[:200])
                data = unhex(a.group(1))[:res]
                if call == "pwrite64":
                    ops.append((name, "write", int(a.group(3)), data))
                else:
                    o = pos.get((f.group(1), name), 0)
                    ops.append((name, "write", o, data))
                    pos[(f.group(1), name)] = o + len(data)
        elif call == "openat":
            f = re.match(r'[^,]*, "((?:\\x[0-9a-f]{2})*)", ([A-Z_|0-9]+)', args)
            if f:
                name = unhex(f.group(1)).decode()
                if keep(name):
                    if "O_TRUNC" in f.group(2):
                        ops.append((name, "trunc", 0))
                    elif "O_CREAT" in f.group(2):
                        ops.append((name, "create"))
        elif call in ("unlink", "unlinkat"):
            f = re.search(r'"((?:\\x[0-9a-f]{2})*)"', args)
            if f and keep(unhex(f.group(1)).decode()):
                ops.append((unhex(f.group(1)).decode(), "unlink"))
        elif call in ("rename", "renameat", "renameat2"):
            f = [unhex(x).decode() for x in re.findall(r'"((?:\\x[0-9a-f]{2})*)"', args)]
            if len(f) == 2 and (keep(f[0]) or keep(f[1])):
                ops.append((f[0], "rename", f[1]))
    return ops


def apply_ops(files, ops):
    files = {k: bytearray(v) for k, v in files.items()}
    for op in ops:
        n = op[0]
        if op[1] == "trunc":
            b = files.setdefault(n, bytearray())
            del b[op[2]:]
            b.extend(b"\0" * (op[2] - len(b)))
        elif op[1] == "create":
            files.setdefault(n, bytearray())
        elif op[1] == "write":
            b = files.setdefault(n, bytearray())
            if len(b) < op[2]:
                b.extend(b"\0" * (op[2] - len(b)))
            b[op[2]:op[2] + len(op[3])] = op[3]
        elif op[1] == "unlink":
            files.pop(n, None)
        elif op[1] == "rename" and n in files:
            files[op[2]] = files.pop(n)
    return {k: bytes(v) for k, v in files.items()}


def store_files(w):
    return sorted({p for ix in w.cfg["indexes"] for p in [ix.get("path") or ix.get("dsn")] if p and not p.startswith(":")})


def present(d, names):
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if any(p.startswith(n) for n in names) and os.path.isfile(p):
            out[p] = open(p, "rb").read()
    return out


def record_build(w, wait=120):
    """Starts rodb under strace on a world; returns (did it serve?, files before, operations)."""
    names = store_files(w)
    out = os.path.join(w.d, "trace.out")
    before = present(w.d, names)
    s = Server(w.cfg, w.d, w.routes, wait=wait, prefix=("strace", "-f", "-y", "-xx", "-s", "100000000", "-e", "trace=pwrite64,write,ftruncate,openat,unlink,unlinkat,rename,renameat,renameat2,lseek", "-e", "signal=none", "-o", out))
    up = s.up
    if s.alive():
        try:
            kid = int(open("/proc/%d/task/%d/children" % (s.p.pid, s.p.pid)).read().split()[0])
            os.kill(kid, signal.SIGINT)
            s.p.wait(20)
        except (OSError, IndexError, subprocess.TimeoutExpired):
            s.kill()
    s.log.close()
    w.server = s
    ops = parse(out, lambda p: any(p.startswith(n) for n in names))
    os.unlink(out)
    after = present(w.d, names)
    if apply_ops(before, ops) != after:
        raise Infra("the recorded writes do not give the files found: %r" % {k: (len(v), len(apply_ops(before, ops).get(k, b""))) for k, v in after.items()})
    return up, before, ops


def clone(w, files):
    """The same installation in another directory, with these stored files."""
    d = subdir("im")
    v = copy.copy(w)
    v.d = d
    v.cfg = json.loads(json.dumps(w.cfg).replace(json.dumps(w.d)[1:-1], json.dumps(d)[1:-1]))
    for a, b in zip(w.cfg["inputs"], v.cfg["inputs"]):
        if not os.path.exists(b["path"]):
            shutil.copy2(a["path"], b["path"])
    for p, data in files.items():
        open(p.replace(w.d, d), "wb").write(data)
    v.server = None
    return v


from check import *
