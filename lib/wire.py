"""Talking HTTP over bare sockets: several requests at once, in pieces, abandoned half way; answers are parsed strictly."""
import socket, time
from core import Response, DROPPED


class Broken(Exception):
    pass


class Reader:
    def __init__(self, sock, piece=65536, pause=0):
        self.s, self.buf, self.piece, self.pause, self.eof = sock, b"", piece, pause, False

    def more(self):
        if self.pause:
            time.sleep(self.pause)
        b = self.s.recv(self.piece)
        if not b:
            self.eof = True
            return False
        self.buf += b
        return True

    def line(self):
        while b"\r\n" not in self.buf:
            if not self.more():
                raise Broken("end inside of a line")
        ln, self.buf = self.buf.split(b"\r\n", 1)
        return ln.decode("latin-1")

    def take(self, n):
        while len(self.buf) < n:
            if not self.more():
                raise Broken("end inside of a body")
        b, self.buf = self.buf[:n], self.buf[n:]
        return b

    def response(self, method):
        while True:
            st = self.line().split(" ", 2)
            if not st[0].startswith("HTTP/1.") or not st[1].isdigit():
                raise Broken("not a status line: %r" % st)
            hs = []
            while True:
                ln = self.line()
                if not ln:
                    break
                k, _, v = ln.partition(":")
                hs.append((k.strip().lower(), v.strip()))
            if int(st[1]) != 100:
                break
        h = dict(hs)
        if len([k for k, _ in hs if k == "content-type"]) > 1 or len([k for k, _ in hs if k == "content-length"]) > 1:
            raise Broken("repeated headers")
        if method == "HEAD":
            body = b""
        elif "content-length" in h:
            body = self.take(int(h["content-length"]))
        elif h.get("transfer-encoding") == "chunked":
            body = b""
            while True:
                n = int(self.line(), 16)
                body += self.take(n)
                if self.take(2) != b"\r\n":
                    raise Broken("bad chunk")
                if n == 0:
                    break
        else:
            while self.more():
                pass
            body, self.buf = self.buf, b""
        return Response(int(st[1]), h.get("content-type", ""), body, headers=hs), h.get("connection", "").lower() == "close"


def message(method, target, version="1.1", headers=(), body=None, chunked=False):
    ls = ["%s %s HTTP/%s" % (method, target, version), "Host: x"] + ["%s: %s" % kv for kv in headers]
    b = b""
    if body is not None and chunked:
        ls.append("Transfer-Encoding: chunked")
        b = b"%x\r\n%s\r\n0\r\n\r\n" % (len(body), body) if body else b"0\r\n\r\n"
    elif body is not None:
        ls.append("Content-Length: %d" % len(body))
        b = body
    return ("\r\n".join(ls) + "\r\n\r\n").encode("latin-1") + b


def connect(port, timeout=30, rcvbuf=None):
    s = socket.socket()
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.settimeout(timeout)
    s.connect(("127.0.0.1", port))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def send_pieces(s, data, rng, pieces=1, pause=0.0):
    cuts = sorted(rng.sample(range(1, len(data)), min(pieces - 1, len(data) - 1)))
    for a, b in zip([0] + cuts, cuts + [len(data)]):
        s.sendall(data[a:b])
        if pause:
            time.sleep(pause)


def conversation(port, msgs, methods, rng, pieces=1, pause=0.0, piece=65536, rpause=0, last=False):
    """Sends all the messages at once (in pieces); returns one Response each (dropped where the answer is missing or broken).
    last: the connection must be closed by the server afterwards, with nothing more on it."""
    res = []
    try:
        s = connect(port, rcvbuf=4096 if rpause else None)
    except OSError:
        return [DROPPED() for _ in msgs]
    try:
        send_pieces(s, b"".join(msgs), rng, pieces, pause)
        r = Reader(s, piece, rpause)
        for m in methods:
            got, closed = r.response(m)
            res.append(got)
            if closed and len(res) < len(msgs):
                break
        if not r.buf and not r.eof:
            # nothing may follow the last answer
            s.settimeout(0.02)
            try:
                while r.more():
                    pass
            except OSError:
                pass
        if r.buf:
            res[-1] = DROPPED()
    except (OSError, Broken, ValueError, IndexError):
        pass
    finally:
        s.close()
    return res + [DROPPED() for _ in msgs[len(res):]]
