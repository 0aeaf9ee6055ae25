"""Simulated network under the real requests/urllib3/http.client.

Sockets, name resolution and the TLS layer are simulated; everything above runs
for real.  Time is simulated: a wait that ends in a timeout costs its timeout, a
wait without timeout on a peer that never answers can never end and is reported
as a hang."""
import json
import os
import random
import socket
import ssl

from sim import core

real_socket = socket.socket
N = None


class Net:
    """plan: ping (ok|refuse|unreach|stall|reset), dns (ok|fail|stall|slow),
    connect, tls, send, answer: [bytes pieces and faults] per request in order"""

    def __init__(self, plan):
        self.plan = plan
        self.now = 0.0
        self.hang = None
        self.opened = 0
        self.closed = 0
        self.connects = []
        self.requests = 0
        self.answers = list(plan.get("answers", []))
        self.events = []

    def wait(self, timeout, what):
        """Nothing will ever come."""
        core.bump("fault:net_stall")
        if timeout is None:
            self.hang = what
            raise core.SimHang("no timeout: waiting forever for %s" % what)
        self.now += timeout
        if timeout == 0:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        raise TimeoutError("timed out")

    def point(self, name, timeout):
        """A network operation that may fail as the plan says."""
        how = self.plan.get(name, "ok")
        self.events.append("%s:%s" % (name, how))
        if how == "ok":
            self.now += 0.02
            return
        core.bump("fault:net_" + name)
        if how == "slow":
            self.now += 2.0
            return
        if how == "stall":
            self.wait(timeout, name)
        if how == "refuse":
            raise ConnectionRefusedError(111, "Connection refused")
        if how == "unreach":
            raise OSError(101, "Network is unreachable")
        if how == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        if how == "perm":
            raise PermissionError(1, "Operation not permitted")
        if how == "emfile":
            raise OSError(24, "Too many open files")
        if how == "fail":
            raise socket.gaierror(-2, "Name or service not known")
        if how == "again":
            self.now += 10.0
            raise socket.gaierror(-3, "Temporary failure in name resolution")
        if how == "cert":
            raise ssl.SSLCertVerificationError(1, "certificate verify failed: self-signed certificate")
        if how == "eof":
            raise ssl.SSLEOFError(8, "EOF occurred in violation of protocol")
        if how == "unicode":
            raise UnicodeError("label too long")
        raise core.HarnessError(how)


class SimSocket(real_socket):
    """A socket that talks to the simulated network only."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        if N.plan.get("socket", "ok") != "ok":
            N.point("socket", None)
        if fileno is not None:
            raise core.HarnessError("socket from a descriptor")
        super().__init__(socket.AF_INET if family == -1 else family, socket.SOCK_STREAM if type == -1 else type, 0 if proto == -1 else proto)
        N.opened += 1
        self._sim_open = True
        self._to = socket.getdefaulttimeout()
        self._out = b""
        self._in = None
        self._peer = None

    # state
    def settimeout(self, v):
        self._to = v

    def gettimeout(self):
        return self._to

    def setblocking(self, flag):
        self._to = None if flag else 0.0

    @property
    def timeout(self):
        return self._to

    def setsockopt(self, *a):
        pass

    def bind(self, *a):
        pass

    def getpeername(self):
        return self._peer

    def _real_close(self, *a, **k):
        if self._sim_open:
            self._sim_open = False
            N.closed += 1
        super()._real_close(*a, **k)

    def detach(self):
        self._sim_open = False
        N.closed += 1
        return super().detach()

    def shutdown(self, how):
        pass

    def unwrap(self):
        return self

    # the network
    def connect(self, addr):
        N.connects.append(list(addr[:2]))
        name = "ping" if addr[1] != 443 and addr[1] != 80 else "connect"
        N.point(name, self._to)
        self._peer = addr

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except TimeoutError:
            return 110
        except OSError as e:
            return e.errno or 111

    def sendall(self, data, *a):
        N.point("send", self._to)
        self._out += bytes(data)
        if b"\r\n\r\n" in self._out:
            N.requests += 1
            self._out = b""
            self._in = list(N.answers.pop(0)) if N.answers else [["stall"]]

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def recv(self, n, *a):
        if not self._in:
            if self._in is None:
                N.wait(self._to, "answer")
            return b""
        piece = self._in[0]
        if isinstance(piece, list):
            core.bump("fault:net_answer")
            what = piece[0]
            if what == "stall":
                N.wait(self._to, "answer")
            if what == "pause":
                # a long silence, then it goes on
                if self._to is not None and piece[1] >= self._to:
                    piece[1] -= self._to
                    N.now += self._to
                    raise TimeoutError("timed out")
                N.now += piece[1]
                self._in.pop(0)
                return self.recv(n)
            if what == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if what == "eof":
                self._in = []
                return b""
            if what == "ssl":
                raise ssl.SSLError(1, "decryption failed or bad record mac")
            raise core.HarnessError(what)
        N.now += 0.01
        data = piece if isinstance(piece, bytes) else piece.encode("latin-1")
        out, rest = data[:n], data[n:]
        if rest:
            self._in[0] = rest
        else:
            self._in.pop(0)
        return out

    def recv_into(self, buf, nbytes=0, *a):
        n = nbytes or len(buf)
        b = self.recv(n)
        buf[: len(b)] = b
        return len(b)

    read = recv

    # the TLS side, when wrapped
    def do_handshake(self, *a):
        pass

    def version(self):
        return "TLSv1.3"

    def cipher(self):
        return ("TLS_AES_256_GCM_SHA384", "TLSv1.3", 256)

    def selected_alpn_protocol(self):
        return None

    def getpeercert(self, binary_form=False):
        return b"" if binary_form else {"subject": ((("commonName", "api.github.com"),),), "subjectAltName": (("DNS", "*.github.com"), ("DNS", "*.githubusercontent.com"))}


def _wrap(self, sock, *a, **k):
    N.point("tls", sock.gettimeout())
    return sock


def _getaddrinfo(host, port, *a, **k):
    how = N.plan.get("dns", "ok")
    if how == "stall":
        # the resolver gives up by itself
        core.bump("fault:net_dns")
        N.now += 20.0
        raise socket.gaierror(-3, "Temporary failure in name resolution")
    N.point("dns", None)
    port = int(port) if port else 0
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("192.0.2.%d" % (i + 1), port)) for i in range(N.plan.get("addresses", 1))]


def activate(plan):
    global N
    N = Net(plan)
    socket.socket = SimSocket
    socket.SocketType = SimSocket
    socket.getaddrinfo = _getaddrinfo
    socket.gethostbyname = lambda h: _getaddrinfo(h, 0)[0][4][0]
    ssl.SSLContext.wrap_socket = _wrap
    return N


def deactivate():
    global N
    socket.socket = real_socket
    socket.SocketType = real_socket
    N = None


def http(status, body, headers=None, reason="X", chunked=False, length=None):
    """A whole answer as one string (latin-1)."""
    h = {"Content-Type": "application/json; charset=utf-8", "Connection": "close"}
    h.update(headers or {})
    if chunked:
        h["Transfer-Encoding"] = "chunked"
        body = "".join("%x\r\n%s\r\n" % (len(body[i : i + 500]), body[i : i + 500]) for i in range(0, len(body), 500)) + "0\r\n\r\n"
    else:
        h.setdefault("Content-Length", str(len(body) if length is None else length))
    return "HTTP/1.1 %d %s\r\n" % (status, reason) + "".join("%s: %s\r\n" % kv for kv in h.items()) + "\r\n" + body
