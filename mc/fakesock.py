"""Connected sockets without a network: urllib3's create_connection is replaced, every byte the client sends is handled
synchronously by a callable, so connection reuse, drops and refusals of the real HTTP stack are under control."""
import socket
import threading

import urllib3.util.connection as uc

from .env import W

_real = uc.create_connection


class Conn(socket.socket):
    """the client's end"""

    def wire(self, peer, net, number):
        self.peer, self.net, self.number, self.buf = peer, net, number, b""

    def sendall(self, data, *a):
        self.buf += bytes(data)
        while True:
            head, sep, rest = self.buf.partition(b"\r\n\r\n")
            if not sep:
                return
            lines = head.decode("latin-1").split("\r\n")
            h = {}
            for x in lines[1:]:
                k, _, v = x.partition(":")
                h[k.strip().lower()] = v.strip()
            n = int(h.get("content-length", 0))
            if len(rest) < n:
                return
            self.buf = rest[n:]
            out = self.net.handle(self, lines[0], h, rest[:n])
            if out is None:
                self.peer.close()
            else:
                data, close = out
                self.peer.sendall(data)
                if close:
                    self.peer.close()

    send = None


class Net:
    """handler(conn, line, headers, body) -> (status, body, headers, close_after) or None to drop the connection"""

    def __init__(self, handler):
        self.handler = handler
        self.attempts = []        # (address, thread name)
        self.refuse = False
        self.conns = []

    def install(self):
        W.reset()
        W.virtual = True
        W.net = None
        uc.create_connection = self.connect
        return self

    def connect(self, address, timeout=None, source_address=None, socket_options=None):
        self.attempts.append((address, threading.current_thread().name))
        if self.refuse:
            raise ConnectionRefusedError(111, "refused")
        a, b = socket.socketpair()
        b.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 21)
        c = Conn(fileno=a.detach())
        c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 21)
        c.wire(b, self, len(self.conns))
        c.settimeout(20)
        self.conns.append(c)
        return c

    def handle(self, conn, line, h, body):
        r = self.handler(conn, line, h, body)
        if r is None:
            return None
        st, out, hdrs, close = r
        text = "HTTP/1.1 %d X\r\nContent-Length: %d\r\n" % (st, len(out))
        for k, v in (hdrs or {"Content-Type": "application/soap+xml;charset=UTF-8"}).items():
            text += "%s: %s\r\n" % (k, v)
        if close:
            text += "Connection: close\r\n"
        return text.encode() + b"\r\n" + out, close

    def drop(self):
        """the server closes every idle connection"""
        for c in self.conns:
            c.peer.close()

    def uninstall(self):
        uc.create_connection = _real
        for c in self.conns:
            for s in (c.peer, c):
                try:
                    s.close()
                except OSError:
                    pass
