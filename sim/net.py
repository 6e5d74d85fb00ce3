"""Simulated remote side below the real HTTP clients (requests/urllib3 and
httpx/httpcore): connections, bytes, failures are decided by the plan."""
import io
import json
import socket
import zlib
import gzip


def error_body(o, url):
    if o["as"] == "json":
        return json.dumps({"error": {"status": o["status"], "url": url}, "content": []})
    return f"<html><body><h1>error {o['status']}</h1><div><h1>error</h1>{url}</div></body></html>"


class Remote:
    """Serves URLs; ``decide(url, n)`` gives the outcome of the n-th request
    for it.  Records what it delivered completely and successfully."""

    def __init__(self, decide, body):
        self.decide = decide
        self.body = body  # (url, version) -> (bytes, content type)
        self.requests = []  # (url, outcome kind)
        self.count = {}

    def answer(self, url):
        n = self.count.get(url, 0)
        self.count[url] = n + 1
        o = self.decide(url, n)
        self.requests.append((url, o))
        return o

    def wire(self, url, o):
        """(bytes on the wire, what happens when they are used up)."""
        kind = o["kind"]
        status = o.get("status", 200)
        if kind == "hop":
            return b"HTTP/1.1 %d X\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % (status, o["to"].encode()), "eof"
        if kind == "error":
            ct = "application/json" if o["as"] == "json" else "text/html"
            body = error_body(o, url).encode()
        else:
            body, ct = self.body(url, o["version"])
        extra = b""
        if o.get("gzip"):
            body = gzip.compress(body, mtime=0)
            extra = b"Content-Encoding: gzip\r\n"
        if o.get("chunked"):
            extra += b"Transfer-Encoding: chunked\r\n"
            step = max(1, len(body) // 3)
            wire = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + step]), body[i:i + step]) for i in range(0, len(body), step)) + b"0\r\n\r\n"
        else:
            extra += b"Content-Length: %d\r\n" % len(body)
            wire = body
        head = b"HTTP/1.1 %d X\r\nContent-Type: %s; charset=utf-8\r\nConnection: close\r\n%s\r\n" % (status, ct.encode(), extra)
        end = "eof"
        if kind in ("short", "reset", "stall", "timedout", "unreach"):
            # at least one byte of the body itself is missing
            wire = wire[: min(len(wire) - (8 if o.get("chunked") else 1), int(o["at"] * len(wire)))]
            end = kind if kind != "short" else "eof"
        if kind == "short_head":
            # inside the status line; a cut later in the head is invisible to
            # http.client itself and no caller can know of it
            head, wire = head[: int(o["at"] * 9)], b""
        return head + wire, end


class Wire:
    """One connection."""

    def __init__(self, remote, host):
        self.remote = remote
        self.host = host
        self.out = b""
        self.buf = None
        self.end = None
        self.pos = 0
        self.closed = False

    def send(self, data):
        self.out += bytes(data)

    def _prepare(self):
        if self.buf is not None:
            return
        line = self.out.split(b"\r\n", 1)[0].decode("latin-1")
        path = line.split(" ")[1] if " " in line else "/"
        url = f"https://{self.host}{path}"
        o = self.remote.answer(url)
        if o["kind"] == "drop":
            self.buf, self.end = b"", "reset"
        else:
            self.buf, self.end = self.remote.wire(url, o)

    def recv(self, n, timeout=None):
        self._prepare()
        if self.pos >= len(self.buf):
            if self.end == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.end == "timedout":  # the kernel gives up retransmitting
                raise TimeoutError(110, "Connection timed out")
            if self.end == "unreach":
                raise OSError(113, "No route to host")
            if self.end == "stall":
                if timeout is not None:
                    raise socket.timeout("timed out")
                raise KeyboardInterrupt("injected")  # the user gives up
            return b""
        k = min(n, 16384)
        b = self.buf[self.pos:self.pos + k]
        self.pos += len(b)
        return b


def connect(remote, host, port):
    """Connection setup, which may fail as well."""
    o = getattr(remote, "refuse", lambda h: None)(host)
    if o == "refused":
        raise ConnectionRefusedError(111, "Connection refused")
    if o == "dns":
        raise socket.gaierror(-2, "Name or service not known")
    if o == "timeout":
        raise socket.timeout("timed out")
    return Wire(remote, host)


class _Raw(io.RawIOBase):
    def __init__(self, wire, sock):
        self.w = wire
        self.s = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.w.recv(len(b), self.s.timeout)
        b[: len(data)] = data
        return len(data)


class FakeSocket:
    """What http.client needs of a socket."""

    def __init__(self, wire):
        self.wire = wire
        self.timeout = None

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def sendall(self, data):
        self.wire.send(data)

    def send(self, data):
        self.wire.send(data)
        return len(data)

    def makefile(self, mode="rb", *a, **kw):
        return io.BufferedReader(_Raw(self.wire, self))

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def fileno(self):
        return -1


def install(remote):
    """Put the remote below both client stacks of this process."""
    import urllib3.connection as uc
    import httpcore
    import httpcore._backends.sync as hb
    from httpcore._backends.base import NetworkStream
    import urllib3.exceptions as ue

    def urllib3_connect(self):
        try:
            w = connect(remote, self.host, self.port)
        except socket.gaierror as e:
            raise ue.NameResolutionError(self.host, self, e)
        except socket.timeout:
            raise ue.ConnectTimeoutError(self, "timed out")
        except OSError as e:
            raise ue.NewConnectionError(self, f"Failed to establish a new connection: {e}")
        self.sock = FakeSocket(w)
        self.sock.timeout = self.timeout if isinstance(self.timeout, (int, float)) else None
        self.is_verified = True
        self.proxy_is_verified = None

    uc.HTTPConnection.connect = urllib3_connect
    uc.HTTPSConnection.connect = urllib3_connect
    uc.HTTPConnection.is_connected = property(lambda self: False)

    class Stream(NetworkStream):
        def __init__(self, w):
            self.w = w

        def read(self, max_bytes, timeout=None):
            try:
                return self.w.recv(max_bytes, timeout)
            except socket.timeout as e:
                raise httpcore.ReadTimeout(e)
            except OSError as e:
                raise httpcore.ReadError(e)

        def write(self, buffer, timeout=None):
            self.w.send(buffer)

        def close(self):
            pass

        def start_tls(self, *a, **kw):
            return self

        def get_extra_info(self, info):
            return False if info == "is_readable" else None

    def connect_tcp(self, host, port, *a, **kw):
        try:
            return Stream(connect(remote, host, port))
        except socket.timeout as e:
            raise httpcore.ConnectTimeout(e)
        except OSError as e:
            raise httpcore.ConnectError(e)

    hb.SyncBackend.connect_tcp = connect_tcp

    def nope(*a, **kw):
        raise OSError(101, "Network is unreachable (simulated: unexpected socket)")
    socket.create_connection = nope
    socket.getaddrinfo = nope
