"""A symbol table served over TCP or WebSocket, by the book or badly."""
import base64, hashlib, json, random, socket, struct, threading, time


class Peer:
    """answer(request object or None, raw text) gives a list of steps:
    ("send", text[, pieces]) | ("bytes", raw) | ("sleep", s) | "close" | "abort" | "shutdown" """

    def __init__(self, kind, answer, on_open=None):
        self.kind, self.answer, self.on_open = kind, answer, on_open
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(8)
        self.port = self.s.getsockname()[1]
        self.requests = []
        self.connections = 0
        self.open = []
        self.errors = []
        self.stop_ = False
        self.t = threading.Thread(target=self._accept, daemon=True)
        self.t.start()

    @property
    def uri(self):
        return f"{self.kind}://127.0.0.1:{self.port}"

    def _accept(self):
        while not self.stop_:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            self.connections += 1
            self.open.append(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.settimeout(60)
            (self._ws if self.kind == "ws" else self._tcp)(c)
        except (OSError, EOFError):
            pass
        except Exception as e:     # a mistake in the harness
            self.errors.append(repr(e))
        finally:
            try:
                c.close()
            except OSError:
                pass

    # ---- raw helpers
    def _read(self, c, n):
        b = b""
        while len(b) < n:
            d = c.recv(n - len(b))
            if not d:
                raise EOFError
            b += d
        return b

    @staticmethod
    def frame(op, data, fin=True):
        n = len(data)
        h = bytes([(0x80 if fin else 0) | op])
        h += bytes([n]) if n < 126 else bytes([126]) + struct.pack(">H", n) if n < 65536 else bytes([127]) + struct.pack(">Q", n)
        return h + data

    def _out(self, c, text, pieces=1):
        data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass")
        step = max(1, (len(data) + pieces - 1) // pieces)
        parts = [data[i:i + step] for i in range(0, len(data), step)] or [b""]
        for i, p in enumerate(parts):
            c.sendall(p if self.kind == "tcp" else self.frame(1 if i == 0 else 0, p, i == len(parts) - 1))
            if i + 1 < len(parts):
                time.sleep(0.0005)

    def _steps(self, c, steps):
        for st in steps:
            if st == "close":
                if self.kind == "ws":
                    c.sendall(self.frame(8, struct.pack(">H", 1000)))
                c.shutdown(socket.SHUT_WR)
                return False
            if st == "shutdown":
                c.shutdown(socket.SHUT_RDWR)
                return False
            if st == "abort":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                c.close()
                return False
            if st[0] == "send":
                self._out(c, *st[1:])
            elif st[0] == "bytes":
                c.sendall(st[1])
            elif st[0] == "sleep":
                time.sleep(st[1])
        return True

    def _message(self, c, text):
        try:
            r = json.loads(text)
        except ValueError:
            r = None
        self.requests.append(r if r is not None else text)
        return self._steps(c, self.answer(r, text))

    def _tcp(self, c):
        if self.on_open and not self._steps(c, self.on_open()):
            return
        buf = ""
        dec = json.JSONDecoder()
        while True:
            d = c.recv(65536)
            if not d:
                return
            buf += d.decode("utf-8", "replace")
            while buf:
                try:
                    r, n = dec.raw_decode(buf)
                except ValueError:
                    break
                text, buf = buf[:n], buf[n:]
                if not self._message(c, text):
                    return

    def _ws(self, c):
        buf = b""
        while b"\r\n\r\n" not in buf:
            d = c.recv(4096)
            if not d:
                return
            buf += d
        steps = self.on_open() if self.on_open else ["accept"]
        head = buf.split(b"\r\n\r\n")[0].decode()
        key = [l.split(":", 1)[1].strip() for l in head.split("\r\n") if l.lower().startswith("sec-websocket-key:")][0]
        acc = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
        for i, st in enumerate(steps):
            if st == "accept":
                c.sendall(("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                           f"Sec-WebSocket-Accept: {acc}\r\n\r\n").encode())
            elif not self._steps(c, [st]):
                return
        msg = b""
        while True:
            b0, b1 = self._read(c, 2)
            n = b1 & 127
            if n == 126:
                n, = struct.unpack(">H", self._read(c, 2))
            elif n == 127:
                n, = struct.unpack(">Q", self._read(c, 8))
            mask = self._read(c, 4) if b1 & 128 else b"\0\0\0\0"
            data = bytes(x ^ mask[i & 3] for i, x in enumerate(self._read(c, n)))
            op = b0 & 15
            if op == 8:
                c.sendall(self.frame(8, data[:2]))
                return
            if op == 9:
                c.sendall(self.frame(10, data))
            elif op in (0, 1, 2):
                msg += data
                if b0 & 0x80:
                    text, msg = msg.decode("utf-8", "replace"), b""
                    if not self._message(c, text):
                        return

    def close(self):
        self.stop_ = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        for c in self.open:
            try:
                c.close()
            except OSError:
                pass
