"""A minimal RFC 6455 client that also allows raw and malformed frames."""
import base64, os, queue, socket, struct, threading, time


class WSClosed(Exception):
    pass


class WSClient:
    def __init__(self, port, timeout=10.0, host="127.0.0.1", connect_timeout=20.0):
        deadline = time.time() + connect_timeout
        while True:
            try:
                self.sock = socket.create_connection((host, port), timeout=5)
                break
            except OSError:
                if time.time() > deadline:
                    raise
                time.sleep(0.02)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.timeout = timeout
        self.sock.settimeout(connect_timeout)
        key = base64.b64encode(b"0123456789abcdef").decode()
        self.sock.sendall((f"GET / HTTP/1.1\r\nHost: {host}:{port}\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                           f"Sec-WebSocket-Key: {key}\r\nSec-WebSocket-Version: 13\r\n\r\n").encode())
        buf = b""
        while b"\r\n\r\n" not in buf:
            d = self.sock.recv(4096)
            if not d:
                raise WSClosed("handshake")
            buf += d
        head, self._buf = buf.split(b"\r\n\r\n", 1)
        if b" 101 " not in head.split(b"\r\n")[0]:
            raise WSClosed("handshake refused: %r" % head[:100])
        self.sock.settimeout(None)
        self.q = queue.Queue()
        self.closed = threading.Event()
        self.close_code = None
        self._wl = threading.Lock()
        self.received = 0
        # a slow reader: nothing is read while the gate is closed
        self.gate = threading.Event()
        self.gate.set()
        self.thread = threading.Thread(target=self._reader, daemon=True)
        self.thread.start()

    def _read(self, n):
        while len(self._buf) < n:
            # delayed acknowledgements would cost 40 ms for each pair of messages
            self.gate.wait()
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
            d = self.sock.recv(65536)
            if not d:
                raise WSClosed("eof")
            self._buf += d
        r, self._buf = self._buf[:n], self._buf[n:]
        return r

    def _reader(self):
        msg = b""
        try:
            while True:
                b0, b1 = self._read(2)
                n = b1 & 127
                if n == 126:
                    n, = struct.unpack(">H", self._read(2))
                elif n == 127:
                    n, = struct.unpack(">Q", self._read(8))
                data = self._read(n)
                op = b0 & 15
                if op in (0, 1, 2):
                    msg += data
                    if b0 & 0x80:
                        self.received += 1
                        self.q.put(msg)
                        msg = b""
                elif op == 8:
                    self.close_code = struct.unpack(">H", data[:2])[0] if len(data) >= 2 else None
                    try:
                        self._frame(8, data)
                    except OSError:
                        pass
                    break
                elif op == 9:
                    self._frame(10, data)
        except (WSClosed, OSError, ValueError):
            pass
        self.closed.set()
        self.q.put(None)

    def _frame(self, op, data, fin=True):
        n = len(data)
        h = bytes([(0x80 if fin else 0) | op])
        if n < 126:
            h += bytes([0x80 | n])
        elif n < 65536:
            h += bytes([0x80 | 126]) + struct.pack(">H", n)
        else:
            h += bytes([0x80 | 127]) + struct.pack(">Q", n)
        mask = os.urandom(4)
        if n:
            m = (mask * (n // 4 + 1))[:n]
            data = (int.from_bytes(data, "big") ^ int.from_bytes(m, "big")).to_bytes(n, "big")
        with self._wl:
            self.sock.sendall(h + mask + data)

    def send(self, text, binary=False, fragments=1):
        data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass")
        if fragments <= 1 or len(data) < fragments:
            self._frame(2 if binary else 1, data)
        else:
            step = (len(data) + fragments - 1) // fragments
            parts = [data[i:i + step] for i in range(0, len(data), step)]
            for i, p in enumerate(parts):
                self._frame((2 if binary else 1) if i == 0 else 0, p, i == len(parts) - 1)

    def raw(self, data):
        with self._wl:
            self.sock.sendall(data)

    def recv(self, timeout=None):
        """the next message, or None on timeout; raises WSClosed when the connection is gone"""
        try:
            m = self.q.get(timeout=self.timeout if timeout is None else timeout)
        except queue.Empty:
            return None
        if m is None:
            self.q.put(None)
            raise WSClosed("closed %s" % self.close_code)
        return m

    def close(self):
        try:
            self._frame(8, struct.pack(">H", 1000))
        except OSError:
            pass
        self.closed.wait(2)
        try:
            self.sock.close()
        except OSError:
            pass

    def abort(self):
        """vanish without a closing handshake"""
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            # the reader lets go of the socket first, otherwise close() has no effect
            self.sock.shutdown(socket.SHUT_RD)
            self.thread.join(2)
            self.sock.close()
        except OSError:
            pass
