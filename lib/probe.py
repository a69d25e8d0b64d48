"""Talks to harness/probe."""
import json, os, select, signal, subprocess, tempfile, time
from host import Violation, Hang, HarnessError, child_env, summary


class Probe:
    def __init__(self, exe, timeout=30.0, env=None, leaks=False, memlimit=None):
        self.timeout = timeout
        self.err = tempfile.TemporaryFile()
        e = child_env(env)
        if leaks:
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e,
                                  start_new_session=True)
        self.buf = b""
        self.n = 0

    def stderr(self):
        self.err.seek(0, 2)
        n = self.err.tell()
        self.err.seek(max(0, n - 20000))
        return self.err.read().decode("utf-8", "replace")

    def _dead(self, doing):
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            rc = None
        s = self.stderr()
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "Assertion `", "ERROR: LeakSanitizer", "terminate called",
                     "WARNING: ThreadSanitizer"):
            i = s.find(mark)
            if i >= 0:
                s = s[max(0, i - 300):i + 3000]
                break
        raise Violation(f"crash (exit {rc}) during {doing}: {summary(s)}", s)

    def send(self, **kw):
        data = (json.dumps(kw) + "\n").encode("utf-8", "surrogateescape")
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except OSError:
            self._dead(describe(kw))

    def recv(self, doing, timeout=None):
        deadline = time.time() + (timeout or self.timeout)
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                self.kill()
                raise Hang(f"no end to {doing}", doing)
            r, _, _ = select.select([fd], [], [], min(left, 1.0))
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    self._dead(doing)
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        try:
            return json.loads(line.decode("utf-8", "surrogateescape"))
        except ValueError as e:
            raise HarnessError(f"probe answered {line[:300]!r} to {doing}: {e}")

    def ask(self, op, _timeout=None, **kw):
        self.n += 1
        self.send(op=op, **kw)
        r = self.recv(describe(dict(op=op, **kw)), _timeout)
        if "exc" in r:
            raise Violation(f"exception escapes: {r['exc']} during {describe(dict(op=op, **kw))}")
        if "proto" in r:
            raise HarnessError("probe could not read " + describe(kw))
        return r

    def batch(self, items, timeout=None):
        """items: list of dicts; pipelined"""
        out = []
        i = 0
        CH = 64
        while i < len(items):
            part = items[i:i + CH]
            data = b"".join((json.dumps(k) + "\n").encode("utf-8", "surrogateescape") for k in part)
            if len(data) > 60000:
                for k in part:
                    self.send(**k)
                    out.append(self.recv(describe(k), timeout))
            else:
                try:
                    self.p.stdin.write(data)
                    self.p.stdin.flush()
                except OSError:
                    pass
                for k in part:
                    out.append(self.recv(describe(k), timeout))
            i += CH
        for k, r in zip(items, out):
            if "exc" in r:
                raise Violation(f"exception escapes: {r['exc']} during {describe(k)}")
        return out

    def end(self):
        """orderly end: destructors run; leaks and late errors count"""
        self.p.stdin.close()
        try:
            rc = self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            raise Hang("the probe does not end")
        if rc:
            self._dead("tear-down")

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()
        self.err.close()


def describe(kw):
    s = json.dumps(kw)
    return s if len(s) < 700 else s[:500] + " ... " + s[-100:]
