"""C18: the WebSocket server delivers each message once, in order, to its addressees.

wshost runs the real DebugServer with several sender threads; Python clients connect, subscribe, send, read slowly, leave and
vanish meanwhile. Every operation is reported with the order it began and ended in, and an offline checker decides for every
client and message whether it had to, could or must not arrive, exactly once and in the order of its sender."""
import json, os, queue, random, socket, struct, subprocess, tempfile, threading, time, zlib, shutil
from collections import Counter
from host import Violation, Hang, HarnessError, free_port, child_env
from ws import WSClient, WSClosed


def body(head, size):
    r = [head]
    n = len(head)
    while n < size:
        p = f"|{head}:{n}"
        r.append(p)
        n += len(p)
    s = "".join(r)
    return s[:size] if size > len(head) else s


class Host:
    def __init__(self, exe, senders, env):
        self.port = free_port()
        self.dir = tempfile.mkdtemp(prefix="wshost.")
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.p = subprocess.Popen([exe, str(self.port), str(senders)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=child_env(env), cwd=self.dir, start_new_session=True)
        self.events = []
        self.cv = threading.Condition()
        self.lock = threading.Lock()
        self.t = threading.Thread(target=self.reader, daemon=True)
        self.t.start()

    def reader(self):
        for line in self.p.stdout:
            try:
                e = json.loads(line)
            except ValueError:
                continue
            with self.cv:
                self.events.append(e)
                self.cv.notify_all()
        with self.cv:
            self.events.append({"e": "EOF"})
            self.cv.notify_all()

    def cmd(self, who, *a):
        with self.lock:
            try:
                self.p.stdin.write((f"{who} " + " ".join(map(str, a)) + "\n").encode())
                self.p.stdin.flush()
            except OSError:
                self.died()

    def stderr(self):
        self.err.flush()
        with open(os.path.join(self.dir, "stderr"), "rb") as f:
            return f.read().decode("utf-8", "replace")

    def died(self):
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            rc = None
        err = self.stderr()
        kind = next((l.strip() for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l
                     or "WARNING: ThreadSanitizer" in l), "")
        # the report itself, without the noise of the server's log
        at = err.find(kind) if kind else max(0, len(err) - 3000)
        report = "\n".join(l for l in err[at:].splitlines() if not l.startswith("[20"))
        raise Violation(f"the server process ended: exit {rc} {kind.split(' (pid')[0][:200]}", report[:6000])

    def wait(self, pred, timeout=30):
        end = time.time() + timeout
        i = 0
        with self.cv:
            while True:
                while i < len(self.events):
                    e = self.events[i]
                    if pred(e):
                        return e
                    if e["e"] in ("EOF", "exception"):
                        break
                    i += 1
                else:
                    left = end - time.time()
                    if left <= 0:
                        return None
                    self.cv.wait(left)
                    continue
                break
        self.died()

    def destroy(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    def __init__(self, host, name):
        self.host, self.name = host, name
        self.ws = WSClient(host.port)
        self.sent = []          # payloads of ours, in order
        self.got = []           # payloads to us, in order
        self.subs = []          # (begin, end, topic, +1/-1) filled in later
        self.conn = None
        self.hello = None
        self.left = False       # has begun to leave
        self.fin = 0

    def send(self, text, **kw):
        data = text.encode()
        self.sent.append(data)
        self.ws.send(data, **kw)

    def introduce(self):
        self.send(f"hello-{self.name} x")
        e = self.host.wait(lambda e: e["e"] == "msg" and e["head"] == "hello-" + self.name)
        if e is None:
            raise Hang(f"the first message of client {self.name} never reached the handler", self.host.stderr()[-1500:])
        self.conn, self.hello = e["conn"], e["t"]

    def drain_until(self, head, timeout=40):
        end = time.time() + timeout
        while True:
            try:
                m = self.ws.recv(max(0.01, end - time.time()))
            except WSClosed:
                raise Violation(f"client {self.name} was disconnected although it did nothing wrong",
                                f"close code {self.ws.close_code}\n" + self.host.stderr()[-1500:])
            if m is None:
                raise Hang(f"client {self.name}: the final message {head} never arrived", f"{len(self.got)} messages before")
            self.got.append(m)
            if m.split(b"|", 1)[0].decode("latin1") == head:
                return

    def drain_rest(self):
        while True:
            try:
                m = self.ws.recv(0.2)
            except WSClosed:
                return
            if m is None:
                if self.ws.closed.is_set():
                    return
                return
            self.got.append(m)


def hostile_connection(rng, port):
    """a peer that is no well-behaved client. It must disturb nobody"""
    kind = rng.choice(["half", "garbage", "http", "unmasked", "bigctl", "reserved", "midframe", "rst", "badutf", "huge"])
    try:
        if kind in ("half", "garbage", "http", "rst"):
            s = socket.create_connection(("127.0.0.1", port), timeout=5)
            if kind == "half":
                s.sendall(b"GET / HTTP/1.1\r\nHost: x\r\nUpg")
                time.sleep(rng.random() * 0.01)
            elif kind == "garbage":
                s.sendall(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300))) + b"\r\n\r\n")
            elif kind == "http":
                s.sendall(b"GET /%s HTTP/1.1\r\nHost: x\r\n\r\n" % (b"a" * rng.choice([1, 100, 20000])))
            else:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
            return kind, None
        w = WSClient(port)
        if kind == "unmasked":
            w.raw(b"\x81\x05hello")
        elif kind == "bigctl":
            w.raw(b"\x89\xfe\x01\x00" + b"\0" * 4 + b"x" * 256)
        elif kind == "reserved":
            w.raw(b"\xf3\x80\0\0\0\0")
        elif kind == "midframe":
            w.raw(b"\x81\xfe\x01\x00\0\0\0\0abc")
        elif kind == "badutf":
            w.send(b"\xff\xfe\x80")
        elif kind == "huge":
            w.raw(b"\x81\xff\x7f\xff\xff\xff\xff\xff\xff\xff\0\0\0\0")
        if rng.random() < 0.5:
            w.ws = None
            w.abort()
        else:
            w.close()
        return kind, w
    except (OSError, WSClosed):
        return kind, None


def case(cid, cfg):
    rng = random.Random(cid)
    senders = rng.choice([1, 2, 4])
    env = {}
    if rng.random() < 0.7:
        env = {"JITTER": str(rng.choice([20, 100, 300])), "JITTER_SEED": cid.split("/")[-1]}
    exe = cfg["exe"] if "exe" in cfg else cfg["exes"][int(cid.split("/")[-1]) >= cfg["asan"]]
    h = Host(exe, senders, env)
    clients, everyone, ops = [], [], {}
    stats = Counter()
    opid = [0]
    oplock = threading.Lock()
    topics = ["watch-0", "watch-1", "breakpoint"]

    def op(who, kind, *args, head=None, size=0):
        with oplock:
            opid[0] += 1
            i = opid[0]
        if kind in ("all", "topic", "conn"):
            head = f"{kind}.{who}.{i}"
            ops[i] = dict(kind=kind, who=who, head=head, size=size, args=args)
            h.cmd(who, kind, i, head, size, *args)
        else:
            ops[i] = dict(kind=kind, who=who, args=args)
            h.cmd(who, kind, i, *args)
        stats[kind] += 1
        return i

    def connect(name):
        c = Client(h, name)
        everyone.append(c)
        c.introduce()
        return c

    def via_client(c, kind, *args, size=0):
        """the handler, i.e. the thread of the server, runs it"""
        with oplock:
            opid[0] += 1
            i = opid[0]
        if kind in ("sub", "unsub"):
            ops[i] = dict(kind=kind, who="H", args=(args[0], c.conn))
            c.send(f"!{kind} {i} {args[0]} C")
        elif kind == "conn":
            head = f"conn.H.{i}"
            ops[i] = dict(kind=kind, who="H", head=head, size=size, args=(c.conn,))
            c.send(f"!conn {i} {head} {size} C")
        elif kind == "topic":
            head = f"topic.H.{i}"
            ops[i] = dict(kind=kind, who="H", head=head, size=size, args=args)
            c.send(f"!topic {i} {head} {size} {args[0]}")
        else:
            head = f"all.H.{i}"
            ops[i] = dict(kind=kind, who="H", head=head, size=size, args=())
            c.send(f"!all {i} {head} {size}")
        stats["H" + kind] += 1

    def size():
        r = rng.random()
        return 0 if r < 0.6 else rng.randrange(100, 140) if r < 0.7 else rng.randrange(60000, 70000) if r < 0.8 else \
            rng.choice([125, 126, 127, 65535, 65536, 65537, 4096, 16384]) if r < 0.95 else rng.choice([300000, 1200000])

    errors = []

    def guarded(f, *a):
        try:
            f(*a)
        except Exception as e:  # noqa
            errors.append(e)

    def churn(name, r, plan):
        """comes, takes part and leaves in some way"""
        c = Client(h, name)
        everyone.append(c)
        if plan == "silent":
            c.left = True
            c.ws.abort() if r.random() < 0.5 else c.ws.close()
            return
        c.introduce()
        for _ in range(r.randrange(0, 6)):
            c.send(f"m{len(c.sent)} " + "y" * r.choice([0, 10, 70000]), fragments=r.choice([1, 1, 3]))
            if r.random() < 0.3:
                via_client(c, "sub", r.choice(topics))
            time.sleep(r.random() * 0.004)
        if plan == "stay":
            clients.append(c)
            return
        c.left = True
        if plan == "abort":
            c.ws.abort()
        elif plan == "midframe":
            c.ws.raw(b"\x81\xfe\x01\x00\0\0\0\0abc")
            c.ws.abort()
        else:
            c.ws.close()

    try:
        nstable = rng.choice([1, 2, 3, 5])
        for k in range(nstable):
            clients.append(connect(f"c{k}"))
        stable_from, windows = clients[0].hello, []
        for rnd in range(cfg["rounds"]):
            # the work of this round, for every sender thread
            n = rng.randrange(5, 40)
            live = [c.conn for c in clients] + [c.conn for c in everyone if c.conn is not None and c.left][-2:] + [10 ** 6]
            threads = []
            for k in range(rng.choice([0, 0, 1, 2, 4])):
                plan = rng.choice(["stay", "close", "abort", "midframe", "silent"])
                threads.append(threading.Thread(target=guarded, args=(churn, f"r{rnd}k{k}", random.Random(rng.random()), plan)))
                stats["churn " + plan] += 1
            for k in range(rng.choice([0, 1, 2])):
                threads.append(threading.Thread(target=guarded, args=(
                    lambda r: stats.update(["hostile " + hostile_connection(r, h.port)[0]]), random.Random(rng.random()))))
            slow = rng.choice(clients) if rng.random() < 0.3 else None
            if slow:
                slow.ws.gate.clear()
                stats["slow reader"] += 1
            for t in threads:
                t.start()
            # clients that leave for good in this round
            leaving = rng.choice(clients) if len(clients) > 1 and rng.random() < 0.3 else None
            if leaving is slow:
                leaving = None
            for i in range(n):
                who = rng.randrange(senders)
                r = rng.random()
                if r < 0.35:
                    op(who, "all", size=size())
                elif r < 0.6:
                    op(who, "topic", rng.choice(topics + ["nobody"]), size=size())
                elif r < 0.75:
                    op(who, "conn", rng.choice(live), size=size())
                elif r < 0.85:
                    op(who, rng.choice(["sub", "sub", "unsub"]), rng.choice(topics), rng.choice(live))
                elif r < 0.92:
                    h.cmd(who, "wait", 0, rng.choice([50, 500, 3000]))
                c = rng.choice(clients)
                if c is leaving and c.left:
                    continue
                r = rng.random()
                try:
                    if r < 0.25:
                        c.send(f"m{len(c.sent)} " + "z" * rng.choice([0, 0, 1, 120, 121, 122, 65530, 65531, 200000]),
                               fragments=rng.choice([1, 1, 2, 5]), binary=rng.random() < 0.1)
                    elif r < 0.35:
                        via_client(c, "conn", size=size())
                    elif r < 0.42:
                        via_client(c, rng.choice(["sub", "sub", "unsub"]), rng.choice(topics))
                    elif r < 0.46:
                        via_client(c, "topic", rng.choice(topics), size=size())
                    elif r < 0.5:
                        via_client(c, "all", size=size())
                    elif r < 0.55:
                        c.ws._frame(9, b"ping%d" % i)
                        stats["ping"] += 1
                except OSError:
                    raise Violation(f"client {c.name} was disconnected although it did nothing wrong", h.stderr()[-1500:])
                if leaving is not None and i == n // 2:
                    leaving.left = True
                    k = rng.randrange(3)
                    stats["leaving %d" % k] += 1
                    if k == 0:
                        leaving.ws.close()
                    elif k == 1:
                        leaving.ws.abort()
                    else:
                        leaving.ws.raw(b"\x81\x05unmasked")
            for t in threads:
                t.join(60)
                if t.is_alive():
                    raise Hang("a client neither gets connected nor refused", "")
            for e in errors:
                raise e
            if leaving is not None:
                clients.remove(leaving)
            if slow:
                time.sleep(0.05)
                slow.ws.gate.set()
            # a last message by each sender to everyone who is still here
            fins = []
            for who in range(senders):
                for c in clients:
                    fins.append((c, op(who, "conn", c.conn)))
            for c in clients:
                # nothing of the handler is outstanding after the answer to this
                via_client(c, "conn")
                mine = [ops[i]["head"] for cc, i in fins if cc is c] + [f"conn.H.{opid[0]}"]
                for head in mine:
                    if not any(m.split(b"|", 1)[0].decode("latin1") == head for m in c.got[-senders - 40:]):
                        c.drain_until(head)
            if rng.random() < 0.25 and rnd < cfg["rounds"] - 1:
                # everybody leaves, and somebody comes back
                gone_before = [e for e in h.events if e["e"] == "gone"]
                for c in clients:
                    c.left = True
                    if rng.random() < 0.5:
                        c.ws.close()
                    else:
                        c.ws.abort()
                clients.clear()
                stats["all left"] += 1
                windows.append((stable_from, opid[0]))
                if h.wait(lambda e: e["e"] == "gone" and e not in gone_before, 20) is None:
                    raise Violation("nobody is told that all clients have left", "")
                clients.append(connect(f"back{rnd}"))
                stable_from = clients[0].hello
        windows.append((stable_from, opid[0]))
        # the end: stopping it while others send
        who = rng.randrange(senders)
        stopping = rng.random() < 0.7
        if stopping:
            for _ in range(10):
                op(rng.randrange(senders), "all", size=size())
            op(who, "stop")
            for _ in range(10):
                op(rng.randrange(senders), "all", size=size())
        else:
            for _ in range(5):
                op(rng.randrange(senders), "all", size=0)
        h.p.stdin.close()
        try:
            rc = h.p.wait(30)
        except subprocess.TimeoutExpired:
            raise Hang("the server does not end after it was stopped", h.stderr()[-1500:])
        h.t.join(10)
        if rc != 0:
            h.died()
        for c in clients:
            if not c.ws.closed.wait(10):
                raise Violation(f"client {c.name} stays connected to a stopped server", "")
            c.stopped = True
            c.drain_rest()
        for c in everyone:
            if c.left:
                c.drain_rest()
        return check(h, ops, everyone, stats, windows)
    finally:
        for c in everyone:
            try:
                c.ws.gate.set()
                c.ws.sock.close()
            except OSError:
                pass
        h.destroy()


def check(h, ops, everyone, stats, windows):
    ends = {}
    end_of_time = 0
    for e in h.events:
        if e["e"] == "op":
            ends[e["id"]] = (e["b"], e["n"])
        end_of_time = max(end_of_time, e.get("n", 0), e.get("t", 0))
    stops = [ends[i][0] for i, o in ops.items() if o["kind"] == "stop" and i in ends]
    # what is still queued when the server is stopped may be lost
    t_stop = min([ends[i][1] for i in (windows[-1][1],) if i in ends] + stops)
    by_head = {o["head"]: (i, o) for i, o in ops.items() if "head" in o}
    # subscriptions of a connection to a topic, with the interval each change may have taken effect in
    changes = {}
    for i, o in ops.items():
        if o["kind"] in ("sub", "unsub") and i in ends:
            changes.setdefault((o["args"][0], o["args"][1]), []).append((*ends[i], o["kind"] == "sub"))
    last_stable = {}
    delivered = 0
    for c in everyone:
        if c.conn is None:
            if any(not m.startswith(b"all.") for m in c.got):
                raise Violation("a client that was never introduced received something", repr([m[:50] for m in c.got[:3]]))
            continue
        counts = Counter()
        order = {}
        for m in c.got:
            head = m.split(b"|", 1)[0].decode("latin1")
            if head not in by_head:
                raise Violation(f"client {c.name} received something that was never sent", repr(m[:200]))
            i, o = by_head[head]
            if m.decode("latin1") != body(head, o["size"]):
                raise Violation(f"client {c.name} received a damaged message", f"{head}: {len(m)} bytes instead of {o['size']}: {m[:100]!r}")
            counts[i] += 1
            if counts[i] > 1:
                raise Violation(f"client {c.name} received a message twice", head)
            # ids are given in the order of the commands of a sender
            prev = order.get(o["who"], 0)
            if o["who"] != "H" and i < prev:
                raise Violation(f"client {c.name} received messages of one sender out of order", f"{i} after {prev}")
            if o["who"] == "H" and i in ends:
                pb = order.get("Hb", -1)
                if ends[i][0] < pb:
                    raise Violation(f"client {c.name} received messages of the handler out of order", f"{head}")
                order["Hb"] = ends[i][0]
            order[o["who"]] = i
            delivered += 1
        # who had to get it, and who could
        for i, o in ops.items():
            if "head" not in o or i not in ends:
                continue
            b, n = ends[i]
            must = c.hello < b and not c.left and n < t_stop
            # the connection exists a little longer than we know of it
            may = True
            if o["kind"] == "conn":
                if o["args"][0] != c.conn:
                    must = may = False
            elif o["kind"] == "topic":
                ch = sorted(changes.get((o["args"][0], c.conn), []))
                # the state right before b is sure when the last change that ended before b overlaps no other one
                states = possible_states(ch, b, n)
                must = must and states == {True}
                may = True in states
            if must and not counts[i]:
                raise Violation(f"client {c.name} did not receive a message it was addressed by ({o['kind']})",
                                f"{o['head']} sent in [{b}, {n}], connection {c.conn} since {c.hello}, arguments {o['args']}")
            if not may and counts[i]:
                raise Violation(f"client {c.name} received a message for others ({o['kind']})",
                                f"{o['head']} sent in [{b}, {n}], connection {c.conn}, arguments {o['args']}")
            if must:
                stats["must " + o["kind"]] += 1
            elif not may:
                stats["must not " + o["kind"]] += 1
    # what reached the handler
    conns = {}
    for e in h.events:
        if e["e"] == "msg":
            conns.setdefault(e["conn"], []).append(e)
    known = {c.conn for c in everyone if c.conn is not None}
    ids = [c.conn for c in everyone if c.conn is not None]
    if len(set(ids)) != len(ids):
        raise Violation("two connections have the same number", repr(ids))
    for c in everyone:
        if c.conn is None:
            continue
        seen = [(e["len"], e["hash"]) for e in conns.get(c.conn, [])]
        want = [(len(m), zlib.crc32(m)) for m in c.sent]
        if seen != want[:len(seen)]:
            k = next(j for j in range(len(seen)) if j >= len(want) or seen[j] != want[j])
            raise Violation(f"the messages of client {c.name} did not reach the handler once and in order", f"message {k} of {len(want)}: "
                            f"{seen[k]} instead of {want[k] if k < len(want) else None}")
        if not c.left and len(seen) != len(want):
            raise Violation(f"messages of client {c.name} never reached the handler", f"{len(seen)} of {len(want)}")
        stats["incoming"] += len(seen)
    for k in conns:
        if k not in known:
            if any(e["head"].startswith(("m", "hello")) for e in conns[k]):
                raise Violation("messages reached the handler with a connection they did not come from", repr(conns[k][0]))
    for e in h.events:
        if e["e"] == "gone" and any(f < e["t"] < ends[i][1] for f, i in windows if i in ends):
            raise Violation("all clients are said to have left while some are connected", repr(e))
    # the interleaving: which sends overlapped
    sig = hash(tuple(e.get("id", -1) for e in h.events if e["e"] == "op"))
    over = 0
    last = -1
    for b, n in sorted(ends.values()):
        over += b < last
        last = max(last, n)
    stats["delivered"] = delivered
    stats["overlapping operations"] = over
    return {"stats": dict(stats), "sig": sig}


def possible_states(ch, b, n):
    """the subscription states some order of the changes allows at some moment of [b, n]"""
    # changes that surely happened before b: keep those no other sure one followed
    before = [x for x in ch if x[1] < b]
    during = [x for x in ch if x[0] <= n and x[1] >= b]
    states = set()
    if before:
        last_begin = max(x[0] for x in before)
        # a change can be the last one if it ended after every other one began
        for x in before:
            if not any(y[0] > x[1] for y in before):
                states.add(x[2])
    else:
        states.add(False)
    for x in during:
        states.add(x[2])
    return states


def run(ctx):
    n, m = ctx.n(160, 2500), ctx.n(120, 2500)
    ctx.rule = ("a session is distinct by the order in which the operations of all threads ended; non-trivial when messages had to "
                "be delivered while others must not be")
    # the first sessions are watched for memory errors, the others for races
    cfg = {"exes": [ctx.build("asan", "wshost")["wshost"], ctx.build("tsan", "wshost")["wshost"]], "asan": n, "rounds": 5}
    for cid, r in ctx.pool(case, [f"C18/{ctx.seed}/{i}" for i in range(n + m)], cfg):
        s = r["stats"]
        nt = any(k.startswith("must not") for k in s) and s.get("must all")
        ctx.case(r["sig"] if nt else None, {"case": cid, **s})
        for k, v in s.items():
            ctx.count(k, v)
    ctx.assumptions = ["a client counts as connected from the moment its first message has reached the handler",
                       "a client that has begun to leave may miss messages, but gets none twice, damaged or out of order",
                       "the port is not used by another process"]
    return ctx.finish((n + m) // 2, (n + m) // 2)
