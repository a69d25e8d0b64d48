"""C17: signals are found, read and written by name"""
import json, random
import design as D
from probe import Probe
from host import Violation
from ctx import *

NAMES = ["data", "a", "b0", "valid", "st", "mem_q", "x$1", "_y", "clk", "rst", "clock", "CLK", "count", "o", "in_", "s", "w"]
MODS = ["u0", "core", "alu", "gen[0]", "gen[1]", "blk[3]", "i_x", "dut", "leaf", "top", "m"]
DEFS = ["top", "Child", "alu", "m2", "wrap"]
CLOCKS = ["clk", "clock", "clk_in", "clock_in", "CLK", "CLOCK"]


class Node:
    def __init__(self, kind, name, full, width=1, local=False):
        self.kind, self.name, self.full, self.width = kind, name, full, width
        self.parts = []            # elements, or members
        self.local = local         # below an element: not known by name to some simulators
        self.decl = None


def gen_signal(rng, depth=0):
    k = rng.random()
    w = rng.choice([1, 1, 2, 3, 4, 7, 8, 12, 16, 20, 24, 31, 31, 32, 33, 40, 63, 64])
    if k < 0.62 or depth > 2:
        return {"width": w, "kind": rng.choice(["net", "reg"]), "value": val(rng, w)}
    if k < 0.74:
        ns = rng.sample(["x", "y", "z", "valid", "a"], rng.randrange(1, 4))
        return {"kind": "struct", "members": [{"name": n, **gen_signal(rng, depth + 1)} for n in ns]}
    if k < 0.9:
        return {"kind": "array", "size": rng.randrange(1, 5), "elem": gen_signal(rng, depth + 1)}
    if k < 0.96:
        return {"kind": "packed", "size": rng.randrange(1, 4), "elem": {"width": rng.randrange(2, 6), "kind": "reg", "value": 0}}
    return {"kind": "memory", "size": rng.randrange(1, 4), "elem": {"width": rng.randrange(2, 20), "value": 0}}


def val(rng, w):
    v = rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w), rng.getrandbits(w)])
    return v - (1 << 64) if v >> 63 else v


def gen_module(rng, name, depth, defs):
    m = {"name": name, "def": rng.choice(defs), "signals": [], "children": []}
    for n in rng.sample(NAMES, rng.randrange(1, 7)):
        m["signals"].append({"name": n, **({"width": 1, "kind": "net", "value": 0} if n in CLOCKS and rng.random() < 0.8 else gen_signal(rng))})
    if depth < 3:
        taken = {s["name"] for s in m["signals"]}
        for n in rng.sample(MODS, rng.choice([0, 1, 1, 2, 3]) if depth else rng.randrange(1, 4)):
            if n not in taken:
                m["children"].append(gen_module(rng, n, depth + 1, defs))
    return m


class Model:
    def __init__(self, cfg):
        self.mods, self.sigs, self.leaves, self.order = {}, {}, {}, []
        self.val = {}
        for m in cfg["modules"]:
            self._mod(m, m["name"])
        # breadth first
        q = [(m, m["name"]) for m in cfg["modules"]]
        while q:
            m, full = q.pop(0)
            self.order.append((full, m))
            q += [(c, full + "." + c["name"]) for c in m["children"]]

    def _mod(self, m, full):
        self.mods[full] = m
        for s in m["signals"]:
            self.sigs[full + "." + s["name"]] = self._sig(s, full + "." + s["name"], False)
        for c in m["children"]:
            self._mod(c, full + "." + c["name"])

    def _sig(self, s, full, local):
        k = s["kind"] if "kind" in s else "net"
        n = Node(k, s.get("name"), full, s.get("width", 1), local)
        n.decl = s
        if k == "struct":
            n.parts = [self._sig(x, full + "." + x["name"], local) for x in s["members"]]
        elif k in ("array", "packed", "memory"):
            n.parts = [self._sig(s["elem"], f"{full}[{i}]", True) for i in range(s["size"])]
        else:
            self.leaves[full] = n
            self.val[full] = s.get("value", 0) & ((1 << n.width) - 1)
            n.kind = "leaf"
        return n


def as_int(v, w):
    """acceptable integers for the value of w bits"""
    if w <= 31:
        return {v}
    lo = v & 0xffffffff
    return {v, v - (1 << 64) if v >> 63 else v, lo - (1 << 32) if lo >> 31 else lo}


class T:
    def __init__(self, rng, pr, ctx_stats):
        self.rng, self.pr, self.st = rng, pr, ctx_stats
        self.defs = rng.sample(DEFS, rng.randrange(2, len(DEFS) + 1))
        tops = rng.sample(["tb", "top_tb", "sim"], rng.choice([1, 1, 1, 2]))
        self.cfg = {"product": rng.choice(["RTLMock", "RTLMock", "Verilator", "Icarus Verilog", "xmsim", "Chronologic Simulation VCS Release "]),
                    "name_index": rng.random() < 0.7, "bits": rng.random() < 0.6, "argv": [rng.choice(["sim", "", "a b"]) for _ in range(rng.randrange(0, 4))],
                    "version": rng.choice(["1.0", "", "2020.03"]), "modules": [gen_module(rng, n, 0, self.defs) for n in tops]}
        self.M = Model(self.cfg)
        self.t = pr.ask("rtl", q="new", cfg=self.cfg)["t"]
        self.map = ("", "")
        self.log = []
        self.cbs = {}
        self.past = []
        self.time = 0

    def ask(self, q, **kw):
        self.log.append((q, kw))
        r = self.pr.ask("rtl", q=q, t=self.t, **kw)
        return r.get("r")

    def bad(self, what):
        raise Violation(f"{what}", {"cfg": self.cfg, "mapping": self.map, "log": self.log[-30:]})

    # ---- names
    def spell(self, full):
        """one of the names of something in the design"""
        top, pre = self.map
        opts = []
        if full.split(".")[0] != top:
            opts.append(full)
        opts.append("$root." + full)
        if pre and full.startswith(pre):
            opts += [top + "." + full[len(pre):]] * 2
        return self.rng.choice(opts)

    def known(self, n):
        return self.cfg["name_index"] or not n.local

    def pick(self):
        """a name with what it stands for: (full name, value, width, kind)"""
        rng = self.rng
        full, n = rng.choice(list(self.M.leaves.items()))
        # a simulator without indices in names: elements through one index after the other only, no fields of elements
        if not self.cfg["name_index"] and n.local and "]." in full[len(self.sig_of(full)):]:
            return None
        v, w = self.M.val[full], n.width
        k = rng.random()
        if k < 0.45:
            return full, v, w, "leaf"
        if k < 0.6 and self.cfg["bits"] and w > 1 and n.decl.get("kind", "net") in ("reg", "net") and not self.in_memory(full):
            i = rng.randrange(w)
            return f"{full}[{i}]", (v >> i) & 1, 1, "bit"
        if w == 1:
            return full, v, w, "leaf"
        hi = rng.randrange(w)
        lo = rng.randrange(hi + 1)
        a, b = (hi, lo) if rng.random() < 0.9 else (lo, hi)
        return f"{full}[{a}:{b}]", (v >> lo) & ((1 << (hi - lo + 1)) - 1), hi - lo + 1, "slice"

    def sig_of(self, full):
        return max((s for s in self.M.sigs if full == s or full.startswith(s + ".") or full.startswith(s + "[")), key=len)

    def in_memory(self, full):
        return self.M.sigs[self.sig_of(full)].decl.get("kind") == "memory" or "memory" in str(self.M.sigs[self.sig_of(full)].decl)

    # ---- single queries
    def read(self):
        x = self.rng.choice(self.past)[1] if self.past and self.rng.random() < 0.2 else None
        if x is None:
            p = self.pick()
            if p is None:
                return
            x = (*p, self.spell(p[0]))
            self.past.append((None, x))
        full, _, w, kind, name = x
        v = self.value(full, kind)
        q = self.rng.choice(["value", "hvalue", "strvalue", "hstrvalue", "width", "valid", "hname", "has_handle", "tokens"])
        self.st(f"read_{kind}")
        if q in ("value", "hvalue"):
            r = self.ask(q, name=name)
            if self.cfg["product"] == "Verilator" and w > 64:
                return
            ok = {v, v - (1 << 64) if v >> 63 else v} if kind == "slice" else as_int(v, w)
            if r not in ok:
                self.bad(f"{kind} {name} reads as {r} instead of {v} ({q}, {w} bits)")
        elif q in ("strvalue", "hstrvalue"):
            r = self.ask(q, name=name)
            try:
                ok = r is not None and int(r, 16) == v and r.lower().startswith("0x") == (w > 1)
            except ValueError:
                ok = False
            if not ok:
                self.bad(f"{kind} {name} reads as {r!r} instead of {v:#x} ({w} bits)")
        elif q == "width":
            r = self.ask(q, name=name)
            if r != w:
                self.bad(f"{kind} {name} has {r} bits instead of {w}")
        elif q == "valid":
            if self.ask(q, name=name) is not True:
                self.bad(f"{kind} {name} is not a valid signal")
        elif q == "has_handle":
            if self.ask(q, name=name) is not True:
                self.bad(f"{kind} {name} is not found")
        elif q == "hname":
            r = self.ask(q, name=name)
            if kind != "slice" and r != full or kind == "slice" and (r or "").rsplit("[", 1)[0] != full.rsplit("[", 1)[0]:
                self.bad(f"the full name of {name} is {r} instead of {full}")
        else:
            # one token after the other, for names without brackets in scopes
            s = self.sig_of(full)
            if "[" in s or kind == "slice" and "]" in full[len(s):].rsplit("[", 1)[0]:
                return
            rest = full[len(s):].replace("]", "").replace("[", ".").strip(".")
            if "." in s and rest and not any(c.isalpha() for c in rest):
                r = self.ask("tokens", tokens=s.split(".") + rest.split("."))
                ok = {v, v - (1 << 64) if v >> 63 else v} if kind == "slice" else as_int(v, w)
                if r not in ok:
                    self.bad(f"{kind} {full} given as tokens reads as {r} instead of {v}")

    def value(self, full, kind):
        if kind == "leaf":
            return self.M.val[full]
        base, sel = full[:-1].rsplit("[", 1)
        v = self.M.val[base]
        if kind == "bit":
            return (v >> int(sel)) & 1
        a, b = sorted(int(x) for x in sel.split(":"))
        return (v >> a) & ((1 << (b - a + 1)) - 1)

    def unknown(self):
        rng = self.rng
        full = rng.choice(list(self.M.leaves) + list(self.M.mods))
        k = rng.randrange(9)
        last = full.rsplit(".", 1)
        if k == 0:
            bad = full + "x"
        elif k == 1:
            bad = full + ".nosuch"
        elif k == 2:
            bad = "no." + full
        elif k == 3:
            bad = last[0] + ".nosuch"
        elif k == 4:
            bad = full[:-1]
        elif k == 5:
            bad = full + "[100000]"
        elif k == 6:
            bad = full + rng.choice(["[a]", "[-1]", "[1", "]", "[a:b]", "[1:2:3]", "[:]", "[99999999999999999999]", "[4294967296]", "[]", "[ 1]"])
        elif k == 7:
            bad = rng.choice(["", ".", "..", "[0]", ":", "$root.", "$root", "[", "]", "a.b.c", "[3:0]", ".clk"])
        else:
            bad = last[0] + "." + rng.choice(NAMES) + rng.choice(["", "[0]", "[1:0]"])
        # is it something by chance
        norm = bad[6:] if bad.startswith("$root.") else bad
        if self.meaning(norm):
            return
        if bad.split(".")[0] == self.map[0]:
            return
        self.st("unknown_names")
        for q, want in (("valid", False), ("has_handle", False), ("value", None), ("strvalue", None)):
            r = self.ask(q, name=bad)
            if r != want:
                self.bad(f"{bad!r}, which does not exist, gives {q} = {r}")

    def meaning(self, name):
        """could it stand for something, in some simulator's way of writing"""
        if name in self.M.leaves or name in self.M.mods or name in self.M.sigs:
            return True
        for s in self.M.sigs:
            if name.startswith(s) and (len(name) == len(s) or name[len(s)] in ".["):
                # indices may be written in several ways: judged only where none makes sense
                rest = name[len(s):]
                toks = [t for t in rest.replace("[", ".").replace("]", ".").split(".") if t]
                n = self.M.sigs[s]
                return self.walk(n, toks, rest)
        return False

    def walk(self, n, toks, rest):
        if not toks:
            return True
        t = toks[0]
        if ":" in t and len(toks) == 1 and self.slice_like(t):
            return True
        if n.kind == "struct":
            m = [p for p in n.parts if p.name == t]
            return bool(m) and self.walk(m[0], toks[1:], rest)
        if n.kind in ("array", "packed", "memory"):
            if ":" in t:
                return len(toks) == 1 and self.slice_like(t)
            return t.strip().isdigit() and int(t) < len(n.parts) and self.walk(n.parts[int(t)], toks[1:], rest)
        if ":" in t:
            return len(toks) == 1 and self.slice_like(t)
        return self.cfg["bits"] and n.width > 1 and t.isdigit() and int(t) < n.width and len(toks) == 1

    def slice_like(self, t):
        p = [x for x in t.split(":") if x]
        return len(p) == 2 and all(x.strip().isdigit() for x in p)

    def write(self):
        full, n = self.rng.choice(list(self.M.leaves.items()))
        if not self.cfg["name_index"] and n.local and "]." in full[len(self.sig_of(full)):]:
            return
        v = self.rng.getrandbits(min(n.width, 31))
        name = self.spell(full)
        k = self.rng.random()
        self.st("writes")
        if k < 0.5:
            if self.ask(self.rng.choice(["set", "hset"]), name=name, v=v) is not True:
                self.bad(f"{name} cannot be set")
            self.M.val[full] = v
        elif k < 0.8:
            v = self.rng.getrandbits(n.width)
            self.ask("drive", name=full, v=v - (1 << 64) if v >> 63 else v)
            if v != self.M.val[full]:
                for c, (reason, obj, fn, act) in self.cbs.items():
                    if reason == 1 and obj == full:
                        self.fired[fn - 1] += 1
            self.M.val[full] = v
        elif k < 0.9:
            if self.ask("set", name=self.rng.choice(["no.such", full + ".nosuch", "", "nosuch"]), v=v) is not False:
                self.bad("a signal that does not exist can be set")
        elif n.width > 2:
            self.ask("set", name=name + f"[{self.rng.randrange(1, n.width)}:0]", v=v)
            # either it is refused or it is done: what is not selected stays
            r = self.ask("value", name=name)
            if n.width <= 31 and r != self.M.val[full]:
                self.bad(f"setting a slice of {name} changes it from {self.M.val[full]} to {r}")

    fired = None

    def mapping(self):
        rng = self.rng
        mods = self.M.order
        use_def = rng.random() < 0.6
        if use_def:
            tops = rng.sample(self.defs, rng.randrange(1, len(self.defs) + 1))
            names = []
            for t in tops:
                names += [t] * (rng.random() < 0.8) + [t + "." + rng.choice(["a", "b.c"]) for _ in range(rng.randrange(0, 3))]
            names = names or [tops[0]]
            rng.shuffle(names)
            tops = {n.split(".")[0] for n in names}
            got = self.ask("mapping", names=names, use_def=True)
            want = [[m["def"], full + "."] for full, m in mods if m["def"] in tops]
            if sorted(got) != sorted(want):
                self.bad(f"definitions {sorted(tops)} are mapped to {got} instead of {want}")
            self.st("mappings_by_definition")
            cand = got
        else:
            # the names of the instances below one of the modules, as the table has them
            full, m = rng.choice(mods)
            if not m["children"]:
                return
            top = rng.choice(["top", "design", "Child"])
            below = [f for f, _ in mods if f.startswith(full + ".")]
            inst = [top + f[len(full):] for f in below]
            inst = rng.sample(inst, rng.randrange(1, len(inst) + 1))
            short = min(len(i) for i in inst)
            path = [i for i in inst if len(i) == short]
            if len(path) != 1:
                # only the shortest are looked for: any of them
                pass
            ways = set()
            for i in path:
                rel = i[len(top):]
                ways.add(tuple(sorted(f[:-len(rel)] for f, _ in mods if f.endswith(rel) and len(f) > len(rel))))
            got = self.ask("mapping", names=inst, use_def=False)
            # where a path fits in one place only
            if all(w == (full,) for w in ways):
                if got != [[top, full + "."]]:
                    self.bad(f"instances {inst} are mapped to {got} instead of {full}")
                self.st("mappings_by_instance")
            cand = [[top, full + "."]]
        if cand:
            self.map = tuple(rng.choice(cand))
            self.ask("set_mapping", top=self.map[0], prefix=self.map[1])
            self.past.clear()
            if self.ask("get_mapping") != [list(self.map)]:
                self.bad("the mapping that was set is not kept")

    def names(self):
        rng = self.rng
        top, pre = self.map
        if not pre:
            return
        rel = rng.choice(["a", "a.b", "x[0].y", "clk"])
        r = self.ask("full", name=top + "." + rel)
        if r != pre + rel:
            self.bad(f"{top}.{rel} is {r} instead of {pre + rel}")
        if self.ask("full", name=top) != pre[:-1]:
            self.bad(f"{top} is not {pre[:-1]}")
        for n, want in (("$root.a.b", "a.b"), ("zz.a", "zz.a"), (top + "x.a", top + "x.a")):
            r = self.ask("full", name=n)
            if r != want:
                self.bad(f"{n} is {r} instead of {want}")
        for n, want in ((top, True), (top + ".a", True), (top + "x", False), ("zz." + top, False)):
            if self.ask("abs", name=n) is not want:
                self.bad(f"is {n} below {top}: not {want}")

    def resolve(self):
        rng = self.rng
        s, n = rng.choice(list(self.M.sigs.items()))
        p = self.cfg["product"]
        want = [(f, s + r, w) for f, r, w in D.leaves_of({"width": 1, **n.decl})]
        if not self.cfg["name_index"] and any("]." in r[len(s):] for _, r, _ in want):
            return
        if p != "RTLMock":
            # how deep other simulators take arrays apart is theirs; fields of structures always
            if any(k in str(n.decl) for k in ("array", "packed", "memory")):
                return
        name = self.spell(s)
        if rng.random() < 0.3:
            # through scopes below the one with the signal
            mod, sig = name.rsplit(".", 1)
            down = [rng.choice(MODS) for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.5:
                name = ".".join([mod, *(x + ".$parent" for x in down), sig])
            else:
                name = ".".join([mod, *down, *["$parent"] * len(down), sig])
            self.st("parent_paths")
        front = rng.choice(["v", "self.x", "a.0"])
        got = self.ask("resolve", front=front, name=name)
        want = [(front + f, r, w) for f, r, w in want]
        if sorted(g[0] for g in got) != sorted(w[0] for w in want):
            self.bad(f"{name} ({n.decl}) is shown as {[g[0] for g in got]} instead of {[w[0] for w in want]}")
        by = {a: b for a, b in got}
        f, leaf, w = rng.choice(want)
        r = self.ask("value", name=by[f])
        if r not in as_int(self.M.val[leaf], w):
            self.bad(f"{by[f]}, shown as {f}, reads as {r} instead of {self.M.val[leaf]} of {leaf}")
        self.st("variables_taken_apart")

    def clocks(self):
        top, pre = self.map
        if not pre or any(full.split(".")[0] == top for full in self.M.mods):
            return
        if any(pre.rsplit(".", k)[0] + "." + c in self.M.sigs and pre.rsplit(".", k)[0] + "." + c not in self.M.leaves for c in CLOCKS for k in (1, 2)):
            return          # arrays and structures can be one bit wide as well
        ok = lambda n: n in self.M.leaves and self.M.leaves[n].width == 1
        want = next((pre + c for c in CLOCKS if ok(pre + c)), None)
        if want is None and "." in pre[:-1]:
            up = pre[:-1].rsplit(".", 1)[0] + "."
            want = next((up + c for c in CLOCKS if ok(up + c)), None)
        got = self.ask("clocks")
        names = [self.ask("full", name=g) for g in got]
        if names != ([want] if want else []):
            self.bad(f"the clock of {pre} is {got} instead of {want}")
        self.st("clock_searches")

    def signals(self):
        rng = self.rng
        full, m = rng.choice(self.M.order)
        kind = "reg" if self.cfg["product"] == "Verilator" else "net"
        want = sorted(s["name"] for s in m["signals"] if s.get("kind", "net") == kind or kind == "reg" and s.get("kind") == "packed")
        r = self.ask("signals", name=self.spell(full), full=full)
        if sorted(r["names"]) != want or not r["handles"]:
            self.bad(f"the signals of {full} are {r} instead of {want}")

    def callbacks(self):
        rng = self.rng
        k = rng.random()
        if k < 0.5:
            name = rng.choice(["a", "b", "Monitor x", "c"])
            full = rng.choice(list(self.M.leaves)) if rng.random() < 0.7 else None
            if full and self.M.leaves[full].local and not self.cfg["name_index"]:
                return
            fn = rng.choice([1, 2])
            reason = 1 if full else rng.choice([8, 12])
            if self.ask("add_cb", cb=name, reason=reason, fn=fn, name=self.spell(full) if full else "") is not True:
                self.bad("a callback cannot be registered")
            if name not in self.cbs:
                self.cbs[name] = (reason, full, fn, True)
        elif k < 0.8:
            name = rng.choice(["a", "b", "Monitor x", "c", "nosuch"])
            self.ask("rm_cb", cb=name)
            self.cbs.pop(name, None)
        if sorted(self.ask("cb_names")) != sorted(self.cbs):
            self.bad(f"callbacks {sorted(self.cbs)} are expected")
        r = self.ask("cb_counts")
        if r != self.fired:
            self.bad(f"callbacks were called {r} instead of {self.fired} times")
        self.fired[:] = [0, 0]
        have = sorted(((a, b) for a, b in json.loads("{" + self.ask("cbs") + "}")["cbs"]), key=str)
        want = sorted(((a, b) for a, b, _, _ in self.cbs.values()), key=str)
        if have != want:
            self.bad(f"the simulator has the callbacks {have} instead of {want}")
        self.st("callback_checks")

    def info(self):
        if self.rng.random() < 0.5:
            self.time = self.rng.choice([0, 1, 2**32 - 1, 2**32, 2**33 + 7, 2**63, self.rng.getrandbits(64)])
            self.ask("settime", time=self.time)
        r = self.ask("info")
        want = {"argv": self.cfg["argv"], "name": self.cfg["product"], "version": self.cfg["version"], "verilator": self.cfg["product"] == "Verilator",
                "time": self.time}
        if {k: r[k] for k in want} != want:
            self.bad(f"the simulator is described as {r} instead of {want}")

    def same(self):
        p = self.pick()
        if p is None or p[3] == "slice":
            return
        if self.ask("same_handle", name=self.spell(p[0]), other=self.spell(p[0])) is not True:
            self.bad(f"two names of {p[0]} give different handles")


_pr = None


def case(c, cfg):
    global _pr
    rng = random.Random(c)
    if _pr is None:
        _pr = Probe(cfg["probe"], leaks=False)
    stats = {}

    def st(k, n=1):
        stats[k] = stats.get(k, 0) + n
    try:
        t = T(rng, _pr, st)
        t.fired = [0, 0]
        _pr.ask("rtl", q="cb_counts", t=t.t)
        ops = [t.read] * 14 + [t.unknown] * 6 + [t.write] * 5 + [t.mapping] * 3 + [t.names, t.resolve, t.resolve, t.clocks, t.signals, t.callbacks, t.callbacks,
                                                                          t.info, t.same]
        if rng.random() < 0.8:
            t.mapping()
        for _ in range(rng.randrange(20, 150)):
            rng.choice(ops)()
            st("queries")
        if t.ask("bad"):
            t.bad("the simulator is given handles that are not its own")
        _pr.ask("rtl", q="free", t=t.t)
    except Violation:
        _pr.kill()
        _pr = None
        raise
    return {"key": f"{t.cfg['product']}/{t.cfg['name_index']}/{t.cfg['bits']}/{len(t.M.leaves)}/{sorted(stats.items())}", "stats": stats}


def run(ctx):
    bins = ctx.build("asan", "probe")
    ctx.rule = ("random hierarchies (also with generate scopes) of scalars, vectors to 64 bits, structures, arrays, packed arrays and memories behind a model "
                "simulator that judges every handle, under the names of six simulators; names in every spelling, parts of signals, names that do not exist, "
                "writes, mappings, clocks and callbacks are compared with a direct reading of the design")
    for c, r in ctx.pool(case, [f"C17/{ctx.seed}/{i}" for i in range(ctx.n(2500, 40000))], {"probe": bins["probe"]}):
        ctx.case(r["key"], {"case": c, **r})
        for k, v in r["stats"].items():
            ctx.count(k, v)
    return ctx.finish(500, 200)
