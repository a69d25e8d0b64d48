"""One debugging session: the real debugger over the model simulator, a client, and a model of what must be reported.

Every expectation is derived from the table (IR), the requests accepted so far and the simulator's values; every deviation is
raised as Bad with the property it concerns."""
import json, random, re, time
import exprmodel as X
import design as D
from host import SimHost, Violation, Hang, HarnessError, leaf_names


class Bad(Violation):
    def __init__(self, props, what, detail=None):
        super().__init__(what, detail)
        self.props = props if isinstance(props, (tuple, list)) else (props,)


class Entry:
    """an inserted breakpoint in one namespace"""
    __slots__ = ("bp", "ns", "type", "user", "var", "rtl", "dcond", "trig", "done", "opt", "born")

    def __init__(self, bp, ns, type, user=""):
        self.bp, self.ns, self.type, self.user = bp, ns, type, user
        self.var = self.rtl = None
        self.dcond = ""
        self.trig = [{}]             # what was seen last (all possibilities)
        self.done = self.opt = False

    def key(self):
        # failed assertions are shown like breakpoints
        return (self.bp.id, self.ns, "normal" if self.type == "assert" else self.type)

    def __repr__(self):
        return f"{self.bp.id}@{self.ns}/{self.type} {self.bp.file}:{self.bp.line}:{self.bp.col} if {self.bp.cond!r} && {self.user!r}"


_trees = {}


def tree(text):
    if text not in _trees:
        if len(_trees) > 5000:
            _trees.clear()
        _trees[text] = (X.parse(text), None)
        t = _trees[text][0]
        _trees[text] = (t, sorted(set(X.symbols(t))) if t is not None else [])
    return _trees[text]


def sint32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Session:
    def __init__(self, exe, table, rng, n_occ=1, edges=12, product="RTLMock", rewind=False, rich=True, env=None, extra_args=(),
                 clock_by=None, cfg_over=None, options=None, domain=None, timeout=20.0, tb_depth=None, change_p=0.4, ann=None, port=None, add_port=True, table_file=None, hier=None,
                 host_cls=None):
        own = ann
        self.T, self.rng = table, rng
        self.modules, self.occ = (hier or D.hierarchy)(rng, table, n_occ, rich=rich, tb_depth=tb_depth)
        clock_by = clock_by or rng.choice(["root", "name"])
        if len(table.tops) > 1:
            clock_by = "root"
        self.occ_top = getattr(table, "occ_top", None) or {o: table.top for o in self.occ}
        self.clock_by = clock_by
        ann = {}
        if clock_by == "root":
            clock = "tb.clk"
            ann = {"clock": ["$root.tb.clk"]}
        else:
            clock = self.bfs_occ()[0] + ".clk"
            if rng.random() < 0.5:
                ann = {"clock": [table.top + ".clk"]}
        self.ann = ann = own if own is not None else ann
        cfg = {"product": product, "modules": self.modules, "clock": clock, "rewind": rewind, "argv": ["sim", "+x=1"]}
        # the simulation time between two edges
        self.tunit = cfg["tunit"] = rng.choice([10, 10, 10, 10, 2, 1000, 12345678, (1 << 33) + 14])
        cfg.update(cfg_over or {})
        self.can_rewind = rewind
        self.extra_args = list(extra_args)
        if table.flat:
            table.ann = ann
            cfg["flat"] = table.to_flat()
            self.extra_args.append("+DEBUG_NO_DB")
        else:
            table.json["attributes"] = [{"name": k, "value": v} for k, l in ann.items() for v in l]
        self.cfg = cfg
        self.edges_left = edges
        if table_file:
            with open(table_file, "w") as f:
                json.dump(self.T.json, f)
        self.host = (host_cls or SimHost)(exe, cfg, env=env, extra_args=self.extra_args, timeout=timeout, port=port, add_port=add_port)
        self.leafw = {}
        self._widths(self.modules, "")
        self.sim = {n: 0 for n in self.host.leaves}
        self.clock = clock
        self.domain = domain or (lambda r, w: r.choice([0, 0, 1, 1, 2, 3, r.getrandbits(w)]))
        self.change_p = change_p
        self.writable = [n for n in self.host.leaves if n.rsplit(".", 1)[-1] != "clk" and any(n.startswith(o + ".") for o in self.occ)]
        self.entries = []
        self.watch = {}            # (ns, group) -> last value seen
        self.mode = "continue"
        self.edge = -1
        self.snaps = []
        self.hist = []             # per evaluated edge: values at its beginning (and after writes)
        self.born = {}             # breakpoint id -> number of evaluated edges when first inserted
        self.cur = None            # rank of the current breakpoint in this edge
        self.unjudged = []         # behind it, evaluated together with it
        self.last = None           # last message of this edge
        self.wrote = False
        self.rewound = False
        self.use_hex = False
        self.plan = []
        self.monitors = {}         # (ns, track id) -> [leaf, type, last value reported or None]
        self.watchers = []         # clients and what they were sent
        self.batches = []          # monitor values due: {(ns, track id): (leaf, value)}
        self.edge_over = True
        self.reports = 0
        self.stats = {}
        self.paused_at = None
        self.resynced = False
        self.mon_expect = []
        self.check_frames = True
        self.single = False
        self.vary_options = True

    # ------------------------------------------------------------ design
    def bfs_occ(self):
        out, q = [], [(m, m["name"]) for m in self.modules]
        while q:
            m, full = q.pop(0)
            if m["def"] in self.T.tops:
                out.append(full)
            for c in m.get("children", []):
                q.append((c, full + "." + c["name"]))
        return out

    def _widths(self, mods, prefix):
        def sig(s, full):
            k = s.get("kind", "net")
            if k == "struct":
                for m in s["members"]:
                    sig(m, full + "." + m["name"])
            elif k in ("array", "packed", "memory"):
                for i in range(s["size"]):
                    sig(s["elem"], f"{full}[{i}]")
            else:
                self.leafw[full] = s["width"]
        for m in mods:
            for s in m["signals"]:
                sig(s, prefix + m["name"] + "." + s["name"])
            self._widths(m["children"], prefix + m["name"] + ".")

    def full(self, ns, iname, rtl):
        """full name of an RTL name as the table writes it, relative to an instance or to the top"""
        if rtl.startswith("$root."):
            return rtl[6:]
        local = rtl if rtl.split(".")[0] == self.nstop[ns] else iname + "." + rtl
        return self.mapped(ns, local)

    def mapped(self, ns, name):
        """the name in the design: only the top of the namespace is mapped"""
        top = self.nstop[ns]
        return self.ns[ns] + name[len(top):] if name.split(".")[0] == top else name

    def of(self, bp):
        """the namespaces a breakpoint occurs in"""
        top = bp.iname.split(".")[0]
        return [n for n in self.ns if self.nstop[n] == top]

    def leaf_value(self, full):
        if full in self.sim:
            return self.sim[full] & ((1 << self.leafw[full]) - 1)
        return None

    def close(self):
        self.host.kill()

    # ------------------------------------------------------------ name resolution (reference)
    def resolve(self, sym, ns, bp=None, iname=None):
        """int constant, full leaf name, or None"""
        if bp is not None:
            iname = bp.iname
            # the latest of that name, else the latest that stands for that RTL name
            defs = [c for c in bp.ctx if c[0] == sym] or [c for c in bp.ctx if c[1] == sym]
            if defs:
                n, v, rtl, d = defs[-1]
                if not rtl:
                    return int(v) if re.fullmatch(r"\d+", v) else None
                f = self.full(ns, iname, v)
                return f if f in self.sim else None
        if iname is not None:
            iid = next(i for i, n in self.T.insts.items() if n == iname)
            g = self.T.gens.get(iid, [])
            for n, v, rtl in [x for x in g if x[0] == sym][:1] or [x for x in g if x[1] == sym][:1]:
                if not rtl:
                    return int(v) if re.fullmatch(r"\d+", v) else None
                f = self.full(ns, iname, v)
                return f if f in self.sim else None
            f = self.full(ns, iname, sym)
            if f in self.sim:
                return f
        if sym.split(".")[0] == self.nstop[ns]:
            f = self.mapped(ns, sym)
            if f in self.sim:
                return f
        return sym if sym in self.sim else None

    def aggregate(self, sym, ns, bp=None, iname=None):
        """does the name stand for a whole array or structure"""
        vs = []
        if bp is not None:
            vs += [c for c in bp.ctx if sym in c[:2]]
            iname = bp.iname
        if iname is not None:
            vs += [c for c in self.T.gens.get(next(i for i, n in self.T.insts.items() if n == iname), []) if sym in c[:2]]
        names = [self.full(ns, iname, c[1]) for c in vs if c[2]] + ([self.full(ns, iname, sym)] if iname else [])
        return any(n in self._sigs() and n not in self.sim for n in names)

    def ev(self, text, ns, bp=None, iname=None):
        """value of an expression now; None if a name is unknown, POISON where it is undefined"""
        if not text:
            return 1
        t, syms = tree(text)
        if t is None:
            return None
        env = {}
        for s in syms:
            if s == "$time":
                env[s] = self.time()
                continue
            if s == "$instance":
                env[s] = bp.inst if bp else next((i for i, n in self.T.insts.items() if n == iname), None)
                continue
            r = self.resolve(s, ns, bp, iname)
            if r is None:
                return None
            env[s] = r if isinstance(r, int) else sint32(self.leaf_value(r))
        return X.ev(t, env)

    times = None
    entered = False

    def time(self):
        if self.times is not None:
            return self.times[self.edge]
        return self.tunit * (self.edge + 1)

    # ------------------------------------------------------------ start
    def start(self, connect=True):
        # the server listens before the simulation blocks
        self.c = self.host.client()
        if not connect:
            r = {"status": "success"}
        elif self.T.flat:
            r = self.c.request("connection", {"db_filename": "unused"})
        else:
            import os
            p = os.path.join(self.host.dir, "table.json")
            with open(p, "w") as f:
                json.dump(self.T.json, f)
            if self.rng.random() < self.decoy_p and not hasattr(self, "table_uri"):
                self.decoy()
            r = self.c.request("connection", {"db_filename": getattr(self, "table_uri", p)})
        if r["status"] != "success":
            raise Bad(("C11", "C26"), f"the connection to a valid symbol table is refused: {r}")
        self.design()
        self.started = False
        # options that must not change anything
        if self.vary_options:
            for n, p in (("use_signal_cache", 0.35), ("log_enabled", 0.06), ("perf_count", 0.1)):
                if self.rng.random() < p:
                    self.ok(self.c.request("option-change", {n: True}), True, "C25", "option-change")
                    self.stat("opt_" + n)
        return self

    decoy_p = 0.15

    def decoy(self):
        """another table first, about another module of the design: nothing of it may be left"""
        import os
        defs, q = {}, [(m, m["name"]) for m in self.modules]
        while q:
            m, full = q.pop()
            defs.setdefault(m["def"], []).append(full)
            q += [(c, full + "." + c["name"]) for c in m["children"]]
        defs["no_such_module"] = []
        # those that occur often before those that occur once
        top = max(self.rng.sample(sorted(defs), min(3, len(defs))), key=lambda d: len(defs[d]))
        p = os.path.join(self.host.dir, "decoy.json")
        with open(p, "w") as f:
            json.dump({"generator": "other", "table": [{"type": "module", "name": top, "instances": [], "variables": [], "scope": [
                {"type": "block", "filename": "/other.py", "scope": [{"type": "none", "line": 1}]}]}],
                "top": top, "attributes": self.T.json.get("attributes", [])}, f)
        r = self.c.request("connection", {"db_filename": p})
        if r["status"] != "success":
            raise Bad(("C11", "C26"), f"the connection to a valid symbol table is refused: {r}")
        d = self.c.request("debugger-info", {"command": "design"})["payload"]["design"]
        got = {o: t for t, m in d.items() for o in m}
        if defs[top] and got != {o: top for o in defs[top]}:
            raise Bad("C24", f"design information of a table about {top} is {d} instead of {defs[top]}")
        self.stat("decoys")

    def design(self):
        """the occurrences of the table's tops, as the debugger numbers them"""
        d = self.c.request("debugger-info", {"command": "design"})["payload"]["design"]
        got = {o: t for t, m in d.items() for o in m}
        ids = sorted(i for m in d.values() for i in m.values())
        if got != self.occ_top or sum(map(len, d.values())) != len(got):
            raise Bad("C24", f"design information names the occurrences {d} instead of {self.occ_top}")
        if ids != list(range(len(self.occ))):
            raise Bad("C24", f"namespace ids are {d}")
        self.ns = dict(sorted((i, o) for m in d.values() for o, i in m.items()))
        self.nstop = {i: self.occ_top[o] for i, o in self.ns.items()}

    # ------------------------------------------------------------ requests
    def ok(self, resp, want, props, what):
        good = resp.get("status") == "success"
        if good != want:
            raise Bad(props, f"{what} is answered with {resp.get('status')} ({resp.get('payload')}) instead of {'success' if want else 'an error'}")
        return good

    def valid_cond(self, text, ns, bp):
        """can the condition be evaluated at all"""
        if not text:
            return True
        t, syms = tree(text)
        if t is None:
            return False
        return all(s in ("$time", "$instance") or self.resolve(s, ns, bp) is not None for s in syms)

    def add(self, bps, cond, how):
        """model of adding breakpoints; returns whether anything was inserted"""
        any_ok = False
        for b in bps:
            old = [e for e in self.entries if e.bp is b and e.type == "normal"]
            good = [self.valid_cond(cond, ns, b) and self.valid_cond(b.cond, ns, b) for ns in self.of(b)]
            if old:
                if all(good):
                    for e in old:
                        e.user = cond
                        if self.paused_at is not None and self.last and not e.done and self.T.rank[b.id] <= self.last_hi:
                            # may have been looked at together with the reported one
                            e.opt = True
                    any_ok = True
                continue
            for ns, g in zip(self.of(b), good):
                if g:
                    e = Entry(b, ns, "normal", cond)
                    self._place(e)
                    any_ok = True
                    self.born.setdefault(b.id, len(self.hist))
        return any_ok

    def _place(self, e):
        # what is inserted while the simulation is paused counts from its place on
        e.done = False
        if self.paused_at is not None:
            r = self.T.rank[e.bp.id]
            if self.last and (r <= self.last_hi):
                e.opt = True
            if self.cur is not None and r == self.cur:
                e.opt = True
            if self.last and e.bp.loc() == self.last_loc:
                e.opt = True
            mx = max([self.T.rank[x.bp.id] for x in self.entries if x.done], default=-1)
            if r <= mx:
                e.opt = True
        self.entries.append(e)

    def req_add(self, file, line=None, col=None, cond=None):
        p = {"filename": file, "action": "add"}
        if line is not None:
            p["line_num"] = line
        if col is not None:
            p["column_num"] = col
        if cond:
            p["condition"] = cond
        bps = self.T.at(file, line or 0, col or 0)
        r = self.c.request("breakpoint", p)
        bps.sort(key=lambda b: b.id)
        want = self.add(bps, cond or "", "loc")
        self.ok(r, want, "C02", f"breakpoint request {p}")
        return want

    def req_remove(self, file, line, col=None):
        p = {"filename": file, "action": "remove", "line_num": line}
        if col is not None:
            p["column_num"] = col
        r = self.c.request("breakpoint", p)
        ids = {b.id for b in self.T.at(file, line, col or 0)}
        self.entries = [e for e in self.entries if not (e.type == "normal" and e.bp.id in ids)]
        self.ok(r, True, "C02", f"breakpoint request {p}")

    def req_add_id(self, id, cond=None):
        p = {"id": id, "action": "add"}
        if cond:
            p["condition"] = cond
        r = self.c.request("breakpoint-id", p)
        b = self.T.bps.get(id)
        want = bool(b) and self.add([b], cond or "", "id")
        self.ok(r, want, "C02", f"breakpoint-id request {p}")
        return want

    def req_remove_id(self, id):
        r = self.c.request("breakpoint-id", {"id": id, "action": "remove"})
        self.entries = [e for e in self.entries if not (e.type == "normal" and e.bp.id == id)]
        self.ok(r, True, "C02", f"breakpoint-id removal of {id}")

    def list_check(self):
        r = self.c.request("debugger-info", {"command": "breakpoints"})
        got = sorted((b["id"], "data" if b["type"] == 2 else "normal", b.get("var", "") if b["type"] == 2 else "", b["filename"], b["line_num"],
                      b["column_num"]) for b in r["payload"]["breakpoints"])
        want = sorted((e.bp.id, e.type, e.rtl or "", e.bp.file, e.bp.line, e.bp.col) for e in self.entries)
        if got != want:
            extra = [x for x in got if x not in want]
            miss = [x for x in want if x not in got]
            raise Bad("C02", f"the debugger lists {len(got)} breakpoints where the requests leave {len(want)}: extra {extra[:4]}, missing {miss[:4]}",
                      {"got": got, "want": want})
        self.stat("lists")

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def data_cond(self, var):
        if not hasattr(self, "_dcond"):
            self._dcond = {}
        if var not in self._dcond:
            self._dcond[var] = D.cond_text(self.rng, ["s0", "s2", "cnt"], 0.3) or None
        if self.rng.random() < 0.2:
            # the same place with another condition: both stay inserted
            return D.cond_text(self.rng, ["s0", "s2", "cnt"], 0.3) or None
        return self._dcond[var]

    def data_sites(self, id, var):
        b = self.T.bps.get(id)
        return b.assigned.get(var, []) if b else []

    def req_data(self, action, id=None, var=None, cond=None, ns=None):
        p = {"action": action}
        if id is not None:
            p["breakpoint-id"] = id
        if var is not None:
            p["var_name"] = var
        if cond:
            p["condition"] = cond
        if ns is not None:
            p["namespace_id"] = ns
        r = self.c.request("data-breakpoint", p)
        what = f"data-breakpoint request {p}"
        if action == "clear":
            self.ok(r, True, "C08", what)
            self.entries = [e for e in self.entries if e.type != "data"]
            self.watch.clear()
            return True
        b = self.T.bps.get(id)
        own = self.of(b) if b else [0]
        tns = ns if ns is not None and ns < len(self.ns) else (own[0] if len(own) == 1 else None)
        if action == "remove":
            if b is None or tns is None:
                return r["status"] == "success"
            self.ok(r, True, "C08", what)
            gone = [e for e in self.entries if e.type == "data" and e.bp.id == id and e.ns == tns]
            self.entries = [e for e in self.entries if e not in gone]
            for g in gone:
                k = (g.ns, self.full(g.ns, g.bp.iname, g.rtl))
                if not any(e.type == "data" and (e.ns, self.full(e.ns, e.bp.iname, e.rtl)) == k for e in self.entries):
                    self.watch.pop(k, None)
            return True
        sites = self.data_sites(id, var)
        want = bool(b) and bool(sites) and tns is not None
        if want:
            for sid, rtl, dc in sites:
                sb = self.T.bps[sid]
                f = self.full(tns, sb.iname, rtl)
                if f not in self.sim or not all(self.valid_cond(c, tns, sb) for c in (cond, dc, sb.cond) if c):
                    want = False
        self.ok(r, want, "C08", what)
        if want and action == "add":
            # all sites share the last value seen
            fulls = [(tns, self.full(tns, self.T.bps[s].iname, rtl)) for s, rtl, _ in sites]
            cell = next((self.watch[f] for f in fulls if f in self.watch), None)
            for (sid, rtl, dc), f in zip(sites, fulls):
                sb = self.T.bps[sid]
                dup = [e for e in self.entries if e.type == "data" and e.bp is sb and e.ns == tns and e.rtl == rtl and e.user == (cond or "")
                       and e.dcond == dc]
                if f not in self.watch:
                    if cell is None:
                        cell = [None]
                    self.watch[f] = cell
                if dup:
                    continue
                e = Entry(sb, tns, "data", cond or "")
                e.var, e.rtl, e.dcond = var, rtl, dc
                self._place(e)
        return want

    def fail_assert(self, mod, file, nums, bp=None, ns=None):
        """a $hgdb_assert_fail call between two edges; bp is the breakpoint it has to show at the next one"""
        self.host.cmd(c="assert", mod=mod, file=file, nums=nums)
        self.stat("asserts")
        if bp is not None:
            e = Entry(bp, ns, "assert")
            e.born = self.edge
            e.done = True
            self.entries.append(e)

    # ------------------------------------------------------------ what holds
    def holds(self, e, dry=False):
        """evaluates an inserted entry as the debugger would at its turn (updates what it remembers)"""
        v = True
        for c in (e.bp.cond, e.user, e.dcond):
            if c and e.type != "assert":
                x = self.ev(c, e.ns, e.bp)
                if x is None or x is X.POISON:
                    raise HarnessError(f"condition {c!r} of {e} cannot be judged")
                v = v and bool(x)
        if e.type == "data":
            if v:
                f = self.full(e.ns, e.bp.iname, e.rtl)
                cell = self.watch[(e.ns, f)]
                val = sint32(self.leaf_value(f))
                ch = {x != val for x in cell}
                if not dry:
                    cell[:] = [val] + ([x for x in cell if x != val] if e.opt else [])
                v = ch.pop() if len(ch) == 1 else None
            return v
        if e.bp.trigger:
            now = {s: self.leaf_value(self.full(e.ns, e.bp.iname, s)) for s in e.bp.trigger}
            ch = {x != now for x in e.trig}
            if not dry:
                e.trig = [now] + (e.trig if e.opt else [])
            if v:
                v = ch.pop() if len(ch) == 1 else None
        return v

    def enabled(self, b):
        """the namespaces where the symbol table's condition of a breakpoint holds"""
        return [ns for ns in self.of(b) if not b.cond or self._true(b.cond, ns, b)]

    def _true(self, c, ns, b):
        x = self.ev(c, ns, b)
        if x is None:
            return False
        if x is X.POISON:
            raise HarnessError(f"condition {c!r} cannot be judged")
        return bool(x)

    # ------------------------------------------------------------ edges
    def make_edges(self, n, quiet=0.1):
        out = []
        for _ in range(n):
            e = {}
            if self.rng.random() > quiet:
                for w in self.writable:
                    if self.rng.random() < self.change_p:
                        e[w] = self.domain(self.rng, self.leafw[w])
            out.append(e)
        return out

    def run(self, edges):
        self.plan += edges
        self.target = len(self.plan)
        self.run_mark = self.host.run(edges)

    def _end_edge(self):
        """the clock-edge and change monitors are due"""
        if self.edge_over:
            return
        self.edge_over = True
        if not self.monitors:
            return
        due = {k: (m[0], self.leaf_value(m[0])) for k, m in self.monitors.items() if m[1] == "clock_edge"}
        if due:
            self.batches.append(due)
        due = {}
        for k, m in self.monitors.items():
            if m[1] == "changed":
                v = sint32(self.leaf_value(m[0]))
                if m[2] != v:
                    m[2] = v
                    due[k] = (m[0], self.leaf_value(m[0]))
        if due:
            self.batches.append(due)

    def _begin_edge(self, k):
        self._end_edge()
        self.edge_over = False
        self.entered = True
        self.edge = k
        if k < len(self.snaps):
            self.sim.update(self.snaps[k])
        else:
            self.sim.update(self.plan[k])
            self.snaps.append(dict(self.sim))
        self.sim[self.clock] = 1
        self.cur = None
        self.last = None
        self.last_hi = -1
        self.unjudged = []
        self.wrote = False
        self.amb = {}
        self.entries = [e for e in self.entries if e.type != "assert" or e.born >= k - 1]
        for e in self.entries:
            e.done = e.opt = False
        self.hist.append([dict(self.sim)])
        self.step_fresh = True

    def _expected_frames(self, b):
        pass

    def ordered(self):
        return sorted(self.entries, key=lambda e: self.T.rank[e.bp.id])

    # ------------------------------------------------------------ reports
    def take(self, msg):
        """judges a breakpoint message in the current mode; the model is moved to its edge first"""
        p = msg["payload"]
        t = p["time"]
        self.reports += 1
        scopes = [(s["breakpoint_id"], s["namespace_id"], s.get("bp_type", "normal")) for s in p["instances"]]
        if not scopes:
            raise Bad("C03", f"a breakpoint message without frames: {p}")
        if self.mode == "continue":
            self._to_edge_continue(t, scopes, p)
        elif self.mode == "step_over":
            self._step_over(t, scopes, p)
        elif self.mode == "step_back":
            self._step_back(t, scopes, p)
        elif self.mode == "reverse":
            self._reverse(t, scopes, p)
        self.last = scopes
        b0 = self.T.bps[scopes[0][0]]
        self.last_loc = b0.loc()
        for s in scopes:
            b = self.T.bps.get(s[0])
            if b is None or b.loc() != (p["filename"], p["line_num"], p["column_num"]):
                raise Bad(("C03", "C06"), f"the message is for {p['filename']}:{p['line_num']}:{p['column_num']}, its frame {s} is "
                                  f"{b and b.loc()}")
        ranks = [self.T.rank[s[0]] for s in scopes]
        self.cur = min(ranks)
        self.last_hi = max(ranks + [self.last_hi]) if self.mode in ("continue", "step_over") else max(ranks)
        # statements next to each other may have been evaluated together
        run = False
        self.unjudged = []
        for e in self.ordered():
            if e.bp.loc() == self.last_loc and (run or self.T.rank[e.bp.id] in ranks):
                run = True
                if self.mode == "continue" and not e.done:
                    self.unjudged.append(e)
                self.last_hi = max(self.last_hi, self.T.rank[e.bp.id])
            elif run and self.T.rank[e.bp.id] > max(ranks):
                break
        self.paused_at = self.edge
        if self.check_frames:
            self.frames(p)
        self.mon_hit(msg)

    def _fail(self, props, what, p, exp=None):
        raise Bad(props, what, {"message": p, "expected": repr(exp)[:1500], "edge": self.edge, "mode": self.mode,
                                "inserted": [repr(e) for e in self.ordered()][:60]})

    def _desc(self, scopes):
        return ", ".join(f"{i} ({self.T.bps[i].iname if i in self.T.bps else '?'} {self.T.bps[i].file if i in self.T.bps else ''}:"
                         f"{self.T.bps[i].line if i in self.T.bps else ''}) ns {n} {t}" for i, n, t in scopes)

    def _edge_of(self, t, p):
        if self.times is not None:
            if t not in self.times:
                self._fail(("C06",), f"a breakpoint is reported at time {t}, which is no clock edge", p)
            return self.times.index(t)
        if t % self.tunit or t // self.tunit - 1 >= len(self.plan) or t < self.tunit:
            self._fail(("C06",), f"a breakpoint is reported at time {t}, which is no clock edge that was simulated", p)
        return t // self.tunit - 1

    def _props(self, kind):
        return {"normal": ("C03",), "data": ("C08",), "assert": ("C29",)}[kind]

    def _to_edge_continue(self, t, scopes, p):
        k = self._edge_of(t, p)
        if k < self.edge:
            self._fail("C03", f"while continuing, a breakpoint is reported at edge {k} after edge {self.edge}", p)
        while self.edge < k:
            self._finish_edge_continue(p)
            self._begin_edge(self.edge + 1)
        want = list(scopes)
        ranks = [self.T.rank.get(s[0], -1) for s in scopes]
        if ranks != sorted(ranks):
            self._fail("C03", f"frames of one message are not in execution order: {self._desc(scopes)}", p)
        self._skip()
        for e in self.ordered():
            if e.done:
                continue
            if not want:
                break
            key = e.key()
            h = self.holds(e)
            e.done = True
            if h is not False and h != 0 and key in want:
                want.remove(key)
                self.stat("hit")
                if h is None:
                    # the report may have been another entry's of the same statement
                    self.amb[key] = self.amb.get(key, 0) + 1
            elif h and (e.opt or self._took(key)):
                pass
            elif h:
                self._fail(self._props(e.type), f"at edge {self.edge} the debugger reports {self._desc(scopes)} and leaves out {e}, which holds before it", p, e)
            else:
                self.stat("nohit")
        if want:
            kinds = {x[2] for x in want}
            why = []
            for w in want:
                es = [e for e in self.entries if e.key() == w]
                why.append("not inserted" if not es else f"reported already or does not hold ({es[0]})")
            props = tuple({q for kd in kinds for q in self._props(kd if kd in ("normal", "data") else "normal")})
            if any(x == "not inserted" for x in why):
                props += ("C02",)
            self._fail(props, f"at edge {self.edge} the debugger reports {self._desc(want)}: {'; '.join(why)}", p)

    def _took(self, key):
        if self.amb.get(key):
            self.amb[key] -= 1
            return True
        return False

    def _skip(self):
        """marks what lies behind the current position as looked at"""
        es = self.ordered()
        last = max([i for i, e in enumerate(es) if e.done], default=-1)
        for i, e in enumerate(es):
            if not e.opt and (i <= last or (self.cur is not None and self.T.rank[e.bp.id] < self.cur)):
                e.done = True

    def _finish_edge_continue(self, p=None):
        if not self.entered:
            return
        self._skip()
        for e in self.ordered():
            if e.done:
                continue
            if self.holds(e) and not e.opt and not self._took(e.key()):
                self._fail(self._props(e.type), f"edge {self.edge} is over without a report of {e}, which holds", p, e)
            e.done = True
            self.stat("nohit")

    def _next_step(self, k_from):
        """the first breakpoint with rank > k_from that holds: (rank, namespaces)"""
        for r in range(k_from + 1, len(self.T.order)):
            ns = self.enabled(self.T.bps[self.T.order[r]])
            if ns:
                return r, ns
        return None

    def _step_over(self, t, scopes, p):
        k = self._edge_of(t, p)
        # what was evaluated together with the stop that was continued to has seen its triggers, what is stepped over has not
        for e in self.unjudged:
            if e.bp.trigger and e.type != "data":
                now = {s: self.leaf_value(self.full(e.ns, e.bp.iname, s)) for s in e.bp.trigger}
                if now not in e.trig:
                    e.trig = list(e.trig) + [now]
        self.unjudged = []
        for _ in range(len(self.plan) + 2):
            nxt = self._next_step(-1 if self.cur is None else self.cur) if self.entered else None
            if nxt:
                break
            if self.edge + 1 >= len(self.plan):
                self._fail("C04", "step over reports a breakpoint though none holds any more", p)
            self._begin_edge(self.edge + 1)
        r, ns = nxt
        want = sorted((self.T.order[r], n) for n in ns)
        got = sorted((s[0], s[1]) for s in scopes)
        if k != self.edge or want != got:
            self._fail("C04", f"step over stops at edge {k} at {self._desc(scopes)} instead of edge {self.edge} at "
                              f"{self._desc([(i, n, 'normal') for i, n in want])}", p)
        for e in self.entries:
            if self.T.rank[e.bp.id] <= r:
                e.done = True
        self.stat("step")

    def _reverse_edge(self):
        """what reversing does: previous edge, if the simulator can"""
        if not self.can_rewind or self.edge <= 0:
            return False
        self.edge -= 1
        self.sim.update(self.snaps[self.edge])
        self.sim[self.clock] = 1
        self.rewound = True
        for e in self.entries:
            e.done = e.opt = False
        self.stat("reversed")
        return True

    def _step_back(self, t, scopes, p):
        k = self._edge_of(t, p)
        r = self.cur
        found = None
        forward = False
        while found is None:
            r -= 1
            if r < 0:
                if not self._reverse_edge():
                    forward = True
                    break
                r = len(self.T.order) - 1
                if r < 0:
                    break
            ns = self.enabled(self.T.bps[self.T.order[r]])
            if ns:
                found = (r, ns)
        if forward:
            # nothing before: the first one that holds
            self.mode = "step_over"
            self.cur = None
            for e in self.entries:
                e.done = e.opt = False
            self.stat("back_at_start")
            return self._step_over(t, scopes, p)
        r, ns = found
        want = sorted((self.T.order[r], n) for n in ns)
        got = sorted((s[0], s[1]) for s in scopes)
        if k != self.edge or want != got:
            self._fail("C04", f"step back stops at edge {k} at {self._desc(scopes)} instead of edge {self.edge} at "
                              f"{self._desc([(i, n, 'normal') for i, n in want])}", p)
        for e in self.entries:
            e.done = self.T.rank[e.bp.id] <= r
            e.opt = False
        self.stat("step_back")

    def _reverse(self, t, scopes, p):
        k = self._edge_of(t, p)
        ents = self.ordered()
        below = [e for e in ents if self.T.rank[e.bp.id] < self.cur]
        while True:
            hit = [e for e in below if self.holds(e)]
            if hit:
                break
            if not self._reverse_edge():
                self.mode = "continue"
                self.cur = None
                for e in self.entries:
                    e.done = e.opt = False
                self.stat("reverse_at_start")
                return self._to_edge_continue(t, scopes, p)
            below = ents
        top = self.T.rank[hit[-1].bp.id]
        # the message: the last one that holds, possibly with others of the same statement right before it
        loc = hit[-1].bp.loc()
        allowed = []
        for e in reversed(hit):
            if e.bp.loc() != loc:
                break
            allowed.append(e.key())
        got = list(scopes)
        if k != self.edge or any(g not in allowed for g in got) or len(set(got)) != len(got) or hit[-1].bp.id not in [g[0] for g in got]:
            self._fail("C04", f"reverse continue stops at edge {k} at {self._desc(scopes)} instead of edge {self.edge} at {hit[-1]}", p)
        # nothing may be left out between the frames
        ranks = {self.T.rank[g[0]] for g in got}
        for e in hit:
            r = self.T.rank[e.bp.id]
            if min(ranks) < r and e.key() not in got and not (r == top and False):
                self._fail("C04", f"reverse continue at edge {self.edge} leaves out {e}", p)
        for e in self.entries:
            r = self.T.rank[e.bp.id]
            e.done = r <= min(ranks)
            # reported together with it, or looked at already: either is fine
            e.opt = e.key() in got or (e.bp.loc() == loc and r > min(ranks))
        self.stat("reverse")

    def over(self):
        """all edges were simulated without a further message"""
        if self.mode == "continue":
            while True:
                self._finish_edge_continue()
                if self.edge + 1 >= len(self.plan):
                    break
                self._begin_edge(self.edge + 1)
        elif self.mode == "step_over":
            while True:
                nxt = self._next_step(-1 if self.cur is None else self.cur) if self.entered else None
                if nxt:
                    self._fail("C04", f"step over runs on although {self.T.bps[self.T.order[nxt[0]]].loc()} holds at edge {self.edge} in {nxt[1]}", None)
                if self.edge + 1 >= len(self.plan):
                    break
                self._begin_edge(self.edge + 1)
        else:
            # backwards without a stop: only when there is nothing at all, then forwards to the end
            if self.mode == "step_back":
                while self._reverse_edge():
                    pass
                self.mode = "step_over"
            elif self.mode == "reverse":
                while self._reverse_edge():
                    pass
                self.mode = "continue"
            self.cur = None
            for e in self.entries:
                e.done = e.opt = False
            self.over()
        self.paused_at = None
        self._end_edge()
        if self.watchers:
            self.mon_flush("at the end")

    # ------------------------------------------------------------ frames
    def shown(self, full, width):
        v = self.leaf_value(full)
        if v is None:
            return None
        if self.use_hex:
            if width == 1:
                return str(v)
            return "0x%0*X" % ((width + 3) // 4, v)
        return str(sint32(v))

    def decl_of(self, full):
        """declaration of a signal by full name of module + signal"""
        mod, sig = full.rsplit(".", 1)
        return self._sigs().get(full)

    def _sigs(self):
        if not hasattr(self, "_sigmap"):
            self._sigmap = {}

            def walk(mods, prefix):
                for m in mods:
                    for s in m["signals"]:
                        self._sigmap[prefix + m["name"] + "." + s["name"]] = s
                    walk(m["children"], prefix + m["name"] + ".")
            walk(self.modules, "")
        return self._sigmap

    def expect_var(self, ns, iname, name, value, rtl, delay, born):
        """{shown name: set of acceptable texts or None if it is not judged}"""
        if not rtl:
            return {name: {value}}
        full = self.full(ns, iname, value)
        d = self._sigs().get(full)
        if d is None:
            lv = self.shown(full, self.leafw.get(full, 0))
            return {name: {lv} if lv is not None else {"ERROR"}}
        out = {}
        for front, rtl_s, w in D.leaves_of(d):
            f = full + rtl_s
            if delay:
                now = len(self.hist) - 1
                if self.rewound or born is None or now - delay < 0 or len(self.hist) - born < delay:
                    out[name + front] = None
                    if not self.rewound:
                        self.stat("delay_unjudged")
                    continue
                vals = set()
                for s in self.hist[now - delay]:
                    v = s[f] & ((1 << w) - 1)
                    vals.add(str(v) if self.use_hex and w == 1 else "0x%0*X" % ((w + 3) // 4, v) if self.use_hex else str(sint32(v)))
                out[name + front] = vals
                self.stat("delay_judged")
            else:
                out[name + front] = {self.shown(f, w)}
        return out

    def frames(self, p):
        host = self.host.ask("values").get("v", {})
        for n, v in host.items():
            if n != self.clock and (v & ((1 << self.leafw[n]) - 1)) != (self.sim[n] & ((1 << self.leafw[n]) - 1)):
                raise HarnessError(f"model has {n}={self.sim[n]}, simulator {v} at edge {self.edge}")
        if p["time"] != self.time():
            self._fail("C06", f"the message carries time {p['time']} at simulation time {self.time()}", p)
        for s in p["instances"]:
            b = self.T.bps[s["breakpoint_id"]]
            ns = s["namespace_id"]
            inst = self.mapped(ns, b.iname)
            if s["instance_id"] != b.inst or s["instance_name"] != inst:
                self._fail(("C06", "C24"), f"frame of {b.id} names instance {s['instance_id']} {s['instance_name']} instead of {b.inst} {inst}", p)
            born = self.born.get(b.id)
            for what, got, vs in (("local", s["local"], [(n, v, r, d) for n, v, r, d in b.ctx]),
                                  ("generator", s["generator"], [(n, v, r, 0) for n, v, r in self.T.gens.get(b.inst, [])])):
                exp = {}
                for n, v, r, d in vs:
                    for k, vals in self.expect_var(ns, b.iname, n, v, r, d, born).items():
                        if what == "generator" and exp.get(k) and vals:
                            # a name given twice
                            vals = vals | exp[k]
                        exp[k] = vals
                if set(exp) != set(got):
                    self._fail("C06", f"frame of {b.id} lists {what} variables {sorted(got)} instead of {sorted(exp)}", p)
                delays = {n for n, v, r, d in vs if d}
                for n, vals in exp.items():
                    if vals is not None and got[n] not in vals:
                        dl = n in delays
                        self._fail(("C10",) if dl else ("C06", "C24") if len(self.ns) > 1 else ("C06",),
                                   f"{'delayed ' if dl else ''}{what} variable {n} of {b.id} (ns {ns}) is shown as {got[n]!r} instead of {sorted(vals)}"
                                   f" at edge {self.edge}", p)
                    self.stat("vars")

    def set_hex(self, on):
        self.ok(self.c.request("option-change", {"use_hex_str": on}), True, "C25", "option-change")
        self.use_hex = on

    def options_check(self, want):
        r = self.c.request("debugger-info", {"command": "options"})
        got = r["payload"]["options"]
        if want is not None and got != want:
            raise Bad("C25", f"the options are reported as {got} instead of {want}")
        return got

    # ------------------------------------------------------------ commands
    def command(self, cmd):
        """sends a resuming command; returns once it is answered"""
        name = {"continue": "continue", "step_over": "step_over", "step_back": "step_back", "reverse": "reverse_continue"}[cmd]
        if self.wrote and self.paused_at is not None and self.last:
            # values changed meanwhile: those evaluated together with the reported one may or may not see it
            for e in self.entries:
                if self.T.rank[e.bp.id] <= self.last_hi and not e.done:
                    e.opt = True
        if cmd == "continue" and self.mode != "continue" and self.last:
            pass
        self.mode = cmd
        self.paused_at = None
        r = self.c.request("command", {"command": name})
        if r["status"] != "success":
            raise Bad(("C11", "C05"), f"command {name} is answered with {r}")
        self.stat("cmd_" + cmd)

    def jump(self, t):
        """goes to the last clock edge before a time, if there is one, and goes on there"""
        k = None
        if self.can_rewind:
            # a waveform is known to its end, a simulation as far as it ran
            known = self.times if self.times is not None else [self.tunit * (i + 1) for i in range(len(self.snaps))]
            k = max((i for i, x in enumerate(known) if x < t), default=None)
            while k is not None and k >= len(self.snaps):
                n = len(self.snaps)
                v = dict(self.snaps[-1]) if n else dict(self.sim)
                v.update(self.plan[n])
                self.snaps.append(v)
        self.paused_at = None
        r = self.c.request("command", {"command": "jump", "time": t})
        self.ok(r, k is not None, ("C04", "C11"), f"jump to {t} at edge {self.edge}")
        self.stat("jump" if k is not None else "jump_failed")
        if k is not None:
            self.edge = k
            self.sim.update(self.snaps[k])
            self.sim[self.clock] = 1
            self.rewound = True
            self.cur = None
            self.last = None
            self.last_hi = -1
            self.amb = {}
            for e in self.entries:
                e.done = e.opt = False

    def wait(self):
        """the next breakpoint message, or None when the simulation is done"""
        h = self.host
        deadline = time.time() + h.timeout
        while True:
            m = self.c.next_async(0.02)
            if m is None:
                if h.wait_event(lambda e: e["e"] == "done", self.run_mark, 0.0001) is not None:
                    # nothing can be on the way but monitor values
                    self.c.request("debugger-info", {"command": "status"})
                    while self.c.async_msgs:
                        m = self.c.async_msgs.pop(0)
                        if m.get("type") == "breakpoint":
                            raise Bad("C05", f"the simulation ran on after a breakpoint was reported: {m}")
                        self.on_async(m)
                    return None
                h.check_alive()
                if time.time() > deadline:
                    pr = h.progress()
                    raise Hang(f"the simulation neither stops nor ends ({pr})")
                continue
            if m.get("type") == "breakpoint":
                return m
            self.on_async(m)

    def on_async(self, m):
        if m.get("type") != "monitor":
            raise Bad("C11", f"unexpected message {m}")
        if self.watchers:
            self.watchers[0]["got"].append(m)
        else:
            raise Bad("C09", f"a monitor value without a monitor: {m}")

    # ------------------------------------------------------------ monitors
    def watcher(self, client):
        self.watchers.append({"c": client, "keys": set(), "got": []})
        return self.watchers[-1]

    def req_monitor(self, w, p, leaf):
        """an add request; leaf is what it stands for, None if it must fail"""
        r = w["c"].request("monitor", {"action_type": "add", **p})
        props = ("C09", "C24") if len(self.ns) > 1 else ("C09",)
        self.ok(r, leaf is not None, props, f"monitor request {p}")
        if leaf is None:
            return
        ns = p.get("namespace_id", 0)
        tid = r["payload"].get("track_id")
        if not isinstance(tid, int) or r["payload"].get("namespace_id") != ns:
            raise Bad(props, f"monitor request {p} is answered with {r['payload']}")
        k = (ns, tid)
        same = [x for x, m in self.monitors.items() if x[0] == ns and m[0] == leaf and m[1] == p["monitor_type"]]
        if same and same[0] != k:
            raise Bad("C09", f"watching {leaf} again gives the id {tid} instead of {same[0][1]}")
        if not same and k in self.monitors:
            raise Bad("C09", f"watching {leaf} ({p['monitor_type']}) gives the id {tid}, which belongs to {self.monitors[k]}")
        if not same:
            self.monitors[k] = [leaf, p["monitor_type"], None]
        w["keys"].add(k)
        self.stat("watches")

    def req_unwatch(self, w, k):
        r = w["c"].request("monitor", {"action_type": "remove", "track_id": k[1], "namespace_id": k[0]})
        self.ok(r, True, "C09", f"removal of monitor {k}")
        self.monitors.pop(k, None)
        for x in self.watchers:
            x["keys"].discard(k)

    def _mon_key(self, m):
        p = m["payload"]
        return p["namespace_id"], p["track_id"]

    def mon_text_ok(self, text, leaf, value):
        w = self.leafw[leaf]
        if w > 31:
            return text != "ERROR"
        try:
            return (int(text, 16) if self.use_hex and text.startswith("0x") else int(text)) == value and (not self.use_hex or text.startswith("0x"))
        except ValueError:
            return False

    def mon_check(self, what):
        """what every client got is exactly what was due"""
        batches, self.batches = self.batches, []
        for i, w in enumerate(self.watchers):
            got, w["got"] = w["got"], []
            pos = 0
            for b in batches:
                need = {k for k in b if k in w["keys"]}
                seen = set()
                while pos < len(got):
                    k = self._mon_key(got[pos])
                    if k not in b or k in seen:
                        break
                    v = got[pos]["payload"]["value"]
                    if not self.mon_text_ok(v, *b[k]):
                        raise Bad(("C09", "C24") if len(self.ns) > 1 else ("C09",),
                                  f"{what}: the monitor {k} of {b[k][0]} delivers {v!r} instead of {b[k][1]}")
                    seen.add(k)
                    self.stat("monitor_values")
                    pos += 1
                if not need <= seen:
                    raise Bad("C09", f"{what}: client {i} is not sent {sorted(need - seen)} ({[self.monitors.get(k) for k in need - seen][:3]}), "
                                     f"but {[self._mon_key(m) for m in got[pos:pos + 5]]}")
            if pos < len(got):
                raise Bad("C09", f"{what}: client {i} is sent {got[pos]['payload']}, which is not due")

    def mon_hit(self, msg):
        """after a breakpoint message was judged: first what was due before it, then the breakpoint monitors"""
        if not self.watchers:
            return
        for i, w in enumerate(self.watchers[1:]):
            deadline = time.time() + self.host.timeout
            while True:
                m = w["c"].next_async(0.5)
                if m is None:
                    self.host.check_alive()
                    if time.time() > deadline:
                        raise Bad("C18", f"client {i + 1} is not sent the breakpoint message {msg['payload']}")
                    continue
                if m.get("type") == "breakpoint":
                    if m["payload"] != msg["payload"]:
                        raise Bad("C18", f"client {i + 1} is sent {m['payload']} instead of {msg['payload']}")
                    break
                if m.get("type") != "monitor":
                    raise Bad("C11", f"unexpected message {m}")
                w["got"].append(m)
        self.mon_check("before the breakpoint message")
        due = {k: (m[0], self.leaf_value(m[0])) for k, m in self.monitors.items() if m[1] == "breakpoint"}
        if due:
            self.batches.append(due)
        self.mon_flush("with the breakpoint message")

    def mon_flush(self, what):
        """everything sent so far has been received once a later request is answered"""
        for w in self.watchers:
            need = {k for b in self.batches for k in b if k in w["keys"]}
            deadline = time.time() + min(self.host.timeout, 8)
            # the values follow the message: wait for those that are due, anything else is noticed later
            while need - {self._mon_key(m) for m in w["got"]} and time.time() < deadline:
                m = w["c"].next_async(0.05)
                if m is None:
                    self.host.check_alive()
                    continue
                if m.get("type") != "monitor":
                    raise Bad("C11", f"unexpected message {m}")
                w["got"].append(m)
            w["c"].request("debugger-info", {"command": "status"})
            while w["c"].async_msgs:
                m = w["c"].async_msgs.pop(0)
                if m.get("type") != "monitor":
                    raise Bad(("C05", "C11"), f"unexpected message {m}")
                w["got"].append(m)
        self.mon_check(what)

    def write(self, full, ns, value, expect=True, **scope):
        """set-value request on a name; model: the leaf `full` gets the value"""
        r = self.c.request("set-value", {"var_name": scope.pop("name"), "value": value, "namespace_id": ns, **scope})
        self.ok(r, expect, "C07", f"set-value of {full} to {value}")
        if expect:
            self.sim[full] = value
            self.wrote = True
            if self.hist:
                self.hist[-1].append(dict(self.sim))
