"""What every check shares: seeds, tiers, case pools, known findings, replay files, evidence, verdicts."""
import concurrent.futures as cf, hashlib, json, multiprocessing, os, random, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402
from host import Violation, Hang, HarnessError  # noqa: E402


class Inconclusive(Exception):
    pass


def known_findings():
    """lines 'finding: property=<id> key=<regex> <what fails>' (fixed: lines suppress nothing)"""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    out.append((m[1], re.compile(m[2]), m[3]))
    except FileNotFoundError:
        pass
    return out


def _work(args):
    fn, case, cfg = args
    try:
        return case, fn(case, cfg), None
    except Hang as e:
        return case, None, ("hang", e.what, e.detail)
    except Violation as e:
        return case, None, ("violation", e.what, e.detail)
    except Exception:
        return case, None, ("harness", traceback.format_exc(), None)


class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known = [k for k in known_findings() if k[0] == prop]
        self.known_seen = {}
        self.inconclusive = []
        self.assumptions = []
        self.rule = ""

    def n(self, quick, thorough):
        f = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int((thorough if self.thorough else quick) * f))

    def build(self, variant, *targets):
        return B.build(variant, list(targets))

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def case(self, nontrivial_key=None, sample=None):
        self.evaluations += 1
        if nontrivial_key is not None:
            self.nontrivial.add(nontrivial_key if isinstance(nontrivial_key, (int, str)) else
                                hashlib.sha1(repr(nontrivial_key).encode()).hexdigest())
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def violate(self, key, what, replay=None, detail=None):
        for _, rx, desc in self.known:
            if rx.search(key + " " + what):
                self.known_seen[desc] = self.known_seen.get(desc, 0) + 1
                return False
        self.violations.append((key, what, replay, detail))
        return True

    def pool(self, fn, cases, cfg, workers=None, stop_after=3, chunk=None):
        """runs fn(case, cfg) over the cases in worker processes; yields (case, result). fn raises Violation for a broken
        property. A hang is run again once, alone, before it counts."""
        cases = list(cases)
        if getattr(self, "only", None):
            cases = [self.only["case"]]
        workers = workers or min(os.cpu_count() or 2, max(1, len(cases)))
        hangs = []
        ex = cf.ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork"))
        try:
            futs = [ex.submit(_work, (fn, c, cfg)) for c in cases]
            for f in cf.as_completed(futs):
                case, res, err = f.result()
                if err is None:
                    yield case, res
                    continue
                kind, what, detail = err
                if kind == "harness":
                    raise RuntimeError("harness error in case %r:\n%s" % (case, what))
                if kind == "hang":
                    hangs.append((case, what, detail))
                    if len(hangs) > 8:
                        break
                    continue
                self.violate(what, what, {"case": case}, detail)
                if len(self.violations) >= stop_after:
                    break
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
        for case, what, detail in hangs[:4]:
            if self.violations:
                break
            _, res, err = _work((fn, case, cfg))
            if err is None:
                self.inconclusive.append(f"case {case}: {what} (did not happen again)")
                yield case, res
            elif err[0] == "harness":
                raise RuntimeError("harness error in case %r:\n%s" % (case, err[1]))
            else:
                self.violate("hang " + err[1], err[1], {"case": case}, err[2])

    def finish(self, min_evaluations=1, min_nontrivial=1):
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level,
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
                           "samples": self.samples, **{k: v for k, v in sorted(self.counters.items())},
                           "inconclusive": self.inconclusive[:10]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for desc in self.known_seen:
            print(f"KNOWN-FINDING: property={self.prop} {desc}")
        if self.violations:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            for i, (key, what, replay, detail) in enumerate(self.violations[:5]):
                path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}-{i}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": what, "detail": detail,
                               "replay": replay}, f, indent=1, default=repr)
                print("  " + what[:600])
                if detail:
                    print("  | " + str(detail)[:4000].replace("\n", "\n  | "))
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.evaluations < min_evaluations or len(self.nontrivial) < min_nontrivial:
            print(f"too little was observed: {self.evaluations} evaluations, {len(self.nontrivial)} non-trivial")
            return 3
        print(f"{self.prop}: held on {self.evaluations} evaluations ({len(self.nontrivial)} distinct non-trivial), "
              f"{time.time()-self.t0:.1f} s" + (f", {len(self.inconclusive)} inconclusive" if self.inconclusive else ""))
        return 0
