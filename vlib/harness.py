"""Driver shared by every check: case generation, worker pool, verdicts, evidence.

A check module (checks/cNN_*.py) provides
    META = {id, rule, sizes: {quick, thorough}, required: {counter: minimum}, level?, probes?, chunk?}
    make(rng, i, tier) -> case         (deterministic in rng; any picklable value)
    run(case, obs) -> None            (drives the real code, reports with obs.fail/obs.hit)
    probes(obs)                       (if META["probes"]: deterministic checks run once, incl. known findings)
Verdicts: exit 0 held, 1 violation, 2 inconclusive (harness trouble or nothing observed).
"""
import argparse, collections, hashlib, importlib, json, os, random, resource, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 60


class Obs:
    """What the monitors of one chunk of cases observed."""

    def __init__(self):
        self.counters = collections.Counter()
        self.failures = []          # (index, kind, message, detail)
        self.findings = {}          # mechanism -> example text
        self.samples = []
        self.sigs = set()
        self.errors = []
        self.evals = 0
        self.index = None
        self.hang = False

    def hit(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *key):
        self.sigs.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500])

    def fail(self, kind, message, **detail):
        if len(self.failures) < 20:
            self.failures.append((self.index, kind, message, {k: _short(v) for k, v in detail.items()}))
        self.counters["failures"] += 1

    def finding(self, mechanism, example):
        self.findings.setdefault(mechanism, _short(example))
        self.counters["known_finding_hits:" + mechanism] += 1

    def merge(self, o):
        self.counters.update(o.counters)
        self.failures += o.failures[: max(0, 20 - len(self.failures))]
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        self.samples += o.samples[: max(0, 4 - len(self.samples))]
        self.sigs |= o.sigs
        self.errors += o.errors[:5]
        self.evals += o.evals
        self.hang = self.hang or o.hang


def _short(v, n=4000):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


_scratch = None
_mod = None


def scratch():
    return _scratch


def _init_worker(modname, base):
    global _mod, _scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))      # runaway memory ends as MemoryError, not as a killed worker
    _scratch = tempfile.mkdtemp(prefix="w", dir=base)
    os.environ["HOME"] = _scratch
    os.chdir(_scratch)
    sys.argv = ["syncanysql"]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    if not os.environ.get("VERIF_STDERR"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    _mod = importlib.import_module(modname)
    if hasattr(_mod, "init_worker"):
        _mod.init_worker(_scratch)


def case_rng(seed, prop, i):
    return random.Random("%s:%s:%s" % (seed, prop, i))


def _from_target(tb):
    """Was the exception raised below code of the repository (rather than by the check itself)?"""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(os.path.join(REPO, "syncanysql")) + os.sep):
            return True
        tb = tb.tb_next
    return False


def _one_case(seed, tier, i, obs, retry=True):
    cpu = time.process_time()
    try:
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT, 5)
        try:
            if i < 0:
                _mod.probes(obs)
            else:
                case = _mod.make(case_rng(seed, _mod.META["id"], i), i, tier)
                _mod.run(case, obs)
            obs.evals += 1
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        signal.setitimer(signal.ITIMER_REAL, 0)
        # a case takes milliseconds: one that keeps computing, or is stuck twice, never answers
        if time.process_time() - cpu >= CASE_TIMEOUT / 2.0 or not retry:
            obs.hang = True
            obs.fail("hang", "case %d gives no answer (%d s)" % (i, CASE_TIMEOUT), where=traceback.format_exc(limit=-8))
        else:
            n = len(obs.failures)
            _one_case(seed, tier, i, obs, False)
            if len(obs.failures) == n:
                obs.errors.append("case %d: no result in %d s, but one when tried again" % (i, CASE_TIMEOUT))
    except Exception as e:
        if _from_target(e.__traceback__):
            obs.fail("raised", "case %d: %s: %s" % (i, type(e).__name__, e), where=traceback.format_exc(limit=-8))
        else:
            obs.errors.append("case %d: %s" % (i, traceback.format_exc(limit=-6)))


def _run_chunk(args):
    seed, tier, lo, hi = args
    obs = Obs()
    signal.signal(signal.SIGALRM, _alarm)
    for i in range(lo, hi):
        obs.index = i
        _one_case(seed, tier, i, obs)
        if obs.hang or len(obs.failures) >= 20 or len(obs.errors) >= 5:
            break
    return obs


def load_known():
    """KNOWN_FINDINGS.txt: lines 'finding: property=ID mechanism=NAME text' / 'fixed: property=ID commit text'."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: "):
                parts = line[9:].strip().split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                out.setdefault(prop, {})[parts[1].split("=", 1)[1]] = parts[2] if len(parts) > 2 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    replay = json.load(open(a.replay)) if a.replay else None
    if replay:
        a.tier, a.seed, a.only = replay["tier"], replay["seed"], replay["index"]
    seed_env = str(a.seed % 4294967295)
    if os.environ.get("PYTHONHASHSEED") != seed_env or os.environ.get("TZ") != "UTC" or os.environ.get("VERIF_CHILD") != "1":
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LANG": "C.UTF-8", "TZ": "UTC",
               "PYTHONHASHSEED": seed_env, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1",
               "VERIF_CHILD": "1", "VERIF_SEED": str(a.seed), "VERIF_TIER": a.tier}
        for k in ("VERIF_REPO", "VERIF_STDERR", "TMPDIR", "VERIF_JOBS"):
            if k in os.environ:
                env[k] = os.environ[k]
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)
    t0 = time.time()
    modfile = [f for f in os.listdir(os.path.join(VERIF, "checks")) if f.startswith(a.property.lower() + "_") and f.endswith(".py")]
    if len(modfile) != 1:
        print("no check for", a.property)
        return 2
    modname = "checks." + modfile[0][:-3]
    base = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    os.chmod(base, 0o755)
    total = Obs()
    try:
        status = _drive(a, modname, base, total)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    mod = status
    return _report(a, mod, total, time.time() - t0)


def _drive(a, modname, base, total):
    import concurrent.futures as cf
    import multiprocessing as mp
    sys.path.insert(0, REPO)
    m = importlib.import_module(modname).META
    if a.only is not None:
        chunks = [(a.seed, a.tier, a.only, a.only + 1)]
    else:
        n = a.cases or m["sizes"][a.tier]
        per = max(1, min(m.get("chunk", 50), n // (a.jobs * 4) or 1))
        chunks = ([(a.seed, a.tier, -1, 0)] if m.get("probes") else []) + \
                 [(a.seed, a.tier, lo, min(lo + per, n)) for lo in range(0, n, per)]
    ctx = mp.get_context("fork")
    try:
        with cf.ProcessPoolExecutor(a.jobs, mp_context=ctx, initializer=_init_worker, initargs=(modname, base)) as ex:
            futs = [ex.submit(_run_chunk, c) for c in chunks]
            for f in cf.as_completed(futs):
                total.merge(f.result())
                if total.hang or len(total.failures) >= 20:
                    for g in futs:
                        g.cancel()
                    break
    except cf.process.BrokenProcessPool as e:
        total.errors.append("worker died: %s" % e)
    except cf.CancelledError:
        pass
    return m


def _report(a, m, total, wall):
    known = load_known().get(a.property, {})
    viol = list(total.failures)
    for mech, ex in sorted(total.findings.items()):
        if mech in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.property, mech, known[mech]))
        else:
            viol.append((None, "finding-not-listed", mech, {"example": ex}))
    missing = {k: (total.counters.get(k, 0), v) for k, v in m.get("required", {}).items() if total.counters.get(k, 0) < v}
    if a.only is not None or a.cases:
        missing = {}
    ev = {"property": a.property, "tier": a.tier, "seed": a.seed, "level": m.get("level", "exploration"),
          "coverage": {"evaluations": total.evals, "distinct_nontrivial": len(total.sigs), "rule": m["rule"],
                       "samples": total.samples[:4], "monitored": dict(sorted(total.counters.items()))},
          "assumptions": m.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    if a.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write("\n")
    print("%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs" % (a.property, a.tier, a.seed, total.evals, len(total.sigs), wall))
    print("observed:", json.dumps(dict(sorted(total.counters.items())), ensure_ascii=False)[:1800])
    if viol:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        viol.sort(key=lambda v: (v[0] is None, v[0]))
        for n, (idx, kind, msg, detail) in enumerate(viol[:5]):
            path = os.path.join(VERIF, "out", "%s-%d.json" % (a.property, n))
            with open(path, "w") as f:
                json.dump({"property": a.property, "tier": a.tier, "seed": a.seed, "index": -1 if idx is None else idx, "kind": kind,
                           "message": msg, "detail": detail}, f, indent=1, ensure_ascii=False, default=str)
            print("  [%s] %s" % (kind, msg))
            for k, v in detail.items():
                print("     %s: %s" % (k, v[:1200]))
            print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if total.errors or missing:
        print("INCONCLUSIVE property=%s errors=%d missing=%s" % (a.property, len(total.errors), missing))
        for e in total.errors[:3]:
            print(e)
        return 2
    print("HELD property=%s on everything explored" % a.property)
    return 0
