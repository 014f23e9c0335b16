"""Explicit-state driver shared by all checks.

A property module enumerates a finite space of cases (`cases(tier)`), and runs every one of
them against the implementation in /repo (`run_case(spec, ctx)`), comparing each step with a
reference model written here.  Nothing is sampled: every case of the tier is executed unless
the wall-clock budget is hit, which the evidence then reports (exhaustive=false).
"""
import os, sys, json, time, hashlib, traceback, io, contextlib, tempfile, shutil, signal, collections, warnings
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CASE_TIMEOUT = 400
MAX_VIOL = int(os.environ.get("VERIF_MAXVIOL", "12"))


class CheckFailed(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


def canon(x):
    """canonical, hashable digest of a JSON-like value"""
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=_default).encode()).hexdigest()[:20]


def _default(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        if np.iscomplexobj(o):
            return [_default(v) for v in o.ravel()]
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (complex, np.complexfloating)):
        return [float(o.real), float(o.imag)]
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = collections.Counter()
        self.fails = []
        self._n = 0

    # -- accounting
    def state(self, *x):
        self.states.add(canon(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *k):
        self.outcomes[" ".join(str(i) for i in k)] += 1

    # -- verdicts
    def fail(self, key, msg):
        """record a violation and go on with the case"""
        if len(self.fails) < 40:
            self.fails.append((key, str(msg)[:2000]))

    def check(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def require(self, cond, key, msg=""):
        """record a violation and abandon the case"""
        if not cond:
            raise CheckFailed(key, msg() if callable(msg) else msg)

    def tmpdir(self):
        self._n += 1
        d = os.path.join(self.scratch, f"p{os.getpid()}-{self._n}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def clean(self):
        for i in range(1, self._n + 1):
            shutil.rmtree(os.path.join(self.scratch, f"p{os.getpid()}-{i}"), ignore_errors=True)
        self._n = 0


class quiet:
    """capture everything printed by the code under test"""
    def __enter__(self):
        self.buf = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.buf)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        return False

    @property
    def text(self):
        return self.buf.getvalue()


@contextlib.contextmanager
def chdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def raises(f, *a, **k):
    """exception raised by f (SystemExit with a non-zero code included), or None"""
    try:
        with quiet():
            f(*a, **k)
    except SystemExit as e:
        return e if e.code not in (0, None) else None
    except Exception as e:
        return e
    return None


class memo_spacegroup:
    """while active, BandStructure reuses the SpaceGroup of an identical call (the search for spin rotations is slow
    and not the subject of the checks that read files thousands of times)"""
    cache = {}

    def __enter__(self):
        import irrep.bandstructure as B
        self.B, self.orig = B, getattr(B, "SpaceGroup", None)
        if self.orig is None:
            return self
        orig = self.orig

        def make(*a, **k):
            key = canon([a, {x: y for x, y in k.items() if x != "v"}])
            if key not in self.cache:
                if len(self.cache) > 200:
                    self.cache.clear()
                self.cache[key] = orig(*a, **k)
            return self.cache[key]
        B.SpaceGroup = make
        return self

    def __exit__(self, *a):
        if self.orig is not None:
            self.B.SpaceGroup = self.orig
        return False


_mod = None
_scratch = None


def _init(modname, scratch):
    global _mod, _scratch
    warnings.simplefilter("ignore")
    import importlib
    _mod = importlib.import_module("mc." + modname)
    _scratch = scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _alarm(*a):
    raise CaseTimeout()


def run_one(mod, spec, scratch):
    ctx = Ctx(scratch)
    cwd = os.getcwd()
    d0 = os.path.join(scratch, f"cwd{os.getpid()}")
    os.makedirs(d0, exist_ok=True)
    os.chdir(d0)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        with quiet():
            mod.run_case(spec, ctx)
    except CheckFailed as e:
        ctx.fails.append((e.key, str(e)[:2000]))
    except CaseTimeout:
        ctx.fails.append(("no-answer", "the case did not finish in time"))
    except SystemExit as e:
        ctx.fails.append(("exception:SystemExit", f"unexpected exit {e.code}\n" + traceback.format_exc()[-1500:]))
    except Exception as e:
        ctx.fails.append(("exception:" + type(e).__name__, traceback.format_exc()[-1800:]))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        ctx.clean()
        shutil.rmtree(d0, ignore_errors=True)
    return dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, evals=ctx.evals,
                outcomes=ctx.outcomes, fails=ctx.fails, t=time.time() - t0)


def _chunk(specs):
    return [(i, run_one(_mod, s, _scratch)) for i, s in specs]


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def finding_for(findings, spec, key):
    for f in findings:
        if key == f["key"] and all(spec.get(k) == v for k, v in f.get("case", {}).items()):
            return f
    return None


def run(prop, argv):
    import importlib
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv:
        tier = "thorough"
    modname = prop.lower()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.environ["TMPDIR"] = scratch
    try:
        mod = importlib.import_module("mc." + modname)
        import irrep, irreptables
        for m in (irrep, irreptables):
            assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + "/"), m.__file__
        if "--replay" in argv:
            rp = json.load(open(argv[argv.index("--replay") + 1]))
            r = run_one(mod, rp["case"], scratch)
            print(json.dumps(rp["case"]))
            for k, m in r["fails"]:
                print("FAIL", k, "\n", m)
            print("transitions", r["transitions"], "traces", r["traces"], "time %.2f" % r["t"])
            return 1 if r["fails"] else 0
        return _run(prop, mod, modname, tier, seed, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, mod, modname, tier, seed, scratch, t0):
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else str(getattr(mod, "THOROUGH_BUDGET", 6 * 3600))))
    specs = list(mod.cases(tier))
    # cases are independent, so their order is immaterial; deal them out so that heavy ones spread
    size = getattr(mod, "CHUNK", 1)
    chunks = []
    nch = max(1, (len(specs) + size - 1) // size)
    for c in range(nch):
        chunks.append([(i, specs[i]) for i in range(c, len(specs), nch)])
    states, outcomes = set(), collections.Counter()
    transitions = traces = evals = done = 0
    viols, samples, slow = [], [], []
    capped = False
    findings = known_findings(prop)
    hit = {}
    ctxm = mp.get_context("fork")

    def absorb(i, r):
        nonlocal transitions, traces, evals, done
        done += 1
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        transitions += r["transitions"]
        traces += r["traces"]
        evals += r["evals"]
        slow.append((r["t"], i))
        if len(samples) < 4 or (i % max(1, len(specs) // 4) == 0 and len(samples) < 8):
            samples.append(dict(case=specs[i], states=len(r["states"]), transitions=r["transitions"],
                                outcomes=dict(list(r["outcomes"].items())[:6])))
        for key, msg in r["fails"]:
            f = finding_for(findings, specs[i], key)
            if f:
                hit.setdefault(f["id"], f)
            else:
                viols.append((i, key, msg))

    pending = set()
    ex = ProcessPoolExecutor(NPROC, mp_context=ctxm, initializer=_init, initargs=(modname, scratch))
    it = iter(chunks)
    broken = None
    try:
        live = True
        while live or pending:
            while live and len(pending) < 3 * NPROC:
                ch = next(it, None)
                if ch is None:
                    live = False
                    break
                pending.add(ex.submit(_chunk, ch))
            if not pending:
                break
            dn, pending = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
            for f in dn:
                for i, r in f.result():
                    absorb(i, r)
            if len({v[0] for v in viols}) >= MAX_VIOL:
                capped = True
                break
            if time.time() - t0 > budget:
                capped = True
                break
    except BrokenProcessPool as e:
        broken = str(e)
    finally:
        procs = list(getattr(ex, "_processes", {}).values())
        if capped or broken:
            for p in procs:
                p.kill()
        ex.shutdown(wait=not (capped or broken), cancel_futures=True)
    if broken:
        viols.append((None, "interpreter-died", "a worker process died while running the implementation: " + broken))

    viols.sort(key=lambda v: (v[0] is None, v[0]))
    wall = time.time() - t0
    cov = dict(cases=len(specs), cases_run=done, states=len(states), transitions=transitions,
               traces_validated_against_impl=traces, exhaustive=not capped and not broken,
               distinct_outcomes=len(outcomes), outcomes=dict(outcomes.most_common(25)), samples=samples,
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS)
    if mod.LEVEL in ("fault_enumeration", "exploration"):
        cov["evaluations"] = evals
        cov["distinct_nontrivial"] = len(states)
        cov["rule"] = mod.RULE
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_default)
        f.write("\n")
    print(f"{prop} {tier}: cases={done}/{len(specs)} states={len(states)} transitions={transitions} "
          f"traces={traces} outcomes={len(outcomes)} exhaustive={cov['exhaustive']} wall={wall:.1f}s")
    if os.environ.get("VERIF_SLOW"):
        for t, i in sorted(slow, key=lambda x: -x[0])[:8]:
            print(f"  slow {t:.2f}s {json.dumps(specs[i], default=_default)}")
        print("  outcomes:", dict(outcomes.most_common(40)))
    for f in hit.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if not viols:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    shown = set()
    for i, key, msg in viols:
        if (i, key) in shown or len(shown) >= 10:
            continue
        shown.add((i, key))
        spec = specs[i] if i is not None else {}
        rp = os.path.join(VERIF, "replays", f"{prop}-{canon([spec, key])[:10]}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=prop, case=spec, key=key, message=msg), f, indent=1, default=_default)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {key}: case={json.dumps(spec, default=_default)[:400]}")
        print("  " + msg.strip().replace("\n", "\n  ")[-900:])
    return 1
