"""Runner shared by all checks: generated-input search with Hypothesis, replay, evidence.

A property module registers *parts* (see `part`): a strategy that produces plain JSON-able
cases, and a function check(case, rec) that decides one case without Hypothesis.
"""
import contextlib, gc, hashlib, json, math, os, resource, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SCALE = float(os.environ.get("VERIF_SCALE", "1"))   # for development only: multiplies case counts

CASE_CPU_S = float(os.environ.get("VERIF_CASE_S", "30"))     # CPU seconds one case may take before it counts as not terminating
SHRINK_WALL_S = float(os.environ.get("VERIF_SHRINK_S", "25"))   # how long a failure is shrunk
MEM_LIMIT = 3 << 30


class Violation(Exception):
    """The property is broken by this case."""


class HarnessError(Exception):
    """The check itself is wrong (exit status 2)."""


class Hang(BaseException):
    """The case used up its CPU time: the code under test does not terminate."""


class StopShrink(KeyboardInterrupt):
    pass


PARTS = {}     # property id -> list of Part


class Part(object):
    def __init__(self, pid, name, strategy, check, quick, thorough, rule, fuzz=None):
        self.pid, self.name, self.strategy, self.check = pid, name, strategy, check
        self.quick, self.thorough, self.rule, self.fuzz = quick, thorough, rule, fuzz


QUICK_TIMES = 2         # the counts below were set for about 10 s a check; the limit is 900 s


def quick_cases(p):
    return p.quick * QUICK_TIMES


def part(pid, name, strategy, quick, thorough=None, rule=""):
    """Decorator registering check(case, rec). `strategy` is a callable (tier) -> strategy."""
    def deco(fn):
        PARTS.setdefault(pid, []).append(
            Part(pid, name, strategy, fn, quick, thorough or quick * 60, rule))
        return fn
    return deco


def enumerated(pid, name, cases, rule=""):
    """Decorator registering a part whose cases are a finite list, run completely."""
    def deco(fn):
        p = Part(pid, name, None, fn, 0, 0, rule)
        p.cases = cases
        PARTS.setdefault(pid, []).append(p)
        return fn
    return deco


class Recorder(object):
    """Collects what one case exercised."""
    def __init__(self):
        self.labels = []
        self.trivial = False
        self.on = True

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond):
        if not cond:
            self.trivial = True


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def eq(got, want, what):
    """Values must be equal and of compatible kinds (bool is not int, int is not str)."""
    if not same(got, want):
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def short(x, n=600):
    t = repr(x)
    return t if len(t) <= n else t[:n * 2 // 3] + " ... " + t[-n // 3:]


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, float) and isinstance(b, float) and a == b == 0:
        return math.copysign(1, a) == math.copysign(1, b)
    return a == b


def close_to(got, want, what, rel=1e-9):
    if got is None or want is None or isinstance(got, str) or isinstance(want, str):
        return eq(got, want, what)
    if abs(got - want) > rel * max(abs(got), abs(want)):
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def expect_error(types, fn, what, *args, **kw):
    """fn(*args) must raise one of types; anything else is a violation."""
    try:
        r = fn(*args, **kw)
    except types as e:
        return e
    except Exception as e:
        memory(e)
        raise Violation("%s: raised %s (%s) instead of %s\n%s" % (
            what, type(e).__name__, e, _names(types), traceback.format_exc()))
    raise Violation("%s: returned %r instead of raising %s" % (what, r, _names(types)))


def memory(e):
    """Raises a bare MemoryError if that is behind e."""
    seen = e
    while seen is not None:
        if isinstance(seen, MemoryError):
            raise seen
        seen = seen.__cause__ or seen.__context__


def attempt(types, fn, what, *args, **kw):
    """-> (result, None) or (None, error); only errors of `types` are allowed."""
    try:
        return fn(*args, **kw), None
    except types as e:
        return None, e
    except Exception as e:
        memory(e)
        raise Violation("%s: raised %s (%s); allowed are %s\n%s" % (
            what, type(e).__name__, e, _names(types), traceback.format_exc()))


def no_error(fn, what, *args, **kw):
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        memory(e)
        raise Violation("%s: raised %s: %s\n%s" % (what, type(e).__name__, e, traceback.format_exc()))


def _names(types):
    if isinstance(types, tuple):
        return "/".join(t.__name__ for t in types)
    return types.__name__


# ---------------------------------------------------------------------------------- scratch

_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix="verif_")
    return _scratch_root


_n = 0


@contextlib.contextmanager
def scratch():
    """A fresh scratch directory, removed afterwards."""
    global _n
    _n += 1
    d = os.path.join(scratch_root(), "c%d" % (_n % 1000))
    if os.path.exists(d):
        shutil.rmtree(d)
    os.mkdir(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------------- running

def _on_cpu_limit(sig, frame):
    raise Hang()


SETUP_CASE = []      # callables run before every case (reset of global state of the code under test)
REPO_DIR = os.path.realpath(REPO) + os.sep


def address_space():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def let_go(e):
    """Clears what the frames of an exception hold. -> whether the code under test is among them."""
    in_repo, todo, seen = False, [e], []
    while todo:
        e = todo.pop()
        if e is None or any(e is x for x in seen):
            continue
        seen.append(e)
        todo += [e.__cause__, e.__context__]
        tb = e.__traceback__
        while tb is not None:
            in_repo = in_repo or tb.tb_frame.f_code.co_filename.startswith(REPO_DIR)
            try:
                tb.tb_frame.clear()
            except (RuntimeError, MemoryError):
                pass                                 # a frame that is still running
            tb = tb.tb_next
    gc.collect()
    return in_repo


def run_case(p, case, rec):
    """Runs one case. Raises Violation, HarnessError or nothing."""
    for f in SETUP_CASE:
        f()
    before = address_space()
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        p.check(case, rec)
    except Violation:
        raise
    except Hang:
        raise Violation("the operation does not terminate (more than %d s of CPU time)" % CASE_CPU_S)
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError as e:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT + (1 << 30), MEM_LIMIT + (1 << 30)))     # room to clean up in
        except (ValueError, OSError):
            pass
        # cases are small: one that alone fills the memory does so in the code under test, whatever noticed it first
        if let_go(e) or before < MEM_LIMIT // 2:
            raise Violation("out of memory in the code under test") from None
        raise HarnessError("out of memory") from None
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        in_repo = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb)
        text = "".join(traceback.format_exc())
        observing = isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError,
                                   AssertionError, ArithmeticError, SyntaxError))
        if not isinstance(e, (HarnessError, ImportError)) and (in_repo or observing):
            raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, text))
        raise HarnessError(text)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.parts = {}

    def add(self, p, case, rec):
        self.evaluations += 1
        d = self.parts.setdefault(p.name, [0, 0])
        d[0] += 1
        for l in set(rec.labels):
            k = p.name + ":" + str(l)
            self.labels[k] = self.labels.get(k, 0) + 1
        if not rec.trivial:
            h = hashlib.sha1((p.name + canon(case)).encode()).digest()[:10]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                d[1] += 1
                # keep a spread of samples
                n = d[1]
                if n in (3, 30, 200) and len(canon(case)) < 3000:
                    self.samples.append({"part": p.name, "case": case, "labels": sorted(set(map(str, rec.labels)))})


def canon(case):
    return json.dumps(case, sort_keys=True)


class Failure(Exception):
    def __init__(self, p, case, msg):
        self.part, self.case, self.msg = p, case, msg


def explore(p, n, stats, seed):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    best = {}

    def body(case):
        if best and time.time() - best["t"] > SHRINK_WALL_S:
            raise StopShrink()
        rec = Recorder()
        try:
            run_case(p, case, rec)
        except Violation as e:
            if "out of memory" in str(e):
                best.update(t=0, case=case, msg=str(e), size=0)
                raise StopShrink()
            size = len(canon(case))
            if not best:
                best.update(t=time.time(), case=case, msg=str(e), size=size)
            elif size <= best["size"]:
                best.update(case=case, msg=str(e), size=size)
            if "does not terminate" in str(e):
                raise StopShrink()
            raise
        if not best:
            stats.add(p, case, rec)

    test = hypothesis.given(p.strategy(TIER))(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    print_blob=False, verbosity=hypothesis.Verbosity.quiet)(test)
    try:
        test()
    except HarnessError:
        raise
    except BaseException as e:
        if best:
            raise Failure(p, best["case"], best["msg"])
        if isinstance(e, hypothesis.errors.HypothesisException):
            raise HarnessError("".join(traceback.format_exc()))
        raise


def load_corpus(pid):
    d = os.path.join(VERIF, "corpus", pid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh:
                    out.append(json.load(fh))
    return out


def decide(pid):
    """Runs all parts of a property. -> (stats, failure or None, corpus count)."""
    parts = PARTS[pid]
    by_name = {p.name: p for p in parts}
    stats = Stats()
    ncorpus = 0
    try:
        for entry in load_corpus(pid):
            p = by_name.get(entry["part"])
            if p is None:
                raise HarnessError("corpus entry for unknown part %s" % entry["part"])
            rec = Recorder()
            try:
                run_case(p, entry["case"], rec)
            except Violation as e:
                raise Failure(p, entry["case"], str(e))
            ncorpus += 1
        for p in parts:
            if os.environ.get("VERIF_PART") and p.name != os.environ["VERIF_PART"]:
                continue
            if p.strategy is None:
                for case in p.cases(TIER):
                    rec = Recorder()
                    try:
                        run_case(p, case, rec)
                    except Violation as e:
                        raise Failure(p, case, str(e))
                    stats.add(p, case, rec)
                continue
            n = quick_cases(p) if TIER == "quick" else p.thorough
            n = max(1, int(n * SCALE))
            # several independent runs explore better than one long one
            chunk = 400 if TIER == "quick" else 2000
            i = 0
            while n > 0:
                m = min(n, chunk)
                explore(p, m, stats, SEED * 1000003 + i)
                n -= m
                i += 1
    except Failure as f:
        return stats, f, ncorpus
    return stats, None, ncorpus


def write_evidence(pid, stats, failure, ncorpus, t0):
    parts = PARTS[pid]
    rule = " | ".join("%s: %s" % (p.name, p.rule) for p in parts)
    cov = {
        "evaluations": stats.evaluations + ncorpus,
        "distinct_nontrivial": len(stats.nontrivial),
        "rule": rule,
        "samples": stats.samples[:12] or ([{"part": failure.part.name, "case": failure.case}] if failure else []),
        "by_part": {k: {"evaluations": v[0], "distinct_nontrivial": v[1]} for k, v in stats.parts.items()},
        "labels": dict(sorted(stats.labels.items())),
        "regression_cases": ncorpus,
    }
    if not cov["samples"]:
        cov["samples"] = ["none"]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": ["the independent reference model in /verif/lib states SunSpec/Modbus semantics correctly",
                          "simulated serial port, socket and device behave as the real ones within the modelled faults"],
          "wall_s": round(time.time() - t0, 3), "violations": 1 if failure else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d.tmp" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(d, "%s.json" % pid))


def save_replay(pid, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "part": failure.part.name, "case": failure.case, "message": failure.msg}
    h = hashlib.sha1(canon(failure.case).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, failure.part.name, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def init_process():
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT + (1 << 30)))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    # hypothesis writes its storage here and nowhere else
    from hypothesis.configuration import set_hypothesis_home_dir
    set_hypothesis_home_dir(os.path.join(scratch_root(), "hyp"))


@contextlib.contextmanager
def quiet():
    """Swallows what the code under test prints (it has debugging prints)."""
    old = sys.stdout, sys.stderr
    with open(os.devnull, "w") as n:
        sys.stdout = sys.stderr = n
        try:
            yield
        finally:
            sys.stdout, sys.stderr = old


def main(pid, replay=None):
    t0 = time.time()
    try:
        init_process()
        if replay:
            with open(replay) as f:
                entry = json.load(f)
            p = [x for x in PARTS[pid] if x.name == entry["part"]][0]
            try:
                with quiet():
                    run_case(p, entry["case"], Recorder())
            except Violation as e:
                print(str(e))
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                return 1
            print("OK property=%s replay=%s" % (pid, replay))
            return 0
        if os.environ.get("VERIF_NOISY"):
            stats, failure, ncorpus = decide(pid)
        else:
            with quiet():
                stats, failure, ncorpus = decide(pid)
        write_evidence(pid, stats, failure, ncorpus, t0)
        if failure:
            path = save_replay(pid, failure)
            print("part %s: %s" % (failure.part.name, failure.msg))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" % (
            pid, TIER, SEED, stats.evaluations, len(stats.nontrivial), time.time() - t0))
        return 0
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR property=%s" % pid)
        return 2
    finally:
        if _scratch_root:
            shutil.rmtree(_scratch_root, ignore_errors=True)
