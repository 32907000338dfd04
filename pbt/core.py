"""Units of checking and the machinery that runs them.

A *unit* belongs to one property.  It has a function `check(case, t)` and a
source of cases: a Hypothesis strategy, or a function enumerating all cases of
a small scope.  Cases are plain Python literals, so any case can be written to
a replay file and run again without Hypothesis.

Inside `check`, `t.check(cond, message)` states what must hold,
`t.nontrivial(cond)` says whether the case exercised what the unit is about
(the unit's docstring states the rule), and `t.label(name)` counts features of
the generated cases.  Any exception that escapes from `check` is a failure of
the property: on a correct library none does.
"""
import ast
import collections
import gc
import hashlib
import importlib
import json
import os
import pkgutil
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("PADS_REPO", "/repo"))

NPROC = 8                # concurrent workers
CASE_CPU_S = 30          # CPU seconds before a case counts as not terminating
SHRINK_S = 15            # wall seconds spent on shrinking after a failure
MEMORY = 3 << 30         # address space of a worker
SOFT_S = {"quick": 400, "thorough": 700}   # wall limit on generating cases
HARD_S = {"quick": 480, "thorough": 860}   # wall limit on a worker

Unit = collections.namedtuple(
    "Unit", "prop name check cases enum quick thorough shards floor")

UNITS = collections.OrderedDict()


class Failure(AssertionError):
    """A property does not hold."""


class _Stop(BaseException):
    """Out of time; leave the generator."""


def unit(prop, name, cases=None, enum=None, quick=400, thorough=None,
         shards=None, floor=0.05):
    """Decorator registering a unit.

    cases: strategy, or a function returning one (evaluated in the worker).
    enum: function of the tier returning an iterable of all cases.
    quick, thorough: number of generated cases in each tier.
    floor: least fraction of the cases that must be nontrivial; falling below
    it is an error of the harness, not a violation.
    """
    assert (cases is None) != (enum is None)
    if thorough is None:
        thorough = quick * 20
    if shards is None:
        shards = 4 if enum is not None else 4

    def register(function):
        assert function.__doc__, name
        key = prop + "." + name
        assert key not in UNITS, key
        UNITS[key] = Unit(prop, name, function, cases, enum, quick, thorough,
                          shards, floor)
        return function
    return register


class Ctx:
    """What a check reports about one case."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    def label(self, name):
        self.labels.append(name)

    def check(self, condition, message="", *args):
        if not condition:
            raise Failure(message % args if args and "%" in message
                          else " ".join(map(str, (message,) + args)))

    def equal(self, got, want, message=""):
        if not got == want:
            raise Failure("%s: got %s, want %s"
                          % (message, clip(got), clip(want)))

    def refuses(self, exceptions, function, *args, **kwargs):
        """function(*args) must raise one of the given exceptions."""
        try:
            result = function(*args, **kwargs)
        except exceptions as e:
            return e
        raise Failure("%s accepted %s, returned %s" % (
            getattr(function, "__name__", function), clip(args), clip(result)))


def clip(x, limit=300):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


# ------------------------------------------------------------- loading units

def import_units(prop):
    """Import the modules defining units of a property.

    Returns None, or (message, traceback) if the library cannot be imported.
    """
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pbt.props
    for info in pkgutil.iter_modules(pbt.props.__path__):
        if info.name[:3].upper() != prop:
            continue
        importlib.import_module("pbt.props." + info.name)


def in_repo(error):
    """Was some frame of the error's traceback in the library?"""
    frame = error.__traceback__
    while frame is not None:
        if frame.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        frame = frame.tb_next
    return False


def format_error(error):
    return "".join(traceback.format_exception(
        type(error), error, error.__traceback__, limit=-12))[-4000:]


# ------------------------------------------------------------------- workers

class Job:
    """One shard of one unit, run in a forked process."""

    def __init__(self, unit, shard, tier, seed, outdir, deadline):
        self.unit = unit
        self.shard = shard
        self.tier = tier
        self.seed = seed
        self.out = os.path.join(outdir, "%s-%d" % (unit.name, shard))
        self.deadline = deadline
        self.evaluations = 0
        self.nontrivial = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None
        self.failed_at = None
        self.truncated = False
        self.case = None
        self.error = None

    # -- in the child

    def run(self):
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        signal.signal(signal.SIGVTALRM, self.hang)
        # on a slow machine, run a few cases of the last units all the same
        self.deadline = max(self.deadline, time.time() + 5)
        try:
            if self.unit.enum is not None:
                self.run_enum()
            else:
                self.run_hypothesis()
        except _Stop:
            self.truncated = self.failure is None
        except BaseException as e:
            if self.failure is None:
                self.error = format_error(e)
        self.write()

    def write(self):
        with open(self.out + ".tmp", "w") as f:
            json.dump({
                "evaluations": self.evaluations,
                "nontrivial": self.nontrivial,
                "hashes": sorted(self.hashes),
                "labels": self.labels,
                "samples": self.samples,
                "failure": self.failure,
                "truncated": self.truncated,
                "error": self.error,
            }, f)
        os.rename(self.out + ".tmp", self.out)

    def hang(self, signum, frame):
        self.record(self.case, "did not finish within %d s of CPU time"
                    % CASE_CPU_S, "".join(traceback.format_stack(frame, 12)))
        self.write()
        os._exit(0)

    def enough(self, signum, frame):
        self.write()
        os._exit(0)

    def record(self, case, message, trace):
        """Keep the smallest failing case."""
        text = repr(case)
        if self.failure is None or len(text) < len(self.failure["case"]):
            self.failure = {"unit": self.unit.name, "case": text,
                            "message": message, "trace": trace}
        if self.failed_at is None:
            self.failed_at = time.time()
            # shrinking can get stuck where no case is run
            signal.signal(signal.SIGALRM, self.enough)
            signal.alarm(SHRINK_S + 10)

    def one(self, case):
        """Run one case; raise Failure if it fails."""
        if self.failure is None:
            if time.time() > self.deadline:
                raise _Stop
        elif time.time() > self.failed_at + SHRINK_S:
            raise _Stop
        self.case = case
        t = Ctx()
        error = None
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            self.unit.check(case, t)
        except _Stop:
            raise
        except Exception as e:
            error = e
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if error is not None:
            if isinstance(error, Failure):
                message = str(error)
            else:
                message = "%s: %s" % (type(error).__name__, error)
            self.record(case, message[:1000], format_error(error))
            raise Failure(message)
        if self.failure is not None:
            return
        self.evaluations += 1
        self.labels.update(t.labels)
        if t.is_nontrivial:
            self.nontrivial += 1
            text = repr(case)
            self.hashes.add(hashlib.blake2b(
                text.encode("utf8", "surrogatepass"),
                digest_size=8).hexdigest())
            # one early and one late sample
            if len(self.samples) < 2:
                self.samples.append(text[:400])
            elif self.nontrivial % 64 == 0:
                self.samples[1] = text[:400]

    def run_enum(self):
        for i, case in enumerate(self.unit.enum(self.tier)):
            if i % self.unit.shards != self.shard:
                continue
            try:
                self.one(case)
            except Failure:
                return

    def run_hypothesis(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        cases = self.unit.cases
        if not isinstance(cases, hypothesis.strategies.SearchStrategy):
            cases = cases()
        total = getattr(self.unit, self.tier)
        count = -(-total // self.unit.shards)
        digest = hashlib.blake2b(("%d/%s/%s/%d" % (
            self.seed, self.unit.prop, self.unit.name, self.shard)).encode(),
            digest_size=8).digest()

        @hypothesis.seed(int.from_bytes(digest, "big"))
        @settings(max_examples=count, database=None, deadline=None,
                  phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False,
                  suppress_health_check=[HealthCheck.too_slow,
                                         HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
        @hypothesis.given(cases)
        def test(case):
            self.one(case)

        test()


def spawn(job):
    pid = os.fork()
    if pid == 0:
        status = 70
        try:
            gc.freeze()
            job.run()
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(status)
    return pid


def run_jobs(jobs, hard):
    """Run the jobs, at most NPROC at a time.  Returns list of error texts."""
    errors = []
    waiting = list(jobs)[::-1]
    running = {}
    while waiting or running:
        while waiting and len(running) < NPROC:
            job = waiting.pop()
            running[spawn(job)] = (job, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in running:
            job, _ = running.pop(pid)
            if not os.path.exists(job.out):
                errors.append("worker %s/%d ended with status %d and no result"
                              % (job.unit.name, job.shard, status))
            continue
        now = time.time()
        for pid, (job, start) in running.items():
            if now > start + hard:
                os.kill(pid, signal.SIGKILL)
        time.sleep(0.01)
    return errors


# ------------------------------------------------------------ the whole check

def replay_dir():
    path = os.path.join(ROOT, "replays")
    os.makedirs(path, exist_ok=True)
    return path


def write_replay(prop, failure, seed):
    name = "%s-%s-%s.json" % (prop, failure["unit"], hashlib.blake2b(
        failure["case"].encode("utf8", "surrogatepass"),
        digest_size=4).hexdigest())
    path = os.path.join(replay_dir(), name)
    with open(path, "w") as f:
        json.dump(dict(failure, property=prop, seed=seed, hashseed=os.environ.get(
            "PYTHONHASHSEED", "")), f, indent=1)
    return path


def violation(prop, failure, seed, out=sys.stdout):
    path = write_replay(prop, failure, seed)
    print("property %s, unit %s" % (prop, failure["unit"]), file=out)
    print("case: " + failure["case"][:2000], file=out)
    print("problem: " + failure["message"][:2000], file=out)
    print(failure["trace"], file=out)
    if failure["unit"] != "import":
        again = subprocess.run(
            [sys.executable, os.path.join(ROOT, "pbt", "run.py"), "--replay",
             path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            timeout=300).returncode
        print("replayed in a fresh process: %s" % (
            "fails again" if again == 1 else "exit %d" % again), file=out)
    print("VIOLATION property=%s replay=%s" % (prop, path), file=out)
    out.flush()


def import_failure(prop, seed, error):
    return {"unit": "import", "case": "None", "message":
            "the library cannot be imported: %s: %s"
            % (type(error).__name__, error), "trace": format_error(error)}


def is_library_import_error(error):
    if in_repo(error):
        return True
    return isinstance(error, ImportError) and (
        (error.name or "").split(".")[0] == "pads")


def load(prop, seed):
    """Import units.  Returns exit status, or None if all is well."""
    def hang(signum, frame):
        raise TimeoutError("import did not finish")
    signal.signal(signal.SIGVTALRM, hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, 60)
    try:
        import_units(prop)
    except Exception as e:
        if is_library_import_error(e):
            violation(prop, import_failure(prop, seed, e), seed)
            return 1
        traceback.print_exc()
        return 2
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def select(prop, only=None):
    return [u for u in UNITS.values() if u.prop == prop
            and (not only or u.name in only)]


def run(prop, tier, seed, only=None, note=None):
    """Run the check of a property.  Returns the exit status."""
    start = time.time()
    status = load(prop, seed)
    if status is not None:
        if status == 1:
            evidence(prop, tier, seed, {
                "evaluations": 1, "distinct_nontrivial": 0,
                "rule": "the library is imported before any case is run",
                "samples": []}, start, 1)
        return status
    units = select(prop, only)
    if not units:
        print("no units for " + prop)
        return 2
    outdir = tempfile.mkdtemp(prefix="pbt-")
    try:
        import hypothesis
        import hypothesis.configuration
        hypothesis.configuration.set_hypothesis_home_dir(
            os.path.join(outdir, "hypothesis"))
        deadline = start + SOFT_S[tier]
        jobs = [Job(u, s, tier, seed, outdir, deadline)
                for u in units for s in range(u.shards)]
        # spread the shards of each unit over time so that a slow unit does
        # not end up alone at the end
        jobs.sort(key=lambda j: -(getattr(j.unit, "thorough") or 0))
        sys.stdout.flush()
        sys.stderr.flush()
        errors = run_jobs(jobs, HARD_S[tier])
        return finish(prop, tier, seed, units, jobs, errors, start)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def finish(prop, tier, seed, units, jobs, errors, start):
    failures = []
    coverage = collections.OrderedDict(
        evaluations=0, distinct_nontrivial=0, rule="", samples=[], units={},
        exhaustive=False)
    rules = []
    for u in units:
        evaluations = nontrivial = 0
        hashes = set()
        labels = collections.Counter()
        samples = []
        truncated = False
        failed = False
        for job in jobs:
            if job.unit is not u or not os.path.exists(job.out):
                continue
            with open(job.out) as f:
                r = json.load(f)
            evaluations += r["evaluations"]
            nontrivial += r["nontrivial"]
            hashes.update(r["hashes"])
            labels.update(r["labels"])
            samples += r["samples"]
            truncated = truncated or r["truncated"]
            if r["failure"]:
                failures.append(r["failure"])
                failed = True
            if r["error"]:
                errors.append("%s/%d: %s" % (u.name, job.shard, r["error"]))
        doc = " ".join(u.check.__doc__.split())
        rules.append("%s: %s" % (u.name, doc))
        coverage["evaluations"] += evaluations
        coverage["distinct_nontrivial"] += len(hashes)
        coverage["samples"] += ["%s: %s" % (u.name, s) for s in samples[:3]]
        coverage["units"][u.name] = {
            "evaluations": evaluations,
            "nontrivial_evaluations": nontrivial,
            "distinct_nontrivial": len(hashes),
            "kind": "exhaustive enumeration" if u.enum else "generated",
            "stopped_early": truncated,
            "labels": dict(sorted(labels.items())),
        }
        if not failed and not truncated and nontrivial < u.floor * evaluations:
            errors.append("%s: only %d of %d cases nontrivial"
                          % (u.name, nontrivial, evaluations))
        if not failed and evaluations == 0:
            errors.append("%s: no cases" % u.name)
    coverage["rule"] = ("Cases counted as distinct by their text. "
                        + " | ".join(rules))
    best = {}
    for f in failures:
        if (f["unit"] not in best
                or len(f["case"]) < len(best[f["unit"]]["case"])):
            best[f["unit"]] = f
    evidence(prop, tier, seed, coverage, start, len(best))
    print("%s: %d cases, %d distinct nontrivial, %.1f s" % (
        prop, coverage["evaluations"], coverage["distinct_nontrivial"],
        time.time() - start))
    for f in best.values():
        violation(prop, f, seed)
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    if best:
        return 1
    return 2 if errors else 0


def evidence(prop, tier, seed, coverage, start, violations):
    path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump({
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": coverage,
            "violations": violations,
            "wall_s": round(time.time() - start, 3),
        }, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        record = json.load(f)
    prop = record["property"]
    try:
        import_units(prop)
    except Exception as e:
        traceback.print_exc()
        return 1 if is_library_import_error(e) else 2
    if record["unit"] == "import":
        print("the library can be imported")
        return 0
    u = UNITS[prop + "." + record["unit"]]
    case = ast.literal_eval(record["case"])
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))

    def hang(signum, frame):
        print("did not finish")
        sys.stdout.flush()
        os._exit(1)
    signal.signal(signal.SIGVTALRM, hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        u.check(case, Ctx())
    except Exception as e:
        print(format_error(e))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0
