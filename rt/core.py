"""
Core of the runtime-monitoring framework

A *scenario* is a seeded workload generator together with its monitors.  It runs the
real resistics code, and the monitors judge what they observed.  Verdicts are three
valued: violated (exit 1 with a VIOLATION line and a replay file), held on what was
observed (exit 0), inconclusive (exit 2: timeout, crash of the harness, monitor never
reached).
"""
import argparse
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("RT_EVIDENCE", str(VERIF / "evidence")))
KNOWN = VERIF / "KNOWN_FINDINGS.txt"

SCENARIOS = {}
# properties whose checks take less than half a minute run twice their cases
QUICK_SCALE = 2
SLOW = ("C22", "C23", "C31", "C32")


class Scenario:
    def __init__(self, fn, prop, name, quick, thorough, timeout, min_nontrivial):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.timeout = timeout
        self.min_nontrivial = min_nontrivial


def scenario(prop, name, quick, thorough=None, timeout=120, min_nontrivial=0.2):
    """Register a scenario: ``quick``/``thorough`` are numbers of cases"""

    def deco(fn):
        if thorough is None:
            n_thorough = quick * 12
        else:
            n_thorough = thorough
        scale = 1 if thorough is not None or prop in SLOW else QUICK_SCALE
        SCENARIOS.setdefault(prop, []).append(
            Scenario(fn, prop, name, quick * scale, n_thorough, timeout, min_nontrivial)
        )
        return fn

    return deco


class CaseTimeout(BaseException):
    """Wall clock time ran out: says nothing about the code"""


class CaseHang(CaseTimeout):
    """Processor time ran out: many times what any case needs"""


class Inconclusive(Exception):
    pass


class Broken(Exception):
    """Raised by Ctx.require after recording a violation, to leave the case"""


def _short(key):
    """Keys for people: digests instead of raw arrays"""
    if isinstance(key, bytes):
        return f"<{len(key)} bytes {hashlib.sha1(key).hexdigest()[:8]}>"
    if isinstance(key, (tuple, list)):
        return type(key)(_short(k) for k in key)
    return key


def digest(obj) -> str:
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


class Ctx:
    """What a scenario gets: randomness, scratch space, and the verdict collector"""

    def __init__(self, seed, index, tier):
        import numpy as np

        self.seed = seed
        self.index = index
        self.tier = tier
        self.rng = random.Random(seed)
        self.np = np.random.RandomState(seed % (2 ** 32))
        self.events = Counter()
        self.violations = []
        self.key = None
        self.sample = None
        self._dirs = []
        # code under test that draws from the global generators is replayable too
        random.seed(seed)
        np.random.seed(seed % (2 ** 32))

    def scratch(self) -> Path:
        path = Path(tempfile.mkdtemp(prefix="c", dir=os.environ["RT_SCRATCH"]))
        self._dirs.append(path)
        return path

    def close(self):
        for path in self._dirs:
            shutil.rmtree(str(path), ignore_errors=True)

    def observe(self, event, n=1):
        """Count something a monitor actually observed"""
        self.events[event] += int(n)

    def case(self, key, sample=None):
        """Mark the case as non trivial, with the key that makes it distinct"""
        self.key = digest(key)
        if sample is not None:
            self.sample = sample
        else:
            self.sample = repr(_short(key))[:300]

    def fail(self, kind, msg):
        self.violations.append((kind, str(msg)[:1500]))

    def check(self, ok, kind, msg=""):
        """An oracle evaluation.  kind: the mechanism; msg: the witness"""
        self.events["oracle:" + kind] += 1
        if not ok:
            self.fail(kind, msg() if callable(msg) else msg)
            return False
        return True

    def require(self, ok, kind, msg=""):
        if not self.check(ok, kind, msg):
            raise Broken(kind)

    def close_to(self, a, b, kind, msg="", rtol=1e-7, atol=0.0):
        """Oracle: arrays equal in shape and close in value"""
        import numpy as np

        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return self.check(False, kind, f"{msg}: shape {a.shape} expected {b.shape}")
        if a.size == 0:
            return self.check(True, kind)
        scale = np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0
        ok = bool(np.allclose(a, b, rtol=rtol, atol=atol + rtol * scale, equal_nan=True))
        if ok:
            return self.check(True, kind)
        with np.errstate(all="ignore"):
            diff = np.abs(np.where(np.isfinite(a) & np.isfinite(b), a - b, np.inf))
        pos = np.unravel_index(int(np.argmax(diff)), a.shape)
        return self.check(
            False,
            kind,
            f"{msg}: at {tuple(int(x) for x in pos)} got {a[pos]!r} expected {b[pos]!r}",
        )

    def same_run(self, a, b, kind, msg="", loosen=1):
        """Oracle: arrays of two runs of the same arithmetic

        Not by bits: numpy's instructions for complex numbers depend on where in memory the arrays are.
        """
        import numpy as np

        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype != b.dtype:
            return self.check(False, kind, f"{msg}: {a.dtype} expected {b.dtype}")
        if a.dtype.kind not in "fc":
            return self.equal(a, b, kind, msg)
        single = a.dtype in (np.dtype("float32"), np.dtype("complex64"))
        return self.close_to(a, b, kind, msg, rtol=loosen * (2e-6 if single else 1e-12))

    def equal(self, a, b, kind, msg=""):
        """Oracle: arrays identical"""
        import numpy as np

        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return self.check(False, kind, f"{msg}: shape {a.shape} expected {b.shape}")
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            same = (a == b) | ((a != a) & (b != b))
        else:
            same = a == b
        ok = bool(np.all(same))
        if ok:
            return self.check(True, kind)
        pos = np.unravel_index(int(np.argmin(same)), a.shape)
        return self.check(
            False,
            kind,
            f"{msg}: at {tuple(int(x) for x in pos)} got {a[pos]!r} expected {b[pos]!r}",
        )

    @contextlib.contextmanager
    def no_error(self, kind, msg=""):
        """Oracle: the valid operation inside must not raise"""
        self.events["oracle:" + kind] += 1
        try:
            yield
        except (CaseTimeout, KeyboardInterrupt, MemoryError, Inconclusive, Broken):
            raise
        except BaseException as exc:
            self.fail(
                kind,
                f"{msg}: unexpected {type(exc).__name__}: {exc} at {_where(exc)}",
            )
            raise Broken(kind)

    def raises(self, fn, excs, kind, msg=""):
        """Oracle: fn must raise one of excs (a class, tuple, or Exception)"""
        self.events["oracle:" + kind] += 1
        try:
            out = fn()
        except (CaseTimeout, KeyboardInterrupt, MemoryError):
            raise
        except excs:
            return True
        except BaseException as exc:
            self.fail(kind, f"{msg}: raised {type(exc).__name__}: {exc}, not {excs}")
            return False
        self.fail(kind, f"{msg}: no error raised, returned {str(out)[:200]}")
        return False


def _where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    for frame in reversed(frames):
        if "/resistics/" in frame.filename:
            return f"{Path(frame.filename).name}:{frame.name}"
    return frames[-1].name if frames else "?"


def case_seed(seed, prop, name, index):
    text = f"{seed}/{prop}/{name}/{index}"
    return int(hashlib.sha1(text.encode()).hexdigest()[:12], 16)


def _alarm(signum, frame):
    raise CaseTimeout()


def _hang(signum, frame):
    raise CaseHang()


# cases which hang cost CPU_LIMIT each: leave the remaining ones after a few of them
CPU_LIMIT = 60
MAX_HANGS = 4
MAX_DEATHS = 6
HARNESS_EXIT = 87
# a worker which says nothing this long after the time limit of its case is given up
STUCK = 20
# a worker needs a fraction of this; more is memory which grows without end
MEMORY_LIMIT = 6 << 30
# workers are replaced after this many cases, so that their memory stays small
WORKER_CASES = 250


def run_case(scen, seed, index, tier):
    """Run a single case and return a plain dictionary with what happened"""
    cseed = case_seed(seed, scen.prop, scen.name, index)
    ctx = Ctx(cseed, index, tier)
    # times are UTC wherever this runs
    os.environ["TZ"] = TIME_ZONES[index % len(TIME_ZONES)]
    time.tzset()
    result = {"scenario": scen.name, "index": index, "seed": seed, "error": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _hang)
    signal.alarm(scen.timeout)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    cpu = time.process_time()
    try:
        scen.fn(ctx)
    except CaseHang as exc:
        result["hang"] = True
        frames = traceback.extract_tb(exc.__traceback__)
        if any("/resistics/" in f.filename for f in frames):
            text = "".join(traceback.format_tb(exc.__traceback__))
            ctx.fail("does-not-finish", f"{CPU_LIMIT} s of processor time in\n{text[-1200:]}")
        else:
            result["error"] = f"{CPU_LIMIT} s of processor time in the check"
    except CaseTimeout as exc:
        frames = traceback.extract_tb(exc.__traceback__)
        if time.process_time() - cpu < 2 and any("/resistics/" in f.filename for f in frames):
            # it did not work for all this time, it waited
            ctx.fail("does-not-finish", f"waiting for {scen.timeout} s in\n{''.join(traceback.format_tb(exc.__traceback__))[-1200:]}")
        else:
            result["error"] = f"timeout after {scen.timeout}s"
    except Broken:
        pass
    except Inconclusive as exc:
        result["error"] = f"inconclusive: {exc}"
    except MemoryError:
        result["hang"] = True
        ctx.fail("memory", f"more than {MEMORY_LIMIT >> 30} GB of memory in\n{traceback.format_exc()[-1200:]}")
    except Exception as exc:
        # the workloads are valid, so the code under test must not raise where no
        # oracle expects it; a harness fault would show on the unchanged tree too
        frames = traceback.extract_tb(exc.__traceback__)
        in_repo = any("/resistics/" in f.filename for f in frames)
        text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        if in_repo or isinstance(exc, (AttributeError, KeyError, IndexError, TypeError, ValueError)):
            ctx.fail("unexpected-error", text[-1400:])
        else:
            result["error"] = text[-1400:]
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.close()
    result["cpu_s"] = time.process_time() - cpu
    result["violations"] = ctx.violations
    result["events"] = dict(ctx.events)
    result["key"] = ctx.key
    result["sample"] = ctx.sample
    return result


TIME_ZONES = ("UTC0", "NPT-5:45", "PST8PDT,M3.2.0,M11.1.0", "LINT-14")


def plain_progress():
    """Progress bars without the threads and locks between processes that they come with"""
    try:
        from tqdm import tqdm
    except ImportError:
        return
    tqdm.monitor_interval = 0
    tqdm.set_lock(threading.RLock())


class Worker:
    """A forked process which runs the cases it is sent, and may die in one of them"""

    def __init__(self, prop, seed, tier, mine=()):
        self.conn, theirs = mp.Pipe()
        self.job = None  # [scenario, indices not yet answered]
        self.answered = 0
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for other in mine:
                    other.conn.close()
                self.conn.close()
                self._serve(theirs, prop, seed, tier)
            except (EOFError, BrokenPipeError, KeyboardInterrupt):
                pass
            except BaseException:
                traceback.print_exc()
                os._exit(HARNESS_EXIT)
            finally:
                os._exit(0)
        theirs.close()

    @staticmethod
    def _serve(conn, prop, seed, tier):
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        plain_progress()
        scens = {s.name: s for s in SCENARIOS[prop]}
        while True:
            job = conn.recv()
            if job is None:
                return
            for index in job[1]:
                conn.send(run_case(scens[job[0]], seed, index, tier))

    def send(self, job):
        self.job = [job[0], list(job[1])]
        self.since = time.time()
        self.conn.send(job)

    def stop(self):
        """Ends the process, if it still runs, and gives how it ended"""
        try:
            self.conn.close()
        except OSError:
            pass
        for signum in (None, signal.SIGKILL):
            if signum:
                os.kill(self.pid, signum)
            for _ in range(40 if signum is None else 400):
                pid, status = os.waitpid(self.pid, os.WNOHANG)
                if pid:
                    return f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exit {os.WEXITSTATUS(status)}"
                time.sleep(0.05)
        return "not ended"


def run_jobs(prop, seed, tier, jobs, n_workers, deadline):
    """Run all jobs in worker processes: the results, and what went wrong with the workers"""
    results, problems, workers = [], [], []
    jobs = list(jobs)
    suspects = []
    hangs = 0
    hard = deadline + 100
    limits = {s.name: s.timeout for s in SCENARIOS[prop]}

    def skip(job):
        results.extend({"scenario": job[0], "index": i, "skipped": True} for i in job[1])

    def feed(worker):
        worker.job = None
        while jobs and (time.time() > deadline or hangs >= MAX_HANGS or len(suspects) >= MAX_DEATHS):
            skip(jobs.pop())
        if jobs:
            worker.send(jobs.pop())

    def collect(worker):
        """One message of a worker; False when it died"""
        nonlocal hangs
        try:
            res = worker.conn.recv()
        except (EOFError, ConnectionResetError):
            return False
        worker.since = time.time()
        results.append(res)
        hangs += bool(res.get("hang"))
        worker.job[1].remove(res["index"])
        worker.answered += 1
        if not worker.job[1]:
            if worker.answered >= WORKER_CASES and jobs:
                worker.stop()
                workers.remove(worker)
                worker = Worker(prop, seed, tier, workers)
                workers.append(worker)
            feed(worker)
        return True

    def lost(worker, how):
        """Another worker takes the place of one which is gone"""
        workers.remove(worker)
        name, indices = worker.job
        suspects.append((name, indices[0], how))
        if indices[1:]:
            jobs.append((name, indices[1:]))
        if jobs:
            workers.append(Worker(prop, seed, tier, workers))
            feed(workers[-1])

    for _ in range(min(n_workers, len(jobs))):
        workers.append(Worker(prop, seed, tier, workers))
        feed(workers[-1])
    while True:
        busy = [w for w in workers if w.job]
        if not busy:
            break
        if time.time() > hard or hangs >= MAX_HANGS:
            for w in busy:
                skip(w.job)
                if hangs < MAX_HANGS:
                    problems.append(f"no answer in time from {w.job[0]}[{w.job[1][0]}]")
            for job in jobs:
                skip(job)
            break
        for conn in mp.connection.wait([w.conn for w in busy], timeout=5):
            worker = [w for w in busy if w.conn is conn][0]
            if not collect(worker):
                lost(worker, worker.stop())
        for worker in [w for w in workers if w.job and time.time() - w.since > limits[w.job[0]] + STUCK]:
            os.kill(worker.pid, signal.SIGKILL)
            worker.stop()
            lost(worker, "stuck")
    for w in workers:
        w.stop() if not w.job else (os.kill(w.pid, signal.SIGKILL), w.stop())
    # a case in which the process died is run again, on its own
    confirmed = 0
    for name, index, how in suspects:
        if confirmed >= 2 or time.time() > hard:
            skip((name, [index]))
            continue
        worker = Worker(prop, seed, tier)
        worker.send((name, [index]))
        res = None
        if worker.conn.poll(limits[name] + STUCK):
            try:
                res = worker.conn.recv()
            except (EOFError, ConnectionResetError):
                pass
        else:
            os.kill(worker.pid, signal.SIGKILL)
        again = worker.stop()
        if res is None and f"exit {HARNESS_EXIT}" in (how, again):
            problems.append(f"a worker failed at {name}[{index}]")
            continue
        if res is None:
            confirmed += 1
            text = f"the process running the case ended: {how}, and alone: {again}"
            res = {
                "scenario": name, "index": index, "seed": seed, "error": None, "events": {"oracle:process-died": 1},
                "violations": [("process-died", text)], "key": None, "sample": None,
            }
        results.append(res)
    return results, problems


def load_known(prop):
    known = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:"):
                parts = line[len("known:"):].split(None, 2)
                fields = dict(p.split("=", 1) for p in parts[:2])
                if fields.get("property") == prop:
                    known[fields["kind"]] = parts[2] if len(parts) > 2 else ""
    return known


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--only", help="run a single scenario")
    parser.add_argument("--cases", type=int, help="override the number of cases")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("RT_JOBS", 8)))
    args = parser.parse_args(argv)

    t0 = time.time()
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"

    try:
        load_checks(prop)
    except Exception:
        # the package must import: this is what every user does first
        text = traceback.format_exc()
        if "/resistics/" in text:
            return finish_import_failure(prop, seed, tier, text, t0)
        traceback.print_exc()
        return 2

    if args.replay:
        return replay(prop, args.replay)

    budget = float(os.environ.get("RT_BUDGET", 600 if tier == "quick" else 3000))
    deadline = t0 + budget
    jobs = []
    for scen in SCENARIOS[prop]:
        if args.only and scen.name != args.only:
            continue
        n = scen.quick if tier == "quick" else scen.thorough
        if args.cases:
            n = args.cases
        size = max(1, min(40, n // (args.jobs * 3) or 1))
        for start in range(0, n, size):
            indices = list(range(start, min(n, start + size)))
            jobs.append((scen.name, indices))
    # interleave scenarios so that a budget cut hits all of them alike
    order = random.Random(seed)
    order.shuffle(jobs)

    results, problems = run_jobs(prop, seed, tier, jobs, args.jobs, deadline)
    return conclude(prop, seed, tier, results, problems, t0, partial=bool(args.only))


def conclude(prop, seed, tier, results, problems, t0, partial=False):
    events = Counter()
    keys = {}
    ran = Counter()
    errors = []
    violations = []
    samples = {}
    skipped = 0
    longest = 0.0
    for res in results:
        if res.get("skipped"):
            skipped += 1
            continue
        name = res["scenario"]
        longest = max(longest, res.get("cpu_s", 0.0))
        ran[name] += 1
        events.update(res["events"])
        if res["key"] is not None:
            keys.setdefault(name, set()).add(res["key"])
            if len(samples.setdefault(name, [])) < 2 and res["sample"] is not None:
                samples[name].append(res["sample"])
        if res["error"]:
            errors.append((name, res["index"], res["error"]))
        for kind, msg in res["violations"]:
            violations.append((kind, msg, res))

    known = load_known(prop)
    printed = 0
    by_kind = {}
    for kind, msg, res in violations:
        by_kind.setdefault(kind, []).append((msg, res))
    n_unknown = 0
    replay_dir = EVIDENCE / "replay"
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    replay_dir.mkdir(exist_ok=True)
    for kind, found in sorted(by_kind.items()):
        msg, res = found[0]
        if kind in known:
            print(f"KNOWN-FINDING: property={prop} {kind}: {known[kind]}")
            continue
        n_unknown += len(found)
        path = replay_dir / f"{prop}-{printed:02d}.json"
        content = {
            "property": prop,
            "kind": kind,
            "scenario": res["scenario"],
            "index": res["index"],
            "seed": res["seed"],
            "tier": tier,
            "message": msg,
            "occurrences": len(found),
        }
        path.write_text(json.dumps(content, indent=2))
        printed += 1
        if printed <= 12:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  kind={kind} scenario={res['scenario']} index={res['index']} x{len(found)}")
            print("  " + msg.replace("\n", "\n  "))

    n_oracle = sum(n for name, n in events.items() if name.startswith("oracle:"))
    n_keys = sum(len(v) for v in keys.values())
    inconclusive = []
    inconclusive.extend(problems)
    for name, index, err in errors[:10]:
        inconclusive.append(f"{name}[{index}]: {err}")
    if not partial:
        for scen in SCENARIOS[prop]:
            got = len(keys.get(scen.name, ()))
            need = max(1, int(min(ran[scen.name], 40) * scen.min_nontrivial))
            if got < need:
                inconclusive.append(
                    f"{scen.name}: only {got} distinct non-trivial cases of {ran[scen.name]}"
                )
        if n_oracle == 0:
            inconclusive.append("no oracle was evaluated")

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(sum(ran.values())),
            "distinct_nontrivial": int(n_keys),
            "rule": (
                "every case is generated from (VERIF_SEED, scenario, index) and runs the "
                "real code of /repo; it is non-trivial when it reached its deciding "
                "oracles and distinct by the digest of its generated inputs"
            ),
            "samples": [
                {"scenario": name, "case": s} for name in sorted(samples) for s in samples[name]
            ][:24],
            "oracle_evaluations": int(n_oracle),
            "cases_per_scenario": {k: int(v) for k, v in sorted(ran.items())},
            "distinct_per_scenario": {k: len(v) for k, v in sorted(keys.items())},
            "observed_events": {k: int(v) for k, v in sorted(events.items())},
            "cases_skipped_by_time_budget": skipped,
            "longest_case_cpu_s": round(longest, 2),
        },
        "assumptions": [
            "scikit-learn is replaced by the stand-in rt/stubs/sklearn (not installed here)",
            "held on the executions listed, nothing is claimed about others",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": n_unknown,
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    print(
        f"{prop} {tier} seed={seed}: {sum(ran.values())} cases, {n_keys} distinct, "
        f"{n_oracle} oracle evaluations, {n_unknown} violations, "
        f"{len(inconclusive)} inconclusive, {evidence['wall_s']}s"
    )
    if n_unknown:
        return 1
    if inconclusive:
        for text in inconclusive:
            print("INCONCLUSIVE " + text)
        return 2
    return 0


def finish_import_failure(prop, seed, tier, text, t0):
    results = [
        {
            "scenario": "import",
            "index": 0,
            "seed": seed,
            "error": None,
            "violations": [("import-failure", text[-1400:])],
            "events": {"oracle:import-failure": 1},
            "key": None,
            "sample": None,
        }
    ]
    return conclude(prop, seed, tier, results, [], t0, partial=True)


def replay(prop, path):
    info = json.loads(Path(path).read_text())
    scen = [s for s in SCENARIOS[prop] if s.name == info["scenario"]][0]
    res = run_case(scen, info["seed"], info["index"], info.get("tier", "quick"))
    for kind, msg in res["violations"]:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  kind={kind}\n  {msg}")
    if res["error"]:
        print("INCONCLUSIVE", res["error"])
    if res["violations"]:
        return 1
    return 2 if res["error"] else 0


def load_checks(prop):
    found = sorted((VERIF / "rt" / "checks").glob(f"{prop.lower()}_*.py"))
    if not found:
        raise SystemExit(f"no check for {prop}")
    from rt import bootstrap

    bootstrap.prepare()
    for path in found:
        importlib.import_module(f"rt.checks.{path.stem}")
    if prop not in SCENARIOS:
        raise SystemExit(f"no scenarios for {prop}")
