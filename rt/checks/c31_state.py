"""C31: results depend on parameters and inputs only, not on earlier or concurrent use"""
import decimal
import os
import pickle
import random
import re
import shutil
import socket
import struct
import sys
import tempfile
import threading
import traceback
from pathlib import Path

import numpy as np
import pandas as pd

from resistics import letsgo
from resistics.config import Configuration, get_default_configuration
from resistics.gather import QuickGather
from resistics.plot import apply_lttb
from resistics.regression import RegressionPreparerGathered, RegressionPreparerSpectra, SolverScikitOLS
from resistics.sampling import datetime_array, datetimes_to_samples, samples_to_datetimes
from resistics.spectra import EvaluationFreqs
from resistics.time import TimeReaderAscii, TimeReaderNumpy
from resistics.transfunc import TransferFunction
from rt import build, catalog, variants
from rt.build import snapshot
from rt.checks.c18_cal_files import response, write_cal_json
from rt.compare import differs
from rt.core import Inconclusive, scenario

DROP = ("time_local", "time_utc", "created_on_local", "created_on_utc", "file_info")


class Mini:
    """What the generators need of a context"""

    def __init__(self, seed, path):
        self.rng = random.Random(seed)
        self.np = np.random.RandomState(seed % 2 ** 32)
        self._path = path

    def scratch(self):
        return self._path


def strip(snap, hide=None):
    """Without what changes from run to run: wall clock times, and the folder it ran in"""
    if isinstance(snap, dict):
        return {k: strip(v, hide) for k, v in snap.items() if k not in DROP}
    if isinstance(snap, list):
        return [strip(v, hide) for v in snap]
    if isinstance(snap, str) and hide:
        return hide.sub("PATH", snap)
    return snap


def outcome(fnc, path):
    """What every part of a result holds, or the kind of error"""
    try:
        out = fnc()
    except Exception as exc:
        return "error " + type(exc).__name__
    hide = re.compile(re.escape(str(path)) + r"(/t[a-z0-9_]{8})?")
    parts = out if isinstance(out, (list, tuple)) else [out]
    return [(type(part).__name__, strip(snapshot(part), hide)) for part in parts]


def judge(ctx, got, want, kind, detail):
    """The result of a run is the wanted one"""
    if isinstance(got, str) or isinstance(want, str):
        ctx.check(got == want, kind, lambda: f"{detail()}: {str(got)[:300]}, not {str(want)[:300]}")
        return
    names = [x[0] for x in got], [x[0] for x in want]
    if not ctx.check(names[0] == names[1], kind, lambda: f"{detail()}: {names}"):
        return
    rounded = []
    for name, a, b in [(x[0], x[1], y[1]) for x, y in zip(got, want)]:
        if name == "Solution" and rounded:
            # what was solved differs in the last bits, which the solver may magnify
            ctx.observe("solutions_of_rounded_input")
            continue
        found = differs(a, b, rounded, 1e-3 if name == "Solution" else 1e-5 if name == "RegressionInputData" else 1e-10)
        ctx.check(found is None, kind, lambda: f"{detail()}: {name} differs in {found}")
    ctx.observe("results_equal_but_for_rounding" if rounded else "results_identical")


def make_data(seed, fs, path):
    """A recording; several seeds with one fs differ in everything else"""
    mini = Mini(seed, path)
    rng = mini.rng
    fs = fs * rng.choice([1, 1, 1, 2, 0.5])
    chans = rng.sample(build.CHANS, rng.randint(2, 5))
    dtype = rng.choice([np.float64, np.float64, np.float32, np.int32])
    td = build.time_data(rng, mini.np, fs, rng.choice([900, 1200, 2000]), chans=chans, dtype=dtype)
    for i, chan in enumerate(chans):
        td.metadata.chans_metadata[chan].sensor = "S"
        td.metadata.chans_metadata[chan].serial = str(rng.randint(0, 2))
    return td


def make_process(kind, seed, fs, path):
    """The process of a kind, as a function of the recording"""
    mini = Mini(seed, path)
    rng = mini.rng
    if kind == "time":
        proc = catalog.time_process(rng, build.time_data(rng, mini.np, fs, 900, dtype=np.float64))
        return proc.run
    if kind == "chain":
        setup, decimator, win_setup = catalog.dec_setup(rng), catalog.decimator(rng), catalog.win_setup(rng)
        windower, fourier, smoother, evals = catalog.windower(rng), catalog.fourier(rng), catalog.smoother(rng), EvaluationFreqs()
        calibrator, prep, solver = catalog.calibrator(rng), RegressionPreparerSpectra(), SolverScikitOLS(fit_intercept=False)
        gather, prep2 = QuickGather(), RegressionPreparerGathered()

        def chain(td):
            dec_params = setup.run(td.metadata.fs)
            dd = decimator.run(dec_params, td)
            wd = windower.run(td.metadata.first_time, win_setup.run(dd.metadata.n_levels, dd.metadata.fs), dd)
            sd = smoother.run(fourier.run(wd))
            ed = calibrator.run(path, evals.run(dec_params, sd))
            tf = TransferFunction(out_chans=td.metadata.chans[:1], in_chans=td.metadata.chans[1:2])
            rd = prep.run(tf, ed)
            solutions = [solver.run(rd), solver.run(prep2.run(tf, gather.run(Path("m"), dec_params, tf, ed)))]
            return [dec_params, dd, wd, sd, ed] + solutions

        return chain
    if kind == "reader":
        cls = rng.choice([TimeReaderNumpy, TimeReaderAscii])
        reader = cls(apply_scalings=rng.random() < 0.5)
        a = rng.randint(0, 300)

        def read(td):
            folder = Path(tempfile.mkdtemp(prefix="t", dir=str(path)))
            (build.write_npy if cls is TimeReaderNumpy else build.write_txt)(folder / "m", td.metadata, td.data)
            whole = reader.run(folder / "m")
            part = reader.run(folder / "m", from_sample=a, to_sample=a + 400)
            return [whole, part, reader.run(folder / "m", metadata_only=True)]

        return read
    if kind == "config":
        procs = [catalog.time_process(rng, build.time_data(rng, mini.np, fs, 900, dtype=np.float64)) for _ in range(rng.randint(1, 3))]
        config = Configuration(name="c", time_processors=procs)
        steps = [letsgo.run_time_processors, letsgo.run_decimation]

        def run(td):
            out = steps[0](config, td)
            return [out, letsgo.run_decimation(config, out), get_default_configuration()]

        return run
    a, max_pts = rng.randint(0, 300), rng.choice([10, 100, 777])

    def times(td):
        m = td.metadata
        span = samples_to_datetimes(m.fs, m.first_time, a, a + 500)
        return [
            [str(x) for x in span], [str(x) for x in datetimes_to_samples(m.fs, m.first_time, m.last_time, *span)],
            [str(x) for x in datetime_array(m.first_time, m.fs, n_samples=20)],
            [[float(v) for v in x] for x in apply_lttb(td.data[0], max_pts)], m,
        ]

    return times


KINDS = ["time", "time", "time", "chain", "chain", "reader", "config", "times"]


def calibrations(seed, path):
    mini = Mini(seed, path)
    for k in range(2):
        write_cal_json(path / f"IC_S{k}.json", *response(mini, n=5), "S", k)


def pristine(request):
    """What a process without a past gives"""
    path = Path(tempfile.mkdtemp(prefix="z", dir=os.environ["RT_SCRATCH"]))
    try:
        if isinstance(request, dict):
            return outcome(lambda: variants.run_use(request, path), path)
        kind, proc_seed, data_seed, fs, cal_seed = request
        calibrations(cal_seed, path)
        td = make_data(data_seed, fs, path)
        fnc = make_process(kind, proc_seed, fs, path)
        return outcome(lambda: fnc(td), path)
    finally:
        shutil.rmtree(str(path), ignore_errors=True)


class Zygote:
    """A process forked before anything was run, which forks itself for every question"""

    def __init__(self):
        self.name = os.path.join(os.environ["RT_SCRATCH"], f"z{os.getpid()}.sock")
        server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        server.bind(self.name)
        server.listen(64)
        parent = os.getpid()
        if os.fork() == 0:
            try:
                self.serve(server, parent)
            finally:
                os._exit(0)
        server.close()

    @staticmethod
    def serve(server, parent):
        import signal

        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        server.settimeout(2)
        while os.getppid() == parent:
            try:
                conn, _ = server.accept()
            except socket.timeout:
                continue
            if os.fork() == 0:
                conn.settimeout(100)
                size = struct.unpack("I", conn.recv(4))[0]
                request = pickle.loads(conn.recv(size))
                try:
                    answer = pristine(request)
                except BaseException:
                    answer = "harness " + traceback.format_exc()
                conn.sendall(pickle.dumps(answer))
                conn.close()
                os._exit(0)
            conn.close()

    def ask(self, request):
        conn = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        conn.settimeout(110)
        conn.connect(self.name)
        data = pickle.dumps(request)
        conn.sendall(struct.pack("I", len(data)) + data)
        parts = []
        while True:
            part = conn.recv(65536)
            if not part:
                break
            parts.append(part)
        conn.close()
        answer = pickle.loads(b"".join(parts)) if parts else "harness"
        if isinstance(answer, str) and answer.startswith("harness"):
            raise Inconclusive(f"no answer of the pristine process: {answer[-600:]}")
        return answer


ZYGOTE = Zygote()


def surroundings():
    """Global settings a library has to leave alone"""
    return {
        "cwd": os.getcwd(), "environ": dict(os.environ), "geterr": np.geterr(), "print": repr(np.get_printoptions()),
        "path": list(sys.path),
        "decimal": [repr(getattr(decimal.getcontext(), a)) for a in ("prec", "rounding", "Emin", "Emax", "traps")],
        "pandas": [pd.get_option(o) for o in ("mode.chained_assignment", "display.precision", "mode.use_inf_as_na")],
    }


def plan(ctx, n):
    """Runs which share processes and recordings"""
    rng = ctx.rng
    fs = float(rng.choice([16, 64, 128, 1000]))
    cal_seed = rng.randrange(2 ** 31)
    procs = [(rng.choice(KINDS), rng.randrange(2 ** 31)) for _ in range(rng.randint(1, 3))]
    datas = [rng.randrange(2 ** 31) for _ in range(rng.randint(2, 3))]
    path = ctx.scratch()
    calibrations(cal_seed, path)
    made = {p: make_process(*p, fs, path) for p in procs}
    recordings = {d: make_data(d, fs, path) for d in datas}
    runs = [(rng.choice(procs), rng.choice(datas)) for _ in range(n)]
    ctx.case((fs, tuple(procs), tuple(datas), tuple(runs)))
    return path, fs, cal_seed, made, recordings, runs


@scenario("C31", "earlier_use", quick=40, thorough=600)
def earlier_use(ctx):
    """Each run gives what a process and a program which never ran before give"""
    path, fs, cal_seed, made, recordings, runs = plan(ctx, ctx.rng.randint(3, 7))
    before = surroundings()
    asked = {}
    for k, (proc, data) in enumerate(runs):
        got = outcome(lambda: made[proc](recordings[data]), path)
        if (proc, data) not in asked:
            asked[proc, data] = ZYGOTE.ask((*proc, data, fs, cal_seed))
        want = asked[proc, data]
        judge(ctx, got, want, "depends-on-history", lambda: f"run {k} of {runs} of {proc[0]} is unlike a first run")
        ctx.observe("runs_compared")
        ctx.observe("failing_runs" if isinstance(want, str) else "successful_runs")
        after = surroundings()
        changed = [key for key in before if before[key] != after[key]]
        ctx.check(not changed, "global-settings", lambda: f"{proc[0]} changed {changed}: {[(before[c], after[c]) for c in changed]}"[:800])


@scenario("C31", "concurrent_use", quick=30)
def concurrent_use(ctx):
    """Threads which share processes and recordings get what they get alone"""
    rng = ctx.rng
    path, _fs, _cal, made, recordings, runs = plan(ctx, 6)
    wanted = {run: outcome(lambda: made[run[0]](recordings[run[1]]), path) for run in set(runs)}
    before = {d: snapshot(td) for d, td in recordings.items()}
    results = [None] * len(runs)
    gate = threading.Barrier(len(runs))

    def work(k):
        proc, data = runs[k]
        gate.wait()
        results[k] = outcome(lambda: made[proc](recordings[data]), path)

    keep = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-5, 1e-4, 1e-3]))
    try:
        threads = [threading.Thread(target=work, args=(k,)) for k in range(len(runs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(keep)
    for run, got in zip(runs, results):
        judge(ctx, got, wanted[run], "depends-on-threads", lambda: f"{run[0][0]} is unlike when alone")
        ctx.observe("threaded_runs_compared")
    for d, td in recordings.items():
        ctx.check(snapshot(td) == before[d], "recording-changed", "a shared recording changed")


def like_uses(ctx, n, kinds=variants.KINDS):
    """A use, others which differ from it in one or two details, and the order they come in"""
    rng = ctx.rng
    base = variants.make_use(rng, rng.choice(kinds))
    uses = [base]
    for _ in range(rng.randint(2, 4)):
        use = variants.near_miss(rng, rng.choice(uses))
        if use not in uses:
            uses.append(use)
    order = [rng.choice(uses) for _ in range(n - 2)] + uses[-2:]
    ctx.observe("uses_of_" + (base["cls"] if base["use"] == "process" else base["use"]))
    return uses, order


@scenario("C31", "near_misses", quick=80, thorough=1500)
def near_misses(ctx):
    """Uses which differ in one parameter, one file, one property of the data do not answer for each other"""
    rng = ctx.rng
    uses, order = like_uses(ctx, rng.randint(4, 8))
    ctx.case(repr(order))
    path = Path(ctx.scratch())
    keep = {} if rng.random() < 0.5 else None
    wanted = {}
    for k, use in enumerate(order):
        got = outcome(lambda: variants.run_use(use, path, keep), path)
        if repr(use) not in wanted:
            wanted[repr(use)] = ZYGOTE.ask(use)
        want = wanted[repr(use)]
        judge(ctx, got, want, "depends-on-history", lambda: f"{use} is unlike a first run; before it ran {order[max(k - 3, 0):k]}")
        ctx.observe("runs_compared")
        ctx.observe("failing_runs" if isinstance(want, str) else "successful_runs")
    ctx.observe("different_answers", len(set(map(repr, wanted.values()))))
    ctx.observe("uses_compared", len(wanted))


@scenario("C31", "near_misses_at_once", quick=24, thorough=600)
def near_misses_at_once(ctx):
    """The same, in threads"""
    rng = ctx.rng
    uses, order = like_uses(ctx, 6, [k for k in variants.KINDS if k not in variants.WITH_FILES])
    ctx.case(repr(order))
    path = Path(ctx.scratch())
    paths = [path / str(k) for k in range(len(order))]
    for p in paths:
        p.mkdir()
    results = [None] * len(order)
    gate = threading.Barrier(len(order))

    def work(k):
        gate.wait()
        results[k] = outcome(lambda: variants.run_use(order[k], paths[k]), paths[k])

    keep = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-5, 1e-4, 1e-3]))
    try:
        threads = [threading.Thread(target=work, args=(k,)) for k in range(len(order))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(keep)
    wanted = {repr(use): ZYGOTE.ask(use) for use in order}
    for use, got in zip(order, results):
        judge(ctx, got, wanted[repr(use)], "depends-on-threads", lambda: f"{use} is unlike when alone")
        ctx.observe("threaded_runs_compared")
