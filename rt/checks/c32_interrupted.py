"""C32: interrupted or repeated processing ends with the results of an undisturbed run"""
import builtins
import errno
import io
import os
import resource
import shutil
import signal
import time
from pathlib import Path

import numpy as np

from resistics import letsgo
from resistics.config import Configuration
from resistics.decimate import DecimationSetup, Decimator
from resistics.project import get_meas_evals_path, get_meas_time_path, get_results_path
from resistics.regression import Solution, SolverScikitOLS
from resistics.sampling import datetime_to_string, to_timedelta
from resistics.spectra import FourierTransform, SpectraDataReader, SpectraSmootherGaussian
from resistics.time import (
    Decimate, InterpolateNans, LowPass, Multiply, RemoveMean, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii,
    TimeWriterNumpy,
)
from resistics.transfunc import ImpedanceTensor
from resistics.window import WindowSetup
from rt import build
from rt.build import snapshot
from rt.checks.c18_cal_files import write_cal_json
from rt.compare import run_differs
from rt.core import Inconclusive, scenario
from rt.util import make_time

CHANS = ["Ex", "Ey", "Hx", "Hy"]
KILLED = 77


# ------------------------------------------------------------------ workloads
def make_config(rng):
    procs = [InterpolateNans(), RemoveMean()]
    procs += rng.choice([[], [Multiply(multiplier=2)], [LowPass(cutoff=20, order=4)], [Decimate(factor=2)]])
    n_levels = rng.randint(1, 3)
    size = rng.choice([32, 64])
    return Configuration(
        name=rng.choice(["cfg", "a b"]), time_readers=[TimeReaderAscii(extension=".ascii"), TimeReaderNumpy()],
        time_processors=procs,
        dec_setup=DecimationSetup(n_levels=n_levels, per_level=rng.randint(1, 3), min_samples=128),
        decimator=Decimator(resample=rng.random() < 0.5), win_setup=WindowSetup(min_size=size, min_olap=size // 4, win_factor=400),
        fourier=FourierTransform(workers=1), spectra_processors=rng.choice([[], [SpectraSmootherGaussian(sigma=0.6)]]),
        tf=ImpedanceTensor(), solver=SolverScikitOLS(n_jobs=1),
    )


def recording(ctx, first, fs, n):
    td = build.time_data(ctx.rng, ctx.np, fs=fs, n=n, first=first, chans=list(CHANS))
    td.data = np.round(td.data / np.std(td.data), 4)
    for i, chan in enumerate(td.metadata.chans):
        td.metadata.chans_metadata[chan].sensor = f"S{i}"
    return td


def write(rng, path, td):
    rng.choice([TimeWriterNumpy, TimeWriterNumpy, TimeWriterAscii])().run(path, td)


def calibration(ctx, path, i):
    k = ctx.rng.uniform(0.5, 3)
    freqs = [0.01, 1.0, 100.0]
    write_cal_json(path / "calibrate" / f"IC_S{i}.json", freqs, [k, 2 * k, k], [0.1, 0.4, 0.2], f"S{i}", i)


def build_project(ctx, path):
    rng = ctx.rng
    first = make_time(rng, subns=False)
    letsgo.new(path, {"ref_time": datetime_to_string(first)})
    fs = 64.0
    n = rng.choice([1500, 2500])
    for site in rng.choice([["A"], ["A", "B"]]):
        start = first
        for k in range(rng.randint(1, 2)):
            write(rng, get_meas_time_path(path, site, f"m{k}"), recording(ctx, start, fs, n))
            start = start + to_timedelta(n / fs + 100.0)
    if rng.random() < 0.5:
        calibration(ctx, path, rng.randrange(4))
    return fs


# -------------------------------------------------------------------- oracles
def plain(meta):
    """Metadata without the records of when and where"""
    return {k: v for k, v in meta.dict().items() if k not in ("history", "histories", "file_info")}


def evals_of(path, site, meas, config):
    out = SpectraDataReader().run(get_meas_evals_path(path, site, meas, config.name))
    return plain(out.metadata), {k: snapshot(v) for k, v in out.data.items()}


def solution_of(path):
    sol = Solution.parse_file(path)
    return (
        sol.tf.json(), list(sol.freqs), {k: {"real": list(c.real), "imag": list(c.imag)} for k, c in sol.components.items()},
        {k: (plain(c), sorted(c.histories)) for k, c in sol.contributors.items()},
    )


def time_of(path):
    out = TimeReaderNumpy().run(path)
    return plain(out.metadata), snapshot(out.data)


def same(got, want, rtol=1e-6):
    """Equal but for rounding, which solvers magnify"""
    return run_differs(got, want, rtol) is None


def tree(path, skip=None):
    found = {}
    for root, dirs, files in os.walk(str(path)):
        for name in files:
            full = os.path.join(root, name)
            if skip is not None and (full == str(skip) or full.startswith(str(skip) + os.sep)):
                continue
            with open(full, "rb") as f:
                found[os.path.relpath(full, str(path))] = f.read()
    return found


class Operation:
    """One call of the package which writes one target below a project"""

    def __init__(self, ctx, kind, fs, sites):
        rng = ctx.rng
        self.kind, self.fs = kind, fs
        self.site = rng.choice(sorted(sites))
        self.meas = rng.choice(sorted(sites[self.site]))
        self.in_site = rng.choice(sorted(sites)) if rng.random() < 0.4 else None
        self.out = rng.choice([(self.site, "p0"), ("New", "p 1")])

    def run(self, env):
        if self.kind == "evals":
            letsgo.process_time_to_evals(env, self.site, self.meas)
        elif self.kind == "tf":
            letsgo.process_evals_to_tf(env, self.fs, self.site, self.in_site)
        else:
            letsgo.process_time(env, self.site, self.meas, *self.out)

    def target(self, path, config):
        """The file or directory written"""
        if self.kind == "evals":
            return get_meas_evals_path(path, self.site, self.meas, config.name)
        if self.kind == "tf":
            return get_results_path(path, self.site, config.name)
        return get_meas_time_path(path, *self.out)

    def read(self, path, config):
        if self.kind == "evals":
            return evals_of(path, self.site, self.meas, config)
        if self.kind == "tf":
            files = sorted(self.target(path, config).iterdir())
            return [solution_of(f) for f in files]
        return time_of(self.target(path, config))

    def __str__(self):
        return f"{self.kind} {self.site} {self.meas} {self.in_site} {self.out}"


class Faults:
    """Counts files opened for writing below a directory, and fails or dies from one of them on"""

    def __init__(self, base, at=None, die=False):
        self.base, self.at, self.die, self.count, self.fired = str(base), at, die, 0, False

    def __enter__(self):
        self.saved = (builtins.open, io.open)
        real = io.open

        def opener(file, mode="r", *args, **kwargs):
            if isinstance(file, (str, os.PathLike)) and set(mode) & set("wax+") and os.fspath(file).startswith(self.base):
                if self.at is not None and self.count >= self.at:
                    self.fired = True
                    if self.die:
                        # the file is there, but nothing is in it
                        real(file, mode, *args, **kwargs)
                        os._exit(KILLED)
                    raise OSError(errno.ENOSPC, "No space left on device", os.fspath(file))
                self.count += 1
            return real(file, mode, *args, **kwargs)

        builtins.open = io.open = opener
        return self

    def __exit__(self, *exc):
        builtins.open, io.open = self.saved


def in_child(fnc, limit=None, die=False):
    """Run in a process of its own; files larger than limit cannot be written

    With die, the system ends the process in the middle of the write.
    """
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(2)
            os.open(os.devnull, os.O_WRONLY)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            fnc()
            code = 0
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    end = time.time() + 90
    while time.time() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
        time.sleep(0.005)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    raise Inconclusive("the interrupted process did not end")


def process_all(env):
    for site in env.proj.sites.values():
        for meas in list(site.measurements):
            letsgo.process_time_to_evals(env, site.name, meas)


# ------------------------------------------------------------------ scenarios
@scenario("C32", "interrupted", quick=110, timeout=300)
def interrupted(ctx):
    """A fault at any write: what else is there stays, and running again gives the full result"""
    rng = ctx.rng
    base = ctx.scratch()
    config = make_config(rng)
    path, ref = base / "proj", base / "ref"
    fs = build_project(ctx, path)
    env = letsgo.load(path, config)
    sites = {s.name: list(s.measurements) for s in env.proj.sites.values()}
    op = Operation(ctx, rng.choice(["evals", "evals", "tf", "time", "time"]), fs, sites)
    state = rng.choice(["fresh", "fresh", "same", "older"])
    if op.kind == "tf" or rng.random() < 0.5:
        process_all(env)
    target = op.target(path, config)
    if op.kind == "evals" and state == "fresh" and target.exists():
        shutil.rmtree(str(target))
    # the undisturbed run
    shutil.copytree(str(path), str(ref))
    ref_env = letsgo.load(ref, config)
    with Faults(ref) as faults:
        with ctx.no_error("undisturbed", str(op)):
            op.run(ref_env)
    want = op.read(ref, config)
    sizes = [f.stat().st_size for f in ref_target_files(op, ref, config)]
    if state == "same":
        op.run(letsgo.load(path, config))
    elif state == "older":
        older = make_config(rng).copy(update={"name": config.name})
        older_env = letsgo.load(path, older)
        try:
            if op.kind == "tf":
                # an older solution, on the same spectra
                op.run(env)
            else:
                op.run(older_env)
        except Exception:
            ctx.observe("older_failed")
    before = tree(path, skip=target)
    how = rng.choice(["error", "error", "die", "limit", "limit", "kill"])
    at = rng.randrange(faults.count)
    limit = rng.choice([0, 1, rng.randrange(max(sizes)), max(sizes) - 1, min(sizes) - 1, rng.randrange(max(sizes))])
    env = letsgo.load(path, config)
    status = None
    if how == "error":
        with Faults(path, at=at) as hit:
            try:
                op.run(env)
                status = 0
            except OSError:
                status = 3
            except Exception:
                status = 4
    elif how == "die":
        def work():
            with Faults(path, at=at, die=True):
                op.run(env)
        status = in_child(work)
    else:
        status = in_child(lambda: op.run(env), limit=limit, die=how == "kill")
    what = f"{op} in state {state}, {how} at open {at} of {faults.count} or byte {limit} of {sizes}: ended {status}"
    ctx.case((str(op), state, how, at, limit, tuple(sizes), ctx.index), what)
    ctx.observe("interrupted" if status else "finished")
    ctx.observe(f"faults_{how}")
    after = tree(path, skip=target)
    ctx.check(
        after == before, "others-kept",
        lambda: f"{what}: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}",
    )
    if how == "error":
        ctx.check(status != 0 or not hit.fired, "fault-unnoticed", what)
    try:
        got = op.read(path, config)
    except Exception:
        got = None
    if status == 0 and how in ("error", "die"):
        ctx.check(same(got, want), "finished-incomplete", f"{what}: reported as done, but not what was to be written")
    elif state != "older" and got is not None and op.kind != "tf":
        ctx.check(same(got, want), "half-result", f"{what}: half written results are read without an error")
        ctx.observe("survived_reads")
    # a reload has the measurements there were, and a half written one only if it can be read
    with ctx.no_error("reload", what):
        env = letsgo.load(path, config)
    now = {s.name: list(s.measurements) for s in env.proj.sites.values()}
    for site, meas in sites.items():
        ctx.check(set(meas) <= set(now[site]), "measurements-lost", f"{what}: {now}")
    new = {(s, m) for s in now for m in now[s]} - {(s, m) for s in sites for m in sites[s]}
    ctx.check(new <= ({op.out} if op.kind == "time" else set()), "measurements-new", f"{what}: {now}")
    # numpy does not report when the very last bytes of an array could not be written (status 0)
    if new and state == "fresh" and status:
        ctx.check(same(got, want), "half-measurement", f"{what}: a half written measurement is part of the project")
    # repeating it
    with ctx.no_error("repeat", what):
        op.run(env)
        again = op.read(path, config)
    ctx.check(same(again, want), "repeat-differs", f"{what}: running again does not give the undisturbed result")
    after = tree(path, skip=target)
    ctx.check(after == before, "others-kept", f"{what}: after repeating")


def ref_target_files(op, path, config):
    return [f for f in op.target(path, config).iterdir() if f.is_file()]


@scenario("C32", "repeated", quick=50, timeout=300)
def repeated(ctx):
    """Recordings, calibrations and parameters change between runs in one project"""
    rng = ctx.rng
    base = ctx.scratch()
    config = make_config(rng)
    path = base / "proj"
    fs = build_project(ctx, path)
    names = []
    env = letsgo.load(path, config)
    for step in range(rng.randint(2, 3)):
        if step:
            change = rng.choice(["shorter", "longer", "new", "removed", "rate", "calibrated", "parameters", "nothing"])
            names.append(change)
            places = [(s.name, m) for s in env.proj.sites.values() for m in s.measurements]
            site, meas = rng.choice(places)
            here = get_meas_time_path(path, site, meas)
            old = env.proj[site][meas].metadata
            if change in ("shorter", "longer", "rate"):
                n = {"shorter": 1000, "longer": old.n_samples + 500, "rate": old.n_samples}[change]
                shutil.rmtree(str(here))
                write(rng, here, recording(ctx, old.first_time, fs * 2 if change == "rate" else fs, n))
            elif change == "new":
                last = max(env.proj[s][m].metadata.last_time for s, m in places)
                write(rng, get_meas_time_path(path, site, f"extra{step}"), recording(ctx, last + to_timedelta(50.0), fs, 1500))
            elif change == "removed":
                if len(env.proj[site].measurements) > 1:
                    shutil.rmtree(str(here))
            elif change == "calibrated":
                calibration(ctx, path, rng.randrange(4))
            elif change == "parameters":
                config = make_config(rng).copy(update={"name": config.name})
        env = letsgo.load(path, config) if rng.random() < 0.5 else letsgo.reload(letsgo.ResisticsEnvironment(proj=env.proj, config=config))
        what = f"{names} {config.json()[:300]}"
        scratch = base / f"scratch{step}"
        letsgo.new(scratch, env.proj.metadata.dict())
        for part in ("time", "calibrate"):
            shutil.rmtree(str(scratch / part))
            shutil.copytree(str(path / part), str(scratch / part))
        fresh = letsgo.load(scratch, config)
        in_site = rng.choice([None] + sorted(env.proj.sites))
        outs = []
        for e, p in ((env, path), (fresh, scratch)):
            with ctx.no_error("process", what):
                process_all(e)
            evals = {
                (s.name, m): evals_of(p, s.name, m, config) for s in e.proj.sites.values() for m in s.measurements
            }
            try:
                sol = letsgo.process_evals_to_tf(e, fs, "A", in_site)
                file = [f for f in get_results_path(p, "A", config.name).iterdir()]
                ctx.check(len(file) == 1, "result-files", f"{what}: {file}")
                read = solution_of(file[0])
                ctx.check(read[2] == {k: {"real": list(c.real), "imag": list(c.imag)} for k, c in sol.components.items()}, "result-file", what)
            except Exception as exc:
                read = type(exc).__name__
            outs.append((evals, read))
        ctx.check(sorted(outs[0][0]) == sorted(outs[1][0]), "same-measurements", f"{what}: {sorted(outs[0][0])}")
        for key in outs[1][0]:
            ctx.check(same(outs[0][0][key], outs[1][0][key]), "evals-as-from-scratch", lambda: f"{what}: {key}")
            ctx.observe("spectra_compared")
        ctx.check(same(outs[0][1], outs[1][1], 1e-4), "solution-as-from-scratch", lambda: f"{what}: {str(outs[0][1])[:300]} expected {str(outs[1][1])[:300]}")
        ctx.observe("solutions_compared" if not isinstance(outs[0][1], str) else "solutions_failed_alike")
    ctx.case((tuple(names), ctx.index))
