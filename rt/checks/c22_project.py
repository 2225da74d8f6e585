"""C22: a loaded project is what is on disk"""
import itertools
from pathlib import Path

import numpy as np
import pandas as pd

from resistics import letsgo
from resistics.common import fs_to_string
from resistics.config import Configuration
from resistics.project import (
    PROJ_DIRS, ProjectMetadata, get_calibration_path, get_mask_name, get_mask_path,
    get_meas_evals_path, get_meas_features_path, get_meas_spectra_path, get_meas_time_path,
    get_results_path, get_solution_name,
)
from resistics.sampling import datetime_to_string, to_timedelta
from resistics.time import TimeReaderAscii, TimeReaderNumpy
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, diff_seconds, make_time, time_tolerance

NAMES = ["site1", "Site1", "MT 01", "b.2", "01", "ref-site", "É3", "time", "x", "y_z", "spectra", "10", "9", "_old", "~tmp", "#2", "-s"]
MEAS = ["meas_2020", "Meas_2020", "run 1", "128Hz", "0", "a.b", "ü", "metadata", "run10", "run9", "_m", "~1", "#a", "-0"]


class Scribe:
    """Writes a tree of sites and measurements and remembers what a load is to find"""

    def __init__(self, ctx, path):
        self.ctx = ctx
        self.path = path
        self.rng = ctx.rng
        self.expected = {}
        self.readers = [TimeReaderNumpy(), TimeReaderAscii(), TimeReaderAscii(extension=".dat", n_header=1)]
        self.rng.shuffle(self.readers)
        self.readers = self.readers[:self.rng.randint(1, 3)]
        self.time = make_time(self.rng, subns=False)
        self.fs = [float(x) for x in self.rng.sample(FS_COMMON, self.rng.randint(1, 3))]

    def site(self, name):
        (self.path / "time" / name).mkdir()
        self.expected[name] = {}

    def measurement(self, site, name, kind=None):
        rng = self.rng
        fs = rng.choice(self.fs)
        n = rng.choice([rng.randint(2, 60), rng.randint(2, 60), 20000])
        first = self.time + to_timedelta(float(rng.randint(0, 10 ** 6)))
        others = [m[0] for ms in self.expected.values() for m in ms.values()]
        if others and rng.random() < 0.5:
            # within, touching or next to another measurement
            other = rng.choice(others)
            part = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
            if part == 1.0:
                # begins with the very last sample of the other
                first = other.last_time
            else:
                first = other.first_time + to_timedelta(round(part * float(diff_seconds(other.last_time, other.first_time)), 3))
        td = build.time_data(rng, self.ctx.np, fs, n, first, dtype=np.float32)
        td.data = np.round(td.data, 2)
        meta = td.metadata
        meta.system = rng.choice(["", "LEMI"])
        meta.serial = str(rng.randint(0, 99))
        path = self.path / "time" / site / name
        kind = kind or rng.choice(["npy", "txt", "dat"])
        if kind == "npy":
            build.write_npy(path, meta, td.data)
        elif kind == "txt":
            build.write_txt(path, meta, td.data, name="data.txt")
        else:
            build.write_txt(path, meta, td.data, name="data.dat", header=1)
        suffix = "." + kind
        able = [r for r in self.readers if r.extension == suffix]
        if able:
            self.expected[site][name] = (meta, td.data, suffix)
        else:
            self.expected[site].pop(name, None)

    def broken(self, site, name):
        """Something in the place of a measurement that cannot be read"""
        rng = self.rng
        path = self.path / "time" / site / name
        kind = rng.choice(["empty", "no-metadata", "no-data", "bad-json", "half-json", "other-json", "nested", "list", "binary"])
        td = build.time_data(rng, self.ctx.np, 10.0, 20)
        if kind == "empty":
            path.mkdir()
            return kind
        build.write_npy(path, td.metadata, td.data)
        meta = path / "metadata.json"
        if kind == "no-metadata":
            meta.unlink()
        elif kind == "no-data":
            (path / "data.npy").unlink()
        elif kind == "bad-json":
            meta.write_text("{ no json")
        elif kind == "half-json":
            text = meta.read_text()
            meta.write_text(text[:len(text) // 2])
        elif kind == "other-json":
            meta.write_text('{"fs": "fast", "chans": 3}')
        elif kind == "list":
            meta.write_text("[]")
        elif kind == "binary":
            meta.write_bytes(bytes(range(256)))
        elif kind == "nested":
            (path / "inner").mkdir()
            for f in list(path.iterdir()):
                if f.is_file():
                    f.rename(path / "inner" / f.name)
        return kind

    def noise(self):
        """Files and hidden directories, which are no sites or measurements"""
        rng = self.rng
        time = self.path / "time"
        (time / "notes.txt").write_text("not a site")
        td = build.time_data(rng, self.ctx.np, 10.0, 20)
        build.write_npy(time / ".hidden" / "m0", td.metadata, td.data)
        for site in self.expected:
            if rng.random() < 0.5:
                (time / site / "metadata.json").write_text(td.metadata.json())
                (time / site / "data.npy").write_bytes(b"x")
            if rng.random() < 0.5:
                build.write_npy(time / site / ".trash", td.metadata, td.data)

    def tree(self, empty_sites=True):
        rng = self.rng
        for site in rng.sample(NAMES, rng.randint(0, 4)):
            self.site(site)
            names = rng.sample(MEAS, rng.randint(0 if empty_sites else 1, 5))
            for i, name in enumerate(names):
                if rng.random() < 0.7:
                    self.measurement(site, name)
                else:
                    self.ctx.observe("broken:" + self.broken(site, name))
        if rng.random() < 0.7:
            self.noise()

    def config(self):
        return Configuration(name="c", time_readers=self.readers)


def check_project(ctx, proj, scribe):
    exp = scribe.expected
    path = scribe.path
    ctx.check(set(proj.sites) == set(exp), "sites", f"{sorted(proj.sites)} expected {sorted(exp)}")
    ctx.check(proj.n_sites == len(exp), "sites", f"{proj.n_sites}")
    ctx.check(sorted(s.name for s in proj) == sorted(exp), "sites", "iteration")
    ctx.check(Path(proj.dir_path) == path, "project-path", str(proj.dir_path))
    begins, ends = {}, {}
    for name, measurements in exp.items():
        site = proj[name]
        ctx.check(site.name == name and site.dir_path == path / "time" / name, "site-path", str(site.dir_path))
        ctx.require(
            set(site.measurements) == set(measurements), "measurements",
            lambda: f"{name}: {sorted(site.measurements)} expected {sorted(measurements)}",
        )
        ctx.check(site.n_meas == len(measurements), "measurements", f"{site.n_meas}")
        ctx.check(sorted(m.name for m in site) == sorted(measurements), "measurements", "iteration")
        for mname, (meta, data, suffix) in measurements.items():
            meas = site[mname]
            ctx.observe("measurements_checked")
            ctx.check(
                meas.name == mname and meas.site_name == name and meas.dir_path == path / "time" / name / mname,
                "measurement-path", f"{meas.site_name} {meas.dir_path}",
            )
            got = meas.metadata
            ctx.check(
                (got.fs, got.chans, got.n_samples, got.serial, got.system)
                == (meta.fs, meta.chans, meta.n_samples, meta.serial, meta.system),
                "measurement-metadata", lambda: f"{name} {mname}: {got} expected {meta}",
            )
            for a, b in ((got.first_time, meta.first_time), (got.last_time, meta.last_time)):
                ctx.check(abs(diff_seconds(a, b)) <= 10 ** -15, "measurement-metadata", f"{a} {b}")
            ctx.check(meas.reader.extension == suffix, "measurement-reader", f"{meas.reader} for {suffix}")
            with ctx.no_error("read"):
                td = meas.reader.run(meas.dir_path, metadata=meas.metadata)
            ctx.close_to(td.data, data, "measurement-data", mname, rtol=1e-6)
        ctx.check(
            site.fs() == sorted({m[0].fs for m in measurements.values()}), "site-fs", f"{site.fs()}",
        )
        for fs in scribe.fs + [12345.0]:
            want = {k for k, m in measurements.items() if m[0].fs == fs}
            got = site.get_measurements(fs=fs)
            ctx.check(set(got) == want, "site-get-measurements", f"{fs}: {sorted(got)} expected {sorted(want)}")
            for k in got:
                ctx.check(got[k] == site[k], "site-get-measurements", k)
        ctx.check(set(site.get_measurements()) == set(measurements), "site-get-measurements", "all")
        ctx.raises(lambda: site["absent"], Exception, "unknown-measurement", "absent")
        ctx.raises(lambda: site.get_measurement(""), Exception, "unknown-measurement", "absent")
        if measurements:
            begins[name] = min(m[0].first_time for m in measurements.values())
            ends[name] = max(m[0].last_time for m in measurements.values())
            ctx.check(abs(diff_seconds(site.begin_time, begins[name])) < 10 ** -12, "site-times", f"{site.begin_time}")
            ctx.check(abs(diff_seconds(site.end_time, ends[name])) < 10 ** -12, "site-times", f"{site.end_time}")
        df = site.to_dataframe()
        rows = sorted(zip(df["name"], df["fs"], df["site"]))
        want = sorted((k, m[0].fs, name) for k, m in measurements.items())
        ctx.check(rows == want, "site-dataframe", f"{rows} expected {want}")
        for _, row in df.iterrows():
            meta = measurements[row["name"]][0]
            for col, when in (("first_time", meta.first_time), ("last_time", meta.last_time)):
                err = abs(diff_seconds(build.to_atto(row[col]), when))
                ctx.check(err <= 10 ** -9, "dataframe-times", f"{row[col]} for {when}")
        if measurements:
            with ctx.no_error("plot"):
                site.plot()
        else:
            ctx.raises(site.plot, ValueError, "plot-empty", name)
    every = sorted({m[0].fs for ms in exp.values() for m in ms.values()})
    ctx.check(proj.fs() == every, "project-fs", f"{proj.fs()} expected {every}")
    for fs in scribe.fs + [12345.0]:
        want = {s for s, ms in exp.items() if any(m[0].fs == fs for m in ms.values())}
        ctx.check(set(proj.get_sites(fs)) == want, "project-get-sites", f"{fs}: {sorted(proj.get_sites(fs))} expected {sorted(want)}")
    ctx.check(set(proj.get_sites()) == set(exp), "project-get-sites", "all")
    ctx.raises(lambda: proj["absent"], Exception, "unknown-site", "absent")
    if begins:
        ctx.check(abs(diff_seconds(proj.begin_time, min(begins.values()))) < 10 ** -12, "project-times", f"{proj.begin_time}")
        ctx.check(abs(diff_seconds(proj.end_time, max(ends.values()))) < 10 ** -12, "project-times", f"{proj.end_time}")
        for name in begins:
            got = sorted(s.name for s in proj.get_concurrent(name) if s.n_meas)
            want = sorted(
                s for s in begins if s != name and begins[s] <= ends[name] and ends[s] >= begins[name]
            )
            ctx.check(got == want, "concurrent", f"{name}: {got} expected {want}")
        df = proj.to_dataframe()
        rows = sorted(zip(df["site"], df["name"], df["fs"]))
        want = sorted((s, k, m[0].fs) for s, ms in exp.items() for k, m in ms.items())
        ctx.check(rows == want, "project-dataframe", f"{rows} expected {want}")
        with ctx.no_error("plot"):
            fig = proj.plot()
        low, high = (build.to_atto(pd.Timestamp(x)) for x in fig.layout.xaxis.range)
        ctx.check(diff_seconds(min(begins.values()), low) >= 0, "plot-range", f"from {low}, first {min(begins.values())}")
        ctx.check(diff_seconds(high, max(ends.values())) >= 0, "plot-range", f"to {high}, last {max(ends.values())}")
        ctx.check(diff_seconds(proj.metadata.ref_time, low) >= 0, "plot-range", f"from {low}, reference {proj.metadata.ref_time}")
        bars = [y for trace in fig.data for y in trace.y]
        ctx.check(sorted(bars) == sorted(x[0] for x in want), "project-plot", f"{bars}")
        # a bar per recording, from its first to its last time
        drawn = sorted(
            (y, pd.Timestamp(base).value / 1e9, float(length) / 1000)
            for trace in fig.data for y, base, length in zip(trace.y, trace.base, trace.x)
        )
        bars = sorted(
            (s, pd.Timestamp(m[0].first_time.isoformat()).value / 1e9, float(diff_seconds(m[0].last_time, m[0].first_time)))
            for s, ms in exp.items() for m in ms.values()
        )
        same = [(a, b) for a, b in zip(drawn, bars) if a[0] == b[0] and abs(a[1] - b[1]) < 0.002 and abs(a[2] - b[2]) < 0.002]
        ctx.check(len(same) == len(bars), "project-bars", f"{drawn} expected {bars}")
        lines = [pd.Timestamp(s.x0) for s in fig.layout.shapes if s.type == "line" and s.x0 == s.x1]
        ref = pd.Timestamp(proj.metadata.ref_time.isoformat())
        ctx.check(any(abs(x - ref) < pd.Timedelta("2ms") for x in lines), "project-reference", f"lines {lines} reference {ref}")
    else:
        ctx.raises(proj.plot, ValueError, "plot-empty", "project")


@scenario("C22", "load", quick=160)
def load(ctx):
    """A project with all kinds of entries, loaded, changed and loaded again"""
    rng = ctx.rng
    path = ctx.scratch() / rng.choice(["proj", "my project", "a/b/c"])
    ref = make_time(rng)
    letsgo.new(rng.choice([str, Path])(path), {"ref_time": datetime_to_string(ref)})
    scribe = Scribe(ctx, path)
    scribe.tree()
    ctx.case([(s, sorted((k, m[0].fs, m[2]) for k, m in ms.items())) for s, ms in sorted(scribe.expected.items())] + [str(ref)])
    config = scribe.config()
    with ctx.no_error("load"):
        env = letsgo.load(rng.choice([str, Path])(path), config)
    ctx.check(env.config is config or env.config == config, "config", "load")
    ctx.check(abs(diff_seconds(env.proj.metadata.ref_time, ref)) < 10 ** -15, "ref-time", f"{env.proj.metadata.ref_time} expected {ref}")
    check_project(ctx, env.proj, scribe)
    before = build.snapshot(env.proj)
    # the disk changes, and a reload sees it
    for _ in range(rng.randint(1, 3)):
        free = [s for s in NAMES if s not in scribe.expected]
        r = rng.random()
        if r < 0.4 or not scribe.expected:
            site = rng.choice(free)
            scribe.site(site)
            scribe.measurement(site, rng.choice(MEAS))
        elif r < 0.7:
            site = rng.choice(sorted(scribe.expected))
            name = rng.choice([m for m in MEAS if not (path / "time" / site / m).exists()])
            scribe.measurement(site, name)
        else:
            site = rng.choice(sorted(scribe.expected))
            for name in scribe.expected[site]:
                (path / "time" / site / name / "metadata.json").unlink()
            scribe.expected[site] = {}
    with ctx.no_error("reload"):
        env2 = letsgo.reload(env)
    ctx.check(build.snapshot(env.proj) == before, "reload-leaves-old", "the environment before")
    check_project(ctx, env2.proj, scribe)
    ctx.check(env2.config == config, "config", "reload")


@scenario("C22", "create", quick=80)
def create(ctx):
    """Creating a project: everything in place, and nothing existing is touched"""
    rng = ctx.rng
    path = ctx.scratch() / "x"
    info = {
        "ref_time": datetime_to_string(make_time(rng)),
        "location": rng.choice(["", "Kap Land", "Überall \"x\""]),
        "country": rng.choice(["", "Spain"]),
        "year": rng.choice([2020, 1999]),
        "description": rng.choice(["", "line 1\nline 2"]),
        "contributors": rng.choice([[], ["a", "b"]]),
    }
    start = rng.choice(["absent", "deep", "empty", "used", "file", "subdirs"])
    if start == "deep":
        path = path / "y" / "z"
    elif start == "empty":
        path.mkdir()
    elif start == "used":
        (path / "time" / "site").mkdir(parents=True)
        (path / "time" / "site" / "note").write_text("keep me")
        (path / "other").write_text("keep me too")
    elif start == "file":
        path.write_text("keep")
    elif start == "subdirs":
        for sub in PROJ_DIRS.values():
            (path / sub).mkdir(parents=True)
    ctx.case((start, sorted((k, str(v)) for k, v in info.items())))
    ctx.raises(lambda: letsgo.load(path), Exception, "load-no-project", start)
    if start == "file":
        ctx.raises(lambda: letsgo.new(path, info), Exception, "new-over-file", start)
        ctx.check(path.read_text() == "keep", "new-over-file", "contents")
        return
    given = dict(info)
    with ctx.no_error("new"):
        letsgo.new(rng.choice([str, Path])(path), info)
    ctx.check(info == given, "info-unchanged", f"{info}")
    for sub in PROJ_DIRS.values():
        ctx.check((path / sub).is_dir(), "project-dirs", sub)
    if start == "used":
        ctx.check((path / "time" / "site" / "note").read_text() == "keep me", "existing-files", "note")
        ctx.check((path / "other").read_text() == "keep me too", "existing-files", "other")
    with ctx.no_error("load"):
        env = letsgo.load(path)
    meta = env.proj.metadata
    want = ProjectMetadata(**info)
    for name in info:
        ctx.check(getattr(meta, name) == getattr(want, name), "project-metadata", f"{name}: {getattr(meta, name)}")
    ctx.check(env.config.name == "default", "config", env.config.name)
    ctx.check(set(env.proj.sites) == ({"site"} if start == "used" else set()), "sites", f"{list(env.proj.sites)}")
    before = {f: f.read_bytes() for f in path.rglob("*") if f.is_file()}
    other = dict(info, location="elsewhere", ref_time="1980-01-01")
    ctx.raises(lambda: letsgo.new(path, other), Exception, "new-twice", start)
    after = {f: f.read_bytes() for f in path.rglob("*") if f.is_file()}
    ctx.check(before == after, "new-twice", "existing project changed")
    which = rng.choice(["metadata", "time"])
    if which == "metadata":
        (path / "resistics.json").unlink()
    else:
        (path / "time").rename(path / "gone")
    ctx.raises(lambda: letsgo.load(path), Exception, "load-broken-project", which)


@scenario("C22", "paths", quick=40)
def paths(ctx):
    """Distinct data have distinct places, all of them inside the project"""
    rng = ctx.rng
    root = ctx.scratch()
    sites_ = rng.sample(NAMES, 4)
    meas = rng.sample(MEAS, 4)
    configs = rng.sample(["default", "a", "b", "time", "A b", "site1", "run9"], 3)
    fs = sorted({round(float(x), 6) for x in rng.sample(FS_COMMON, 6)} | {rng.choice([0.1, 1.0, 128.0]), rng.choice([1.1, 11.0, 10.0])})
    ctx.case((sites_, meas, configs, fs))
    seen = {}

    def place(path, what):
        path = Path(path)
        ctx.check(root in path.parents, "path-inside", f"{what}: {path}")
        ctx.check(path not in seen, "path-distinct", f"{what} and {seen.get(path)}: {path}")
        seen[path] = what
        ctx.observe("paths")

    place(get_calibration_path(root), "calibration")
    for s in sites_:
        for m in meas:
            place(get_meas_time_path(root, s, m), ("time", s, m))
            for c in configs:
                place(get_meas_spectra_path(root, s, m, c), ("spectra", s, m, c))
                place(get_meas_evals_path(root, s, m, c), ("evals", s, m, c))
                place(get_meas_features_path(root, s, m, c), ("features", s, m, c))
        for c in configs:
            for f in fs:
                place(get_mask_path(root, s, c) / get_mask_name(f, "mask"), ("mask", s, c, f))
                place(get_mask_path(root, s, c) / get_mask_name(f, "mask2"), ("mask2", s, c, f))
                for name, var in itertools.product(["ImpedanceTensor", "Tipper"], ["default", "", "other", "Other", "A b"]):
                    for postfix in (None, "p"):
                        place(
                            get_results_path(root, s, c) / get_solution_name(f, name, var, postfix),
                            ("solution", s, c, f, name, var, postfix),
                        )
    names = [fs_to_string(f) for f in fs]
    ctx.check(len(set(names)) == len(fs), "fs-distinct", f"{names}")
    for f, name in zip(fs, names):
        ctx.check(float(name.replace("_", ".")) == f and "." not in name, "fs-string", f"{f} {name}")
