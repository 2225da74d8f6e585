"""C30: generated example data are consistent and hold what they describe"""
import numpy as np

from resistics import testing
from resistics.sampling import to_datetime
from resistics.transfunc import ImpedanceTensor
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, delta_fraction, diff_seconds

TIMES = ["2020-01-01 00:00:00", "1999-12-31 23:59:59.5", "2021-02-03T04:05:06.123456789", "2050-06-30 12:00:00.000001"]
MT = ["Ex", "Ey", "Hx", "Hy"]


def same_times(ctx, meta, fs, first, n, what):
    """The metadata say what was asked for, and the last time is that of the last sample"""
    ctx.check(meta.fs == fs and meta.n_samples == n, "sizes", f"{what}: {meta.fs} {meta.n_samples}")
    ctx.check(abs(diff_seconds(meta.first_time, to_datetime(first))) < 1e-15, "first-time", f"{what}: {meta.first_time}")
    err = abs(float(diff_seconds(meta.last_time, meta.first_time)) - (n - 1) / fs)
    ctx.check(err <= 1e-9 + 1e-14 * n / fs, "last-time", f"{what}: {meta.last_time} is off by {err} s")
    ctx.observe("metadata_checked")


@scenario("C30", "time_data", quick=250)
def time_data(ctx):
    rng = ctx.rng
    fs, first = float(rng.choice(FS_COMMON)), rng.choice(TIMES)
    n = rng.choice([2, 3, 10, 11, 1000, 20000])
    dtype = rng.choice([None, np.float32, np.float64])
    kind = rng.choice(["ones", "simple", "nans", "linear", "random", "periodic", "offset"])
    what = f"{kind} fs {fs} first {first} n {n} {dtype}"
    kw = dict(fs=fs, first_time=first, dtype=dtype)
    ctx.case((what, ctx.index))
    chans = MT
    tone = [rng.uniform(0.01, 0.4) * fs for _ in range(rng.randint(0, 3))]
    shift = rng.choice([0, 0.05, 0.5, 3.25])
    if kind in ("ones", "linear", "random"):
        td = getattr(testing, f"time_data_{kind}")(n_samples=n, **kw)
    elif kind == "periodic":
        td, chans = testing.time_data_periodic(tone, n_samples=n, **kw), ["chan1"]
    elif kind == "offset":
        td, chans = testing.time_data_with_offset(shift, n_samples=n, **kw), ["chan1"]
    else:
        td, n = (testing.time_data_simple if kind == "simple" else testing.time_data_with_nans)(**kw), 16
    meta = td.metadata
    ctx.check(meta.chans == chans and meta.n_chans == len(chans), "channels", f"{what}: {meta.chans}")
    ctx.check(set(meta.chans_metadata) == set(chans), "channels", what)
    ctx.require(td.data.shape == (len(chans), n), "shape", f"{what}: {td.data.shape}")
    ctx.check(td.data.dtype == (dtype or np.float32), "dtype", f"{what}: {td.data.dtype}")
    start = to_datetime(first)
    if kind == "offset":
        got = float(diff_seconds(meta.first_time, start))
        ctx.check(abs(got - shift) < 1e-8, "offset", f"{what}: starts {got} s later, not {shift}")
        start = meta.first_time
    same_times(ctx, meta, fs, start, n, what)
    ctx.check(len(meta.history.records) == 1, "record", f"{what}: {meta.history}")
    creator = meta.history.records[0].creator
    ctx.check(creator["fs"] == fs and "name" in creator, "record", f"{creator}")
    ramp = np.arange(n)
    if kind == "ones":
        ctx.equal(td.data, np.ones((4, n), dtype=td.data.dtype), "values", what)
    elif kind in ("linear", "offset"):
        ctx.equal(td.data, np.tile(ramp, (len(chans), 1)).astype(td.data.dtype), "values", what)
    elif kind == "periodic":
        want = sum((np.sin(2 * np.pi * f * ramp / fs) for f in tone), np.zeros(n))
        ctx.close_to(td.data[0], want, "values", what, rtol=1e-4, atol=1e-4)
    elif kind == "random":
        ctx.check(np.isfinite(td.data).all() and (n < 1000 or 2.5 < td.data.std() < 3.5), "values", f"{what} {td.data.std()}")
        other = testing.time_data_random(n_samples=n, **kw)
        ctx.check(not np.array_equal(other.data, td.data), "values", "twice the same random data")
    elif kind == "nans":
        ctx.check(np.isnan(td.data).any(axis=1).all() and not np.isnan(td.data).all(axis=1).any(), "values", what)
        same = testing.time_data_simple(**kw).data
        ctx.check(same.shape == td.data.shape, "values", what)
    else:
        ctx.check(np.isfinite(td.data).all(), "values", what)
    # a fresh object every time
    keep = build.snapshot(meta)
    again = testing.time_data_ones(fs, first, n)
    again.data[...] = 5
    again.metadata.history.records.clear()
    ctx.check(build.snapshot(meta) == keep and testing.time_data_ones(fs, first, n).data.max() == 1, "fresh", what)


@scenario("C30", "decimated", quick=80)
def decimated(ctx):
    rng = ctx.rng
    fs, first = float(rng.choice([0.25, 1, 10, 3])), rng.choice(TIMES)
    n, n_levels, factor = rng.choice([10, 64, 1024]), rng.randint(1, 4), rng.choice([2, 3, 4])
    kind = rng.choice(["random", "linear", "periodic"])
    kw = dict(fs=fs, first_time=first, n_samples=n, n_levels=n_levels, factor=factor)
    what = f"{kind} {kw}"
    ctx.case((what, ctx.index))
    tones = {c: [rng.uniform(0.01, 2) * fs for _ in range(2)] for c in ("chan1", "chan2")}
    if kind == "periodic":
        data = testing.decimated_data_periodic(tones, **kw)
    else:
        data = getattr(testing, f"decimated_data_{kind}")(**kw)
    meta = data.metadata
    ctx.check(meta.n_levels == n_levels == len(meta.levels_metadata) == len(data.data), "levels", what)
    ctx.check(meta.chans == ["chan1", "chan2"] == list(tones), "channels", f"{meta.chans}")
    for level in range(n_levels):
        up = factor ** (n_levels - 1 - level)
        lm = meta.levels_metadata[level]
        same_times(ctx, lm, fs * up, first, n * up, f"{what} level {level}")
        ctx.check(meta.fs[level] == fs * up, "sizes", what)
        ctx.require(data.get_level(level).shape == (2, n * up), "shape", f"{what}: {data.get_level(level).shape}")
        ramp = np.arange(n * up)
        if kind == "linear":
            ctx.equal(data.get_level(level), np.array([ramp, -ramp]), "values", what)
        elif kind == "periodic":
            for row, c in zip(data.get_level(level), meta.chans):
                want = sum((np.sin(2 * np.pi * f * ramp / lm.fs) for f in tones[c] if f <= lm.fs / 2), np.zeros(ramp.size))
                ctx.close_to(row, want, "values", f"{what} {c}", rtol=1e-7, atol=1e-9)
        else:
            ctx.check(np.isfinite(data.get_level(level)).all(), "values", what)
    ctx.check(len(meta.history.records) == 1, "record", what)


@scenario("C30", "others", quick=60)
def others(ctx):
    """Spectra, regression inputs, solutions and records"""
    rng = ctx.rng
    n_levels = rng.randint(1, 5)
    n_wins = rng.choice([2, 5, [rng.randint(1, 9) for _ in range(n_levels)]])
    offset = rng.choice([0, 3, [rng.randint(0, 9) for _ in range(n_levels)]])
    fs = rng.choice([128.0, 10.0])
    chans = rng.choice([None, ["chan1", "chan2"], ["chan2", "chan1"]])
    ctx.case((n_levels, n_wins, offset, fs, chans, ctx.index))
    meta = testing.spectra_metadata_multilevel(fs, n_levels, n_wins, offset, chans)
    ctx.check(meta.n_levels == n_levels == len(meta.levels_metadata) == len(meta.fs), "levels", f"{meta.n_levels}")
    ctx.check(meta.chans == (chans or ["chan1", "chan2"]), "channels", f"{meta.chans}")
    for level, lm in enumerate(meta.levels_metadata):
        ctx.check(lm.n_wins == (n_wins if isinstance(n_wins, int) else n_wins[level]), "sizes", f"{lm}")
        ctx.check(lm.index_offset == (offset if isinstance(offset, int) else offset[level]), "sizes", f"{lm}")
        ctx.check(meta.fs[level] == lm.fs and lm.n_freqs == len(lm.freqs) and max(lm.freqs) <= lm.fs / 2, "sizes", f"{lm}")
        ctx.check(lm.fs == fs if level == 0 else lm.fs < meta.fs[level - 1], "level-fs", f"{meta.fs}")
    ctx.check(meta.ref_time == meta.first_time, "ref-time", f"{meta.ref_time}")
    for bad in (["a"], ["a", "b", "c"]):
        ctx.raises(lambda: testing.spectra_metadata_multilevel(chans=bad), ValueError, "wrong-channels", bad)
    spec = testing.spectra_data_basic()
    lm = spec.metadata.levels_metadata[0]
    ctx.check(spec.get_level(0).shape == (lm.n_wins, spec.metadata.n_chans, lm.n_freqs), "shape", f"{spec.get_level(0).shape}")
    ctx.check(np.iscomplexobj(spec.get_level(0)) and lm.freqs[-1] <= lm.fs / 2, "values", "basic spectra")
    sol = testing.solution_mt()
    ctx.check(sol.tf == ImpedanceTensor() and sol.n_freqs == 5 == len(sol.freqs), "solution", f"{sol.tf}")
    parts = testing.components_mt()
    ctx.check(set(parts) == {"ExHx", "ExHy", "EyHx", "EyHy"} == set(sol.components), "solution", f"{list(parts)}")
    for k in range(5):
        z = sol.get_tensor(k)
        for o, out in enumerate(["Ex", "Ey"]):
            for i, inp in enumerate(["Hx", "Hy"]):
                c = parts[out + inp]
                ctx.check(z[o, i] == complex(c.real[k], c.imag[k]), "solution", f"{out}{inp} {k}")
    freqs = [float(k + 1) for k in range(rng.randint(1, 6))]
    reg = testing.regression_input_metadata_mt(fs, freqs)
    for name, want in (("out_data", ["Ex", "Ey"]), ("in_data", ["Hx", "Hy"]), ("cross_data", ["Hx", "Hy"])):
        site = reg.contributors[name]
        ctx.check(site.chans == want and site.eval_freqs == freqs and site.n_evals == len(freqs), "regression", f"{site}")
        ctx.check(set(site.histories) == set(site.measurements) and site.fs == fs, "regression", f"{site}")
    a, b = testing.record_example1(), testing.record_example2()
    history = testing.history_example()
    ctx.check([r.creator for r in history.records] == [a.creator, b.creator], "records", f"{history}")
    ctx.check([r.messages for r in history.records] == [a.messages, b.messages], "records", f"{history}")
    for fnc, chans in ((testing.time_metadata_1chan, ["chan1"]), (testing.time_metadata_2chan, ["chan1", "chan2"]), (testing.time_metadata_mt, MT)):
        f, n, first = float(rng.choice(FS_COMMON)), rng.choice([2, 11, 10 ** 6]), rng.choice(TIMES)
        tm = fnc(f, first, n)
        same_times(ctx, tm, f, first, n, fnc.__name__)
        ctx.check(tm.chans == chans and list(tm.chans_metadata) == chans and tm.n_chans == len(chans), "channels", f"{tm.chans}")
        for c in chans:
            ctx.check(tm.chans_metadata[c].name == c and len(tm.chans_metadata[c].data_files) == 1, "channels", c)
    ctx.check(delta_fraction(testing.time_metadata_mt(10.0, TIMES[0], 11).duration) == 1, "duration", "11 samples at 10 Hz")
