"""C27: plots show points of the data"""
from fractions import Fraction

import numpy as np
import pandas as pd

from resistics.calibrate import CalibrationData
from resistics.plot import apply_lttb, lttb_downsample
from resistics.time import TimeData
from resistics.window import inc_duration, win_duration
from rt import build
from rt.checks.c16_evals import spec_data
from rt.core import scenario
from rt.util import diff_seconds, make_time, pick_fs


def fill(rng, nprs, n, dtype):
    """Signals: noise, steps, constants, spikes, offsets beyond single precision, gaps"""
    kind = rng.choice(["noise", "noise", "constant", "spikes", "offset", "steps", "large"])
    y = nprs.randn(n)
    if kind == "constant":
        y = np.full(n, 3.0)
    elif kind == "spikes":
        y = np.zeros(n)
        y[nprs.choice(n, max(1, n // 50), replace=False)] = nprs.randn(max(1, n // 50)) * 100
    elif kind == "offset":
        y = y * 1e-3 + 12345.678
    elif kind == "steps":
        y = np.round(np.cumsum(y))
    elif kind == "large":
        y = y * 2 ** 28
    if np.dtype(dtype).kind in "iu":
        return np.round(y * 100 if kind == "noise" else y).astype(dtype)
    y = y.astype(dtype)
    if rng.random() < 0.3:
        if rng.random() < 0.1:
            y[:] = np.nan
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(n)
            y[a:a + rng.randint(1, max(1, n // 4))] = np.nan
    return y


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def check_reduction(ctx, y, idx, val, max_pts, what):
    n = y.size
    idx, val = np.asarray(idx), np.asarray(val)
    ctx.require(idx.shape == val.shape, "sizes", f"{what}: {idx.shape} {val.shape}")
    if max_pts is None or max_pts >= n:
        ctx.check(same(val, y) and same(idx, np.arange(n)), "all-points", what)
        return
    ctx.check(idx.size <= max_pts, "max-points", f"{what}: {idx.size}")
    ctx.require(idx.min() >= 0 and idx.max() < n, "index-range", f"{what}: {idx.min()} to {idx.max()}")
    ctx.check(bool(np.all(np.diff(idx) > 0)), "index-order", f"{what}: {idx}")
    ctx.check(idx[0] == 0 and idx[-1] == n - 1, "ends", f"{what}: {idx[0]} to {idx[-1]}")
    ctx.check(same(val, y[idx]), "points-of-data", lambda: f"{what}: {val[:20]} at {idx[:20]} are {y[idx][:20]}")
    # a reduction keeps the shape: no large stretch is left without a point
    ctx.check(
        int(np.diff(idx).max()) <= 3 * n / max(1, max_pts - 2) + 2, "stretch", f"{what}: gap of {np.diff(idx).max()}",
    )
    ctx.observe("points_compared", idx.size)


@scenario("C27", "reduction", quick=300)
def reduction(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 17, 100, 999, 5000, 20000])
    dtype = rng.choice([np.float64, np.float64, np.float32, np.int32, np.int64])
    y = fill(rng, ctx.np, n, dtype)
    max_pts = rng.choice([None, 3, 4, 10, 50, n - 1, n, n + 1, 1000])
    if max_pts is not None:
        max_pts = max(3, max_pts)
    what = f"{n} {np.dtype(dtype).name} to {max_pts}"
    ctx.case((what, y.tobytes()))
    before = y.copy()
    with ctx.no_error("lttb", what):
        idx, val = apply_lttb(y, max_pts)
    ctx.check(same(y, before), "input-unchanged", what)
    ctx.check(np.asarray(val).dtype == y.dtype, "dtype", f"{what}: {np.asarray(val).dtype}")
    check_reduction(ctx, y, idx, val, max_pts, what)
    if max_pts is None:
        return
    # any increasing x, such as frequencies or seconds
    x = np.cumsum(np.abs(ctx.np.randn(n)) + 1e-3) + rng.choice([0, 1e9])
    if rng.random() < 0.3:
        x = np.arange(n) + 2 ** 25
    with ctx.no_error("lttb", what):
        nx, ny = lttb_downsample(x, y, max_pts)
    pos = {v: i for i, v in enumerate(x.tolist())}
    ok = all(v in pos for v in np.asarray(nx).tolist())
    ctx.require(ok, "x-of-data", lambda: f"{what}: {nx[:10]}")
    check_reduction(ctx, y, [pos[v] for v in np.asarray(nx).tolist()], ny, max_pts, what)
    ctx.raises(lambda: lttb_downsample(np.append(x, 1), y, max_pts), ValueError, "size-mismatch", what)


@scenario("C27", "long_data", quick=2, thorough=6, timeout=300)
def long_data(ctx):
    """More samples than single precision can count: a day or two of ordinary recording"""
    n = 2 ** 24 + 4 + ctx.index * 3
    y = np.zeros(n, dtype=np.float32)
    at = ctx.np.randint(0, n, 50)
    y[at] = ctx.np.randn(50)
    max_pts = ctx.rng.choice([10, 1000])
    ctx.case((n, max_pts, at.tobytes()), f"{n} samples to {max_pts}")
    idx, val = apply_lttb(y, max_pts)
    check_reduction(ctx, y, idx, val, max_pts, f"{n} to {max_pts}")


def check_trace(ctx, trace, y, first, fs, max_pts, what):
    """Every plotted point is a sample of y at its own time"""
    times = pd.DatetimeIndex(trace.x)
    idx = []
    for stamp in times:
        pos = diff_seconds(build.to_atto(stamp), first) * Fraction(fs)
        near = round(pos)
        # times in figures have microseconds
        if abs(pos - near) > Fraction(1, 50) + Fraction(fs) * Fraction(11, 10 ** 7):
            ctx.check(False, "point-time", f"{what}: {stamp} is sample {float(pos)}")
            return
        idx.append(near)
    ctx.check(True, "point-time")
    check_reduction(ctx, y, idx, trace.y, max_pts, what)


def traces_of(fig, row):
    """Traces of a row of a figure, in order"""
    axis = "y" if row == 1 else f"y{row}"
    return [t for t in fig.data if (t.yaxis or "y") == axis]


@scenario("C27", "time_plots", quick=50, timeout=240)
def time_plots(ctx):
    rng = ctx.rng
    n = rng.choice([2, 50, 300, 900, 4000])
    fs = min(pick_fs(rng), 65536.0)
    dtype = rng.choice([np.float64, np.float32, np.int32])
    chans = build.pick_chans(rng)
    data = np.array([fill(rng, ctx.np, n, dtype) for _ in chans])
    # pandas times have nanoseconds and four centuries
    first = make_time(rng, subns=False)
    td = TimeData(build.time_metadata(fs, n, first, chans), data)
    max_pts = rng.choice([3, 20, 100, n, None, 10000])
    if max_pts is None and n > 900:
        max_pts = 500
    selected = rng.choice([None, rng.sample(chans, rng.randint(1, len(chans)))])
    what = f"{n} samples {fs} Hz {chans} plotted {selected} {max_pts}"
    ctx.case((what, data.tobytes()))
    with ctx.no_error("time-plot", what):
        kw = {} if max_pts == 10000 else {"max_pts": max_pts}
        fig = td.plot(chans=selected, **kw)
    shown = selected or chans
    ctx.require(len(fig.data) == len(shown), "n-traces", f"{what}: {len(fig.data)}")
    titles = [a.text for a in fig.layout.annotations]
    ctx.require(titles == [f"Channel {c}" for c in shown], "titles", f"{what}: {titles}")
    for i, chan in enumerate(shown):
        found = traces_of(fig, i + 1)
        ctx.require(len(found) == 1, "trace-row", f"{what} {chan}: {len(found)}")
        check_trace(ctx, found[0], td[chan], first, fs, max_pts, f"{what} {chan}")
    # a second recording added to the same figure
    if rng.random() < 0.4:
        other = TimeData(build.time_metadata(fs, n, first, chans), data[::-1].copy())
        with ctx.no_error("time-plot-add", what):
            fig = other.plot(fig=fig, chans=shown, max_pts=max_pts)
        for i, chan in enumerate(shown):
            found = traces_of(fig, i + 1)
            ctx.require(len(found) == 2, "trace-row", f"{what} {chan}: {len(found)}")
            check_trace(ctx, found[1], other[chan], first, fs, max_pts, f"{what} {chan} second")
        ctx.raises(lambda: td.plot(fig=fig), ValueError, "figure-without-channels", what)


@scenario("C27", "decimated_plots", quick=30, timeout=240)
def decimated_plots(ctx):
    rng = ctx.rng
    n_levels = rng.choice([1, 2, 5, 11, 13])
    fs, n = float(rng.choice([1, 16, 128, 4096])), 2000
    levels = [(fs / 2 ** i, max(5, n // 2 ** i)) for i in range(n_levels)]
    first = make_time(rng, subns=False)
    chans = build.pick_chans(rng)[:3]
    dd = build.dec_data(rng, ctx.np, first, levels, chans)
    max_pts = rng.choice([3, 50, 200])
    what = f"{n_levels} levels {chans} {max_pts}"
    ctx.case((what, dd.data[0].tobytes()))
    with ctx.no_error("dec-plot", what):
        fig = dd.plot(max_pts=max_pts)
    ctx.require(len(fig.data) == n_levels * len(chans), "n-traces", f"{what}: {len(fig.data)}")
    for i, chan in enumerate(chans):
        found = traces_of(fig, i + 1)
        ctx.require(len(found) == n_levels, "trace-row", f"{what} {chan}: {len(found)}")
        for level, trace in enumerate(found):
            check_trace(ctx, trace, dd.data[level][i], first, levels[level][0], max_pts, f"{what} {chan} level {level}")


@scenario("C27", "spectra_plots", quick=60, timeout=240)
def spectra_plots(ctx):
    rng = ctx.rng
    n_levels = rng.choice([1, 2, 3, 11])
    sd = spec_data(ctx, n_levels=n_levels, max_wins=6)
    chans = sd.metadata.chans
    max_pts = rng.choice([3, 10, 10000])
    what = f"{n_levels} levels {chans} {max_pts}"
    ctx.case((what, sd.data[0].tobytes()))

    def check_stack(trace, freqs, values, w):
        where = {f: i for i, f in enumerate(freqs)}
        ctx.require(all(f in where for f in list(trace.x)), "stack-freqs", f"{w}: {trace.x}")
        idx = np.array([where[f] for f in list(trace.x)])
        n = len(freqs)
        ctx.check(len(idx) <= max(max_pts, 3), "stack-points", f"{w}: {len(idx)}")
        ctx.check(idx[0] == 0 and idx[-1] == n - 1, "stack-ends", f"{w}: {idx}")
        ctx.close_to(trace.y, values[idx], "stack-values", w, rtol=1e-9)
        ctx.observe("spectra_traces")

    with ctx.no_error("spectra-plot", what):
        fig = sd.plot(max_pts=max_pts)
    for i, chan in enumerate(chans):
        found = traces_of(fig, i + 1)
        ctx.require(len(found) == n_levels, "stack-traces", f"{what} {chan}: {len(found)}")
        for level, trace in enumerate(found):
            mean = np.abs(sd.data[level][:, i]).mean(axis=0)
            check_stack(trace, sd.metadata.levels_metadata[level].freqs, mean, f"{what} {chan} level {level}")

    level = rng.randrange(n_levels)
    lm = sd.metadata.levels_metadata[level]
    if lm.n_wins == 0:
        return
    if rng.random() < 0.3:
        # windows which are hours or days apart
        lm.fs = lm.win_size / rng.choice([3600.0, 20000.0, 86400.0, 250000.0])
        wins = sd.metadata.ref_time + inc_duration(lm.win_size, lm.olap_size, lm.fs) * lm.index_offset
        sd.metadata.first_time = wins
        sd.metadata.last_time = wins + inc_duration(lm.win_size, lm.olap_size, lm.fs) * lm.n_wins + win_duration(lm.win_size, lm.fs)
        lm.freqs = (np.arange(lm.n_freqs) * lm.fs / lm.win_size).tolist()
    starts = sd.get_timestamps(level)
    step = pd.Timedelta((lm.win_size - lm.olap_size) / lm.fs, unit="s")
    grouping = rng.choice([None, step * 0.4, step * 2.5, step, "30T"])
    if isinstance(grouping, str) and step * lm.n_wins > pd.Timedelta("10d"):
        grouping = step * 2
    if grouping is not None and not isinstance(grouping, str) and grouping < pd.Timedelta("100us"):
        return
    kw = {}
    if rng.random() < 0.5:
        kw["offset"] = rng.choice(["0h", "6h", "90min", "11s", "1ms"])
        if grouping is not None and rng.random() < 0.6:
            kw["offset"] = f"{int(pd.Timedelta(grouping).value * rng.uniform(0.05, 0.95))}ns"
    w = f"{what} level {level} step {step} grouped {grouping} {kw}"
    with ctx.no_error("stack-plot", w):
        fig = sd.plot_level_stack(level, max_pts=max_pts, grouping=grouping, **kw)
    freq = grouping
    if freq is None:
        # one group: the days the recording spans
        first = pd.Timestamp(sd.metadata.first_time.isoformat()).floor("D")
        freq = pd.Timestamp(sd.metadata.last_time.isoformat()).ceil("D") - first
    bins = group_bins(starts, pd.Timedelta(freq), kw.get("offset", "0h"))
    members = [[k for k in range(lm.n_wins) if bins[k] == b] for b in sorted(set(bins))]
    for i, chan in enumerate(chans):
        found = traces_of(fig, i + 1)
        ctx.require(len(found) == len(members), "group-traces", f"{w} {chan}: {len(found)} expected {len(members)}")
        for trace, wins in zip(found, members):
            mean = np.abs(sd.data[level][wins][:, i]).mean(axis=0)
            check_stack(trace, lm.freqs, mean, f"{w} {chan} windows {wins}")
    if grouping is None:
        grouping = "30T"
        if step * lm.n_wins > pd.Timedelta("10d"):
            grouping = step * 2
    bins = group_bins(starts, pd.Timedelta(grouping))
    members = [[k for k in range(lm.n_wins) if bins[k] == b] for b in sorted(set(bins))]
    with ctx.no_error("section-plot", w):
        fig = sd.plot_level_section(level, grouping=grouping)
    ctx.require(len(fig.data) == len(chans), "section-traces", f"{w}: {len(fig.data)}")
    for i, chan in enumerate(chans):
        z = np.array(traces_of(fig, i + 1)[0].z, dtype=float)
        ctx.require(z.shape[0] == lm.n_freqs, "section-shape", f"{w}: {z.shape}")
        shown = z[:, ~np.isnan(z).all(axis=0)]
        want = np.array([np.log10(np.abs(sd.data[level][wins][:, i]).mean(axis=0)) for wins in members]).T
        ctx.close_to(shown, want, "section-values", f"{w} {chan}", rtol=1e-9)


def group_bins(starts, freq, offset="0h"):
    """Bin of each time, counting from the start of the first day, or so long after it"""
    origin = starts[0].normalize() + pd.Timedelta(offset)
    return [(t - origin) // freq for t in starts]


@scenario("C27", "calibration_plots", quick=40)
def calibration_plots(ctx):
    rng = ctx.rng
    n = rng.randint(1, 40)
    freqs = np.sort(10 ** ctx.np.uniform(-4, 4, n)).tolist()
    mags, phs = (10 ** ctx.np.randn(n)).tolist(), ctx.np.uniform(-3, 3, n).tolist()
    cal = CalibrationData(
        file_path=None, serial=1, sensor="x", static_gain=1, frequency=freqs, magnitude=mags,
        phase=phs, n_samples=n,
    )
    ctx.case((freqs, mags))
    with ctx.no_error("cal-plot", str(n)):
        fig = cal.plot()
    for row, values in ((1, mags), (2, phs)):
        found = traces_of(fig, row)
        ctx.require(len(found) == 1, "cal-traces", str(len(found)))
        ctx.equal(found[0].x, freqs, "cal-freqs")
        ctx.equal(found[0].y, values, "cal-values")
