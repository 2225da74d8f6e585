"""C12: windows are the exact, complete and contiguous slices of the decimated data"""
from fractions import Fraction

import numpy as np
from attotime import attotimedelta

from resistics.window import WindowParameters, Windower, WindowerTarget, get_win_table
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, delta_fraction, diff_seconds, fraction_delta, make_time


def pick_window(rng):
    win = rng.choice([4, 8, 10, 16, 33, 64, 100, 128, 257, 512])
    r = rng.random()
    if r < 0.5:
        olap = win // 4
    elif r < 0.6:
        olap = 1
    elif r < 0.75:
        olap = win // 2
    elif r < 0.9:
        olap = rng.randint(1, win - 1)
    else:
        olap = win - 1
    return win, max(1, olap)


def pick_ref(rng, first, fs, inc):
    """A reference time before the data: coincident, on the window or sample grid, or not"""
    r = rng.random()
    if r < 0.15:
        return first, "first"
    if r < 0.4:
        k = rng.choice([1, 2, 7, 1000, 10 ** 5])
        return first - fraction_delta(Fraction(k * inc) / Fraction(fs)), "window-grid"
    if r < 0.7:
        k = rng.randrange(1, 10 ** rng.randint(1, 6))
        return first - fraction_delta(Fraction(k) / Fraction(fs)), "sample-grid"
    if r < 0.85:
        return first - attotimedelta(days=rng.choice([1, 30, 400, 10000])), "days"
    return first - attotimedelta(seconds=rng.randint(0, 10 ** 6), microseconds=rng.randint(0, 999999)), "any"


def check_level(ctx, what, ref, first, fs, n, win, olap, offset, n_wins, from_samples):
    """The trace of window starts against the timeline of the level"""
    inc = win - olap
    if n_wins <= 0:
        return
    s0 = int(from_samples[0])
    ctx.check(s0 >= 0, "window-before-data", f"{what}: first sample {s0}")
    end = s0 + (n_wins - 1) * inc + win
    ctx.check(end <= n, "window-after-data", f"{what}: last window ends at {end} of {n}")
    ctx.equal(
        from_samples, s0 + inc * np.arange(n_wins), "window-spacing", what,
    )
    # in samples, where the first window should start in the data
    t0 = (Fraction(offset * inc) - diff_seconds(first, ref) * Fraction(fs))
    slack = Fraction(1, 100) + abs(offset * inc) * Fraction(1, 10 ** 13) * max(1, Fraction(fs) / 1000)
    ctx.check(
        -1 - slack <= s0 - t0 <= slack, "window-start",
        f"{what}: window {offset} starts at sample {s0}, its time is sample {float(t0)}",
    )
    # off the sample grid, windows whose time is within a sample of an end may go either way
    on_grid = abs(t0 - round(t0)) < Fraction(1, 10 ** 6) and offset * inc < 10 ** 7
    extra = 0 if on_grid else 1
    ctx.check(
        s0 < inc + extra, "window-missing-first", f"{what}: first window at {s0}, increment {inc}"
    )
    ctx.check(
        n - end < inc + extra, "window-missing-last",
        f"{what}: {n - end} samples are left after the last window, increment {inc}",
    )


@scenario("C12", "tables", quick=800)
def tables(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    win, olap = pick_window(rng)
    inc = win - olap
    n = win * rng.choice([1, 2, 3, 10, 40]) + rng.choice([0, 0, 1, inc, inc - 1, rng.randint(0, win)])
    first = make_time(rng, subns=False)
    ref, kind = pick_ref(rng, first, fs, inc)
    what = f"fs {fs} n {n} win {win} olap {olap} ref {ref!s} ({kind}) first {first!s}"
    ctx.case(("table", fs, n, win, olap, str(ref), str(first)))
    meta = build.dec_data(rng, ctx.np, first, [(fs, n)], ["Ex"]).metadata.levels_metadata[0]
    with ctx.no_error("win-table", what):
        df = get_win_table(ref, meta, win, olap)
    n_wins = len(df)
    gaps = n - win
    if n_wins == 0:
        # only where no window start with its samples falls inside
        ctx.check(gaps <= inc, "window-missing-all", what)
        ctx.observe("no_windows")
        return
    ctx.equal(df["global"], df["global"].iloc[0] + np.arange(n_wins), "global-consecutive", what)
    ctx.equal(df["local"], np.arange(n_wins), "local-consecutive", what)
    ctx.equal(df["to_sample"], df["from_sample"] + win - 1, "to-sample", what)
    check_level(
        ctx, what, ref, first, fs, n, win, olap, int(df["global"].iloc[0]), n_wins,
        df["from_sample"].values,
    )
    for k in {0, n_wins // 2, n_wins - 1}:
        exact = Fraction(int(df["global"].iloc[k]) * inc) / Fraction(fs)
        start, end = (build.to_atto(df[col].iloc[k]) for col in ("win_start", "win_end"))
        err = abs(diff_seconds(start, ref) - exact)
        ctx.check(err <= Fraction(3, 10 ** 9) + exact / 10 ** 9, "win-start", f"{what} window {k}: {start} off {float(err)}")
        err = abs(diff_seconds(end, start) - Fraction(win - 1) / Fraction(fs))
        ctx.check(err <= Fraction(3, 10 ** 9), "win-end", f"{what} window {k}: {end} off {float(err)}")
    ctx.observe("windows", n_wins)


@scenario("C12", "windower", quick=400)
def windower(ctx):
    run_windower(ctx, target=False)


@scenario("C12", "windower_target", quick=200)
def windower_target(ctx):
    run_windower(ctx, target=True)


def run_windower(ctx, target):
    rng = ctx.rng
    n_levels = rng.randint(1, 4)
    fs = float(rng.choice(FS_COMMON))
    factor = rng.choice([1, 2, 4, 5])
    n = rng.choice([100, 700, 2000, 5000]) + rng.randint(0, 9)
    levels = [(fs / factor ** i, max(2, -(-n // factor ** i))) for i in range(n_levels)]
    chans = build.pick_chans(rng)
    first = make_time(rng, subns=False)
    wins = [pick_window(rng) for _ in range(n_levels)]
    ref, kind = pick_ref(rng, first, fs, wins[0][0] - wins[0][1])
    min_n_wins = rng.choice([1, 2, 5])
    dtype = rng.choice([np.float32, np.float64, np.int32])
    dec = build.dec_data(rng, ctx.np, first, levels, chans, dtype=dtype, ramp=True)
    proc = Windower()
    asked = [[x] for x in wins]
    if target:
        prop = rng.choice([0.1, 0.25, 0.5])
        proc = WindowerTarget(
            target=rng.choice([10, 50, 1000]), min_size=rng.choice([16, 64]),
            olap_proportion=prop,
        )
        asked = [target_sizes(n_samples, proc) for _, n_samples in levels]
    # the tables are judged by the scenarios above, here they tell which levels have enough windows
    counts = [
        [len(get_win_table(ref, dec.metadata.levels_metadata[i], w, o)) for w, o in asked[i]]
        for i in range(n_levels)
    ]
    if rng.random() < 0.4:
        min_n_wins = max(1, min(rng.choice(counts)) + rng.choice([0, 0, 1]))
    params = WindowParameters(
        n_levels=n_levels, min_n_wins=min_n_wins,
        win_sizes=[w for w, _ in wins], olap_sizes=[o for _, o in wins],
    )
    what = f"fs {fs} levels {levels} wins {wins} ref {ref!s} ({kind}) first {first!s} target={target}"
    ctx.case(("windower", target, fs, tuple(levels), tuple(wins), str(ref), str(first), len(chans)))
    try:
        out = proc.run(ref, params, dec)
    except Exception as exc:
        # without a single level there is nothing to return
        if min(counts[0]) < min_n_wins and not _crashed_late(exc):
            ctx.observe("no_level")
            return
        ctx.fail("windower-error", f"{what}: {type(exc).__name__}: {exc}")
        return
    meta = out.metadata
    ctx.check(meta.n_levels == len(out.data) == len(meta.levels_metadata), "n-levels", what)
    ctx.check(len(meta.fs) == meta.n_levels, "fs-per-level", f"{what}: {meta.fs} for {meta.n_levels} levels")
    ctx.check(meta.chans == chans and meta.n_chans == len(chans), "chans", what)
    ctx.check(meta.ref_time == ref, "ref-time", f"{what}: metadata has {meta.ref_time!s}")
    for i in range(meta.n_levels):
        lm = meta.levels_metadata[i]
        w = f"{what} level {i}"
        if target:
            want = max(proc.min_size, int(levels[i][1] / ((1 - prop) * proc.target)))
            ctx.check(abs(lm.win_size - want) <= 1, "target-size", f"{w}: {lm.win_size} vs {want}")
            ctx.check(abs(lm.olap_size - prop * lm.win_size) <= 1, "target-olap", f"{w}: {lm.olap_size}")
        else:
            ctx.check((lm.win_size, lm.olap_size) == wins[i], "level-sizes", w)
        ctx.check(abs(lm.fs - levels[i][0]) < 1e-9 * lm.fs, "level-fs", w)
        ctx.check(abs(meta.fs[i] - levels[i][0]) < 1e-9 * lm.fs, "meta-fs", w)
        ctx.check(lm.n_wins >= min_n_wins, "min-n-wins", f"{w}: {lm.n_wins}")
        data = out.get_level(i)
        ctx.check(
            data.shape == (lm.n_wins, len(chans), lm.win_size), "level-shape",
            f"{w}: {data.shape} for {lm.n_wins} wins {len(chans)} chans {lm.win_size}",
        )
        if data.shape != (lm.n_wins, len(chans), lm.win_size):
            continue
        source = dec.get_level(i)
        starts = data[:, 0, 0].astype(np.int64) - int(source[0, 0])
        check_level(
            ctx, w, ref, first, levels[i][0], levels[i][1], lm.win_size, lm.olap_size,
            lm.index_offset, lm.n_wins, starts,
        )
        for k in range(lm.n_wins):
            s = int(starts[k])
            ctx.equal(data[k], source[:, s:s + lm.win_size], "window-slice", f"{w} window {k}")
        ctx.check(data.dtype == source.dtype, "dtype", f"{w}: {data.dtype}")
        k = rng.randrange(lm.n_wins)
        ctx.equal(out.get_local(i, k), data[k], "get-local", f"{w} window {k}")
        ctx.equal(out.get_global(i, k + lm.index_offset), data[k], "get-global", f"{w} window {k}")
        ctx.raises(lambda: out.get_local(i, lm.n_wins), Exception, "local-range", w)
        ctx.raises(lambda: out.get_global(i, lm.index_offset - 1), Exception, "global-range", w)
        for c, chan in enumerate(chans):
            ctx.equal(out.get_chan(i, chan), data[:, c, :], "get-chan", f"{w} {chan}")
        ctx.observe("windows", lm.n_wins)
    if meta.n_levels < n_levels:
        i = meta.n_levels
        ctx.check(
            min(counts[i]) < min_n_wins, "level-missing",
            f"{what}: level {i} is missing, {counts[i]} windows, needed {min_n_wins}",
        )
    ctx.raises(lambda: out.get_level(meta.n_levels), Exception, "level-range", what)


def target_sizes(n_samples, proc):
    """Window and overlap sizes the target asks for: two where rounding may decide"""
    prop = Fraction(str(proc.olap_proportion))
    exact = n_samples / ((1 - prop) * proc.target)
    sizes = {max(proc.min_size, int(exact))}
    if abs(exact - round(exact)) < Fraction(1, 10 ** 6):
        sizes.add(max(proc.min_size, round(exact) - 1))
    out = []
    for size in sorted(sizes):
        olap = prop * size
        olaps = {int(olap)}
        if abs(olap - round(olap)) < Fraction(1, 10 ** 6):
            olaps.add(round(olap) - 1)
        out += [(size, max(1, o)) for o in olaps]
    return out


def _crashed_late(exc):
    return isinstance(exc, (IndexError,))
