"""C13: the same global window is the same time in every recording"""
from fractions import Fraction

import numpy as np
from attotime import attotimedelta

from resistics.sampling import to_datetime
from resistics.window import (
    WindowParameters, Windower, datetime_to_win, get_win_ends, get_win_starts, inc_duration,
    win_duration, win_to_datetime,
)
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, diff_seconds, fraction_delta, make_time


@scenario("C13", "recordings", quick=300)
def recordings(ctx):
    """Several recordings of one signal: equal global windows hold equal samples

    The value of a sample is its number since the reference time, so what a window holds
    says when it was recorded.
    """
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    n_levels = rng.randint(1, 3)
    factors = [1]
    for _ in range(n_levels - 1):
        factors.append(factors[-1] * rng.choice([1, 2, 4, 5]))
    sizes = []
    for _ in range(n_levels):
        win = rng.choice([16, 33, 64, 100, 128])
        sizes.append((win, max(1, rng.choice([win // 4, win // 2, 1, int(0.8 * win)]))))
    params = WindowParameters(
        n_levels=n_levels, min_n_wins=1, win_sizes=[w for w, _ in sizes], olap_sizes=[o for _, o in sizes]
    )
    ref = make_time(rng, subns=False)
    start0 = rng.choice([0, 1, 1000, 10 ** 5, 10 ** 7]) * factors[-1]
    while start0 / fs > 3e9:
        # pandas cannot hold times after 2262
        start0 //= 10
    n_recs = rng.randint(2, 4)
    on_grid = rng.random() < 0.6
    what = f"fs {fs} factors {factors} sizes {sizes} ref {ref!s}"
    ctx.case((what, start0, n_recs, on_grid))
    recs = []
    for r in range(n_recs):
        start = start0 + rng.randint(0, 3000)
        shift = Fraction(0) if on_grid else Fraction(rng.randint(0, 999), 1000)
        first = ref + fraction_delta((start + shift) / Fraction(fs))
        n0 = rng.randint(1500, 4000) * factors[-1] // max(1, factors[-1] // 2)
        levels = [(fs / f, n0 // f) for f in factors]
        chans = rng.sample(["Ex", "Ey", "Hx"], rng.randint(1, 3))
        dec = build.dec_data(rng, ctx.np, first, levels, chans)
        for i, f in enumerate(factors):
            # sample number since the reference time at the rate of the level
            pos = float((start + shift) / f)
            dec.data[i] = np.array([pos + np.arange(levels[i][1])] * len(chans))
        with ctx.no_error("windower", what):
            recs.append((Windower().run(ref, params, dec), start + shift))
    for i in range(n_levels):
        win, olap = sizes[i]
        inc = win - olap
        seen = {}
        for out, start in recs:
            if i >= out.metadata.n_levels:
                continue
            lm = out.metadata.levels_metadata[i]
            tol = 1.01 + 1e-9 * lm.index_offset * inc
            for k in range(lm.n_wins):
                g = lm.index_offset + k
                value = float(out.get_global(i, g)[0, 0])
                ctx.check(
                    -tol <= value - g * inc <= tol - 1, "window-time",
                    f"{what} level {i} recording from {float(start)}: global {g} starts at sample "
                    f"{value}, not {g * inc}",
                )
                ctx.equal(out.get_global(i, g), out.get_local(i, k), "global-local", what)
                if g in seen:
                    gap = abs(seen[g] - value)
                    ctx.check(
                        gap < 1.01 + 1e-9 * g * inc, "alignment",
                        f"{what} level {i} global {g}: {seen[g]} and {value}",
                    )
                    if on_grid and factors[i] == 1:
                        ctx.check(gap < 1e-6 + 1e-9 * value, "same-samples", f"{what}: {seen[g]} {value}")
                    ctx.observe("shared_windows")
                seen[g] = value
            for bad in (lm.index_offset - 1, lm.index_offset + lm.n_wins):
                ctx.raises(lambda: out.get_global(i, bad), Exception, "global-range", f"{what} {bad}")


@scenario("C13", "conversions", quick=500)
def conversions(ctx):
    """Window number to time and back"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    win = rng.choice([4, 16, 100, 128, 1000, 4096])
    olap = rng.randint(0, win - 1)
    inc_samples = win - olap
    ref = make_time(rng, subns=False)
    inc = inc_duration(win, olap, fs)
    exact_inc = Fraction(inc_samples) / Fraction(fs)
    ctx.case(("conv", fs, win, olap, str(ref)))
    tol = Fraction(1, 10 ** 15) * inc_samples + exact_inc / 10 ** 12 + inc_samples * Fraction(1, 10 ** 13)
    ctx.check(abs(diff_seconds(ref + inc, ref) - exact_inc) <= tol, "increment", f"{fs} {win} {olap}")
    dur = win_duration(win, fs)
    ctx.check(
        abs(diff_seconds(ref + dur, ref) - Fraction(win - 1) / Fraction(fs)) <= win * Fraction(2, 10 ** 13),
        "duration", f"{fs} {win}: {dur!s}",
    )
    for _ in range(20):
        limit = min(10 ** rng.randint(0, 8), int(3 * 10 ** 9 / exact_inc) or 1)
        g = rng.randrange(limit) if limit > 1 else 1
        t = win_to_datetime(ref, g, inc)
        err = abs(diff_seconds(t, ref) - g * exact_inc)
        ctx.check(err <= g * tol + Fraction(1, 10 ** 12), "win-to-time", f"{fs} {win} {olap} {g}: {float(err)}")
        for method in ("round", "floor", "ceil"):
            got = datetime_to_win(ref, t, inc, method=method)
            ctx.check(got == g, "time-to-win", f"{fs} {win} {olap}: {g} -> {got} by {method}")
        part = Fraction(rng.randint(5, 95), 100)
        if rng.random() < 0.4:
            part = rng.choice([Fraction(1, 500), Fraction(499, 500), Fraction(499, 1000), Fraction(501, 1000), Fraction(1, 5000), Fraction(4999, 5000)])
        if part == Fraction(1, 2):
            continue
        t2 = t + fraction_delta(part * exact_inc)
        if min(part, 1 - part, abs(part - Fraction(1, 2))) * exact_inc < Fraction(1, 10 ** 9) + g * tol:
            continue
        want = {"floor": g, "ceil": g + 1, "round": g + (1 if part > Fraction(1, 2) else 0)}
        for method, expect in want.items():
            got = datetime_to_win(ref, t2, inc, method=method)
            ctx.check(got == expect, "between-wins", f"{fs} {win} {olap}: {g}+{float(part)} -> {got} by {method}")
        ctx.observe("conversions", 6)
    ctx.raises(
        lambda: datetime_to_win(ref, ref - attotimedelta(microseconds=1), inc), ValueError,
        "before-ref", "time before the reference",
    )


@scenario("C13", "window_times", quick=200)
def window_times(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    win = rng.choice([16, 100, 128, 1000])
    olap = rng.randint(0, win - 1)
    n_wins = rng.randint(1, 200)
    offset = rng.choice([0, 1, 77, 10 ** 4])
    ref = make_time(rng, base_year=2020, subns=False)
    if (offset + n_wins) * (win - olap) / fs > 86400 * 365 * 100:
        offset = 3
        n_wins = 5
    what = f"fs {fs} win {win} olap {olap} offset {offset} ref {ref!s}"
    ctx.case(("times", what, n_wins))
    starts = get_win_starts(ref, win, olap, fs, n_wins, offset)
    ends = get_win_ends(starts, win, fs)
    ctx.require(len(starts) == n_wins == len(ends), "n-times", what)
    for k in {0, n_wins // 2, n_wins - 1}:
        exact = Fraction((offset + k) * (win - olap)) / Fraction(fs)
        err = abs(diff_seconds(build.to_atto(starts[k]), ref) - exact)
        # estimates: nanoseconds per window
        tol = Fraction(k + 3, 10 ** 9) * 2 + exact / 10 ** 9
        ctx.check(err <= tol, "start-time", f"{what} window {k}: {starts[k]} off {float(err)}")
        err = abs(
            diff_seconds(build.to_atto(ends[k]), build.to_atto(starts[k])) - Fraction(win - 1) / Fraction(fs)
        )
        ctx.check(err <= Fraction(3, 10 ** 9), "end-time", f"{what} window {k}: off {float(err)}")
        ctx.observe("times")
