"""C01: times and samples convert into each other exactly"""
from datetime import timedelta
from fractions import Fraction

import numpy as np
import pandas as pd

import resistics.sampling as rs
from rt.core import scenario
from rt.util import delta_fraction, diff_seconds, fraction_delta, make_time, pick_fs


def _n_samples(rng):
    return rng.choice([2, 3, 10, 1000, 86400, 10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9])


def _sample(rng, n):
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.2:
        return n - 1
    if r < 0.6:
        return rng.randrange(min(n, 200))
    return rng.randrange(n)


@scenario("C01", "sample_timestamps", quick=600)
def sample_timestamps(ctx):
    """A sample's own timestamp converts back to exactly that sample"""
    rng = ctx.rng
    fs = pick_fs(rng)
    n = _n_samples(rng)
    if n / fs > 86400 * 365 * 60:
        n = 10000
    first = make_time(rng)
    last = rs.sample_to_datetime(fs, first, n - 1)
    ctx.case(("stamp", fs, n, str(first)))
    for _ in range(40):
        k = _sample(rng, n)
        t_code = rs.sample_to_datetime(fs, first, k, n)
        exact = Fraction(k) / Fraction(fs)
        err = abs(diff_seconds(t_code, first) - exact)
        # to_timedelta documents that < 1e-4 ns is zeroed, per sample period
        tol = k * Fraction(11, 10 ** 14) + Fraction(k, 10 ** 17) + Fraction(1, 10 ** 15)
        tol = min(tol, Fraction(1, 10 ** 4) / Fraction(fs) + Fraction(k, 10 ** 16))
        ctx.check(
            err <= tol, "timestamp", f"fs={fs} sample={k}: {t_code} off by {float(err)} s"
        )
        times = [t_code]
        t_exact = first + fraction_delta(exact)
        if not (t_exact > last):
            times.append(t_exact)
        for t in times:
            got = rs.from_time_to_sample(fs, first, last, t)
            ctx.check(got == k, "from-on-sample", f"fs={fs} n={n} sample {k} -> {got}")
            got = rs.to_time_to_sample(fs, first, last, t)
            ctx.check(got == k, "to-on-sample", f"fs={fs} n={n} sample {k} -> {got}")
            for method in ("round", "floor", "ceil"):
                got = rs.to_n_samples(t - first, fs, method=method)
                ctx.check(
                    got == k + 1, "count", f"fs={fs} {method}: samples 0..{k} count {got}"
                )
        ctx.observe("sample_conversions")


@scenario("C01", "between_samples", quick=600)
def between_samples(ctx):
    """from: first sample at or after, to: last sample at or before"""
    rng = ctx.rng
    fs = pick_fs(rng)
    n = _n_samples(rng)
    if n / fs > 86400 * 365 * 60:
        n = 10000
    first = make_time(rng)
    last = rs.sample_to_datetime(fs, first, n - 1)
    ctx.case(("between", fs, n, str(first)))
    for _ in range(40):
        k = rng.randrange(min(n - 1, 10 ** rng.randint(1, 9)))
        frac = rng.choice([0.01, 0.1, 0.25, 0.4999, 0.5, 0.5001, 0.75, 0.9, 0.99])
        t = first + fraction_delta((k + Fraction(frac)) / Fraction(fs))
        got = rs.from_time_to_sample(fs, first, last, t)
        ctx.check(got == k + 1, "from-between", f"fs={fs} time at {k}+{frac} -> {got}")
        got = rs.to_time_to_sample(fs, first, last, t)
        ctx.check(got == k, "to-between", f"fs={fs} time at {k}+{frac} -> {got}")
        if abs(frac - 0.5) > 0.1:
            got = rs.to_n_samples(t - first, fs)
            ctx.check(got == k + 1 + round(frac), "count-nearest", f"fs={fs} time at {k}+{frac} -> {got}")
        got = rs.to_n_samples(t - first, fs, method="floor")
        ctx.check(got == k + 1, "count-floor", f"fs={fs} time at {k}+{frac} -> {got}")
        got = rs.to_n_samples(t - first, fs, method="ceil")
        ctx.check(got == k + 2, "count-ceil", f"fs={fs} time at {k}+{frac} -> {got}")
        # a range: samples a..b such that every one of them is inside [from, to]
        j = rng.randrange(k, n - 1)
        frac2 = rng.choice([0.01, 0.3, 0.7, 0.99])
        if j == k and frac2 <= frac:
            continue
        t2 = first + fraction_delta((j + Fraction(frac2)) / Fraction(fs))
        a, b = rs.datetimes_to_samples(fs, first, last, t, t2)
        ctx.check(
            (a, b) == (k + 1, j), "range", f"fs={fs} [{k}+{frac}, {j}+{frac2}] -> {(a, b)}"
        )


@scenario("C01", "outside", quick=300)
def outside(ctx):
    """Times outside of the recording are clamped, or rejected when nothing is left"""
    rng = ctx.rng
    fs = pick_fs(rng)
    n = rng.choice([2, 17, 1000, 123456])
    first = make_time(rng)
    last = rs.sample_to_datetime(fs, first, n - 1)
    ctx.case(("outside", fs, n, str(first)))
    for _ in range(10):
        away = Fraction(rng.choice([1e-6, 0.3, 1, 12.7, 1000])) * rng.choice([1, 86400])
        if rng.random() < 0.5:
            away = away / Fraction(fs)
        away = max(away, Fraction(1, 10 ** 9))
        before = first - fraction_delta(away)
        after = last + fraction_delta(away)
        got = rs.from_time_to_sample(fs, first, last, before)
        ctx.check(got == 0, "clamp-from", f"from {float(away)} s before start -> {got}")
        got = rs.to_time_to_sample(fs, first, last, after)
        ctx.check(got == n - 1, "clamp-to", f"to {float(away)} s after end of {n} -> {got}")
        ctx.check(rs.check_from_time(first, last, before) == first, "clamp-from-time")
        ctx.check(rs.check_to_time(first, last, after) == last, "clamp-to-time")
        ctx.raises(
            lambda: rs.from_time_to_sample(fs, first, last, after),
            ValueError, "reject-from", f"from time {after} after last {last}",
        )
        ctx.raises(
            lambda: rs.to_time_to_sample(fs, first, last, before),
            ValueError, "reject-to", f"to time {before} before first {first}",
        )
        ctx.check(rs.datetimes_to_samples(fs, first, last, before, after) == (0, n - 1), "clamp-range")
    k = rng.randrange(n)
    inside = rs.sample_to_datetime(fs, first, k)
    ctx.check(rs.check_from_time(first, last, inside) == inside, "inside-from-time")
    ctx.check(rs.check_to_time(first, last, inside) == inside, "inside-to-time")
    ctx.raises(lambda: rs.check_sample(n, n), ValueError, "check-sample", "n of n")
    ctx.raises(lambda: rs.check_sample(n, -1), ValueError, "check-sample", "-1")
    ctx.check(rs.check_sample(n, k) is True, "check-sample", f"{k} of {n}")
    ctx.raises(lambda: rs.sample_to_datetime(fs, first, n, n), ValueError, "sample-range", "n")
    ctx.raises(lambda: rs.sample_to_datetime(fs, first, -1, n), ValueError, "sample-range", "-1")
    ctx.raises(
        lambda: rs.samples_to_datetimes(fs, first, k, k), ValueError, "samples-order", "equal"
    )


@scenario("C01", "arrays", quick=150)
def arrays(ctx):
    """Vectorised timestamps agree with the scalar ones"""
    rng = ctx.rng
    fs = pick_fs(rng)
    first = make_time(rng)
    n = rng.choice([1, 2, 50, 300])
    ctx.case(("arrays", fs, n, str(first)))
    arr = rs.datetime_array(first, fs, n_samples=n)
    ctx.check(len(arr) == n, "array-length", f"{len(arr)} of {n}")
    for k in {0, n - 1, rng.randrange(n)}:
        ctx.check(arr[k] == rs.sample_to_datetime(fs, first, k), "array-value", f"fs={fs} {k}")
    samples = np.array(sorted({rng.randrange(10 ** 6) for _ in range(7)}))
    arr = rs.datetime_array(first, fs, samples=samples)
    for t, k in zip(arr, samples):
        err = abs(diff_seconds(t, first) - Fraction(int(k)) / Fraction(fs))
        ctx.check(
            err <= int(k) * Fraction(11, 10 ** 14) + Fraction(1, 10 ** 12),
            "array-samples", f"fs={fs} {k} off by {float(err)}",
        )
    est = rs.datetime_array_estimate(first, fs, n_samples=n)
    ctx.check(len(est) == n, "estimate-length", f"{len(est)}")
    start = pd.Timestamp(first.isoformat())
    for k in {0, n - 1}:
        err = abs((est[k] - start).value - k / fs * 1e9)
        ctx.check(err <= 2 + 1e-15 * k / fs * 1e9, "estimate-value", f"fs={fs} {k} off by {err} ns")
    est = rs.datetime_array_estimate(first, fs, samples=samples)
    for t, k in zip(est, samples):
        err = abs((t - start).value - k / fs * 1e9)
        ctx.check(err <= 2 + 1e-15 * k / fs * 1e9, "estimate-samples", f"fs={fs} {k} off by {err} ns")
    ctx.raises(lambda: rs.datetime_array(first, fs), ValueError, "array-args")
    ctx.raises(lambda: rs.datetime_array_estimate(first, fs), ValueError, "array-args")
    a, b = sorted(rng.sample(range(10 ** 6), 2))
    ta, tb = rs.samples_to_datetimes(fs, first, a, b)
    ctx.check(ta == rs.sample_to_datetime(fs, first, a), "pair")
    ctx.check(tb == rs.sample_to_datetime(fs, first, b), "pair")


@scenario("C01", "timedeltas", quick=300)
def timedeltas(ctx):
    """Seconds, timedelta and pandas Timedelta convert without losing resolution"""
    rng = ctx.rng
    secs = rng.choice([-1, 1]) * rng.choice(
        [0.0, 1.0, 1 / 16384, 1 / 524288, 1e-6, 0.1, 3600.25, 86400.0, 10 ** rng.uniform(-7, 7)]
    )
    if rng.random() < 0.3:
        # just next to a whole number of microseconds
        secs = rng.randint(1, 10 ** 4) * 1e-6 + 10 ** rng.uniform(-13, -8)
    if secs < 0 and secs > -1e-6:
        secs = -secs
    ctx.case(("delta", secs))
    delta = rs.to_timedelta(secs)
    err = abs(delta_fraction(delta) - Fraction(secs))
    ctx.check(
        err <= Fraction(11, 10 ** 14) + abs(Fraction(secs)) / 10 ** 15,
        "timedelta", f"{secs} -> {delta} off by {float(err)}",
    )
    days, rest = rs.to_seconds(delta)
    ctx.check(
        abs(days + rest - secs) <= 1e-12 * max(1, abs(secs)) + (3e-11 if secs < 0 else 2e-13),
        "to-seconds", f"{secs} -> {(days, rest)}",
    )
    ctx.check(days % 86400 == 0 and 0 <= rest < 86400, "to-seconds-split", f"{secs} -> {(days, rest)}")
    micro = rng.randint(-10 ** 12, 10 ** 12)
    td = timedelta(microseconds=micro)
    ctx.check(
        delta_fraction(rs.to_timedelta(td)) == Fraction(micro, 10 ** 6),
        "timedelta-std", f"{td}",
    )
    nano = rng.randint(-10 ** 15, 10 ** 15)
    ctx.check(
        delta_fraction(rs.to_timedelta(pd.Timedelta(nano, "ns"))) == Fraction(nano, 10 ** 9),
        "timedelta-pandas", f"{nano} ns",
    )
