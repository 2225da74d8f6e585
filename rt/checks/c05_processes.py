"""C05: sample-wise time processes do exactly what they say, channel by channel"""
import numpy as np

from resistics.sampling import datetime_to_string, sample_to_datetime
from resistics.time import (
    Add, ApplyFunction, InterpolateNans, Multiply, RemoveMean, Subsection,
)
from rt import build
from rt.core import scenario
from rt.util import fraction_delta


def ref_nans(data):
    out = np.array(data)
    for row in out:
        bad = np.isnan(row)
        good = np.nonzero(~bad)[0]
        for i in np.nonzero(bad)[0]:
            left = good[good < i]
            right = good[good > i]
            if left.size and right.size:
                a, b = left[-1], right[0]
                row[i] = row[a] + (row[b] - row[a]) * (i - a) / (b - a)
            elif left.size:
                row[i] = row[left[-1]]
            else:
                row[i] = row[right[0]]
    return out


def make_step(ctx, td):
    """A process, and the independent expectation on data, first sample, count"""
    rng = ctx.rng
    chans = td.metadata.chans
    data = td.data
    n = td.metadata.n_samples
    kind = rng.choice(["mean", "nans", "add", "addd", "mul", "muld", "fnc", "sub", "sub"])
    if np.isnan(data).all(axis=1).any():
        kind = rng.choice(["add", "mul", "fnc"])
    if kind == "mean":
        if np.isnan(data).any():
            kind = "nans"
        else:
            exp = np.array(data, dtype=float)
            return RemoveMean(), exp - exp.mean(axis=1, keepdims=True), 0
    if kind == "nans":
        return InterpolateNans(), ref_nans(data), 0
    if kind == "add":
        v = rng.choice([5, -0.25, 1e3, 0, 0.0, 1, -1e6])
        return Add(add=v), data + v, 0
    if kind == "mul":
        v = rng.choice([2, -0.5, 1e-3, 0, 0.0, 1, -1, 1e6])
        return Multiply(multiplier=v), data * v, 0
    if kind in ("addd", "muld"):
        sel = rng.sample(build.CHANS, rng.randint(1, 5))
        vals = {c: rng.choice([3, -7, 0.5, 1e-2, 0, 0.0, 1, -1, 1e5]) for c in sel}
        exp = np.array(data, dtype=float)
        for c, v in vals.items():
            if c in chans:
                if kind == "addd":
                    exp[chans.index(c)] += v
                else:
                    exp[chans.index(c)] *= v
        return (Add(add=vals) if kind == "addd" else Multiply(multiplier=vals)), exp, 0
    if kind == "fnc":
        sel = rng.sample(build.CHANS, rng.randint(1, 5))
        fncs = {c: rng.choice([lambda x: 2 * x + 1, lambda x: x * x, lambda x: -x]) for c in sel}
        exp = np.array(data, dtype=float)
        for c, f in fncs.items():
            if c in chans:
                exp[chans.index(c)] = f(data[chans.index(c)].astype(float))
        return ApplyFunction(fncs=fncs), exp, 0
    if n < 3:
        return Add(add=1), data + 1, 0
    from fractions import Fraction

    a = rng.randrange(n - 1)
    b = rng.randrange(a + 1, n)
    if rng.random() < 0.3:
        a = 0
    if rng.random() < 0.3:
        b = n - 1
    fs, first = td.metadata.fs, td.metadata.first_time
    if rng.random() < 0.5:
        ta, tb = sample_to_datetime(fs, first, a), sample_to_datetime(fs, first, b)
    else:
        f = Fraction(rng.choice([0.02, 0.5, 0.98])) / Fraction(fs)
        ta = sample_to_datetime(fs, first, a) - fraction_delta(f)
        tb = sample_to_datetime(fs, first, b) + fraction_delta(f)
    proc = Subsection(from_time=datetime_to_string(ta), to_time=datetime_to_string(tb))
    return proc, data[:, a : b + 1], a


@scenario("C05", "chains", quick=300)
def chains(ctx):
    rng = ctx.rng
    dtype = rng.choice([np.float64, np.float64, np.float32, np.int32])
    td = build.time_data(rng, ctx.np, n=rng.choice([3, 10, 64, 257, 800]), dtype=dtype)
    if dtype != np.int32 and rng.random() < 0.6:
        for row in td.data:
            bad = ctx.np.rand(row.size) < rng.choice([0.05, 0.5, 0.9])
            bad[rng.randrange(row.size)] = False
            row[bad] = np.nan
    rtol = 3e-5 if dtype == np.float32 else 1e-9
    if dtype == np.float64 and rng.random() < 0.3:
        # values far from zero, as raw counts are
        td.data = td.data + rng.choice([1e4, -1e6, 123456.789])
    ctx.case(("chain", td.metadata.fs, td.data.shape, str(dtype), str(td.metadata.first_time)))
    for step in range(rng.randint(1, 4)):
        proc, expected, offset = make_step(ctx, td)
        what = f"{proc.name} on {td.data.dtype} {td.data.shape}"
        old = td.metadata
        with ctx.no_error("process", what):
            out = proc.run(td)
        # what is left of large values is known to the accuracy of the large values
        eps = np.finfo(td.data.dtype if td.data.dtype.kind == "f" else float).eps
        known = np.abs(td.data[np.isfinite(td.data)]).max(initial=0) * eps * 8
        if not ctx.close_to(out.data, expected, "output:" + proc.name, what, rtol=rtol, atol=known):
            return
        ctx.check(out.metadata.fs == old.fs, "fs-kept", what)
        ctx.check(out.metadata.chans == old.chans, "chans-kept", what)
        want = sample_to_datetime(old.fs, old.first_time, offset)
        ctx.check(out.metadata.first_time == want, "first-time", f"{what}: {out.metadata.first_time} {want}")
        build.check_time_meta(ctx, out, what)
        for chan in old.chans:
            ctx.equal(out[chan], out.data[old.chans.index(chan)], "chan-access", what)
            ctx.check(
                build.snapshot(out.metadata.chans_metadata[chan])
                == build.snapshot(old.chans_metadata[chan]),
                "chan-metadata", what,
            )
        if proc.name == "InterpolateNans":
            ctx.check(not np.isnan(out.data).any(), "nans-gone", what)
        ctx.observe("ran:" + proc.name)
        td = out


@scenario("C05", "time_order", quick=60)
def subsection_outside(ctx):
    """A section that does not overlap the data is an error"""
    rng = ctx.rng
    td = build.time_data(rng, ctx.np)
    meta = td.metadata
    ctx.case(("out", meta.fs, meta.n_samples, str(meta.first_time)))
    from fractions import Fraction

    gap = fraction_delta(Fraction(rng.choice([0.5, 1, 100])) / Fraction(meta.fs))
    far = gap + gap
    s = datetime_to_string
    ctx.raises(
        lambda: td.subsection(s(meta.last_time + gap), s(meta.last_time + far)),
        ValueError, "after-data",
    )
    ctx.raises(
        lambda: td.subsection(s(meta.first_time - far), s(meta.first_time - gap)),
        ValueError, "before-data",
    )
    whole = td.subsection(s(meta.first_time - far), s(meta.last_time + far))
    ctx.equal(whole.data, td.data, "whole", "clamped section")
    build.check_time_meta(ctx, whole, "clamped section")
