"""C06: resampling, decimation and shifting keep the signal on its time line"""
from fractions import Fraction

import numpy as np
from scipy import signal

from resistics.errors import ProcessRunError
from resistics.time import Decimate, Resample, ShiftTimestamps
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, diff_seconds, make_time


class Signal:
    """An analytic signal, defined at all times"""

    def __init__(self, rng, fmax, n_tones=2, slope=0.0):
        self.tones = [
            (rng.uniform(1, 5), rng.uniform(0.2, 1) * fmax, rng.uniform(0, 2 * np.pi))
            for _ in range(n_tones)
        ]
        self.slope = slope

    def __call__(self, t):
        out = self.slope * t
        for a, f, p in self.tones:
            out = out + a * np.sin(2 * np.pi * f * t + p)
        return out

    @property
    def size(self):
        return sum(a for a, _, _ in self.tones)


def _td(ctx, fs, n, signals, dtype=np.float64):
    chans = build.CHANS[: len(signals)]
    t = np.arange(n) / fs
    data = np.array([s(t) for s in signals]).astype(dtype)
    return build.time_data(ctx.rng, ctx.np, fs=fs, n=n, chans=chans, data=data)


def _timeline(ctx, out, td, signals, tol, trim, what):
    """The output samples are the signal at the output timestamps"""
    build.check_time_meta(ctx, out, what)
    off = float(diff_seconds(out.metadata.first_time, td.metadata.first_time))
    t = off + np.arange(out.data.shape[1]) / out.metadata.fs
    ctx.check(out.metadata.chans == td.metadata.chans, "chans", what)
    keep = slice(trim, len(t) - trim)
    for sig, row in zip(signals, out.data):
        want = sig(t)
        err = np.max(np.abs(row[keep] - want[keep]))
        ctx.check(
            err <= tol * sig.size, "on-time-line",
            f"{what}: error {err:.4g} for amplitude {sig.size:.4g}",
        )
        ctx.observe("samples_on_time_line", len(t) - 2 * trim)


@scenario("C06", "decimate", quick=120)
def decimate(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    factor = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 21, 27, 32, 50])
    single = rng.choice([2, 3, 3, 3, 5, 8, 10])
    n = factor * rng.choice([150, 400]) + rng.choice([0, 1, factor - 1])
    dtype = rng.choice([np.float64, np.float64, np.float32])
    nyq = fs / factor / 2
    sigs = [Signal(rng, 0.4 * nyq) for _ in range(rng.choice([1, 2, 3]))]
    td = _td(ctx, fs, n, sigs, dtype)
    what = f"factor {factor} (single {single}) fs {fs} n {n}"
    ctx.case(("dec", fs, factor, single, n))
    stages = []
    original = signal.decimate

    def spy(x, q, *args, **kwargs):
        stages.append(q)
        return original(x, q, *args, **kwargs)

    signal.decimate = spy
    try:
        with ctx.no_error("decimate", what):
            out = Decimate(factor=factor, max_single_factor=single).run(td)
    finally:
        signal.decimate = original
    if stages:
        # only a prime factor may be larger than the largest single factor
        big = [q for q in stages if q > single and any(q % p == 0 for p in range(2, q))]
        ctx.check(not big and np.prod(stages) == factor, "single-factors", f"{what}: stages {stages}")
        ctx.observe("stages_seen", len(stages))
    ctx.check(abs(out.metadata.fs - fs / factor) <= 1e-9 * fs, "new-fs", f"{what}: {out.metadata.fs}")
    ctx.check(
        out.metadata.first_time == td.metadata.first_time, "first-kept", f"{what}"
    )
    ctx.check(
        out.data.shape[1] == -(-n // factor), "count", f"{what}: {out.data.shape[1]}"
    )
    ctx.check(out.data.dtype == dtype, "dtype", f"{what}: {out.data.dtype}")
    _timeline(ctx, out, td, sigs, 0.08, 25, what)
    if factor == 1:
        ctx.equal(out.data, td.data, "factor-one", what)
        return
    # energy above the new nyquist must not fold back
    f_alias = rng.uniform(1.15, 1.9) * nyq
    if f_alias < 0.5 * fs * 0.98:
        t = np.arange(n) / fs
        tone = np.sin(2 * np.pi * f_alias * t + 0.3)[None, :]
        td2 = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex"], data=tone)
        out2 = Decimate(factor=factor, max_single_factor=single).run(td2)
        mid = out2.data[0, 25:-25]
        ctx.check(
            np.max(np.abs(mid)) < 0.1, "alias",
            f"{what}: tone at {f_alias / nyq:.2f} nyquist leaks {np.max(np.abs(mid)):.3f}",
        )


@scenario("C06", "resample", quick=120)
def resample(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    up, down = rng.choice([(1, 2), (1, 3), (2, 3), (3, 4), (4, 5), (1, 5), (2, 1), (3, 2), (5, 4), (16, 25), (1, 1), (25, 32), (1, 10), (125, 128), (147, 160), (333, 500), (1000, 1001), (16, 125), (255, 256), (101, 100)])
    new_fs = fs * up / down
    n = max(300, 200 * down // up) + rng.choice([0, 1, 7])
    nyq = min(fs, new_fs) / 2
    sigs = [Signal(rng, 0.4 * nyq) for _ in range(rng.choice([1, 2, 3]))]
    td = _td(ctx, fs, n, sigs)
    what = f"{fs} -> {new_fs} Hz n {n}"
    ctx.case(("res", fs, up, down, n))
    with ctx.no_error("resample", what):
        out = Resample(new_fs=new_fs).run(td)
    ctx.check(out.metadata.fs == new_fs, "new-fs", f"{what}: {out.metadata.fs}")
    ctx.check(out.metadata.first_time == td.metadata.first_time, "first-kept", what)
    ctx.check(
        abs(out.data.shape[1] - n * up / down) < 1.001, "count", f"{what}: {out.data.shape[1]}"
    )
    _timeline(ctx, out, td, sigs, 0.05, 25, what)
    if down > up:
        f_alias = rng.uniform(1.3, 1.9) * nyq
        if f_alias < 0.49 * fs:
            t = np.arange(n) / fs
            tone = np.sin(2 * np.pi * f_alias * t + 0.3)[None, :]
            td2 = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex"], data=tone)
            mid = Resample(new_fs=new_fs).run(td2).data[0, 25:-25]
            ctx.check(
                np.max(np.abs(mid)) < 0.1, "alias",
                f"{what}: tone at {f_alias / nyq:.2f} nyquist leaks {np.max(np.abs(mid)):.3f}",
            )


@scenario("C06", "shift", quick=200)
def shift(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    n = rng.choice([3, 10, 100, 1000])
    dtype = rng.choice([np.float64, np.float32, np.float64, np.int32])
    if dtype == np.float32 and rng.random() < 0.3:
        n = 300000
    frac = rng.choice([0.01, 0.1, 0.5, 0.75, 0.99])
    chans = build.pick_chans(rng)
    # piecewise linear interpolation has one right answer for any data
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=chans, dtype=dtype)
    sh = frac / fs
    what = f"shift {frac} samples at {fs} Hz, {n} {np.dtype(dtype).name} samples"
    ctx.case(("shift", fs, n, frac, str(dtype), tuple(chans)))
    with ctx.no_error("shift", what):
        out = ShiftTimestamps(shift=sh).run(td)
    d = td.data.astype(float)
    want = d[:, :-1] * (1 - frac) + d[:, 1:] * frac
    scale = np.max(np.abs(d)) * (2e-6 if dtype == np.float32 else 1e-9)
    ctx.close_to(out.data, want, "shifted-data", what, rtol=0, atol=scale)
    off = diff_seconds(out.metadata.first_time, td.metadata.first_time)
    ctx.check(abs(off - Fraction(sh)) < Fraction(12, 10 ** 14), "shifted-start", f"{what}: {float(off)}")
    ctx.check(out.metadata.fs == fs, "fs-kept", what)
    ctx.check(out.metadata.last_time < td.metadata.last_time, "no-extrapolation", what)
    build.check_time_meta(ctx, out, what)
    for bad in (1.0001, 2.5):
        ctx.raises(
            lambda: ShiftTimestamps(shift=bad / fs).run(td), ProcessRunError, "shift-too-long", f"{bad}"
        )
    ctx.raises(lambda: ShiftTimestamps(shift=-sh), ValueError, "negative-shift")
    ctx.raises(lambda: ShiftTimestamps(shift=0), ValueError, "zero-shift")


@scenario("C06", "combined", quick=60)
def combined(ctx):
    """Several changes of the time base in a row still end on the time line"""
    rng = ctx.rng
    fs = float(rng.choice([8, 10, 50, 100, 128, 256, 1000, 4096]))
    n = 6000
    sigs = [Signal(rng, 0.02 * fs / 2), Signal(rng, 0.01 * fs / 2)]
    td = _td(ctx, fs, n, sigs)
    cur = td
    names = []
    for _ in range(rng.randint(2, 3)):
        m = cur.metadata
        op = rng.choice(["dec", "res", "shift", "sub"])
        if op == "dec":
            proc = Decimate(factor=rng.choice([2, 3]))
        elif op == "res":
            proc = Resample(new_fs=m.fs * rng.choice([0.5, 0.8, 1.25]))
        elif op == "shift":
            proc = ShiftTimestamps(shift=rng.uniform(0.1, 0.9) / m.fs)
        else:
            from resistics.sampling import datetime_to_string, sample_to_datetime
            from resistics.time import Subsection

            a = rng.randrange(m.n_samples // 5)
            b = m.n_samples - 1 - rng.randrange(m.n_samples // 5)
            proc = Subsection(
                from_time=datetime_to_string(sample_to_datetime(m.fs, m.first_time, a)),
                to_time=datetime_to_string(sample_to_datetime(m.fs, m.first_time, b)),
            )
        names.append(proc.name)
        with ctx.no_error("combined", str(names)):
            cur = proc.run(cur)
    ctx.case(("comb", fs, tuple(names), cur.data.shape))
    _timeline(ctx, cur, td, sigs, 0.12, 40, f"{names} at {fs} Hz")


@scenario("C06", "edges", quick=60)
def edges(ctx):
    """A constant offset is no signal: it does not ring at the ends of the recording"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    n = rng.choice([200, 1000, 5000]) + rng.randint(0, 9)
    chans = build.pick_chans(rng)
    offs = np.array([[rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 4)] for _ in chans])
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=chans, data=np.repeat(offs, n, axis=1))
    if rng.random() < 0.5:
        up, down = rng.choice([(1, 2), (1, 3), (2, 3), (3, 4), (5, 4), (2, 1), (16, 25)])
        proc, tol = Resample(new_fs=fs * up / down), 1e-6
    else:
        # the pass band of the filter has a ripple of its own at each step
        proc, tol = Decimate(factor=rng.choice([2, 3, 4, 5, 6, 9])), 0.05
    what = f"{proc!r} on constant {offs[:, 0]} {fs} Hz n {n}"
    ctx.case(("edges", repr(proc), fs, n))
    with ctx.no_error("edges", what):
        out = proc.run(td)
    err = np.max(np.abs(out.data / offs - 1))
    ctx.check(err <= tol, "constant-kept", f"{what}: off by {err:.3g} of the constant")
    ctx.observe("samples_on_time_line", out.data.size)


@scenario("C06", "superposed", quick=60)
def superposed(ctx):
    """A weak signal on a strong one comes out as it does alone, in the precision of the data"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    n = rng.choice([300, 1000, 3000]) + rng.randint(0, 9)
    chans = build.pick_chans(rng)
    first = make_time(rng)
    strong = (rng.choice([0, 1]) + ctx.np.randn(len(chans), n)) * 10 ** rng.uniform(3, 8)
    weak = ctx.np.randn(len(chans), n) * 10 ** rng.uniform(-3, 0)
    up, down = rng.choice([(1, 2), (1, 3), (2, 3), (3, 4), (5, 4), (2, 1), (16, 25)])
    proc = rng.choice([
        Resample(new_fs=fs * up / down), Decimate(factor=rng.choice([2, 3, 4, 5, 6, 9])), ShiftTimestamps(shift=rng.uniform(0.05, 0.95) / fs),
    ])
    what = f"{proc!r} {fs} Hz n {n}"
    ctx.case(("superposed", repr(proc), fs, n, float(weak[0, 0])))
    with ctx.no_error("superposed", what):
        both, one, other = [
            proc.run(build.time_data(rng, ctx.np, fs=fs, first=first, chans=chans, n=n, data=x)) for x in (strong + weak, strong, weak)
        ]
    same = both.data.shape == one.data.shape == other.data.shape
    ctx.require(same, "superposed-shape", f"{what}: {both.data.shape} {one.data.shape} {other.data.shape}")
    err = np.max(np.abs(both.data.astype(float) - one.data - other.data)) / np.max(np.abs(strong))
    ctx.check(err < 1e-9, "superposition", f"{what}: off by {err:.3g} of the strong signal")
    ctx.observe("samples_on_time_line", both.data.size)
