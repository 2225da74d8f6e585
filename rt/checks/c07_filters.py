"""C07: filters pass the pass band, remove the stop band and shift nothing in time"""
import numpy as np

from resistics.errors import ProcessRunError
from resistics.time import BandPass, HighPass, LowPass, Notch
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON


def _gain(kind, f, fs, edges, order):
    """Magnitude of the forward-backward digital Butterworth filter"""
    w = np.tan(np.pi * f / fs)
    e = [np.tan(np.pi * x / fs) for x in edges]
    if kind == "low":
        x = w / e[0]
    elif kind == "high":
        x = e[0] / w
    elif kind == "band":
        x = (w * w - e[0] * e[1]) / (w * (e[1] - e[0]))
    else:
        x = (w * (e[1] - e[0])) / (w * w - e[0] * e[1])
    return 1.0 / (1.0 + np.abs(x) ** (2 * order))


def _measure(data, f, fs, trim):
    """Complex amplitude of the tone f in the middle of the data"""
    n = data.size
    t = np.arange(n) / fs
    keep = slice(trim, n - trim)
    basis = np.column_stack(
        [np.cos(2 * np.pi * f * t[keep]), np.sin(2 * np.pi * f * t[keep])]
    )
    c, s = np.linalg.lstsq(basis, data[keep], rcond=None)[0]
    return c - 1j * s


def _make(rng, fs):
    nyq = fs / 2
    kind = rng.choice(["low", "high", "band", "notch"])
    if kind in ("low", "high"):
        fc = rng.uniform(0.08, 0.8) * nyq
        cls = LowPass if kind == "low" else HighPass
        order = rng.choice([None, 1, 2, 3, 4, 7, 10])
        kw = {} if order is None else {"order": order}
        return kind, cls(cutoff=fc, **kw), [fc], order or 10
    if kind == "band":
        lo = rng.uniform(0.1, 0.5) * nyq
        hi = lo + rng.uniform(0.2, 0.4) * nyq
        order = rng.choice([None, 1, 2, 3, 4, 7])
        kw = {} if order is None else {"order": order}
        return kind, BandPass(cutoff_low=lo, cutoff_high=hi, **kw), [lo, hi], order or 10
    notch = rng.uniform(0.3, 0.75) * nyq
    order = rng.choice([None, 1, 2, 3, 4, 7])
    kw = {} if order is None else {"order": order}
    if rng.random() < 0.4:
        band = 0.1 * fs
        proc = Notch(notch=notch, **kw)
    else:
        band = rng.uniform(0.15, 0.35) * nyq
        proc = Notch(notch=notch, band=band, **kw)
    return kind, proc, [notch - band / 2, notch + band / 2], order or 10


@scenario("C07", "tones", quick=160)
def tones(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    kind, proc, edges, order = _make(rng, fs)
    n = 6000
    trim = 1500
    t = np.arange(n) / fs
    freqs = [rng.uniform(0.03, 0.95) * fs / 2 for _ in range(3)]
    freqs[1] = min(0.97 * fs / 2, rng.choice(edges) * rng.choice([0.9, 0.95, 1.05, 1.1]))
    if kind == "notch":
        freqs[0] = sum(edges) / 2
    if kind == "band":
        freqs[0] = sum(edges) / 2
    amps = [rng.uniform(0.5, 2) for _ in freqs]
    phases = [rng.uniform(0, 6.28) for _ in freqs]
    data = np.array([a * np.cos(2 * np.pi * f * t + p) for a, f, p in zip(amps, freqs, phases)])
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex", "Hy", "Hz"], data=data)
    what = f"{proc.name} {[round(e, 5) for e in edges]} order {order} fs {fs}"
    ctx.case((kind, fs, tuple(edges), order, tuple(freqs)))
    with ctx.no_error("filter", what):
        out = proc.run(td)
    build.check_time_meta(ctx, out, what)
    ctx.check(out.data.shape == td.data.shape, "shape", what)
    ctx.check(
        (out.metadata.fs, out.metadata.first_time) == (fs, td.metadata.first_time), "times", what
    )
    for row, a, f, p in zip(out.data, amps, freqs, phases):
        got = _measure(row, f, fs, trim)
        want = a * np.exp(1j * p) * _gain(kind, f, fs, edges, order)
        ctx.check(
            abs(got - want) <= 0.003 * a, "response",
            f"{what}: tone {f:.6g} Hz amplitude {a:.3f} -> {abs(got):.4f} "
            f"phase {np.angle(got) - p:.3f}, expected {abs(want):.4f}",
        )
        g = _gain(kind, f, fs, edges, order)
        ctx.observe("tones_passed" if g > 0.9 else "tones_stopped" if g < 0.1 else "tones_edge")
    # a constant, alone and under a tone
    const = rng.choice([3.0, -200.0, 5e4])
    dc = np.vstack([np.full(n, const), data[0] + const])
    dtype = rng.choice([np.float64, np.float32])
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex", "Hy"], data=dc.astype(dtype))
    res = proc.run(td).data.astype(float)[:, trim:-trim]
    want = const if kind in ("low", "notch") else 0.0
    slack = 0.01 + abs(const) * (1e-5 if dtype == np.float32 else 1e-6)
    ctx.check(
        np.max(np.abs(res[0] - want)) < slack, "constant", lambda: f"{what}: constant {const} -> {res[0].min()} {res[0].max()}"
    )
    rest = res[1] - out.data[0][trim:-trim] - want
    ctx.check(
        np.max(np.abs(rest)) < slack + 0.03 * amps[0], "constant-under-tone",
        lambda: f"{what}: constant {const} leaves {rest.min()} {rest.max()} next to a tone",
    )


@scenario("C07", "channels_and_types", quick=60)
def channels_and_types(ctx):
    """Channels do not influence each other, and the data type is kept"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    kind, proc, edges, order = _make(rng, fs)
    dtype = rng.choice([np.float64, np.float32])
    td = build.time_data(rng, ctx.np, fs=fs, n=1500, chans=["Ex", "Ey", "Hx"], dtype=dtype)
    ctx.case(("chans", kind, fs, tuple(edges), order))
    out = proc.run(td)
    ctx.check(out.data.dtype == td.data.dtype, "dtype", f"{out.data.dtype}")
    for i, chan in enumerate(td.metadata.chans):
        one = build.time_data(rng, ctx.np, fs=fs, n=1500, chans=[chan], data=td.data[i : i + 1])
        ctx.close_to(proc.run(one).data[0], out.data[i], "channel-alone", proc.name, rtol=1e-5)
    twice = build.time_data(rng, ctx.np, fs=fs, n=1500, chans=["Ex", "Ey", "Hx"], data=td.data * 2)
    ctx.close_to(proc.run(twice).data, out.data * 2, "linear", proc.name, rtol=1e-5)
    rev = build.time_data(
        rng, ctx.np, fs=fs, n=1500, chans=["Ex", "Ey", "Hx"], data=np.array(td.data[:, ::-1])
    )
    back = proc.run(rev).data[:, ::-1][:, 600:-600]
    ctx.close_to(back, out.data[:, 600:-600], "time-reversal", proc.name, rtol=2e-2)


@scenario("C07", "invalid", quick=60)
def invalid(ctx):
    """Corner frequencies the data cannot represent are errors"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    td = build.time_data(rng, ctx.np, fs=fs, n=500, chans=["Ex"])
    nyq = fs / 2
    x = nyq * rng.uniform(1.001, 3)
    y = nyq * rng.uniform(0.1, 0.9)
    ctx.case(("invalid", fs, x))
    for proc in (
        LowPass(cutoff=x), HighPass(cutoff=x), BandPass(cutoff_low=y, cutoff_high=x),
        BandPass(cutoff_low=y, cutoff_high=y * 0.5), Notch(notch=x),
    ):
        ctx.raises(lambda: proc.run(td), ProcessRunError, "beyond-nyquist", f"{proc} at {fs} Hz")


@scenario("C07", "notch_to_nyquist", quick=40)
def notch_to_nyquist(ctx):
    """A notch whose band reaches over the nyquist stops everything up to the nyquist"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    nyq = fs / 2
    notch = rng.uniform(0.85, 0.98) * nyq
    band = rng.uniform(0.35, 0.6) * nyq
    n = 4000
    t = np.arange(n) / fs
    f_low = rng.uniform(0.1, 0.8) * (notch - band / 2)
    f_stop = rng.uniform((notch - band / 2) / nyq + 0.12, 0.97) * nyq
    data = np.array([np.cos(2 * np.pi * f_low * t), np.cos(2 * np.pi * f_stop * t)])
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex", "Ey"], data=data)
    ctx.case(("to-nyq", fs, notch, band))
    what = f"notch {notch / nyq:.3f} band {band / nyq:.3f} of nyquist {nyq}"
    with ctx.no_error("notch-at-nyquist", what):
        out = Notch(notch=notch, band=band).run(td)
    ctx.check(abs(_measure(out.data[0], f_low, fs, 800)) > 0.9, "kept", what)
    ctx.check(abs(_measure(out.data[1], f_stop, fs, 800)) < 0.1, "stopped", f"{what} {f_stop / nyq}")


@scenario("C07", "notch_below_nyquist", quick=40)
def notch_below_nyquist(ctx):
    """However close to the nyquist a notch ends, what is above it is kept"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    nyq = fs / 2
    order = rng.choice([1, 2, 3])
    high = rng.uniform(0.95, 0.995)
    low = high - rng.uniform(0.1, 0.3)
    n, trim = 6000, 2000
    t = np.arange(n) / fs
    f = (1 - (1 - high) * rng.uniform(0.02, 0.3)) * nyq
    f_low = rng.uniform(0.1, 0.9) * low * nyq
    data = np.array([
        np.cos(2 * np.pi * f * t + rng.uniform(0, 6)), np.cos(2 * np.pi * f_low * t), (-1.0) ** np.arange(n),
    ])
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex", "Ey", "Hx"], data=data)
    what = f"notch order {order} from {low:.4f} to {high:.4f} of nyquist {nyq}"
    ctx.case(("below-nyq", fs, low, high, order))
    with ctx.no_error("notch-near-nyquist", what):
        out = Notch(notch=(low + high) / 2 * nyq, band=(high - low) * nyq, order=order).run(td)
    edges = [low * nyq, high * nyq]
    for row, freq in ((0, f), (1, f_low)):
        want = _gain("notch", freq, fs, edges, order)
        got = abs(_measure(out.data[row], freq, fs, trim))
        ctx.check(abs(got - want) <= 0.03, "response", f"{what}: tone at {freq / nyq:.5f} -> {got:.4f}, expected {want:.4f}")
    left = np.abs(out.data[2][trim:-trim])
    ctx.check(np.max(np.abs(left - 1)) < 0.03, "nyquist-kept", lambda: f"{what}: {left.min()} {left.max()}")
