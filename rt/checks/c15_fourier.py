"""C15: spectra are the orthonormal DFT of the detrended and tapered windows"""
from fractions import Fraction

import numpy as np
from scipy.signal import get_window
from scipy.signal.windows import dpss

from resistics.sampling import to_timedelta
from resistics.spectra import FourierTransform
from resistics.window import WindowedData, WindowedLevelMetadata, WindowedMetadata
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, diff_seconds, make_time


def win_data(rng, nprs, n_levels=None, chans=None, dtype=np.float64, max_wins=8, sizes=None):
    """Windowed data with arbitrary content"""
    n_levels = n_levels or rng.randint(1, 4)
    chans = chans or build.pick_chans(rng)
    fs0 = float(rng.choice(FS_COMMON))
    first = make_time(rng, subns=False)
    data, levels = {}, []
    for i in range(n_levels):
        size = rng.choice(sizes or [16, 25, 31, 64, 97, 100, 128, 256])
        n_wins = rng.randint(1, max_wins)
        trend = np.linspace(-1, 1, size) * rng.choice([0, 50]) + rng.choice([0, 20])
        data[i] = build.laid_out(rng, (nprs.randn(n_wins, len(chans), size) * 30 + trend).astype(dtype))
        levels.append(
            WindowedLevelMetadata(
                fs=fs0 / 2 ** i, n_wins=n_wins, win_size=size, olap_size=max(1, size // 4),
                index_offset=rng.choice([0, 1, 37, 4000]),
            )
        )
    meta = build.time_metadata(fs0, 10000, first, chans).dict()
    meta.update(
        fs=[x.fs for x in levels], n_levels=n_levels, levels_metadata=levels,
        ref_time=first - to_timedelta(rng.randint(0, 10 ** 6)),
    )
    meta.pop("file_info")
    return WindowedData(WindowedMetadata(**meta), data)


def reference(x, detrend, taper, n_fft):
    """Plain evaluation of the definition, x is one window of one channel"""
    x = np.asarray(x, dtype=np.float64)
    n = x.size
    if detrend == "constant":
        x = x - x.sum() / n
    elif detrend == "linear":
        t = np.arange(n) - (n - 1) / 2
        x = x - x.sum() / n - t * (t * x).sum() / (t * t).sum()
    x = x * taper
    k = np.arange(n_fft // 2 + 1)
    kernel = np.exp(-2j * np.pi * ((np.outer(k, np.arange(n))) % n_fft) / n_fft)
    return kernel.dot(x) / np.sqrt(n_fft)


def pick_taper(rng):
    return rng.choice(
        [("kaiser", 14), ("kaiser", 5.0), "hann", "boxcar", "blackman", ("gaussian", 10), "dpss"]
    )


def taper_of(name, size):
    return dpss(size, 5) if name == "dpss" else get_window(name, size)


@scenario("C15", "transform", quick=250)
def transform(ctx):
    rng = ctx.rng
    dtype = rng.choice([np.float64, np.float64, np.float32, np.int32, np.int64])
    wd = win_data(rng, ctx.np, dtype=dtype)
    detrend = rng.choice(["linear", "linear", "constant", None])
    name = pick_taper(rng)
    workers = rng.choice([-2, 1, 2])
    what = f"{np.dtype(dtype)} detrend {detrend} taper {name} {[v.shape for v in wd.data.values()]}"
    ctx.case((what, wd.data[0].tobytes()))
    before = {k: np.array(v) for k, v in wd.data.items()}
    with ctx.no_error("transform", what):
        sd = FourierTransform(win_fnc=name, detrend=detrend, workers=workers).run(wd)
    meta = sd.metadata
    ctx.check(meta.n_levels == wd.metadata.n_levels == len(sd.data), "n-levels", what)
    ctx.check(meta.chans == wd.metadata.chans, "chans", what)
    ctx.check(meta.ref_time == wd.metadata.ref_time, "ref-time", what)
    rtol = 3e-5 if dtype == np.float32 else 1e-9
    for i in range(meta.n_levels):
        w = f"{what} level {i}"
        x = before[i]
        lm, wm = meta.levels_metadata[i], wd.metadata.levels_metadata[i]
        for field in ("fs", "n_wins", "win_size", "olap_size", "index_offset"):
            ctx.check(getattr(lm, field) == getattr(wm, field), "level-" + field.replace("_", "-"), w)
        n_wins, n_chans, size = x.shape
        freqs = np.array(lm.freqs)
        n_fft = int(round(lm.fs / freqs[1]))
        ctx.check(size <= n_fft <= 2 * size, "transform-length", f"{w}: {n_fft} for {size}")
        ctx.close_to(freqs, np.arange(n_fft // 2 + 1) * lm.fs / n_fft, "freqs", w, rtol=1e-10)
        ctx.check(lm.n_freqs == len(freqs) == sd.get_level(i).shape[-1], "n-freqs", w)
        ctx.check(
            sd.get_level(i).shape == (n_wins, n_chans, len(freqs)), "level-shape",
            f"{w}: {sd.get_level(i).shape}",
        )
        ctx.check(abs(lm.nyquist - lm.fs / 2) < 1e-9 * lm.fs, "nyquist", w)
        taper = taper_of(name, size)
        for k in range(n_wins):
            for c in range(n_chans):
                ref = reference(x[k, c], detrend, taper, n_fft)
                scale = np.sqrt(np.mean(np.abs(x[k, c].astype(float)) ** 2)) + 1e-12
                ctx.close_to(
                    sd.get_level(i)[k, c] / scale, ref / scale, "spectrum",
                    f"{w} window {k} chan {c}", rtol=rtol, atol=rtol,
                )
                ctx.observe("spectra_compared")
        accessors(ctx, sd, i, w)
    ctx.raises(lambda: sd.get_level(meta.n_levels), Exception, "level-range", what)


def accessors(ctx, sd, i, w):
    rng = ctx.rng
    data = sd.get_level(i)
    chans = sd.metadata.chans
    n_wins = data.shape[0]
    for c, chan in enumerate(chans):
        ctx.equal(sd.get_chan(i, chan), data[:, c, :], "get-chan", f"{w} {chan}")
    some = rng.sample(chans, rng.randint(1, len(chans)))
    ctx.equal(
        sd.get_chans(i, some), data[:, [chans.index(c) for c in some], :], "get-chans", f"{w} {some}"
    )
    f = rng.randrange(data.shape[2])
    ctx.equal(np.ravel(sd.get_freq(i, f)), np.ravel(data[:, :, f]), "get-freq", w)
    ctx.raises(lambda: sd.get_freq(i, data.shape[2]), ValueError, "freq-range", w)
    ctx.raises(lambda: sd.get_chan(i, "Qx"), Exception, "chan-absent", w)
    ctx.raises(lambda: sd.get_chans(i, [chans[0], "Qx"]), Exception, "chan-absent", w)
    mag, phs = sd.get_mag_phs(i)
    ctx.close_to(mag * np.exp(1j * phs), data, "mag-phase", w, rtol=1e-5)
    mag2, phs2 = sd.get_mag_phs(i, unwrap=True)
    ctx.close_to(mag2 * np.exp(1j * phs2), data, "mag-phase-unwrap", w, rtol=1e-4)
    if data.shape[2] > 1:
        ctx.check(
            float(np.max(np.abs(np.diff(phs2, axis=-1)))) <= np.pi * 1.001, "unwrap", w
        )
    # window times
    lm = sd.metadata.levels_metadata[i]
    stamps = sd.get_timestamps(i)
    ctx.check(len(stamps) == n_wins, "timestamps", w)
    inc = Fraction(lm.win_size - lm.olap_size) / Fraction(lm.fs)
    ref = sd.metadata.ref_time
    for k in (0, n_wins - 1):
        t = build.to_atto(stamps[k])
        exact = (lm.index_offset + k) * inc
        err = abs(diff_seconds(t, ref) - exact)
        tol = Fraction(2, 10 ** 9) * (k + 2) + Fraction(1, 1000) / Fraction(lm.fs)
        ctx.check(err <= tol, "window-times", f"{w} window {k}: {stamps[k]} off {float(err)} s")


@scenario("C15", "tones", quick=80)
def tones(ctx):
    """A sinusoid on a frequency of the transform has its amplitude and phase there"""
    rng = ctx.rng
    wd = win_data(rng, ctx.np, n_levels=1, chans=["Ex", "Hy"], sizes=[64, 128, 240, 256])
    lm = wd.metadata.levels_metadata[0]
    size, n_wins = lm.win_size, lm.n_wins
    k = rng.randint(8, size // 2 - 8)
    amp, phase = 10 ** rng.uniform(-2, 3), rng.uniform(-3, 3)
    t = np.arange(size)
    wave = amp * np.cos(2 * np.pi * k * t / size + phase)
    wd.data[0] = np.zeros((n_wins, 2, size))
    wd.data[0][:, 1, :] = wave
    name = rng.choice(["boxcar", "hann"])
    ctx.case(("tone", size, k, amp, phase, name))
    sd = FourierTransform(win_fnc=name, detrend=None).run(wd)
    gain = taper_of(name, size).sum() / 2 / np.sqrt(size)
    want = amp * gain * np.exp(1j * phase)
    for w in range(n_wins):
        got = sd.get_chan(0, "Hy")[w]
        ctx.check(
            abs(got[k] - want) <= 1e-6 * amp * size, "tone",
            f"size {size} bin {k} taper {name}: {got[k]} expected {want}",
        )
        ctx.check(int(np.argmax(np.abs(got))) == k, "tone-bin", f"{size} {k}")
        ctx.check(abs(sd.metadata.levels_metadata[0].freqs[k] - k * lm.fs / size) < 1e-9 * lm.fs, "tone-freq")
        ctx.check(float(np.max(np.abs(sd.get_chan(0, "Ex")[w]))) == 0.0, "tone-leak", "other channel")
