"""C16: evaluation frequencies interpolate, smoothers average over frequency only"""
import numpy as np

from resistics.decimate import DecimationParameters
from resistics.spectra import (
    EvaluationFreqs, FourierTransform, SpectraData, SpectraLevelMetadata, SpectraMetadata,
    SpectraSmootherGaussian, SpectraSmootherUniform,
)
from rt import build
from rt.checks.c15_fourier import win_data
from rt.core import scenario


def spec_data(ctx, n_levels=None, chans=None, dtype=np.complex128, sizes=None, max_wins=8, wd=None):
    rng = ctx.rng
    wd = wd or win_data(rng, ctx.np, n_levels=n_levels, chans=chans, sizes=sizes, max_wins=max_wins)
    data, levels = {}, []
    for i, lm in enumerate(wd.metadata.levels_metadata):
        n_freqs = lm.win_size // 2 + 1
        shape = (lm.n_wins, len(wd.metadata.chans), n_freqs)
        data[i] = build.laid_out(rng, (ctx.np.randn(*shape) + 1j * ctx.np.randn(*shape)).astype(dtype) * 10)
        freqs = (np.arange(n_freqs) * lm.fs / lm.win_size).tolist()
        levels.append(SpectraLevelMetadata(n_freqs=n_freqs, freqs=freqs, **lm.dict()))
    meta = wd.metadata.dict()
    meta["levels_metadata"] = levels
    meta.pop("file_info", None)
    return SpectraData(SpectraMetadata(**meta), data)


def params_for(rng, sd, per_level):
    """Parameters with evaluation frequencies anywhere inside the levels' frequencies"""
    evals = []
    for lm in sd.metadata.levels_metadata:
        freqs = np.array(lm.freqs)
        level = []
        while len(level) < per_level:
            r = rng.random()
            if r < 0.3:
                f = float(rng.choice(freqs[1:-1]))
            elif r < 0.4:
                f = float(freqs[rng.choice([0, -1, 1])]) or float(freqs[1])
            else:
                f = rng.uniform(freqs[0], freqs[-1])
            if f > 0:
                level.append(f)
        evals.append(sorted(level, reverse=True))
    n = len(evals)
    return DecimationParameters(
        eval_freqs=[f for level in evals for f in level], dec_factors=[2 ** i for i in range(n)],
        dec_increments=[1] + [2] * (n - 1), dec_fs=[lm.fs for lm in sd.metadata.levels_metadata],
        fs=sd.metadata.fs[0], n_levels=n, per_level=per_level, min_samples=10,
    )


@scenario("C16", "evaluation_freqs", quick=250)
def evaluation_freqs(ctx):
    rng = ctx.rng
    dtype = rng.choice([np.complex128, np.complex128, np.complex64])
    sd = spec_data(ctx, dtype=dtype)
    per_level = rng.randint(1, 6)
    params = params_for(rng, sd, per_level)
    what = f"{[v.shape for v in sd.data.values()]} per level {per_level}"
    ctx.case((what, sd.data[0].tobytes()))
    with ctx.no_error("evals", what):
        out = EvaluationFreqs().run(params, sd)
    ctx.check(out.metadata.n_levels == sd.metadata.n_levels == len(out.data), "n-levels", what)
    ctx.check(out.metadata.chans == sd.metadata.chans, "chans", what)
    ctx.check(out.metadata.ref_time == sd.metadata.ref_time, "ref-time", what)
    rtol = 2e-5 if dtype == np.complex64 else 1e-9
    for i in range(sd.metadata.n_levels):
        w = f"{what} level {i}"
        evals = params.get_eval_freqs(i)
        lm, sm = out.metadata.levels_metadata[i], sd.metadata.levels_metadata[i]
        ctx.close_to(lm.freqs, evals, "eval-freqs", w, rtol=1e-12)
        ctx.check(lm.n_freqs == per_level, "n-freqs", w)
        for field in ("fs", "n_wins", "win_size", "olap_size", "index_offset"):
            ctx.check(getattr(lm, field) == getattr(sm, field), "level-" + field.replace("_", "-"), w)
        src, got = sd.get_level(i), out.get_level(i)
        ctx.require(got.shape == src.shape[:2] + (per_level,), "level-shape", f"{w}: {got.shape}")
        freqs = np.array(sm.freqs)
        for k in range(src.shape[0]):
            for c in range(src.shape[1]):
                row = src[k, c].astype(np.complex128)
                ref = np.interp(evals, freqs, row.real) + 1j * np.interp(evals, freqs, row.imag)
                ctx.close_to(got[k, c], ref, "interpolated", f"{w} window {k} chan {c}", rtol=rtol)
                ctx.observe("spectra_compared")


@scenario("C16", "smoothers", quick=200)
def smoothers(ctx):
    rng = ctx.rng
    uniform = rng.random() < 0.5
    sd = spec_data(ctx, sizes=rng.choice([[16, 24, 40, 64], [128, 200, 256]] if uniform else [[128, 200, 256]]))
    if uniform:
        prop = rng.choice([0.0, 0.01, 0.05, 0.1, 0.2, 0.3])
        proc = SpectraSmootherUniform(length_proportion=prop)
    else:
        sigma = rng.choice([0.5, 1, 2, 3, 4.5])
        proc = SpectraSmootherGaussian(sigma=sigma)
    what = repr(proc)
    for i in sd.data:
        sd.data[i][:] = 0
    level = rng.randrange(sd.metadata.n_levels)
    n_wins, n_chans, n_freqs = sd.data[level].shape
    k, c = rng.randrange(n_wins), rng.randrange(n_chans)
    f = n_freqs // 2 + rng.randint(-2, 2)
    value = complex(ctx.np.randn(), ctx.np.randn()) * 10
    sd.data[level][k, c, f] = value
    ctx.case((what, level, k, c, f, n_freqs))
    with ctx.no_error("smooth", what):
        out = proc.run(sd)
    response = np.array(out.data[level][k, c]) / value
    ctx.check(np.max(np.abs(response.imag)) < 1e-12, "smooth-complex", what)
    response = response.real
    ctx.check(abs(response.sum() - 1) < 1e-9, "smooth-sum", f"{what}: {response.sum()}")
    m = min(f, n_freqs - 1 - f)
    ctx.close_to(response[f - m:f], response[f + 1:f + m + 1][::-1], "smooth-symmetric", what, atol=1e-12)
    offsets = np.arange(n_freqs) - f
    if uniform:
        length = int(np.sum(np.abs(response) > 1e-12))
        ctx.check(
            length % 2 == 1 and abs(length - max(1, prop * n_freqs)) <= 1.0 + 1e-9, "smooth-length",
            f"{what}: {length} of {n_freqs}",
        )
        ctx.close_to(response[np.abs(response) > 1e-12], np.full(length, 1 / length), "smooth-uniform", what)
    else:
        std = np.sqrt(np.sum(response * offsets ** 2))
        # the kernel is sampled and cut at four standard deviations
        kernel = np.exp(-0.5 * (offsets / sigma) ** 2)
        want = np.sqrt(np.sum(kernel * offsets ** 2) / kernel.sum())
        ctx.check(abs(std - want) <= 0.02 * sigma, "smooth-sigma", f"{what}: {std} expected {want}")
    others = np.array(out.data[level])
    others[k, c] = 0
    ctx.check(not np.any(others), "smooth-mixing", what)
    for i in out.data:
        ctx.check(out.data[i].shape == sd.data[i].shape, "smooth-shape", what)
        if i != level:
            ctx.check(not np.any(out.data[i]), "smooth-level-mixing", what)
    ctx.check(
        out.metadata.levels_metadata == sd.metadata.levels_metadata
        and out.metadata.chans == sd.metadata.chans, "smooth-metadata", what,
    )
    # linear and constant preserving
    const = complex(ctx.np.randn(), ctx.np.randn())
    for i in sd.data:
        sd.data[i] = np.full(sd.data[i].shape, const)
    out = proc.run(sd)
    for i in sd.data:
        ctx.close_to(out.data[i], sd.data[i], "smooth-constant", f"{what} level {i}", rtol=1e-9)
    a = spec_data(ctx, wd=_as_windowed(sd))
    ra = proc.run(a)
    for i in a.data:
        n_freqs = a.data[i].shape[-1]
        for kk in range(a.data[i].shape[0]):
            for cc in range(a.data[i].shape[1]):
                x = a.data[i][kk, cc]
                if uniform:
                    length = int(round(1 / response.max())) if n_freqs == len(response) else None
                    if length is None:
                        continue
                    h = length // 2
                    mid = slice(h, n_freqs - h)
                    ref = np.convolve(x, np.ones(length) / length, mode="same")
                else:
                    h = int(4 * sigma + 1)
                    kernel = np.exp(-0.5 * (np.arange(-h, h + 1) / sigma) ** 2)
                    ref = np.convolve(x, kernel / kernel.sum(), mode="same")
                    mid = slice(h, n_freqs - h)
                ctx.close_to(ra.data[i][kk, cc][mid], ref[mid], "smooth-values", what, rtol=2e-3)
                ctx.observe("spectra_compared")


def _as_windowed(sd):
    class W:
        metadata = sd.metadata
    meta = sd.metadata.copy(deep=True)
    for i, lm in enumerate(meta.levels_metadata):
        d = lm.dict()
        d.pop("n_freqs")
        d.pop("freqs")
        from resistics.window import WindowedLevelMetadata
        meta.levels_metadata[i] = WindowedLevelMetadata(**d)
    W.metadata = meta
    return W
