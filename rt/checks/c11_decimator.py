"""C11: every decimation level is the same signal at a lower rate, as its metadata says"""
from fractions import Fraction

import numpy as np

from resistics.decimate import DecimationParameters, DecimationSetup, Decimator
from resistics.time import Decimate, Resample
from rt import build
from rt.checks.c06_timeline import Signal, _td
from rt.core import scenario
from rt.util import FS_COMMON, diff_seconds, time_tolerance


@scenario("C11", "levels", quick=150)
def levels(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    L, P = rng.randint(1, 7), rng.randint(1, 6)
    setup = DecimationSetup(
        n_levels=L, per_level=P, min_samples=rng.choice([30, 100, 256]),
        div_factor=rng.choice([2, 2, 2, 3, 4]),
    )
    params = setup.run(fs)
    n = rng.choice([300, 1000, 3000, 8000]) + rng.randint(0, 9)
    if rng.random() < 0.3:
        # a level which is just long enough, or just not
        factor = params.get_total_factor(rng.randrange(L))
        if factor * params.min_samples <= 9000:
            n = max(50, int(factor * params.min_samples) + rng.randint(-factor - 1, 2))
    resample = rng.random() < 0.6
    proc = Decimator(resample=resample, max_single_factor=rng.choice([3, 5, 8]))
    # expected lengths: every level keeps each inc-th sample
    lengths = []
    size = n
    for inc in params.dec_increments:
        size = -(-size // inc)
        if size < params.min_samples:
            break
        lengths.append(size)
    what = f"fs {fs} n {n} {L}x{P} resample={resample} increments {params.dec_increments}"
    ctx.case(("levels", fs, n, L, P, resample, tuple(params.dec_increments)))
    if not lengths:
        td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex"])
        ctx.raises(lambda: proc.run(params, td), Exception, "nothing-to-decimate", what)
        return
    deep = params.dec_fs[len(lengths) - 1]
    sigs = [Signal(rng, 0.2 * deep) for _ in range(rng.choice([1, 2, 4]))]
    td = _td(ctx, fs, n, sigs, rng.choice([np.float64, np.float32]))
    before = np.array(td.data)
    with ctx.no_error("decimate", what):
        dec = proc.run(params, td)
    ctx.equal(td.data, before, "input-kept", what)
    meta = dec.metadata
    ctx.check(
        meta.n_levels == len(lengths) == len(meta.levels_metadata) == len(meta.fs),
        "n-levels", f"{what}: {meta.n_levels} levels, expected {len(lengths)}",
    )
    ctx.check(sorted(dec.data) == list(range(len(lengths))), "levels-present", f"{what}: {sorted(dec.data)}")
    ctx.check(meta.chans == td.metadata.chans, "chans", what)
    ctx.check(meta.first_time == td.metadata.first_time, "first-time", what)
    ctx.check(meta.last_time == td.metadata.last_time, "last-time", what)
    for level, size in enumerate(lengths):
        lm = meta.levels_metadata[level]
        data = dec.get_level(level)
        w = f"{what} level {level}"
        ctx.check(data.shape == (len(sigs), size), "level-shape", f"{w}: {data.shape} {size}")
        ctx.check(lm.n_samples == data.shape[1], "level-n-samples", f"{w}: {lm.n_samples}")
        lfs = params.get_fs(level)
        ctx.check(abs(lm.fs - lfs) <= 1e-9 * lfs, "level-fs", f"{w}: {lm.fs} vs {lfs}")
        ctx.check(abs(meta.fs[level] - lfs) <= 1e-9 * lfs, "metadata-fs", f"{w}: {meta.fs[level]}")
        ctx.check(lm.first_time == td.metadata.first_time, "level-first-time", w)
        span = diff_seconds(lm.last_time, lm.first_time)
        exact = Fraction(size - 1) / Fraction(lm.fs)
        ctx.check(
            abs(span - exact) <= time_tolerance(size, lm.fs),
            "level-last-time", f"{w}: {float(span)}",
        )
        t = np.arange(size) / lfs
        trim = 25
        for sig, row in zip(sigs, data):
            err = np.max(np.abs(row[trim:-trim] - sig(t)[trim:-trim])) if size > 2 * trim + 5 else 0
            ctx.check(
                err <= 0.08 * sig.size, "level-signal",
                f"{w}: error {err:.4g} amplitude {sig.size:.4g}",
            )
        if params.get_total_factor(level) == 1:
            ctx.equal(data, before, "undecimated-level", w)
        if level > 0 and params.get_incremental_factor(level) == 1:
            ctx.equal(data, dec.get_level(level - 1), "same-rate-level", w)
        stamps = dec.get_timestamps(level)
        ctx.check(len(stamps) == size, "timestamps", f"{w}: {len(stamps)}")
        ctx.observe("levels_compared")
    ctx.raises(lambda: dec.get_level(len(lengths)), Exception, "absent-level", what)


@scenario("C11", "aliasing", quick=60)
def aliasing(ctx):
    """What a level cannot represent does not appear in it"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    params = DecimationSetup(n_levels=rng.randint(2, 5), per_level=4, min_samples=100).run(fs)
    n = 6000
    resample = rng.random() < 0.5
    level_of_tone = rng.randint(1, params.n_levels - 1)
    nyq = params.get_fs(level_of_tone) / 2
    f = rng.uniform(1.35, 1.9) * nyq
    tone = np.sin(2 * np.pi * f * np.arange(n) / fs + 1)[None, :]
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=["Ex"], data=tone)
    ctx.case(("alias", fs, level_of_tone, f, resample))
    dec = Decimator(resample=resample).run(params, td)
    for level in range(level_of_tone, dec.metadata.n_levels):
        if f > 0.98 * params.get_fs(0) / 2:
            break
        mid = dec.get_level(level)[0, 25:-25]
        ctx.check(
            np.max(np.abs(mid)) < 0.12, "alias",
            f"fs {fs} resample={resample}: tone at {f / nyq:.2f} nyquist of level "
            f"{level_of_tone} leaks {np.max(np.abs(mid)):.3f} in level {level}",
        )
        ctx.observe("levels_checked")


@scenario("C11", "options", quick=80)
def options(ctx):
    """The decimator uses the process and the largest single factor it is asked to use"""
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    n_levels = rng.randint(1, 4)
    incs = [rng.choice([1, 2, 3])] + [rng.choice([1, 2, 4, 5, 6, 8, 9, 12]) for _ in range(n_levels - 1)]
    factors = list(np.cumprod(incs))
    params = DecimationParameters(
        fs=fs, n_levels=n_levels, per_level=1, min_samples=20, dec_increments=incs, dec_factors=[int(x) for x in factors],
        dec_fs=[fs / int(x) for x in factors], eval_freqs=[fs / int(x) / 5 for x in factors],
    )
    n = rng.choice([400, 2000, 6000]) + rng.randint(0, 9)
    td = build.time_data(rng, ctx.np, fs=fs, n=n, chans=build.pick_chans(rng))
    resample, single = rng.random() < 0.4, rng.choice([3, 4, 6, 8, 12])
    what = f"fs {fs} n {n} increments {incs} resample={resample} single={single}"
    ctx.case(("options", fs, n, tuple(incs), resample, single))
    if -(-n // incs[0]) < 20:
        return
    with ctx.no_error("options", what):
        dec = Decimator(resample=resample, max_single_factor=single).run(params, td)
    cur, size = td, n
    for level, inc in enumerate(incs):
        size = -(-size // inc)
        if size < 20:
            ctx.check(dec.metadata.n_levels == level, "options-levels", f"{what}: {dec.metadata.n_levels}")
            break
        if inc > 1:
            proc = Resample(new_fs=cur.metadata.fs / inc) if resample else Decimate(factor=inc, max_single_factor=single)
            cur = proc.run(cur)
        ctx.same_run(dec.get_level(level), cur.data, "options-data", f"{what} level {level}")
        ctx.observe("levels_compared")
