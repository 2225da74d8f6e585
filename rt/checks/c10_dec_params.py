"""C10: decimation parameters fit the evaluation frequencies at any sampling frequency"""
import numpy as np

from resistics.decimate import DecimationParameters, DecimationSetup, get_eval_freqs
from rt import build
from rt.core import scenario
from rt.util import pick_fs


def _check(ctx, params, setup, fs, what):
    L, P = setup.n_levels, setup.per_level
    ctx.check(params.n_levels == L and params.per_level == P, "sizes", what)
    ctx.check(params.fs == fs, "fs", what)
    ctx.check(params.min_samples == setup.min_samples, "min-samples", what)
    ctx.check(len(params.eval_freqs) == L * P, "n-eval-freqs", what)
    ctx.check(
        len(params.dec_factors) == len(params.dec_increments) == len(params.dec_fs) == L,
        "n-factors", what,
    )
    freqs = np.array(params.eval_freqs).reshape(L, P)
    total = 1
    for level in range(L):
        factor = params.get_total_factor(level)
        inc = params.get_incremental_factor(level)
        total *= inc
        ctx.check(inc >= 1 and isinstance(inc, int), "increment", f"{what} level {level}: {inc}")
        ctx.check(
            factor == total, "factor-product",
            f"{what} level {level}: factor {factor}, increments multiply to {total}",
        )
        lfs = params.get_fs(level)
        ctx.check(
            abs(lfs - fs / factor) <= 1e-12 * fs, "level-fs", f"{what} level {level}: {lfs}"
        )
        rest = factor
        while rest % setup.div_factor == 0 and rest > 1:
            rest //= setup.div_factor
        ctx.check(rest == 1, "factor-power", f"{what} level {level}: {factor}")
        f_max = freqs[level].max()
        if factor > 1:
            ctx.check(
                lfs >= 4 * f_max * (1 - 1e-12), "level-fs-high-enough",
                f"{what} level {level}: fs {lfs} for eval freq {f_max}",
            )
        ctx.check(
            lfs / setup.div_factor < 4 * f_max * (1 + 1e-12), "level-fs-lowest",
            f"{what} level {level}: fs {lfs} could be lower for eval freq {f_max}",
        )
        if setup.div_factor == 2 and factor == fs / lfs:
            # dividing by two is exact: so is the condition
            ctx.check(lfs / 2 < 4 * f_max, "level-fs-lowest", f"{what} level {level}: fs {lfs} could be exactly {4 * f_max}")
        ctx.check(f_max <= lfs / 2 * (1 + 1e-12), "below-nyquist", f"{what} level {level}")
        ctx.equal(params.get_eval_freqs(level), freqs[level], "level-eval-freqs", what)
        ctx.equal(params[level], freqs[level], "level-eval-freqs", what)
        for i in range(P):
            ctx.check(params[level, i] == freqs[level, i], "eval-freq", what)
            ctx.check(params.get_eval_freq(level, i) == freqs[level, i], "eval-freq", what)
        ctx.observe("levels")
    ctx.equal(params.to_numpy(), freqs, "to-numpy", what)
    df = params.to_dataframe()
    ctx.equal(df[list(range(P))].to_numpy(), freqs, "dataframe", what)
    ctx.check(list(df.index) == list(range(L)) and df.shape == (L, P + 3), "dataframe", f"{what}: {df}")
    ctx.equal(df["fs"].to_numpy(), np.array(params.dec_fs), "dataframe", what)
    ctx.equal(df["factors"].to_numpy(), np.array(params.dec_factors), "dataframe", what)
    ctx.equal(df["increments"].to_numpy(), np.array(params.dec_increments), "dataframe", what)
    for bad in (-1, L, L + 3):
        for fnc in (params.get_eval_freqs, params.get_fs, params.get_total_factor, params.get_incremental_factor):
            ctx.raises(lambda: fnc(bad), ValueError, "level-range", f"{bad} of {L}")
        ctx.raises(lambda: params.get_eval_freq(bad, 0), ValueError, "level-range", f"{bad} of {L}")
    for bad in (-1, P, P + 2):
        ctx.raises(lambda: params.get_eval_freq(0, bad), ValueError, "idx-range", f"{bad} of {P}")
    back = DecimationParameters.parse_raw(params.json())
    ctx.check(build.snapshot(back) == build.snapshot(params), "json", what)


@scenario("C10", "automatic", quick=300)
def automatic(ctx):
    rng = ctx.rng
    fs = pick_fs(rng)
    kw = {}
    if rng.random() < 0.8:
        kw = dict(
            n_levels=rng.randint(1, 12), per_level=rng.randint(1, 9),
            div_factor=rng.choice([2, 2, 2, 3, 4, 5]), min_samples=rng.choice([1, 64, 256, 1000]),
        )
    setup = DecimationSetup(**kw)
    what = f"fs {fs} {kw}"
    ctx.case(("auto", fs, tuple(sorted(kw.items()))))
    with ctx.no_error("run", what):
        params = setup.run(fs)
    _check(ctx, params, setup, fs, what)
    f = np.array(params.eval_freqs)
    ctx.check(abs(f[0] - fs / 4) <= 1e-9 * fs, "first-eval-freq", f"{what}: {f[0]}")
    ctx.close_to(f[1:] / f[:-1], np.full(f.size - 1, 1 / np.sqrt(2)), "spacing", what, rtol=1e-9)


@scenario("C10", "explicit", quick=200)
def explicit(ctx):
    rng = ctx.rng
    fs = pick_fs(rng)
    L, P = rng.randint(1, 7), rng.randint(1, 6)
    top = fs * rng.choice([0.5, 0.4, 0.25, 0.2, 0.01])
    freqs = [top]
    while len(freqs) < L * P:
        freqs.append(freqs[-1] / rng.choice([1.1, 1.5, 2.0, 3.3]))
    if rng.random() < 0.3:
        # order within a level is up to the user
        rows = [freqs[i * P : (i + 1) * P] for i in range(L)]
        for row in rows:
            rng.shuffle(row)
        freqs = [f for row in rows for f in row]
    div = rng.choice([2, 2, 3, 5])
    if rng.random() < 0.5:
        # close to, or at, a quarter of the frequency of a level
        for level in range(L):
            k = max(range(level * P, level * P + P), key=lambda i: freqs[i])
            power = int(np.round(np.log(fs / 4 / freqs[k]) / np.log(div)))
            edge = fs / 4 / float(div) ** max(power, 0)
            near = edge * (1 + rng.choice([0, 1e-9, -1e-9, 1e-6, 1e-4, -1e-4, 1e-3, 1e-2]))
            before = freqs[: level * P]
            within = [f for i, f in enumerate(freqs[level * P :], level * P) if i != k]
            if near <= fs / 2 and all(f > near for f in before) and all(f < near for f in within):
                freqs[k] = near
    setup = DecimationSetup(n_levels=L, per_level=P, eval_freqs=freqs, div_factor=div)
    what = f"fs {fs} explicit {L}x{P} from {top}"
    ctx.case(("explicit", fs, L, P, tuple(freqs)))
    with ctx.no_error("run", what):
        params = setup.run(fs)
    ctx.equal(params.eval_freqs, freqs, "explicit-kept", what)
    _check(ctx, params, setup, fs, what)
    setup = DecimationSetup(n_levels=L, per_level=P, eval_freqs=freqs + [top / 1e4])
    ctx.raises(lambda: setup.run(fs), ValueError, "wrong-size", what)
    over = list(freqs)
    over[rng.randrange(len(over))] = fs / 2 * 1.01
    setup = DecimationSetup(n_levels=L, per_level=P, eval_freqs=over)
    ctx.raises(lambda: setup.run(fs), ValueError, "above-nyquist", what)


@scenario("C10", "nonsense", quick=40)
def nonsense(ctx):
    """What has no decimation parameters is refused, rather than tried forever"""
    rng = ctx.rng
    fs = pick_fs(rng)
    div = rng.choice([1, 0, -1, -2, -7])
    ctx.case(("nonsense", fs, div))
    made = False
    try:
        setup = DecimationSetup(div_factor=div)
        made = True
        setup.run(fs)
        ctx.fail("division-refused", f"{div}")
    except ValueError:
        ctx.check(not made, "division-refused", f"{div} is taken")
    freqs = [fs / rng.choice([5, 10, 40]) for _ in range(6)]
    bad = rng.choice([0, 0.0, -fs / 4, -1e-9])
    level = rng.randrange(3)
    freqs[level * 2 : level * 2 + 2] = [bad, bad]
    setup = DecimationSetup(n_levels=3, per_level=2, eval_freqs=freqs)
    ctx.raises(lambda: setup.run(fs), ValueError, "frequencies-refused", f"{fs} {freqs}")
    freqs[level * 2] = fs / 5
    setup = DecimationSetup(n_levels=3, per_level=2, eval_freqs=freqs)
    ctx.raises(lambda: setup.run(fs), ValueError, "frequencies-refused", f"{fs} {freqs}")
    ctx.observe("refused")


@scenario("C10", "frequency_lists", quick=200)
def frequency_lists(ctx):
    rng = ctx.rng
    fs = pick_fs(rng)
    n = rng.randint(1, 60)
    ctx.case(("list", fs, n))
    f = get_eval_freqs(fs, n_freqs=n)
    ctx.check(f.size == n and f[0] == fs / 4, "by-number", f"{fs} {n}")
    f_min = fs / 4 / 2 ** rng.uniform(0, 12)
    g = get_eval_freqs(fs, f_min=f_min)
    ctx.check(g.size > 0 and np.all(g >= f_min), "by-minimum", f"{fs} {f_min}: {g[-1:]}")
    ctx.check(g[-1] / np.sqrt(2) < f_min * (1 + 1e-9), "by-minimum-complete", f"{fs} {f_min}: {g[-1]}")
    ctx.close_to(g, get_eval_freqs(fs, n_freqs=g.size), "lists-agree", f"{fs}", rtol=1e-12)
    ctx.raises(lambda: get_eval_freqs(fs), ValueError, "no-argument")
    ctx.raises(lambda: get_eval_freqs(fs, f_min=fs / 3), ValueError, "minimum-too-high")
    for bad in (0, -1.0):
        ctx.raises(lambda: get_eval_freqs(fs, f_min=bad), ValueError, "minimum-not-positive")
