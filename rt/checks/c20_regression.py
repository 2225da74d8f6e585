"""C20: regression recovers the tensor that produced the spectra"""
from pathlib import Path

import numpy as np
from sklearn.linear_model import HuberRegressor, LinearRegression, RANSACRegressor, TheilSenRegressor

from resistics.common import History
from resistics.decimate import DecimationParameters
from resistics.gather import GatheredData, QuickGather, SiteCombinedData, SiteCombinedMetadata
from resistics.regression import (
    RegressionPreparerGathered, RegressionPreparerSpectra, SolverScikitHuber, SolverScikitOLS,
    SolverScikitRANSAC, SolverScikitTheilSen, SolverScikitWLS,
)
from resistics.spectra import SpectraData, SpectraLevelMetadata, SpectraMetadata
from resistics.time import ChanMetadata
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction, get_component_key
from rt.build import CHANS
from rt.core import scenario
from rt.util import make_time

SOLVERS = [
    SolverScikitOLS, SolverScikitHuber, SolverScikitTheilSen, SolverScikitRANSAC, SolverScikitWLS,
]


def make_tf(rng):
    """A transfer function and channel lists in any order, any number of outputs and inputs"""
    r = rng.random()
    if r < 0.3:
        return ImpedanceTensor()
    if r < 0.4:
        return Tipper(variation="v")
    if r < 0.6:
        outs, ins = ["Ex", "Ey", "Hz"], ["Hx", "Hy"]
        rng.shuffle(outs), rng.shuffle(ins)
        return TransferFunction(out_chans=outs[:rng.randint(1, 3)], in_chans=ins, cross_chans=rng.choice([None, ["Hy", "Hx"], ["Ex", "Hx", "Hy"]]))
    names = CHANS + ["Bx", "By"]
    rng.shuffle(names)
    n_in = rng.randint(1, 3)
    ins, outs = names[:n_in], names[n_in:n_in + rng.randint(1, 3)]
    cross = rng.choice([None, None, rng.sample(names, rng.randint(n_in, 4))])
    return TransferFunction(variation="mix", out_chans=outs, in_chans=ins, cross_chans=cross)


def cnormal(nprs, *shape):
    return nprs.randn(*shape) + 1j * nprs.randn(*shape)


def make_levels(rng, fs):
    n_levels, per_level = rng.randint(1, 4), rng.randint(1, 4)
    freqs, f = [], fs / 4.5
    for _ in range(n_levels * per_level):
        freqs.append(f)
        f /= rng.uniform(1.2, 2)
    return n_levels, per_level, freqs


def dec_params(fs, n_levels, per_level, freqs):
    return DecimationParameters(
        eval_freqs=freqs, dec_factors=[2 ** i for i in range(n_levels)],
        dec_increments=[1] + [2] * (n_levels - 1), dec_fs=[fs / 2 ** i for i in range(n_levels)],
        fs=fs, n_levels=n_levels, per_level=per_level, min_samples=10,
    )


class Problem:
    """Spectra of every participating site, for a tensor per evaluation frequency

    out = Z in, for each window and evaluation frequency.  The cross site shares the source
    with the input, but with channels of its own where it is a different site.
    """

    def __init__(self, ctx, min_wins=6, max_wins=30, wide=4, tf=None):
        rng, nprs = ctx.rng, ctx.np
        self.tf = tf = tf or make_tf(rng)
        self.fs = float(rng.choice([0.5, 1, 64, 128, 4096]))
        self.n_levels, self.per_level, self.freqs = make_levels(rng, self.fs)
        # channels of different units: electric fields and magnetic fields far apart
        self.scale = {}
        base = rng.uniform(-4, 4)
        for chan in sorted(set(tf.out_chans + tf.in_chans + tf.cross_chans)):
            self.scale[chan] = 10 ** (base + rng.uniform(-wide, wide))
        self.tensors, self.ins, self.outs, self.cross = [], [], [], []
        self.n_wins = [rng.randint(min_wins, max_wins) for _ in range(self.n_levels)]
        for ieval in range(len(self.freqs)):
            n = self.n_wins[ieval // self.per_level]
            z = cnormal(nprs, tf.n_out, tf.n_in)
            if rng.random() < 0.2 and not set(tf.out_chans) & set(tf.cross_chans):
                z[rng.randrange(tf.n_out), rng.randrange(tf.n_in)] = 0
            so = np.array([self.scale[c] for c in tf.out_chans])
            si = np.array([self.scale[c] for c in tf.in_chans])
            z = z * so[:, None] / si[None, :]
            x = cnormal(nprs, n, tf.n_in) * si
            y = x @ z.T
            mix = cnormal(nprs, tf.n_in, tf.n_cross) + 2 * np.eye(tf.n_in, tf.n_cross)
            c = (x / si) @ mix + 0.2 * cnormal(nprs, n, tf.n_cross)
            self.tensors.append(z)
            self.ins.append(x)
            self.outs.append(y)
            self.cross.append(c * np.array([self.scale[k] for k in tf.cross_chans]))
        self.what = f"{tf.name} {tf.out_chans}<-{tf.in_chans} x{tf.cross_chans} wins {self.n_wins} per level {self.per_level}"

    def gathered(self, rng):
        def combined(site, chans, data):
            meta = SiteCombinedMetadata(
                site_name=site, fs=self.fs, chans=chans, n_evals=len(data), eval_freqs=self.freqs,
                measurements=["m"], histories={"m": History()},
            )
            return SiteCombinedData(meta, {i: d.copy() for i, d in enumerate(data)})

        names = rng.choice([("a", "a", "a"), ("a", "a", "r"), ("a", "b", "c"), ("a", "b", "b")])
        tf = self.tf
        return GatheredData(
            combined(names[0], tf.out_chans, self.outs), combined(names[1], tf.in_chans, self.ins),
            combined(names[2], tf.cross_chans, self.cross),
        )

    def same_site(self):
        """Whether no channel is both output and input, so that one recording can hold all"""
        return not set(self.tf.out_chans) & set(self.tf.in_chans)

    def spectra(self, rng):
        """One recording holding all channels; the cross channels are those of the recording"""
        tf = self.tf
        chans = sorted(set(tf.out_chans + tf.in_chans + tf.cross_chans))
        chans += [c for c in CHANS if c not in chans and rng.random() < 0.5]
        rng.shuffle(chans)
        data, levels = {}, []
        nprs = np.random.RandomState(rng.randrange(2 ** 31))
        for level in range(self.n_levels):
            n = self.n_wins[level]
            arr = cnormal(nprs, n, len(chans), self.per_level)
            for f in range(self.per_level):
                ieval = level * self.per_level + f
                values = {c: self.cross[ieval][:, i] for i, c in enumerate(tf.cross_chans)}
                values.update({c: self.ins[ieval][:, i] for i, c in enumerate(tf.in_chans)})
                values.update({c: self.outs[ieval][:, i] for i, c in enumerate(tf.out_chans)})
                for i, c in enumerate(chans):
                    if c in values:
                        arr[:, i, f] = values[c]
                self.cross[ieval] = np.stack([values[c] for c in tf.cross_chans], axis=1)
            data[level] = arr
            k = level * self.per_level
            levels.append(SpectraLevelMetadata(
                fs=self.fs / 2 ** level, n_wins=n, win_size=64, olap_size=16, index_offset=rng.randint(0, 9),
                n_freqs=self.per_level, freqs=self.freqs[k:k + self.per_level],
            ))
        t = make_time(rng)
        meta = SpectraMetadata(
            fs=[lm.fs for lm in levels], chans=chans, n_levels=self.n_levels, first_time=t, last_time=t,
            chans_metadata={c: ChanMetadata(name=c, data_files=["d"]) for c in chans},
            levels_metadata=levels, ref_time=t,
        )
        return SpectraData(meta, data)

    def regression_input(self, ctx, what):
        """Any of the ways to the regression input"""
        rng = ctx.rng
        ways = ["gathered", "gathered"] + (["spectra", "quick"] if self.same_site() else [])
        way = rng.choice(ways)
        with ctx.no_error("prepare", f"{what} {way}"):
            if way == "gathered":
                rd = RegressionPreparerGathered().run(self.tf, self.gathered(rng))
            elif way == "spectra":
                rd = RegressionPreparerSpectra().run(self.tf, self.spectra(rng))
            else:
                params = dec_params(self.fs, self.n_levels, self.per_level, self.freqs)
                gd = QuickGather().run(Path("meas"), params, self.tf, self.spectra(rng))
                rd = RegressionPreparerGathered().run(self.tf, gd)
        ctx.observe("prepared_" + way)
        return way, rd


def tensor_error(problem, sol, ieval):
    """Largest error of an entry relative to the size of its row, in units of the channels"""
    tf = problem.tf
    z = problem.tensors[ieval]
    si = np.array([problem.scale[c] for c in tf.in_chans])
    got = np.empty_like(z)
    for o, out in enumerate(tf.out_chans):
        for i, inp in enumerate(tf.in_chans):
            got[o, i] = sol.components[get_component_key(out, inp)].to_numpy()[ieval]
    size = np.max(np.abs(z * si), axis=1, keepdims=True) + 1e-300
    err = np.abs((got - z) * si) / size
    return float(err.max()), got


def make_solver(rng, cls, robust=False):
    kw = {}
    if cls is SolverScikitWLS:
        kw["n_iter"] = 50 if robust else rng.choice([1, 2, 50])
    if cls is SolverScikitHuber:
        kw["epsilon"] = rng.choice([1, 1.35]) if robust else rng.choice([1, 1.35, 3])
    if cls is SolverScikitTheilSen and not robust:
        kw["n_subsamples"] = rng.choice([None, None, 0.9])
    if cls is SolverScikitRANSAC:
        kw = {"min_samples": 0.08, "max_trials": 200} if robust else {"min_samples": rng.choice([0.5, 0.8])}
    if not robust or cls is not SolverScikitTheilSen:
        kw["fit_intercept"] = rng.random() < 0.3
    return cls(**kw)


@scenario("C20", "recovers", quick=220, timeout=240)
def recovers(ctx):
    rng = ctx.rng
    solver = make_solver(rng, rng.choice(SOLVERS))
    # subsets of rows are solved without equilibration, which limits the scales in one problem
    problem = Problem(ctx, wide=1 if isinstance(solver, SolverScikitTheilSen) else 4)
    what = f"{problem.what} {solver!r}"
    way, rd = problem.regression_input(ctx, what)
    what = f"{way} {what}"
    ctx.case((what, problem.ins[0].tobytes()))
    ctx.check(list(rd.freqs) == problem.freqs, "input-freqs", what)
    with ctx.no_error("solve", what):
        sol = solver.run(rd)
    tf = problem.tf
    ctx.check(list(sol.freqs) == problem.freqs, "freqs", f"{what}: {sol.freqs} expected {problem.freqs}")
    keys = {get_component_key(o, i) for o in tf.out_chans for i in tf.in_chans}
    ctx.require(set(sol.components) == keys, "components", f"{what}: {list(sol.components)}")
    ctx.check(sol.tf == tf, "solution-tf", what)
    # a Theil Sen estimate takes medians over subsets, some of which are ill conditioned
    limit = 2e-3 if isinstance(solver, SolverScikitTheilSen) else 1e-6
    for ieval in range(len(problem.freqs)):
        err, got = tensor_error(problem, sol, ieval)
        ctx.check(
            err < limit, "tensor",
            lambda: f"{what} eval {ieval}: relative error {err:.2e}: {got} expected {problem.tensors[ieval]}",
        )
        z = sol.get_tensor(ieval)
        ctx.equal(z, got, "get-tensor", f"{what} eval {ieval}")
        ctx.observe("tensors_compared")
    ctx.observe("solved_" + type(solver).__name__)


@scenario("C20", "equations", quick=150)
def equations(ctx):
    """Each window and cross channel gives the two real equations of out C* = Z in C*"""
    rng = ctx.rng
    problem = Problem(ctx, min_wins=1)
    tf = problem.tf
    # independent outputs, so that each row is identifiable
    problem.outs = [y + cnormal(ctx.np, *y.shape) * np.abs(y).mean() for y in problem.outs]
    way, rd = problem.regression_input(ctx, problem.what)
    what = f"{way} {problem.what}"
    ctx.case((what, problem.ins[0].tobytes()))
    ctx.require(rd.n_freqs == len(problem.freqs) == len(rd.obs) == len(rd.preds), "n-freqs", what)
    for ieval in range(rd.n_freqs):
        cross = problem.cross[ieval].conj()
        n = cross.shape[0]
        for o, out in enumerate(tf.out_chans):
            obs, preds = rd.get_inputs(ieval, out)
            w = f"{what} eval {ieval} {out}"
            ctx.require(preds.shape == (2 * n * tf.n_cross, 2 * tf.n_in), "preds-shape", f"{w}: {preds.shape}")
            ctx.require(obs.shape == (2 * n * tf.n_cross,), "obs-shape", f"{w}: {obs.shape}")
            rows = []
            for k in range(n):
                for c in range(tf.n_cross):
                    y = problem.outs[ieval][k, o] * cross[k, c]
                    p = problem.ins[ieval][k] * cross[k, c]
                    rows.append([y.real] + [v for e in p for v in (e.real, -e.imag)])
                    rows.append([y.imag] + [v for e in p for v in (e.imag, e.real)])
            want = np.array(rows)
            got = np.column_stack([obs, preds])
            want, got = (a[np.argsort(np.round(a[:, 0] / np.abs(a[:, 0]).max(), 9), kind="stable")] for a in (want, got))
            scale = np.abs(want).max(axis=0)
            ctx.close_to(got / scale, want / scale, "equation-rows", w, rtol=1e-9)
            ctx.observe("equations_compared", len(rows))


@scenario("C20", "robust", quick=80, timeout=240)
def robust(ctx):
    """A tenth of the windows carries bursts in the output channels"""
    rng, nprs = ctx.rng, ctx.np
    problem = Problem(ctx, min_wins=50, max_wins=70, wide=rng.choice([0, 1]))
    cls = rng.choice([SolverScikitHuber, SolverScikitTheilSen, SolverScikitRANSAC, SolverScikitWLS])
    solver = make_solver(rng, cls, robust=True)
    if cls is SolverScikitRANSAC or cls is SolverScikitTheilSen and problem.tf.n_in > 2:
        raise_to = 0.04
    else:
        raise_to = rng.choice([0.04, 0.1])
    how = rng.choice(["bursts", "bursts", "reversed"])
    if cls is SolverScikitRANSAC:
        how = "bursts"  # small reversed windows are within its threshold, and rightly kept
    share = 0.2 if how == "bursts" else 0.4
    for ieval, y in enumerate(problem.outs):
        n = y.shape[0]
        bad = nprs.choice(n, size=max(1, int(raise_to * n)), replace=False)
        if how == "bursts":
            size = np.abs(y).mean(axis=0) * rng.choice([30, 300])
            y[bad] = y[bad] + size * cnormal(nprs, len(bad), y.shape[1])
        else:
            y[bad] = -y[bad] * rng.choice([1, 3])
    what = f"{problem.what} {solver!r} {raise_to:.0%} corrupted, {how}"
    rd = RegressionPreparerGathered().run(problem.tf, problem.gathered(rng))
    ctx.case((what, problem.ins[0].tobytes()))
    with ctx.no_error("solve", what):
        sol = solver.run(rd)
        ols = SolverScikitOLS().run(rd)
    for ieval in range(len(problem.freqs)):
        err, got = tensor_error(problem, sol, ieval)
        plain, _ = tensor_error(problem, ols, ieval)
        # least squares is the control: the corruption does matter
        if plain < 0.05:
            continue
        ctx.observe("corrupted_tensors")
        ctx.check(
            err < share * plain and err < 0.5, f"robust-{cls.__name__}",
            f"{what} eval {ieval}: error {err:.2e}, least squares {plain:.2e}",
        )


@scenario("C20", "intercept", quick=40, timeout=240)
def intercept(ctx):
    """A constant in the equations is absorbed by fit_intercept, for every solver"""
    rng = ctx.rng
    problem = Problem(ctx, min_wins=20, max_wins=30, wide=0)
    rd = RegressionPreparerGathered().run(problem.tf, problem.gathered(rng))
    for obs in rd.obs:
        for out in obs:
            obs[out] = obs[out] + 5 * np.abs(obs[out]).mean()
    cls = rng.choice(SOLVERS)
    errs = {}
    # without an intercept no consensus needs to exist
    for fit in (True,) if cls is SolverScikitRANSAC else (True, False):
        solver = cls(fit_intercept=fit)
        what = f"{problem.what} {solver!r}"
        with ctx.no_error("solve", what):
            sol = solver.run(rd)
        errs[fit] = [tensor_error(problem, sol, i)[0] for i in range(len(problem.freqs))]
    ctx.case((what, problem.ins[0].tobytes()))
    limit = 2e-3 if cls is SolverScikitTheilSen else 1e-6
    ctx.check(max(errs[True]) < limit, "intercept", f"{what}: errors {errs[True]}")
    if False not in errs:
        return
    ctx.check(max(errs[False]) > 1e-3, "no-intercept", f"{what}: errors {errs[False]}")


@scenario("C20", "estimators", quick=80, timeout=240)
def estimators(ctx):
    """Noisy equations: the solution is that of the wrapped estimator with the parameters given"""
    rng, nprs = ctx.rng, ctx.np
    problem = Problem(ctx, min_wins=8, max_wins=20, wide=0.3)
    tf = problem.tf
    problem.outs = [y + 0.5 * cnormal(nprs, *y.shape) * np.abs(y).mean() for y in problem.outs]
    for y in problem.outs:
        y[rng.randrange(len(y))] *= 30
    way, rd = problem.regression_input(ctx, problem.what)
    cls = rng.choice(SOLVERS)
    intercept = rng.random() < 0.5
    kw, wraps = {"fit_intercept": intercept}, []
    if cls is SolverScikitOLS:
        kw["n_jobs"] = rng.choice([-2, 1, 2])
        wraps = [LinearRegression(fit_intercept=intercept)]
    elif cls is SolverScikitHuber:
        kw["epsilon"] = rng.choice([1, 1.01, 1.05, 1.5, 2, 5])
        wraps = [HuberRegressor(epsilon=kw["epsilon"], fit_intercept=intercept)]
    elif cls is SolverScikitTheilSen:
        kw["max_subpopulation"] = rng.choice([5, 20, 100])
        kw["n_jobs"] = rng.choice([-2, 1])
        kw["n_subsamples"] = rng.choice([None, 0.6, 0.9, 1.0])
    elif cls is SolverScikitRANSAC:
        kw["max_trials"] = rng.choice([1, 2, 5, 40])
        kw["min_samples"] = rng.choice([0.3, 0.5, 0.8])
        wraps = [RANSACRegressor(
            LinearRegression(fit_intercept=intercept), min_samples=kw["min_samples"], max_trials=kw["max_trials"],
        )]
    elif rng.random() < 0.5:
        kw["n_iter"] = 1
        wraps = [LinearRegression(fit_intercept=intercept)]
    else:
        kw["n_iter"] = rng.choice([2, 3, 7])
    solver = cls(**kw)
    what = f"{way} {solver!r} {problem.what}"
    ctx.case((what, problem.ins[0].tobytes()))
    try:
        sol = solver.run(rd)
    except ValueError as err:
        # random sampling may find nothing, as in the estimator
        if cls is SolverScikitRANSAC and "consensus" in str(err):
            return
        ctx.fail("estimator-runs", f"{what}: {err}")
        return
    for ieval in range(rd.n_freqs):
        for out in tf.out_chans:
            obs, preds = rd.get_inputs(ieval, out)
            models = wraps
            if cls is SolverScikitTheilSen:
                sizes = [None]
                if kw["n_subsamples"] is not None:
                    exact = kw["n_subsamples"] * len(obs)
                    sizes = sorted({int(exact), int(round(exact))})
                models = [TheilSenRegressor(
                    fit_intercept=intercept, max_subpopulation=kw["max_subpopulation"], n_subsamples=size,
                ) for size in sizes]
            if cls is SolverScikitWLS and not wraps:
                models = [_Reweighted(solver, intercept)]
            wants = []
            for model in models:
                model.fit(np.array(preds), np.array(obs))
                coef = getattr(model, "estimator_", model).coef_
                wants.append(np.array([coef[2 * i] + 1j * coef[2 * i + 1] for i in range(tf.n_in)]))
            got = np.array([sol.components[get_component_key(out, c)].to_numpy()[ieval] for c in tf.in_chans])
            near = [np.max(np.abs(got - want)) <= 1e-7 * np.max(np.abs(want)) for want in wants]
            ctx.check(any(near), "estimator-solution", lambda: f"{what} eval {ieval} {out}: {got} expected {wants}")
            ctx.observe("estimates_compared")


class _Reweighted:
    """Least squares repeated with the weights the solver has for the scaled residuals"""

    def __init__(self, solver, intercept):
        self.solver, self.intercept = solver, intercept

    def fit(self, preds, obs):
        model = LinearRegression(fit_intercept=self.intercept)
        weights = np.ones(obs.size)
        for _ in range(self.solver.n_iter):
            model.fit(preds, obs, sample_weight=weights)
            resids = np.abs(obs - model.predict(preds))
            quarts = np.percentile(resids, [25, 50, 75])
            scaled = (resids - quarts[1]) / (quarts[2] - quarts[0])
            weights = self.solver.trimmed_mean(scaled.reshape(-1, 1))
        self.coef_ = model.coef_


@scenario("C20", "weights", quick=60)
def weights(ctx):
    """The robust weights by their textbook formulas: one for small residuals, falling for large ones"""
    rng, nprs = ctx.rng, ctx.np
    n = rng.choice([1, 2, 17, 400])
    r = np.abs(nprs.standard_cauchy(n)) * rng.choice([0.1, 1, 10])
    r[rng.randrange(n)] = rng.choice([0.0, 2.0, 1.345, 4.685, 1e6])
    given = r.reshape(-1, 1) if rng.random() < 0.7 else r
    keep = given.copy()
    solver = SolverScikitWLS()
    k = rng.choice([None, None, rng.uniform(0.1, 8)])
    ctx.case((r.tobytes(), k))
    kw = {} if k is None else {"k": k}
    want = {
        "bisquare": lambda x, k=4.685: (1 - (x / k) ** 2) ** 2 if x <= k else 0.0,
        "huber": lambda x, k=1.345: 1.0 if x <= k else k / x,
    }
    for name, formula in want.items():
        with ctx.no_error("weights", name):
            got = getattr(solver, name)(given, **kw)
        ctx.close_to(got, [formula(x, **kw) for x in r], "weights", f"{name} k {k}", rtol=1e-9, atol=1e-12)
    with ctx.no_error("weights", "trimmed mean"):
        got = solver.trimmed_mean(given, **kw)
    ctx.equal(got, (r <= kw.get("k", 2)).astype(float), "weights", f"trimmed mean k {k}")
    ctx.equal(given, keep, "weights-input", "residuals changed")
