"""C26: components, tensors, resistivity and phase of a solution"""
import numpy as np

from resistics.common import History
from resistics.regression import (
    RegressionInputData, RegressionInputMetadata, Solution, SolverScikitOLS,
)
from resistics.transfunc import Component, ImpedanceTensor, Tipper, TransferFunction, get_component_key
from rt.checks.c27_plots import traces_of
from rt.core import scenario

NAMES = ["Ex", "Ey", "Hx", "Hy", "Hz", "Bx", "By"]


def random_freqs(rng):
    n = rng.choice([1, 2, 5, 17, 40])
    freqs = [10 ** rng.uniform(-5, 5) for _ in range(n)]
    if rng.random() < 0.7:
        freqs.sort(reverse=True)
    return freqs


def any_tf(rng):
    r = rng.random()
    if r < 0.4:
        return ImpedanceTensor()
    if r < 0.6:
        return Tipper()
    names = rng.sample(NAMES, 7)
    n_in = rng.randint(1, 3)
    return TransferFunction(in_chans=names[:n_in], out_chans=names[n_in:n_in + rng.randint(1, 4)])


def tensor_for(rng, nprs, tf, n):
    """Values over many decades and in all quadrants, zero and axis values included"""
    shape = (n, tf.n_out, tf.n_in)
    z = nprs.randn(*shape) + 1j * nprs.randn(*shape)
    z = z * 10 ** nprs.uniform(-5, 5, shape)
    if rng.random() < 0.3:
        axis = nprs.choice(np.array([1, -1, 1j, -1j]), shape)
        mask = nprs.uniform(size=shape) < 0.2
        z[mask] = (np.abs(z) * axis)[mask]
    return z


def component(values):
    return Component(real=np.real(values).tolist(), imag=np.imag(values).tolist())


def make_solution(ctx, tf, freqs, z):
    comps = {}
    pairs = [(o, i) for o in range(tf.n_out) for i in range(tf.n_in)]
    ctx.rng.shuffle(pairs)
    for o, i in pairs:
        comps[get_component_key(tf.out_chans[o], tf.in_chans[i])] = component(z[:, o, i])
    return Solution(tf=tf, freqs=freqs, components=comps, history=History(), contributors={})


@scenario("C26", "components", quick=250)
def components(ctx):
    rng = ctx.rng
    tf, freqs = any_tf(rng), random_freqs(rng)
    z = tensor_for(rng, ctx.np, tf, len(freqs))
    what = f"{tf.name} {tf.out_chans}<-{tf.in_chans} {len(freqs)} freqs"
    ctx.case((what, z.tobytes()))
    sol = make_solution(ctx, tf, freqs, z)
    for attempt in ("built", "json"):
        if attempt == "json":
            sol = Solution.parse_raw(sol.json())
        w = f"{what} {attempt}"
        ctx.check(sol.n_freqs == len(freqs), "n-freqs", w)
        ctx.equal(sol.freqs, freqs, "freqs", w)
        ctx.close_to(sol.periods, [1 / f for f in freqs], "periods", w, rtol=1e-14)
        for o, out in enumerate(tf.out_chans):
            for i, inp in enumerate(tf.in_chans):
                key = get_component_key(out, inp)
                ctx.check(key == out + inp, "key", key)
                ctx.equal(sol[key], z[:, o, i], "item", f"{w} {key}")
                ctx.equal(sol.get_component(key), z[:, o, i], "component", f"{w} {key}")
                ctx.equal(sol.components[key].to_numpy(), z[:, o, i], "to-numpy", f"{w} {key}")
                k = rng.randrange(len(freqs))
                ctx.check(sol.components[key].get_value(k) == z[k, o, i], "get-value", f"{w} {key} {k}")
        for k in {0, len(freqs) - 1, rng.randrange(len(freqs))}:
            ctx.equal(sol.get_tensor(k), z[k], "tensor", f"{w} eval {k}")
        for bad in ("ZzQq", tf.out_chans[0], "", tf.in_chans[0] + tf.out_chans[0]):
            ctx.raises(lambda: sol[bad], ValueError, "unknown-component", f"{w} {bad!r}")
            ctx.raises(lambda: sol.get_component(bad), ValueError, "unknown-component", f"{w} {bad!r}")
        ctx.raises(lambda: sol[0], ValueError, "item-type", w)
        ctx.raises(lambda: sol.get_tensor(len(freqs)), IndexError, "tensor-range", w)
        ctx.observe("components_compared", len(sol.components))


@scenario("C26", "from_solver", quick=60)
def from_solver(ctx):
    """The components of a solved problem are those of its inputs, whatever their order"""
    rng = ctx.rng
    tf, freqs = any_tf(rng), random_freqs(rng)[:6]
    z = tensor_for(rng, ctx.np, tf, len(freqs))
    what = f"{tf.name} {tf.out_chans}<-{tf.in_chans} {len(freqs)} freqs"
    ctx.case((what, z.tobytes()))
    obs, preds = [], []
    for k in range(len(freqs)):
        rows = 4 * tf.n_in
        x = ctx.np.randn(rows, tf.n_in) + 1j * ctx.np.randn(rows, tf.n_in)
        p = np.empty((2 * rows, 2 * tf.n_in))
        p[0::2, 0::2], p[0::2, 1::2], p[1::2, 0::2], p[1::2, 1::2] = x.real, -x.imag, x.imag, x.real
        chans = {}
        for o, out in enumerate(tf.out_chans):
            y = x @ z[k, o]
            v = np.empty(2 * rows)
            v[0::2], v[1::2] = y.real, y.imag
            chans[out] = v
        obs.append(chans)
        preds.append(p)
    rd = RegressionInputData(RegressionInputMetadata(contributors={}), tf, freqs, obs, preds)
    sol = SolverScikitOLS().run(rd)
    ctx.equal(sol.freqs, freqs, "solver-freqs", what)
    for k in range(len(freqs)):
        size = np.abs(z[k]).max(axis=1, keepdims=True)
        ctx.close_to(sol.get_tensor(k) / size, z[k] / size, "solver-tensor", f"{what} eval {k}", rtol=1e-9)
        for o, out in enumerate(tf.out_chans):
            for i, inp in enumerate(tf.in_chans):
                got = sol[out + inp][k]
                ctx.check(abs(got - z[k, o, i]) <= 1e-8 * size[o, 0], "solver-component", f"{what} {out}{inp}: {got} {z[k, o, i]}")


def check_phase(ctx, key, values, phase, what):
    phase = np.asarray(phase, dtype=float)
    ctx.require(phase.shape == values.shape, "phase-shape", what)
    unit = values / np.abs(values)
    if key.startswith("Ex"):
        # moved to the same quadrant as the other output
        unit = -unit
        ctx.check(bool(np.all((phase >= -180 - 1e-9) & (phase <= 180 + 1e-9))), "phase-range", f"{what}: {phase}")
    ctx.close_to(np.exp(1j * np.radians(phase)), unit, "phase", f"{what} {key}", rtol=1e-9, atol=1e-9)


@scenario("C26", "impedance", quick=200)
def impedance(ctx):
    rng = ctx.rng
    tf, freqs = ImpedanceTensor(), random_freqs(rng)
    z = tensor_for(rng, ctx.np, tf, len(freqs))
    periods = np.array([1 / f for f in freqs])
    what = f"{len(freqs)} freqs"
    ctx.case((what, z.tobytes()))
    sol = make_solution(ctx, tf, freqs, z)
    res, raw_phase = {}, {}
    for o, out in enumerate(tf.out_chans):
        for i, inp in enumerate(tf.in_chans):
            key = out + inp
            values = z[:, o, i]
            res[key] = 0.2 * periods * (values.real ** 2 + values.imag ** 2)
            got = ImpedanceTensor.get_resistivity(sol.periods, sol.components[key])
            ctx.close_to(np.asarray(got) / res[key], np.ones(len(freqs)), "resistivity", f"{what} {key}", rtol=1e-9)
            phase = ImpedanceTensor.get_phase(key, sol.components[key])
            check_phase(ctx, key, values, phase, what)
            raw_phase[key] = values
    # plots show these values
    to_plot = rng.choice([None, ["ExHy", "EyHx"], rng.sample(sorted(res), rng.randint(1, 4))])
    fig = rng.choice([None, ImpedanceTensor.get_fig(x_lim=[-3, 3], res_lim=[0, 4], phs_lim=[-10, 100])])
    n_before = 0
    with ctx.no_error("plot", what):
        if rng.random() < 0.3:
            fig = ImpedanceTensor.plot(freqs, sol.components, fig=fig, to_plot=["ExHy"], legend="before")
            n_before = 1
        fig = tf.plot(freqs, sol.components, fig=fig, to_plot=to_plot, legend="mine")
    keys = to_plot or ["ExHy", "EyHx", "ExHx", "EyHy"]
    shown_res, shown_phase = traces_of(fig, 1)[n_before:], traces_of(fig, 2)[n_before:]
    ctx.require(len(shown_res) == len(shown_phase) == len(keys), "plot-traces", f"{what} {keys}: {len(fig.data)}")
    by_name = {t.name: t for t in shown_res}, {t.name: t for t in shown_phase}
    for key in keys:
        w = f"{what} plot {key}"
        found = [[t for name, t in part.items() if name.endswith(key)] for part in by_name]
        ctx.require(len(found[0]) == 1 and len(found[1]) == 1, "plot-legend", f"{w}: {list(by_name[0])}")
        for trace in (found[0][0], found[1][0]):
            ctx.close_to(np.asarray(trace.x) * freqs, np.ones(len(freqs)), "plot-periods", w, rtol=1e-9)
        ctx.close_to(np.asarray(found[0][0].y) / res[key], np.ones(len(freqs)), "plot-resistivity", w, rtol=1e-9)
        check_phase(ctx, key, raw_phase[key], found[1][0].y, w)


@scenario("C26", "half_space", quick=80)
def half_space(ctx):
    """A half space in field units has its own resistivity and 45 degrees in both modes"""
    rng = ctx.rng
    freqs = np.array(random_freqs(rng))
    rho = 10 ** rng.uniform(-1, 5)
    ctx.case((rho, freqs.tobytes()))
    # |Z|^2 = 5 f rho in mV/km/nT, phase 45 degrees, opposite signs of the two modes
    z = np.sqrt(5 * freqs * rho) * np.exp(1j * np.pi / 4)
    for key, values in (("ExHy", z), ("EyHx", -z)):
        got = ImpedanceTensor.get_resistivity(1 / freqs, component(values))
        ctx.close_to(got, np.full(len(freqs), rho), "half-space-resistivity", f"{key} {rho}", rtol=1e-9)
        phase = ImpedanceTensor.get_phase(key, component(values))
        # documented convention: phases of the x output are shifted by 180 degrees
        ctx.close_to(np.mod(np.asarray(phase) + 1e-9, 180), np.full(len(freqs), 45.0), "half-space-phase", key, rtol=1e-7)


@scenario("C26", "tipper", quick=100)
def tipper(ctx):
    rng = ctx.rng
    tf, freqs = Tipper(), random_freqs(rng)
    z = tensor_for(rng, ctx.np, tf, len(freqs))
    # the documented angles need a component along x
    z = np.where(np.abs(z.real) < 1e-12, z + 1e-3, z)
    z = np.where(np.abs(z.imag) < 1e-12, z + 1e-3j, z)
    what = f"{len(freqs)} freqs"
    ctx.case((what, z.tobytes()))
    sol = make_solution(ctx, tf, freqs, z)
    tx, ty = z[:, 0, 0], z[:, 0, 1]
    length = np.hypot(tx.real, ty.real)
    re, im = (np.degrees(np.arctan(b / a)) for a, b in ((tx.real, ty.real), (tx.imag, ty.imag)))
    ctx.close_to(np.asarray(tf.get_length(sol.components)) / length, np.ones(len(freqs)), "tipper-length", what, rtol=1e-9)
    ctx.close_to(tf.get_real_angle(sol.components), re, "tipper-real-angle", what, rtol=1e-9)
    ctx.close_to(tf.get_imag_angle(sol.components), im, "tipper-imag-angle", what, rtol=1e-9)
    with ctx.no_error("tipper-plot", what):
        fig = tf.plot(freqs, sol.components)
    ctx.require(len(fig.data) == 3, "tipper-traces", str(len(fig.data)))
    for trace, row, want in zip(sorted(fig.data, key=lambda t: t.name), (2, 2, 1), (im, re, length)):
        ctx.check(trace in traces_of(fig, row), "tipper-rows", f"{trace.name}")
        ctx.close_to(np.asarray(trace.x) * freqs, np.ones(len(freqs)), "tipper-periods", what, rtol=1e-9)
        ctx.close_to(np.asarray(trace.y), want, "tipper-shown", trace.name, rtol=1e-9)
