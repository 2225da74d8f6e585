"""C23: recordings synthesised from a known tensor give that tensor back"""
from pathlib import Path

import numpy as np

from resistics import letsgo
from resistics.config import Configuration, get_default_configuration
from resistics.decimate import DecimationSetup, Decimator
from resistics.gather import QuickGather
from resistics.project import get_meas_evals_path, get_meas_time_path
from resistics.regression import (
    SolverScikitHuber, SolverScikitOLS, SolverScikitTheilSen, SolverScikitWLS,
)
from resistics.sampling import datetime_to_string, sample_to_datetime, to_timedelta
from resistics.spectra import FourierTransform, SpectraDataReader
from resistics.time import (
    BandPass, Decimate, HighPass, InterpolateNans, LowPass, Multiply, Notch, RemoveMean, Resample,
    ShiftTimestamps, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii, TimeWriterNumpy,
)
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction
from resistics.window import Windower, WindowSetup
from rt import build, catalog
from rt.checks.c18_cal_files import write_cal_json
from rt.core import scenario
from rt.util import make_time

READERS = [TimeReaderAscii(extension=".ascii"), TimeReaderNumpy()]


# ------------------------------------------------------------------ workloads
def fields(nprs, n, n_chans, fs=1.0):
    """Independent broadband fields, stronger towards low frequencies as in nature"""
    white = nprs.randn(n_chans, n)
    spec = np.fft.rfft(white, axis=1)
    freqs = np.arange(spec.shape[1]) / n
    spec *= 1 / (freqs + 0.01) ** 0.5
    out = np.fft.irfft(spec, n=n, axis=1)
    return 3 * out / out.std(axis=1)[:, None]


def pick_tf(rng):
    r = rng.random()
    if r < 0.5:
        return ImpedanceTensor(variation=rng.choice(["default", "a b"]))
    if r < 0.7:
        return Tipper()
    names = rng.sample(["Ex", "Ey", "Hx", "Hy", "Hz", "Bx"], 6)
    n_in = rng.randint(1, 2)
    return TransferFunction(
        variation="mine", in_chans=names[:n_in], out_chans=names[n_in:n_in + rng.randint(1, 3)],
    )


def tensor(nprs, tf):
    z = nprs.uniform(0.2, 1.0, size=(tf.n_out, tf.n_in)) * nprs.choice([-1, 1], size=(tf.n_out, tf.n_in))
    return z * 10 ** nprs.uniform(-1, 1, size=(tf.n_out, 1))


def recording(ctx, tf, z, fs, n, first, inputs=None, extra=True, lowpass=None):
    """Time data whose outputs are z times its inputs, sample by sample

    With lowpass, the outputs are in addition passed through a single pole filter
    """
    inputs = fields(ctx.np, n, tf.n_in) if inputs is None else inputs
    outputs = z @ inputs
    if lowpass is not None:
        from scipy.signal import lfilter

        outputs = lfilter([1 - lowpass], [1, -lowpass], outputs, axis=1)
    chans = list(tf.in_chans) + list(tf.out_chans)
    data = np.vstack([inputs, outputs])
    if extra:
        chans.append("Bz")
        data = np.vstack([data, 50 * ctx.np.randn(1, n)])
    order = list(range(len(chans)))
    ctx.rng.shuffle(order)
    td = build.time_data(
        ctx.rng, ctx.np, fs, n, first, [chans[i] for i in order], np.float64, data=data[order],
    )
    for i, chan in enumerate(td.metadata.chans):
        td.metadata.chans_metadata[chan].sensor = f"S{chan}"
        td.metadata.chans_metadata[chan].serial = str(i)
    return td


def pick_solver(rng):
    cls = rng.choice([SolverScikitOLS, SolverScikitOLS, SolverScikitHuber, SolverScikitWLS, SolverScikitTheilSen])
    kw = {"fit_intercept": rng.random() < 0.2}
    if cls is SolverScikitTheilSen:
        kw["n_subsamples"] = None
        kw["max_subpopulation"] = 200
    return cls(**{k: v for k, v in kw.items() if v is not None})


def time_processors(rng, fs):
    """Processors that treat every channel alike, and the sampling frequency they leave"""
    procs = []
    if rng.random() < 0.5:
        procs += [InterpolateNans(), RemoveMean()]
    for _ in range(rng.randint(0, 2)):
        nyq = fs / 2
        kind = rng.choice(["high", "low", "notch", "mul", "shift", "decimate", "resample", "decimate", "resample"])
        if kind == "high":
            procs.append(HighPass(cutoff=nyq * 0.002, order=2))
        elif kind == "low":
            procs.append(LowPass(cutoff=nyq * 0.8, order=4))
        elif kind == "notch":
            procs.append(Notch(notch=nyq * 0.9, band=nyq * 0.05, order=2))
        elif kind == "mul":
            procs.append(Multiply(multiplier=rng.choice([-3.5, 1e-3, 20])))
        elif kind == "shift":
            procs.append(ShiftTimestamps(shift=rng.uniform(0.1, 0.9) / fs))
        elif kind == "decimate":
            factor = rng.choice([2, 3, 4])
            procs.append(Decimate(factor=factor))
            fs = fs / factor
        else:
            ratio = rng.choice([0.5, 0.25, 0.75])
            procs.append(Resample(new_fs=fs * ratio))
            fs = fs * ratio
    return procs, fs


def pick_config(rng, fs, tf, name="cfg", procs=None, solver=None):
    """A configuration, the sampling frequency after time processing, and the frequencies
    it is to evaluate, level by level"""
    fs_out = fs
    if procs is None:
        procs, fs_out = time_processors(rng, fs)
    n_levels, per_level = rng.randint(1, 3), rng.randint(1, 4)
    freqs = None
    if rng.random() < 0.3:
        freqs = [fs_out / rng.uniform(4.2, 6) / 1.6 ** k for k in range(n_levels * per_level)]
        expected = list(freqs)
    else:
        expected = [fs_out / 4 / 2 ** (k / 2) for k in range(n_levels * per_level)]
    size = rng.choice([32, 64])
    win_setup = WindowSetup(min_size=size, min_olap=size // 4, win_factor=rng.choice([4, 8, 400]))
    if rng.random() < 0.2:
        win_setup = WindowSetup(win_sizes=[size] * n_levels, olap_sizes=[size // 4] * n_levels)
    config = Configuration(
        name=name,
        time_readers=READERS,
        time_processors=procs,
        dec_setup=DecimationSetup(
            n_levels=n_levels, per_level=per_level, eval_freqs=freqs, min_samples=rng.choice([64, 128]),
        ),
        decimator=Decimator(resample=rng.random() < 0.5),
        win_setup=win_setup,
        windower=Windower(),
        fourier=FourierTransform(
            win_fnc=rng.choice([("kaiser", 14), "hann", ("tukey", 0.25)]), detrend=rng.choice(["linear", "constant"]),
        ),
        tf=tf,
        solver=solver or pick_solver(rng),
    )
    return config, fs_out, expected


# -------------------------------------------------------------------- oracles
def values(solution, tf):
    """Solution as an array of frequency x output x input, from its components"""
    out = []
    for o in tf.out_chans:
        out.append([])
        for i in tf.in_chans:
            comp = solution.components[f"{o}{i}"]
            out[-1].append(np.array(comp.real) + 1j * np.array(comp.imag))
    return np.moveaxis(np.array(out), 2, 0)


def check_solution(ctx, sol, tf, z, expected, what, tol=1e-6, full=True):
    """z: (n_out, n_in) or (n_freqs, n_out, n_in)"""
    n = len(sol.freqs)
    ctx.require(1 <= n <= len(expected), "frequencies", f"{what}: {n} of {len(expected)}")
    if full:
        ctx.check(n == len(expected), "levels-missing", f"{what}: {n} of {len(expected)}")
    ctx.close_to(sol.freqs, expected[:n], "frequencies", what, rtol=1e-9)
    got = values(sol, tf)
    ctx.require(got.shape == (n, tf.n_out, tf.n_in), "solution-shape", f"{what}: {got.shape}")
    z = np.asarray(z)
    ref = np.broadcast_to(z, got.shape) if z.ndim == 2 else z[:n]
    # outputs may have very different sizes
    scale = np.max(np.abs(ref), axis=2, keepdims=True)
    err = np.max(np.abs(got - ref) / scale)
    ctx.check(
        err <= tol, "impedance",
        lambda: f"{what}: relative error {err:.3g} (tolerance {tol}): freqs {sol.freqs[:3]} got {got[0].tolist()} expected {ref[0].tolist()}",
    )
    ctx.observe("solutions")
    ctx.observe("tensor_elements", got.size)


def tolerance(config):
    return 2e-3 if isinstance(config.solver, SolverScikitTheilSen) else 1e-5


def n_for(rng, config, fs, expected):
    """Recording samples that give every level some twenty windows or more"""
    per = config.dec_setup.per_level
    level_fs = 4 * expected[-per]
    win = max(64 * fs / level_fs, fs / config.win_setup.win_factor)
    return int(20 * win) + rng.randint(2000, 3000)


def pick(ctx, tf=None, **kw):
    """Configurations whose deepest level is reachable with a reasonable recording"""
    rng = ctx.rng
    fs = float(rng.choice([1, 10, 64, 128, 500, 1000, 0.25, 4096, 50]))
    tf = tf or pick_tf(rng)
    while True:
        config, fs_out, expected = pick_config(rng, fs, tf, **kw)
        n = n_for(rng, config, fs, expected)
        if n <= 40000:
            return fs, tf, config, fs_out, expected, n


def write(rng, path, td, fmt=None):
    fmt = fmt or rng.choice(["numpy", "numpy", "ascii"])
    if fmt == "numpy":
        TimeWriterNumpy().run(path, td)
    else:
        TimeWriterAscii().run(path, td)
    return fmt


def new_project(ctx, ref_time, extra=None):
    path = ctx.scratch() / "proj"
    letsgo.new(path, {"ref_time": datetime_to_string(ref_time), **(extra or {})})
    return path




# ------------------------------------------------------------------ scenarios
@scenario("C23", "quick", quick=120, timeout=300)
def quick(ctx):
    """One recording, quick_tf"""
    rng = ctx.rng
    fs, tf, config, fs_out, expected, n = pick(ctx)
    z = tensor(ctx.np, tf)
    td = recording(ctx, tf, z, fs, n, make_time(rng))
    path = ctx.scratch() / "meas"
    fmt = "numpy" if n > 15000 else None
    fmt = write(rng, path, td, fmt)
    names = [type(p).__name__ for p in config.time_processors]
    ctx.case((fs, n, tf.name, names, expected, fmt, type(config.solver).__name__))
    sol = letsgo.quick_tf(path, config)
    # text has six decimals, and is read in single precision
    tol = 2e-2 if fmt == "ascii" else tolerance(config)
    check_solution(ctx, sol, tf, z, expected, f"quick_tf {names} {type(config.solver).__name__}", tol)


def process_all(env, site, order=None):
    for name in order or list(env.proj[site].measurements):
        letsgo.process_time_to_evals(env, site, name)


def same_solution(ctx, a, b, kind, what, rtol=1e-9):
    ctx.equal(a.freqs, b.freqs, kind, f"{what}: frequencies")
    ctx.require(set(a.components) == set(b.components), kind, f"{what}: components")
    for key, comp in a.components.items():
        x = np.array(comp.real) + 1j * np.array(comp.imag)
        y = np.array(b.components[key].real) + 1j * np.array(b.components[key].imag)
        ctx.close_to(x, y, kind, f"{what}: {key}", rtol=rtol, atol=rtol * np.max(np.abs(y)))


@scenario("C23", "single", quick=60, timeout=400)
def single(ctx):
    """A project with recordings of other sites and frequencies around the one processed"""
    rng = ctx.rng
    fs, tf, config, fs_out, expected, n = pick(ctx)
    first = make_time(rng)
    path = new_project(ctx, first)
    z = tensor(ctx.np, tf)
    n_meas = rng.randint(1, 3)
    start = 0
    for i in range(n_meas):
        td = recording(ctx, tf, z, fs, n + i, sample_to_datetime(fs, first, start))
        write(rng, get_meas_time_path(path, "A", f"m{i}"), td, "numpy")
        if i == 0:
            td0 = td
        start += rng.choice([n + 500, n // 2, 3 * n + 777])
    # other recordings, of another frequency or site, saw another ground
    other = recording(ctx, tf, -z, fs * 2, n, first)
    write(rng, get_meas_time_path(path, "A", "other"), other, "numpy")
    other = recording(ctx, tf, -z, fs, n, first)
    write(rng, get_meas_time_path(path, "B", "m0"), other, "numpy")
    names = [type(p).__name__ for p in config.time_processors]
    what = f"{n_meas} recordings {names} {type(config.solver).__name__}"
    ctx.case((fs, n, tf.name, names, expected, n_meas, type(config.solver).__name__))
    env = letsgo.load(path, config)
    # frequencies for the other recordings only fit if they were not given
    meas = [f"m{i}" for i in range(n_meas)]
    if config.dec_setup.eval_freqs is None and not any(
        hasattr(p, x) for p in config.time_processors for x in ("new_fs", "cutoff", "notch", "shift")
    ):
        meas.append("other")
    rng.shuffle(meas)
    process_all(env, "A", meas)
    process_all(env, "B")
    postfix = rng.choice([None, "again", "a b"])
    sol = letsgo.process_evals_to_tf(env, fs, "A", postfix=postfix)
    tol = tolerance(config)
    check_solution(ctx, sol, tf, z, expected, what, tol)
    back = letsgo.get_solution(env, "A", config.name, fs, tf.name, tf.variation, postfix)
    same_solution(ctx, back, sol, "solution-file", what, rtol=0)
    if rng.random() < 0.5:
        # the same ground in the other site's solution must not have touched this one
        solb = letsgo.process_evals_to_tf(env, fs, "B", postfix=postfix)
        check_solution(ctx, solb, tf, -z, expected, what + " site B", tol)
        back = letsgo.get_solution(env, "A", config.name, fs, tf.name, tf.variation, postfix)
        same_solution(ctx, back, sol, "solution-file", what, rtol=0)
    if n_meas == 1:
        q = letsgo.quick_tf(get_meas_time_path(path, "A", "m0"), config)
        shifted = any(isinstance(p, ShiftTimestamps) for p in config.time_processors)
        if not shifted and not isinstance(config.solver, SolverScikitTheilSen):
            same_solution(ctx, q, sol, "quick-vs-project", what, rtol=1e-9)
    # again, in another order and over existing results
    if rng.random() < 0.4:
        rng.shuffle(meas)
        process_all(letsgo.reload(env), "A", meas)
        again = letsgo.process_evals_to_tf(letsgo.reload(env), fs, "A", postfix=postfix)
        same_solution(ctx, again, sol, "rerun", what, rtol=0 if not isinstance(config.solver, SolverScikitTheilSen) else tol)


def pole(freq, fs, a):
    return (1 - a) / (1 - a * np.exp(-2j * np.pi * np.asarray(freq) / fs))


@scenario("C23", "frequencies", quick=60, timeout=300)
def frequencies(ctx):
    """A tensor that varies with frequency: each value is that at the stated frequency"""
    rng = ctx.rng
    tf = pick_tf(rng)
    fs = float(rng.choice([1, 10, 64, 128, 1000]))
    while True:
        fs, tf, config, fs_out, expected, n = pick(ctx, tf=tf, solver=SolverScikitOLS(fit_intercept=False))
        bad = (BandPass, Notch, LowPass, HighPass)
        if not any(isinstance(p, bad) for p in config.time_processors):
            break
    # long windows, for the filter to fit into and the frequencies to be told apart
    config.win_setup = WindowSetup(min_size=256, min_olap=64, win_factor=400)
    n = min(10 * n, 250000)
    # the corner is in the middle of the frequencies
    corner = np.sqrt(expected[0] * expected[-1]) * rng.uniform(0.5, 2)
    a = float(np.exp(-2 * np.pi * corner / fs))
    z = tensor(ctx.np, tf)
    td = recording(ctx, tf, z, fs, n, make_time(rng), lowpass=a, inputs=ctx.np.randn(tf.n_in, n))
    path = ctx.scratch() / "meas"
    TimeWriterNumpy().run(path, td)
    names = [type(p).__name__ for p in config.time_processors]
    ctx.case((fs, n, tf.name, names, expected, round(a, 5)))
    sol = letsgo.quick_tf(path, config)
    ref = z[None] * pole(expected, fs, a)[:, None, None]
    check_solution(ctx, sol, tf, ref, expected, f"{names} corner {corner:.3g}", 0.08)


@scenario("C23", "calibrated", quick=50, timeout=300)
def calibrated(ctx):
    """Sensors with a flat response: the tensor is that of the calibrated fields"""
    rng = ctx.rng
    fs, tf, config, fs_out, expected, n = pick(ctx)
    z = tensor(ctx.np, tf)
    first = make_time(rng)
    td = recording(ctx, tf, z, fs, n, first)
    path = new_project(ctx, first)
    cal_dir = path / "calibrate"
    chans = td.metadata.chans
    calibrated_chans = rng.choice([None, [rng.choice(chans)], chans])
    if calibrated_chans is not None:
        config.sensor_calibrator.chans = calibrated_chans
    else:
        calibrated_chans = chans
    gains = {}
    for chan in chans:
        meta = td.metadata.chans_metadata[chan]
        gain = rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 1)
        has_file = rng.random() < 0.8
        if has_file:
            freqs = np.sort(10 ** ctx.np.uniform(-6, 5, size=rng.choice([1, 3, 20])))
            freqs[0], freqs[-1] = 1e-7, 1e6
            freqs = np.unique(freqs)
            phase = np.full(freqs.shape, np.pi if gain < 0 else 0.0)
            write_cal_json(cal_dir / f"IC_{meta.sensor}.json", freqs, np.full(freqs.shape, abs(gain)), phase, meta.sensor, 1)
        gains[chan] = gain if has_file and chan in calibrated_chans else 1.0
        # what the sensor records
        td[chan] = td[chan] * gains[chan]
    write(rng, get_meas_time_path(path, "A", "m0"), td, "numpy")
    ctx.case((fs, n, tf.name, expected, sorted(gains.items())))
    env = letsgo.load(path, config)
    process_all(env, "A")
    sol = letsgo.process_evals_to_tf(env, fs, "A")
    what = f"calibrated {gains}"
    tol = tolerance(config)
    check_solution(ctx, sol, tf, z, expected, what, tol)
    q = letsgo.quick_tf(get_meas_time_path(path, "A", "m0"), config, cal_dir)
    check_solution(ctx, q, tf, z, expected, "quick " + what, tol)
    q = letsgo.quick_tf(get_meas_time_path(path, "A", "m0"), config)
    g_out = np.array([gains[c] for c in tf.out_chans])
    g_in = np.array([gains[c] for c in tf.in_chans])
    check_solution(ctx, q, tf, z * g_out[:, None] / g_in[None, :], expected, "not " + what, tol)


@scenario("C23", "sites", quick=60, timeout=400)
def sites(ctx):
    """Several sites under the same fields: local, intersite and remote reference tensors"""
    rng = ctx.rng
    tf = pick_tf(rng)
    fs, tf, config, fs_out, expected, n = pick(ctx, tf=tf)
    if tf.n_in == 1:
        mix = {s: np.array([[rng.choice([-1, 1]) * rng.uniform(0.5, 2)]]) for s in "ABR"}
    else:
        mix = {}
        for s in "ABR":
            angle = rng.uniform(0, 2 * np.pi)
            rot = np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])
            mix[s] = rot @ np.diag(ctx.np.uniform(0.5, 2, size=2))
    z = {s: tensor(ctx.np, tf) for s in "ABR"}
    first = make_time(rng)
    path = new_project(ctx, first)
    n_meas = rng.randint(1, 2)
    start = 0
    with_other = rng.random() < 0.5
    for i in range(n_meas):
        regional = fields(ctx.np, n, tf.n_in)
        when = sample_to_datetime(fs, first, start)
        for s in "ABR":
            td = recording(ctx, tf, z[s], fs, n, when, inputs=mix[s] @ regional)
            # names of recordings need not agree between sites
            name = f"{s.lower()}{i}" if with_other else f"m{i}"
            write(rng, get_meas_time_path(path, s, name), td, "numpy")
        start += n + rng.choice([300, 5000])
    if with_other:
        # recordings of a single site, which share nothing with the others
        for s in "AB":
            td = recording(ctx, tf, -z[s], fs, n, sample_to_datetime(fs, first, start))
            write(rng, get_meas_time_path(path, s, rng.choice(["0", "zz"])), td, "numpy")
            start += n
    names = [type(p).__name__ for p in config.time_processors]
    ctx.case((fs, n, tf.name, names, expected, n_meas, with_other))
    env = letsgo.load(path, config)
    for s in "ABR":
        process_all(env, s)
    tol = tolerance(config)
    out_site, in_site, cross_site = rng.choice([
        ("A", None, "R"), ("A", "B", None), ("A", "B", "R"), ("A", "B", "A"), ("A", "B", "B"), ("A", "A", "R"),
    ])
    sol = letsgo.process_evals_to_tf(env, fs, out_site, in_site=in_site, cross_site=cross_site)
    if in_site in (None, out_site):
        ref = z[out_site]
    else:
        ref = z[out_site] @ mix[out_site] @ np.linalg.inv(mix[in_site])
    what = f"out {out_site} in {in_site} cross {cross_site} {n_meas} recordings {names} {type(config.solver).__name__}"
    check_solution(ctx, sol, tf, ref, expected, what, tol)
    back = letsgo.get_solution(env, out_site, config.name, fs, tf.name, tf.variation)
    same_solution(ctx, back, sol, "solution-file", what, rtol=0)


def reference_solution(path, name, tf, names, n_freqs, per_level):
    """Least squares over the cross powers of all shared windows, from the evaluation files"""
    out_site, in_site, cross_site = names
    rows = {}
    for site in set(names):
        rows[site] = {}
        for meas_dir in sorted((path / "evals" / site / name).iterdir()):
            data = SpectraDataReader().run(meas_dir)
            for level in range(data.metadata.n_levels):
                offset = data.metadata.levels_metadata[level].index_offset
                values_ = data.get_level(level)
                for w in range(values_.shape[0]):
                    key = (level, offset + w)
                    if key not in rows[site]:
                        rows[site][key] = dict(zip(data.metadata.chans, values_[w]))
    shared = set.intersection(*[set(rows[s]) for s in set(names)])
    out = np.zeros((n_freqs, tf.n_out, tf.n_in), dtype=complex)
    cross_chans = tf.cross_chans or tf.in_chans
    for k in range(n_freqs):
        level, f = divmod(k, per_level)
        keys = sorted(x for x in shared if x[0] == level)
        for o, out_chan in enumerate(tf.out_chans):
            lhs, rhs = [], []
            for key in keys:
                for c in cross_chans:
                    cross = np.conj(rows[cross_site][key][c][f])
                    lhs.append(rows[out_site][key][out_chan][f] * cross)
                    rhs.append([rows[in_site][key][i][f] * cross for i in tf.in_chans])
            out[k, o] = np.linalg.lstsq(np.array(rhs), np.array(lhs), rcond=None)[0]
    return out


@scenario("C23", "noisy", quick=60, timeout=400)
def noisy(ctx):
    """Noisy recordings that overlap in part, against least squares done by hand"""
    rng = ctx.rng
    solver = SolverScikitOLS(fit_intercept=False)
    fs, tf, config, fs_out, expected, n = pick(ctx, procs=[], solver=solver)
    config.dec_setup.n_levels = min(2, config.dec_setup.n_levels)
    n_freqs = config.dec_setup.n_levels * config.dec_setup.per_level
    if config.dec_setup.eval_freqs is not None:
        config.dec_setup.eval_freqs = config.dec_setup.eval_freqs[:n_freqs]
    expected = expected[:n_freqs]
    first = make_time(rng)
    path = new_project(ctx, sample_to_datetime(fs, first, 0) - to_timedelta(rng.uniform(0, 1e5)))
    total = 3 * n
    regional = fields(ctx.np, total, tf.n_in)
    sites_ = ["A", "B", "R"]
    z = {s: tensor(ctx.np, tf) for s in sites_}
    for s in sites_:
        start = rng.randint(0, n // 4)
        for i in range(rng.randint(1, 3)):
            stop = min(total, start + rng.randint(n, 2 * n))
            inputs = regional[:, start:stop] + 0.3 * ctx.np.randn(tf.n_in, stop - start)
            td = recording(ctx, tf, z[s], fs, stop - start, sample_to_datetime(fs, first, start), inputs=inputs)
            td.data = td.data + 0.3 * ctx.np.randn(*td.data.shape)
            write(rng, get_meas_time_path(path, s, f"m{i}"), td, "numpy")
            # recordings one after another, or overlapping
            start = stop + rng.choice([1, 200, 1000])
            if start > total - n:
                break
    ctx.case((fs, n, tf.name, expected))
    env = letsgo.load(path, config)
    for s in sites_:
        process_all(env, s)
    names = rng.choice([("A", "A", "A"), ("A", "A", "R"), ("A", "B", "B"), ("A", "B", "R")])
    what = f"out in cross {names}"
    kw = {}
    if names[1] != "A":
        kw["in_site"] = names[1]
    if names[2] != names[1] or rng.random() < 0.3:
        kw["cross_site"] = names[2]
    sol = letsgo.process_evals_to_tf(env, fs, "A", **kw)
    ref = reference_solution(path, config.name, tf, names, len(sol.freqs), config.dec_setup.per_level)
    check_solution(ctx, sol, tf, ref, expected, what, 1e-6, full=False)


@scenario("C23", "pieces", quick=50, timeout=300)
def pieces(ctx):
    """Time processing into new measurements, then the rest, agrees with all in one go"""
    rng = ctx.rng
    fs, tf, config, fs_out, expected, n = pick(ctx, solver=SolverScikitOLS(fit_intercept=rng.random() < 0.3))
    first = make_time(rng)
    ref = rng.choice([first, sample_to_datetime(fs, first, 0) - to_timedelta(rng.uniform(1, 1e6))])
    path = new_project(ctx, ref)
    z = tensor(ctx.np, tf)
    td = recording(ctx, tf, z, fs, n, first)
    write(rng, get_meas_time_path(path, "A", "m0"), td, "numpy")
    names = [type(p).__name__ for p in config.time_processors]
    ctx.case((fs, n, tf.name, names, expected, str(first), str(ref)))
    what = f"{names}"
    env = letsgo.load(path, config)
    process_all(env, "A")
    sol = letsgo.process_evals_to_tf(env, fs, "A")
    # the same through an intermediate site of processed recordings
    out_site, out_meas = rng.choice([("P", "m0"), ("P", "x"), ("A", "processed")])
    letsgo.process_time(env, "A", "m0", out_site, out_meas)
    rest = config.copy(deep=True)
    rest.name = "rest"
    rest.time_processors = []
    env2 = letsgo.load(path, rest)
    meas = env2.proj[out_site][out_meas]
    direct = letsgo.run_time_processors(config, letsgo.quick_read(get_meas_time_path(path, "A", "m0"), config))
    stored = meas.reader.run(meas.dir_path)
    ctx.same_run(stored.data, direct.data, "stored-processed", what)
    ctx.check(stored.metadata.first_time == direct.metadata.first_time, "stored-processed", what)
    ctx.check(stored.metadata.fs == direct.metadata.fs, "stored-processed", what)
    letsgo.process_time_to_evals(env2, out_site, out_meas)
    one = SpectraDataReader().run(get_meas_evals_path(path, "A", "m0", config.name))
    two = SpectraDataReader().run(get_meas_evals_path(path, out_site, out_meas, "rest"))
    ctx.check(one.metadata.n_levels == two.metadata.n_levels, "pieces-evals", what)
    for level in range(one.metadata.n_levels):
        ctx.close_to(
            two.get_level(level), one.get_level(level), "pieces-evals", f"{what} level {level}",
            rtol=1e-9, atol=1e-12 * np.max(np.abs(one.get_level(level))),
        )
        ctx.check(
            one.metadata.levels_metadata[level].index_offset == two.metadata.levels_metadata[level].index_offset,
            "pieces-evals", what,
        )
    sol2 = letsgo.process_evals_to_tf(env2, stored.metadata.fs, out_site)
    same_solution(ctx, sol2, sol, "pieces-solution", what, rtol=1e-8)
    # the result of one configuration is not touched by those of another
    back = letsgo.get_solution(env2, "A", config.name, fs, tf.name, tf.variation)
    same_solution(ctx, back, sol, "solution-file", what, rtol=0)
    # a part of the recording
    a = rng.randrange(0, n // 4)
    b = rng.randrange(3 * n // 4, n)
    times = [sample_to_datetime(fs, first, x) for x in (a, b)]
    limits = {"from_time": times[0], "to_time": times[1]}
    if rng.random() < 0.4:
        # from there to the end or from the beginning to there
        gone = rng.choice(sorted(limits))
        del limits[gone]
        a, b = (0, b) if gone == "from_time" else (a, n - 1)
    letsgo.process_time(env, "A", "m0", "Q", "part", **limits)
    env3 = letsgo.reload(env)
    got = env3.proj["Q"]["part"]
    got = got.reader.run(got.dir_path)
    part = TimeReaderNumpy().run(get_meas_time_path(path, "A", "m0"), from_sample=a, to_sample=b)
    want = letsgo.run_time_processors(config, part)
    ctx.same_run(got.data, want.data, "stored-part", f"{what} {a} {b}")
    ctx.equal(part.data, td.data[:, a : b + 1], "stored-part", f"{what} {a} {b}")
    ctx.check(got.metadata.first_time == want.metadata.first_time, "stored-part", what)


@scenario("C23", "default", quick=12, timeout=400)
def default(ctx):
    """The default configuration, with as many levels as the recording allows"""
    rng = ctx.rng
    fs = float(rng.choice([1, 10, 128, 512, 4096]))
    n = rng.randint(8000, 40000)
    tf = ImpedanceTensor()
    z = tensor(ctx.np, tf)
    first = make_time(rng)
    td = recording(ctx, tf, z, fs, n, first)
    td.data[:, rng.randrange(1, n - 1)] = np.nan
    path = new_project(ctx, first)
    meas_path = get_meas_time_path(path, "A", "m0")
    write(rng, meas_path, td, "numpy")
    ctx.case((fs, n))
    expected = [fs / 4 / 2 ** (k / 2) for k in range(40)]
    sol = letsgo.quick_tf(meas_path)
    check_solution(ctx, sol, tf, z, expected, "default quick", 2e-3, full=False)
    ctx.check(len(sol.freqs) % 5 == 0, "levels", f"{len(sol.freqs)}")
    # how many levels there must be: enough samples, and five windows
    levels = 0
    for level in range(8):
        factor = 2 ** int(np.floor(2.5 * level + 1e-9))
        size = max(128, int(fs / factor // 4))
        olap = max(32, int(size * 0.25))
        n_level = n // factor
        if n_level < 256 or (n_level - size) // (size - olap) + 1 < 7:
            break
        levels += 1
    ctx.check(len(sol.freqs) >= 5 * levels, "levels", f"{len(sol.freqs)} frequencies, {levels} levels possible for {n} samples {fs} Hz")
    env = letsgo.load(path)
    process_all(env, "A")
    sol = letsgo.process_evals_to_tf(env, fs, "A")
    check_solution(ctx, sol, tf, z, expected, "default project", 2e-3, full=False)


@scenario("C23", "steps", quick=40, timeout=300)
def steps(ctx):
    """The quick functions are the steps they stand for, taken one by one"""
    rng = ctx.rng
    fs, tf, config, fs_out, expected, n = pick(ctx)
    td = recording(ctx, tf, tensor(ctx.np, tf), fs, n, make_time(rng))
    path = ctx.scratch() / "meas"
    write(rng, path, td, rng.choice(["numpy", "ascii"]))
    names = [type(p).__name__ for p in config.time_processors]
    what = f"{names} {config.dec_setup!r} {config.win_setup!r}"
    ctx.case((fs, n, tf.name, names, expected))
    read = [r for r in config.time_readers if r.extension == next(f.suffix for f in path.iterdir() if f.suffix != ".json")][0].run(path)
    with ctx.no_error("quick-read", what):
        got = letsgo.quick_read(path, config)
    ctx.check(got.metadata.chans == read.metadata.chans and got.metadata.fs == read.metadata.fs, "quick-read", what)
    ctx.equal(got.data, read.data, "quick-read", what)
    processed = read
    for proc in config.time_processors:
        processed = proc.run(processed)
    got = letsgo.run_time_processors(config, read)
    ctx.same_run(got.data, processed.data, "time-processors", what)
    ctx.check(got.metadata.fs == processed.metadata.fs == fs_out or abs(got.metadata.fs - fs_out) < 1e-9 * fs_out, "time-processors", what)
    params = config.dec_setup.run(processed.metadata.fs)
    dec = config.decimator.run(params, processed)
    for given in ({}, {"dec_params": params}):
        got = letsgo.run_decimation(config, processed, **given)
        for level in dec.data:
            ctx.same_run(got.get_level(level), dec.get_level(level), "decimation", f"{what} {given}")
    if dec.metadata.n_levels == 0:
        return
    win_params = config.win_setup.run(dec.metadata.n_levels, dec.metadata.fs)
    win = config.windower.run(read.metadata.first_time, win_params, dec)
    spec = config.fourier.run(win)
    with ctx.no_error("quick-spectra", what):
        got = letsgo.quick_spectra(path, config)
    ctx.check(got.metadata.n_levels == spec.metadata.n_levels, "quick-spectra", what)
    ctx.check(abs((got.metadata.ref_time - read.metadata.first_time).total_seconds()) < 1e-9, "quick-spectra-ref", what)
    for level in spec.data:
        ctx.same_run(got.get_level(level), spec.get_level(level), "quick-spectra", f"{what} level {level}")
        ctx.check(
            got.metadata.levels_metadata[level] == spec.metadata.levels_metadata[level], "quick-spectra-metadata", what,
        )
    max_pts = rng.choice([50, 1000, None])
    # plots hold the data that were read, processed and where asked for decimated
    with ctx.no_error("quick-view", what):
        fig = letsgo.quick_view(path, config, max_pts=max_pts)
        dec_fig = letsgo.quick_view(path, config, decimate=True, max_pts=max_pts)
    want, dec_want = processed.plot(max_pts=max_pts), dec.plot(max_pts=max_pts)
    for a, b, kind in ((fig, want, "time"), (dec_fig, dec_want, "decimated")):
        ctx.check(len(a.data) == len(b.data), "quick-view", f"{what} {kind}: {len(a.data)} traces")
        for x, y in zip(a.data, b.data):
            ctx.same_run(np.asarray(x.y), np.asarray(y.y), "quick-view", f"{what} {kind}")
            ctx.check(list(x.x) == list(y.x) and x.name == y.name, "quick-view", f"{what} {kind}")
    # without a configuration the default one is used
    if any(f.suffix in (".npy", ".txt") for f in path.iterdir()):
        default = get_default_configuration()
        with ctx.no_error("quick-default", what):
            ctx.equal(letsgo.quick_read(path).data, letsgo.quick_read(path, default).data, "quick-default", what)
            fig, want = letsgo.quick_view(path), letsgo.quick_view(path, default)
            a, b = letsgo.quick_spectra(path), letsgo.quick_spectra(path, default)
        for x, y in zip(fig.data, want.data):
            ctx.same_run(np.asarray(x.y), np.asarray(y.y), "quick-default", what)
        for level in b.data:
            ctx.same_run(a.get_level(level), b.get_level(level), "quick-default", f"{what} level {level}")


@scenario("C23", "smoothed", quick=30, timeout=300)
def smoothed(ctx):
    """All spectra processors are applied, in order, before the evaluation frequencies and the calibration"""
    rng = ctx.rng
    fs, tf, config, fs_out, expected, n = pick(ctx, solver=SolverScikitOLS(fit_intercept=rng.random() < 0.3))
    config.spectra_processors = [catalog.smoother(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    first = make_time(rng)
    ref = rng.choice([first, sample_to_datetime(fs, first, 0) - to_timedelta(rng.uniform(1, 1e6))])
    project = new_project(ctx, ref)
    path = get_meas_time_path(project, "A", "m0")
    z = tensor(ctx.np, tf)
    td = recording(ctx, tf, z, fs, n, first)
    write(rng, path, td, "numpy")
    cal = project / "calibrate"
    calibrated = rng.sample(td.metadata.chans, rng.randint(0, 2))
    for chan in calibrated:
        freqs = sorted(rng.uniform(1e-4 * fs, fs) for _ in range(12))
        write_cal_json(
            cal / f"IC_S{chan}.json", freqs, [rng.uniform(1, 5) for _ in freqs],
            [rng.uniform(-1, 1) for _ in freqs], f"S{chan}", "1",
        )
    what = f"{config.spectra_processors!r} {[type(p).__name__ for p in config.time_processors]} calibrated {calibrated}"
    ctx.case((fs, n, tf.name, what, expected, str(first), str(ref)))
    config_cal = rng.random() < 0.5
    read = TimeReaderNumpy().run(path)
    processed = read
    for proc in config.time_processors:
        processed = proc.run(processed)
    params = config.dec_setup.run(processed.metadata.fs)
    dec = config.decimator.run(params, processed)
    win_params = config.win_setup.run(dec.metadata.n_levels, dec.metadata.fs)

    def chain(ref_time, cal_path):
        spec = config.fourier.run(config.windower.run(ref_time, win_params, dec))
        for proc in config.spectra_processors:
            spec = proc.run(spec)
        evals = config.evals.run(params, spec)
        return config.sensor_calibrator.run(cal_path, evals) if cal_path is not None else evals

    with ctx.no_error("runs", what):
        env = letsgo.load(project, config)
        letsgo.process_time_to_evals(env, "A", "m0")
        got = SpectraDataReader().run(get_meas_evals_path(project, "A", "m0", config.name))
    want = chain(ref, cal)
    ctx.check(got.metadata.n_levels == want.metadata.n_levels, "stored-evals", what)
    for level in range(want.metadata.n_levels):
        ctx.close_to(
            got.get_level(level), want.get_level(level), "stored-evals", f"{what} level {level}",
            rtol=1e-9, atol=1e-12 * np.max(np.abs(want.get_level(level))),
        )
        ctx.check(
            got.metadata.levels_metadata[level] == want.metadata.levels_metadata[level], "stored-evals-metadata", what,
        )
    cal_path = cal if config_cal else None
    with ctx.no_error("runs", what):
        sol = letsgo.quick_tf(path, config, cal_path)
    want = config.solver.run(
        config.regression_preparer.run(tf, QuickGather().run(path, params, tf, chain(first, cal_path)))
    )
    same_solution(ctx, sol, want, "quick-smoothed", what, rtol=1e-7)
    if not (config_cal and calibrated):
        check_solution(ctx, sol, tf, z, expected, f"smoothed {what}", 1e-5)
