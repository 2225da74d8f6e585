"""C21: configurations, processes and models survive serialisation"""
import copy
import json
from typing import List

import numpy as np

from resistics.calibrate import (
    CalibrationData, InstrumentCalibrator, SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator,
)
from resistics.common import ResisticsProcess
from resistics.config import Configuration, get_default_configuration
from resistics.decimate import DecimationParameters, DecimationSetup, Decimator
from resistics.gather import SiteCombinedMetadata
from resistics.project import ProjectMetadata
from resistics.regression import (
    RegressionPreparerGathered, RegressionPreparerSpectra, SolverScikitHuber, SolverScikitOLS, SolverScikitRANSAC,
    SolverScikitTheilSen, SolverScikitWLS,
)
from resistics.spectra import EvaluationFreqs, FourierTransform, SpectraSmootherGaussian, SpectraSmootherUniform
from resistics.time import (
    Add, BandPass, ChanMetadata, Decimate, HighPass, InterpolateNans, LowPass, Multiply, Notch, RemoveMean, Resample, ShiftTimestamps,
    TimeMetadata, TimeProcess, TimeReader, TimeReaderAscii, TimeReaderNumpy, TimeWriterNumpy,
)
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction
from resistics.window import WindowerTarget, WindowParameters, WindowSetup
from rt import build, catalog
from rt.build import snapshot
from rt.compare import run_differs
from rt.checks.c08_inputs import diff, strip
from rt.core import scenario
from rt.util import make_time


class HalfMe(TimeProcess):
    """A process defined outside the package, as plugins and notebooks do"""

    amount: float = 0.5
    label: str = "x"

    def run(self, time_data):
        from resistics.time import new_time_data

        return new_time_data(time_data, data=time_data.data * self.amount, record=self._get_record(self.label))


class OddTransfer(TransferFunction):
    variation: str = "odd"
    out_chans: List[str] = ["Ey"]
    in_chans: List[str] = ["Hx", "Hy", "Hz"]


def types_of(obj):
    """The classes of everything in a model, recursively"""
    if hasattr(obj, "__fields__"):
        return (type(obj).__name__, {k: types_of(getattr(obj, k)) for k in obj.__fields__})
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [types_of(x) for x in obj]
    if isinstance(obj, dict):
        return {k: types_of(v) for k, v in obj.items()}
    if isinstance(obj, (int, float)) and not isinstance(obj, bool):
        return "number"  # 3 and 3.0 are the same parameter
    return type(obj).__name__


def same(ctx, a, b, kind, what):
    ctx.check(type(a) is type(b), kind + "-type", f"{what}: {type(b)} expected {type(a)}")
    ctx.check(a == b, kind + "-equal", f"{what}: {b!r} expected {a!r}")
    where = diff(json.loads(json.dumps(types_of(a))), json.loads(json.dumps(types_of(b))))
    ctx.check(where is None, kind + "-types", f"{what}: {where}")
    where = diff(json.loads(a.json()), json.loads(b.json()))
    ctx.check(where is None, kind + "-json", f"{what}: {where}")
    ctx.observe("models_compared")


def solver(rng):
    kw = {"fit_intercept": rng.random() < 0.5, "normalize": rng.random() < 0.3}
    jobs = rng.choice([-2, 1, 4])
    return rng.choice([
        lambda: SolverScikitOLS(n_jobs=jobs, **kw),
        lambda: SolverScikitHuber(epsilon=rng.choice([1, 1.35, 2.5]), **kw),
        lambda: SolverScikitTheilSen(n_jobs=jobs, max_subpopulation=rng.choice([10, 2000]), n_subsamples=rng.choice([None, 0.5]), **kw),
        lambda: SolverScikitRANSAC(min_samples=rng.choice([0.5, 0.8]), max_trials=rng.randint(1, 30), **kw),
        lambda: SolverScikitWLS(n_jobs=jobs, n_iter=rng.randint(1, 60), **kw),
    ])()


def transfer_function(rng):
    return rng.choice([
        lambda: ImpedanceTensor(), lambda: ImpedanceTensor(variation="with_hz", cross_chans=["Hx", "Hy", "Hz"]),
        lambda: ImpedanceTensor(out_chans=["Ey", "Ex"], in_chans=["Hy", "Hx"]), lambda: Tipper(),
        lambda: Tipper(cross_chans=["Ex", "Ey"]), lambda: OddTransfer(), lambda: OddTransfer(cross_chans=["Ex"]),
        lambda: TransferFunction(out_chans=["a", "b"], in_chans=["c"]),
        lambda: TransferFunction(variation="sixteen_letters_", out_chans=["Ex"], in_chans=["Hx", "Hy"], cross_chans=["Hz", "Hx", "Hy"]),
    ])()


def reader(rng):
    scale = rng.random() < 0.5
    if rng.random() < 0.5:
        return TimeReaderNumpy(apply_scalings=scale)
    return TimeReaderAscii(
        apply_scalings=scale, extension=rng.choice([".txt", ".ascii", ".dat"]),
        delimiter=rng.choice([None, ",", "\t"]), n_header=rng.choice([0, 3]),
    )


def plain_process(rng):
    """Processes with no demands on data"""
    return rng.choice([
        lambda: LowPass(cutoff=rng.uniform(1, 100), order=rng.randint(2, 12)), lambda: HighPass(cutoff=rng.uniform(1, 100)),
        lambda: BandPass(cutoff_low=1.5, cutoff_high=rng.uniform(2, 100)), lambda: Notch(notch=50, band=rng.choice([None, 3.5])),
        lambda: InterpolateNans(), lambda: RemoveMean(), lambda: HalfMe(amount=rng.random(), label=rng.choice(["x", "other"])),
        lambda: catalog.dec_setup(rng, 128.0), lambda: catalog.decimator(rng), lambda: catalog.win_setup(rng, 3),
        lambda: catalog.windower(rng), lambda: catalog.fourier(rng), lambda: catalog.smoother(rng),
        lambda: catalog.calibrator(rng), lambda: solver(rng), lambda: reader(rng), lambda: EvaluationFreqs(),
        lambda: RegressionPreparerGathered(), lambda: RegressionPreparerSpectra(),
        lambda: SensorCalibrationTXT(file_str="$serial$extension"),
    ])()


def configuration(rng):
    def maybe(name, fnc):
        return {name: fnc()} if rng.random() < 0.6 else {}

    kw = {}
    kw.update(maybe("time_readers", lambda: [reader(rng) for _ in range(rng.randint(1, 3))]))
    kw.update(maybe("time_processors", lambda: [
        rng.choice([HalfMe(amount=2), LowPass(cutoff=rng.uniform(1, 9)), RemoveMean(), InterpolateNans(), Notch(notch=16.6)])
        for _ in range(rng.randint(0, 4))
    ]))
    kw.update(maybe("dec_setup", lambda: catalog.dec_setup(rng, 64.0)))
    kw.update(maybe("decimator", lambda: catalog.decimator(rng)))
    kw.update(maybe("win_setup", lambda: catalog.win_setup(rng, 4)))
    kw.update(maybe("windower", lambda: catalog.windower(rng)))
    kw.update(maybe("fourier", lambda: catalog.fourier(rng)))
    kw.update(maybe("spectra_processors", lambda: [catalog.smoother(rng) for _ in range(rng.randint(0, 3))]))
    kw.update(maybe("sensor_calibrator", lambda: catalog.calibrator(rng)))
    kw.update(maybe("tf", lambda: transfer_function(rng)))
    kw.update(maybe("solver", lambda: solver(rng)))
    return Configuration(name=rng.choice(["a", "name with space", "c_1"]), **kw)


def routes(ctx, obj, validate, what, kind):
    """Oracle: dictionary, JSON text and file all give back an equal object"""
    as_dict = json.loads(obj.json())
    keep = copy.deepcopy(as_dict)
    for i in range(2):
        with ctx.no_error(kind + "-read", f"{what} time {i} from {as_dict}"):
            back = validate(as_dict)
        ctx.check(as_dict == keep, kind + "-consumed", f"{what}: {as_dict} was {keep}")
        same(ctx, obj, back, kind, what)
    # once more around, and a python dictionary of the fields
    back = validate(json.loads(back.json()))
    same(ctx, obj, back, kind, f"{what} second round")
    py_dict = obj.dict()
    keep = copy.deepcopy(py_dict)
    with ctx.no_error(kind + "-read", f"{what} from {py_dict}"):
        again = validate(py_dict)
    same(ctx, obj, again, kind, f"{what} from dict()")
    ctx.check(py_dict == keep, kind + "-consumed", f"{what}: {py_dict} was {keep}")
    return back


@scenario("C21", "processes", quick=500)
def processes(ctx):
    rng = ctx.rng
    proc = plain_process(rng)
    what = repr(proc)
    ctx.case(what)
    ctx.check(proc.name == type(proc).__name__, "process-name", what)
    parent = rng.choice([ResisticsProcess, type(proc)])
    back = routes(ctx, proc, parent.validate, what, "process")
    ctx.check(proc.parameters() == json.loads(proc.json()), "parameters", what)
    ctx.check(ResisticsProcess.validate(proc) == proc, "process-kept", what)
    # same behaviour
    if hasattr(proc, "win_factor"):
        fs = [rng.uniform(50, 5000) / 2 ** i for i in range(3)]
        a, b = (outcome(p, 3, fs) for p in (proc, back))
        ctx.check(a == b, "process-behaviour", f"{what}: {a} {b}")
    elif hasattr(proc, "div_factor"):
        fs = rng.choice([128.0, 512.0, 300.0])
        a, b = (outcome(p, fs) for p in (proc, back))
        ctx.check(a == b, "process-behaviour", f"{what}: {a} {b}")
    elif isinstance(proc, TimeProcess):
        td = build.time_data(rng, ctx.np, 512.0, 600, chans=["Ex", "Hy"])
        a, b = proc.run(td), back.run(td)
        ctx.same_run(b.data, a.data, "process-behaviour", what)
    # unknown names, missing names, other types and bad parameters are refused
    good = proc.parameters()
    bad = dict(good, name=rng.choice(["Unknown", "", type(proc).__name__.lower(), "LowPas"]))
    ctx.raises(lambda: ResisticsProcess.validate(bad), Exception, "unknown-name", what)
    del bad["name"]
    ctx.raises(lambda: ResisticsProcess.validate(bad), Exception, "missing-name", what)
    ctx.raises(lambda: ResisticsProcess.validate(rng.choice(["LowPass", 5, [good]])), Exception, "not-a-dict", what)
    if isinstance(proc, LowPass):
        ctx.raises(lambda: ResisticsProcess.validate(dict(good, cutoff="fast")), Exception, "bad-parameter", what)


def outcome(proc, *args):
    try:
        return snapshot(proc.run(*args))
    except Exception as exc:
        return type(exc).__name__


@scenario("C21", "configurations", quick=250)
def configurations(ctx):
    rng = ctx.rng
    config = configuration(rng)
    what = config.json()[:1200]
    ctx.case(config.json())
    frozen = snapshot(config)
    back = routes(ctx, config, lambda d: Configuration(**d), what, "config")
    path = ctx.scratch() / "config.json"
    path.write_text(config.json())
    with ctx.no_error("config-read", what):
        filed = Configuration.parse_file(path)
    same(ctx, config, filed, "config", what)
    same(ctx, config, Configuration.parse_raw(config.json(indent=2)), "config", what)
    import yaml

    ctx.check(yaml.safe_load(config.to_string()) == json.loads(config.json()), "config-yaml", what)
    ctx.check(diff(frozen, snapshot(config)) is None, "config-changed", what)
    # a nested unknown process is refused
    bad = json.loads(config.json())
    key = rng.choice(["solver", "decimator", "windower", "fourier", "dec_setup", "sensor_calibrator", "tf", "evals"])
    bad[key]["name"] = "Nobody"
    ctx.raises(lambda: Configuration(**bad), Exception, "unknown-name", f"{key} in {what}")
    bad = json.loads(config.json())
    bad["time_readers"].append({"name": "TimeReaderUnheardOf"})
    ctx.raises(lambda: Configuration(**bad), Exception, "unknown-name", f"reader in {what}")
    # defaults are fresh for every configuration
    a, b = Configuration(name="a"), get_default_configuration()
    a.time_processors.append(LowPass(cutoff=3))
    a.time_readers.clear()
    a.dec_setup.n_levels = 77
    a.sensor_calibrator.readers.clear()
    a.tf.out_chans.append("zz")
    fresh = Configuration(name="default")
    ctx.check(fresh == b, "config-defaults-shared", f"{diff(snapshot(b), snapshot(fresh))}")
    # the rebuilt configuration processes data identically
    if ctx.index % 5 == 0:
        run_both(ctx, config, back, what)


def run_both(ctx, config, back, what):
    from resistics import letsgo

    td = build.time_data(ctx.rng, ctx.np, 128.0, 4000, chans=["Ex", "Ey", "Hx", "Hy", "Hz"])
    outs = []
    for c in (config, back):
        try:
            x = letsgo.run_time_processors(c, td)
            dp = c.dec_setup.run(x.metadata.fs)
            x = letsgo.run_decimation(c, x, dp)
            x = letsgo.run_windowing(c, td.metadata.first_time, x)
            x = letsgo.run_fft(c, x)
            x = letsgo.run_spectra_processors(c, x)
            x = letsgo.run_evals(c, dp, x)
            outs.append(strip(snapshot(x)))
        except Exception as exc:
            outs.append(f"{type(exc).__name__}")
    where = run_differs(outs[0], outs[1])
    ctx.check(where is None, "config-behaviour", f"{what}: {where}")
    ctx.observe("configurations_run")


@scenario("C21", "transfer_functions", quick=200)
def transfer_functions(ctx):
    rng = ctx.rng
    tf = transfer_function(rng)
    what = repr(tf)
    ctx.case((what, ctx.index))
    ctx.check(tf.name == type(tf).__name__, "tf-name", what)
    ctx.check(
        (tf.n_out, tf.n_in, tf.n_cross) == (len(tf.out_chans), len(tf.in_chans), len(tf.cross_chans)), "tf-counts", what,
    )
    ctx.check(tf.n_eqns_per_output() == len(tf.cross_chans) and tf.n_regressors() == len(tf.in_chans), "tf-counts", what)
    routes(ctx, tf, TransferFunction.validate, what, "tf")
    same(ctx, tf, type(tf).parse_raw(tf.json()), "tf", what)
    text = tf.to_string()
    for out in tf.out_chans:
        for inp in tf.in_chans:
            ctx.check(f"{out}_{inp}" in text, "tf-string", f"{what}: {text}")
    bad = dict(json.loads(tf.json()), name=rng.choice(["Impedance", "", "tipper"]))
    ctx.raises(lambda: TransferFunction.validate(bad), Exception, "unknown-name", what)
    ctx.raises(lambda: TransferFunction.validate({"out_chans": ["a"], "in_chans": ["b"]}), Exception, "missing-name", what)
    ctx.raises(lambda: TransferFunction.validate("Tipper"), Exception, "not-a-dict", what)
    # defaults belong to nobody
    ImpedanceTensor().out_chans.append("zz")
    a = ImpedanceTensor()
    a.cross_chans.append("zz")
    ctx.check(
        ImpedanceTensor().in_chans == ["Hx", "Hy"] == ImpedanceTensor().cross_chans
        and ImpedanceTensor().out_chans == ["Ex", "Ey"], "tf-defaults-shared", ImpedanceTensor(),
    )


@scenario("C21", "parameters", quick=200)
def parameters(ctx):
    """Parameter sets and metadata models"""
    rng = ctx.rng
    fs = rng.choice([128.0, 64.0, 0.1, 1 / 3, 65536.0])
    setup = catalog.dec_setup(rng)
    params = setup.run(fs)
    ctx.case((repr(setup), fs))
    back = routes(ctx, params, lambda d: DecimationParameters(**d), repr(params), "params")
    for level in range(params.n_levels):
        ctx.check(
            params.get_eval_freqs(level) == back.get_eval_freqs(level) and params.get_fs(level) == back.get_fs(level)
            and params.get_total_factor(level) == back.get_total_factor(level), "params-equal", repr(params),
        )
    ws = catalog.win_setup(rng, params.n_levels)
    try:
        win = ws.run(params.n_levels, params.dec_fs)
    except ValueError:
        win = None
    if win is not None:
        routes(ctx, win, lambda d: WindowParameters(**d), repr(win), "params")
    if rng.random() < 0.3:
        # channels with types of their own
        meta = build.time_metadata(128.0, 100, make_time(rng), ["temp", "aux1"], chan_type=rng.choice(["unknown", "other"]))
    else:
        meta = build.time_data(rng, ctx.np).metadata
    for chan in meta.chans:
        cm = meta.chans_metadata[chan]
        if rng.random() < 0.3:
            cm.chan_type = rng.choice(["unknown", "electric", "magnetic", "telluric"])
        cm.scaling, cm.sensor, cm.serial, cm.dipole_dist = rng.random(), "s", "12", rng.random() * 10
    meta.wgs84_latitude, meta.elevation, meta.system = rng.uniform(-90, 90), rng.random(), "box"
    routes(ctx, meta, lambda d: type(meta)(**d), meta.json()[:500], "meta")


GEO = dict(
    system="", serial="", wgs84_latitude=-999.0, wgs84_longitude=-999.0, easting=-999.0, northing=-999.0, elevation=-999.0,
)
DOCUMENTED = [
    (LowPass, {"cutoff": 3.0}, {"order": 10}), (HighPass, {"cutoff": 3.0}, {"order": 10}),
    (BandPass, {"cutoff_low": 1.0, "cutoff_high": 3.0}, {"order": 10}), (Notch, {"notch": 50.0}, {"order": 10, "band": None}),
    (Decimate, {"factor": 6}, {"max_single_factor": 3}),
    (DecimationSetup, {}, {"n_levels": 8, "per_level": 5, "min_samples": 256, "div_factor": 2, "eval_freqs": None}),
    (Decimator, {}, {"resample": True, "max_single_factor": 3}),
    (WindowSetup, {}, {
        "min_size": 128, "min_olap": 32, "win_factor": 4, "olap_proportion": 0.25, "min_n_wins": 5, "win_sizes": None,
        "olap_sizes": None,
    }),
    (WindowerTarget, {}, {"target": 1000, "min_size": 64, "olap_proportion": 0.25}),
    (FourierTransform, {}, {"win_fnc": ("kaiser", 14.0), "detrend": "linear", "workers": -2}),
    (SpectraSmootherUniform, {}, {"length_proportion": 0.1}), (SpectraSmootherGaussian, {}, {"sigma": 3.0}),
    (SolverScikitOLS, {}, {"fit_intercept": False, "normalize": False, "n_jobs": -2}),
    (SolverScikitHuber, {}, {"fit_intercept": False, "normalize": False, "epsilon": 1.0}),
    (SolverScikitTheilSen, {}, {"fit_intercept": False, "n_jobs": -2, "max_subpopulation": 2000, "n_subsamples": None}),
    (SolverScikitRANSAC, {}, {"fit_intercept": False, "min_samples": 0.8, "max_trials": 20}),
    (SolverScikitWLS, {}, {"fit_intercept": False, "n_jobs": -2, "n_iter": 50}),
    (TimeReaderAscii, {}, {"apply_scalings": True, "extension": ".txt", "delimiter": None, "n_header": 0}),
    (TimeReaderNumpy, {}, {"apply_scalings": True, "extension": ".npy"}),
    (SensorCalibrationJSON, {}, {"extension": ".json", "file_str": "IC_$sensor$extension"}),
    (SensorCalibrator, {"readers": [{"name": "SensorCalibrationJSON"}]}, {"chans": None}),
    (TimeWriterNumpy, {}, {"overwrite": True}),
    (ImpedanceTensor, {}, {
        "variation": "default", "out_chans": ["Ex", "Ey"], "in_chans": ["Hx", "Hy"], "cross_chans": ["Hx", "Hy"],
    }),
    (Tipper, {}, {"variation": "default", "out_chans": ["Hz"], "in_chans": ["Hx", "Hy"], "cross_chans": ["Hx", "Hy"]}),
    (TransferFunction, {"out_chans": ["a"], "in_chans": ["b"]}, {"variation": "generic", "cross_chans": ["b"]}),
    (ChanMetadata, {"name": "Ex"}, {
        "data_files": None, "chan_type": "electric", "chan_source": None, "sensor": "", "serial": "", "gain1": 1.0,
        "gain2": 1.0, "scaling": 1.0, "chopper": False, "dipole_dist": 1.0, "sensor_calibration_file": "",
        "instrument_calibration_file": "",
    }),
    (TimeMetadata, {
        "fs": 2.0, "chans": ["Ex"], "n_samples": 3, "first_time": "2020-01-01 00:00:00", "last_time": "2020-01-01 00:00:01",
        "chans_metadata": {"Ex": {"name": "Ex"}},
    }, dict(GEO, n_chans=1)),
    (SiteCombinedMetadata, {
        "site_name": "a", "fs": 2.0, "chans": ["Ex"], "n_evals": 1, "eval_freqs": [0.5], "histories": {},
    }, dict(GEO, measurements=None)),
    (ProjectMetadata, {"ref_time": "2020-01-01 00:00:00"}, {
        "location": "", "country": "", "year": -999, "description": "", "contributors": [],
    }),
    (CalibrationData, {"serial": 1, "frequency": [1.0, 2.0], "magnitude": [1.0, 2.0], "phase": [0.1, 0.2], "file_path": None}, {
        "sensor": "", "static_gain": 1.0, "magnitude_unit": "mV/nT", "n_samples": 2,
    }),
]


@scenario("C21", "defaults", quick=60)
def defaults(ctx):
    """What a configuration or a metadata file does not state takes the documented value"""
    rng = ctx.rng
    cls, given, want = DOCUMENTED[ctx.index % len(DOCUMENTED)]
    left_out = sorted(k for k in want if rng.random() < 0.7)
    stated = {k: v for k, v in want.items() if k not in left_out}
    what = f"{cls.__name__} without {left_out}"
    ctx.case((cls.__name__, tuple(left_out)))
    with ctx.no_error("defaults", what):
        direct = cls(**given, **stated)
        text = json.dumps({**given, **stated}, default=str)
        from_text = cls.parse_raw(text)
        if issubclass(cls, ResisticsProcess):
            named = cls.validate(dict(json.loads(text), name=cls.__name__))
        else:
            named = from_text
    for obj in (direct, from_text, named):
        for key, value in want.items():
            got = getattr(obj, key)
            ctx.check(got == value and (got is None) == (value is None), "documented-default", f"{what}: {key} is {got!r}, not {value!r}")
        ctx.observe("models_compared")


# parameters as people give them
GIVEN = {
    LowPass: {"cutoff": (0.01, 999.5), "order": [2, 7]}, HighPass: {"cutoff": (0.01, 999.5), "order": [2, 7]},
    BandPass: {"cutoff_low": (0.01, 9.5), "cutoff_high": (10.01, 99.5), "order": [3, 7]},
    Notch: {"notch": (0.01, 999.5), "band": (0.01, 3.5), "order": [2, 7]},
    Decimate: {"factor": [2, 7, 250], "max_single_factor": [3, 11]}, Resample: {"new_fs": (0.001, 9999.5)},
    ShiftTimestamps: {"shift": (0.00001, 0.5)}, Add: {"add": (-9.5, 9.5)}, Multiply: {"multiplier": (-9.5, 9.5)},
    DecimationSetup: {"n_levels": [1, 12], "per_level": [1, 9], "min_samples": [1, 1000], "div_factor": [2, 7]},
    Decimator: {"resample": [True, False], "max_single_factor": [3, 11]},
    WindowSetup: {"min_size": [1, 999], "min_olap": [1, 99], "win_factor": [1, 99], "olap_proportion": (0.01, 0.99), "min_n_wins": [1, 99]},
    WindowerTarget: {"target": [1, 9999], "min_size": [1, 999], "olap_proportion": (0.01, 0.99)},
    FourierTransform: {
        "win_fnc": ["hann", ("kaiser", 8.6), ("tukey", 0.25), ("tukey", 1 / 3), ("kaiser", 14)], "detrend": [None, "linear", "constant"],
        "workers": [1, -1, 4],
    },
    SpectraSmootherUniform: {"length_proportion": (0.01, 0.9)}, SpectraSmootherGaussian: {"sigma": (0.01, 9.5)},
    SolverScikitOLS: {"fit_intercept": [True, False], "normalize": [True, False], "n_jobs": [1, -1]},
    SolverScikitHuber: {"fit_intercept": [True, False], "epsilon": (1.0, 3.5)},
    SolverScikitTheilSen: {"fit_intercept": [True, False], "max_subpopulation": [7, 99999], "n_subsamples": [None, 12]},
    SolverScikitRANSAC: {"fit_intercept": [True, False], "min_samples": (0.05, 0.95), "max_trials": [1, 999]},
    SolverScikitWLS: {"fit_intercept": [True, False], "n_iter": [1, 99]},
    TimeReaderAscii: {"apply_scalings": [True, False], "extension": [".txt", ".csv"], "delimiter": [None, ",", ";"], "n_header": [0, 7]},
    TimeReaderNumpy: {"apply_scalings": [True, False], "extension": [".npy", ".bin"]},
}


@scenario("C21", "given", quick=100)
def given(ctx):
    """A process holds the parameters it was given, and so does one made from what it says of itself"""
    rng = ctx.rng
    cls = sorted(GIVEN, key=lambda c: c.__name__)[ctx.index % len(GIVEN)]
    values = {}
    for key, choice in GIVEN[cls].items():
        if rng.random() < 0.8:
            values[key] = rng.choice(choice) if isinstance(choice, list) else rng.choice([rng.uniform(*choice), choice[1], float(round(choice[1]) or choice[1])])
    for key, choice in GIVEN[cls].items():
        if key not in values and cls.__fields__[key].required:
            values[key] = rng.choice(choice) if isinstance(choice, list) else rng.uniform(*choice)
    what = f"{cls.__name__} {values}"
    ctx.case(what)
    with ctx.no_error("given", what):
        proc = cls(**values)
        text = proc.json()
        said = proc.parameters()
        made = [proc, cls.parse_raw(text), cls.validate(json.loads(text)), ResisticsProcess.validate(json.loads(text)), proc.copy(deep=True)]
    for obj in made:
        ctx.check(type(obj) is cls, "given-class", f"{what}: {type(obj)}")
        for key, value in values.items():
            got = getattr(obj, key)
            ctx.check(plain(got) == plain(value), "given-parameter", f"{what}: {key} is {got!r}")
        ctx.observe("models_compared")
    for key, value in values.items():
        ctx.check(plain(json.loads(text)[key]) == plain(value), "given-text", f"{what}: {key} in {text}")
        if key in said:
            ctx.check(plain(said[key]) == plain(value), "given-said", f"{what}: {key} in {said}")


def plain(value):
    return list(value) if isinstance(value, (list, tuple)) else value
