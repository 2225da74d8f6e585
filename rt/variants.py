"""Uses of resistics which differ in one detail: the food of stale caches and shared state

A use is a plain dictionary (it travels to another process), `run_use` performs it
"""
import shutil
from decimal import Decimal
from pathlib import Path

import numpy as np
from attotime import attodatetime

from resistics import letsgo
from resistics.calibrate import SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator
from resistics.decimate import DecimatedDataReader, DecimatedDataWriter, DecimationSetup, Decimator
from resistics.gather import QuickGather
from resistics.plot import apply_lttb
from resistics.regression import (
    RegressionPreparerGathered, RegressionPreparerSpectra, SolverScikitHuber, SolverScikitOLS, SolverScikitWLS,
)
from resistics.sampling import (
    datetime_array, datetime_from_string, datetime_to_string, datetimes_to_samples, from_time_to_sample,
    sample_to_datetime, samples_to_datetimes, to_datetime, to_n_samples, to_seconds, to_time_to_sample,
    to_timedelta, to_timestamp,
)
from resistics.spectra import (
    EvaluationFreqs, FourierTransform, SpectraDataReader, SpectraDataWriter, SpectraSmootherGaussian, SpectraSmootherUniform,
)
from resistics.time import (
    Add, BandPass, Decimate, HighPass, InterpolateNans, LowPass, Multiply, Notch, RemoveMean, Resample,
    ShiftTimestamps, Subsection, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii, TimeWriterNumpy,
)
from resistics.transfunc import TransferFunction
from resistics.window import Windower, WindowerTarget, WindowSetup
from rt import build

# what each part of a use can be; a near miss takes another value for one of them
DATA = {
    "seed": [1, 2, 3], "fs": [100.0, 100.5, 200.0], "n": [900, 901, 1024],
    "chans": ["Ex Hx Hy", "Hx Ex Hy", "Ex Hy", "Ey Hx Hy"], "dtype": ["float64", "float32", "int32"],
    "time": [(10, 0), (10, "0.5"), (10, "123"), (10, "123.001"), (11, 0)],
    "serial": ["1", "2", "12"], "sensor": ["S", "T"], "nan": [False, False, True],
}
PROCESSES = {
    LowPass: {"cutoff": [10.0, 10.4, 30.0], "order": [2, 4, 10]},
    HighPass: {"cutoff": [10.0, 10.4, 30.0], "order": [2, 4, 10]},
    BandPass: {"cutoff_low": [5.0, 5.2, 9.0], "cutoff_high": [20.0, 20.3, 40.0], "order": [2, 4, 10]},
    Notch: {"notch": [10.0, 10.2, 50 / 3], "band": [None, 1.0, 4.0], "order": [2, 4, 10]},
    Resample: {"new_fs": [50.0, 25.0, 25.125, 40.0, 150.0]},
    Decimate: {"factor": [2, 4, 6, 8, 12], "max_single_factor": [3, 4, 6, 12]},
    ShiftTimestamps: {"shift": [0.001, 0.0012, 0.003]},
    Subsection: {"from_time": ["2021-03-04 05:06:08", "2021-03-04 05:06:08.01"],
                 "to_time": ["2021-03-04 05:06:10", "2021-03-04 05:06:10.001", "2021-03-04 05:06:11"]},
    Add: {"add": [2.0, 3.0, {"Ex": 2.0}, {"Ex": 3.0}, {"Hx": 2.0}]},
    Multiply: {"multiplier": [2.0, 3.0, {"Ex": 2.0}, {"Ex": 3.0}, {"Hx": 2.0}]},
    RemoveMean: {}, InterpolateNans: {},
}
CHAIN = {
    "n_levels": [2, 3], "per_level": [2, 3], "min_samples": [32, 128], "div_factor": [2, 3],
    "eval_freqs": [None, None, [20.0, 15.0, 10.0, 7.0, 5.0, 4.0], [20.0, 15.5, 10.0, 7.0, 5.0, 4.0]],
    "resample": [False, True], "single": [3, 4, 6],
    "min_size": [32, 48], "min_olap": [4, 8], "olap": [0.25, 0.5], "factor": [4, 8], "n_wins": [1, 5],
    "target": [None, None, 20, 24], "ref": [0, 0, -0.25, -1],
    "win_fnc": [["kaiser", 14.0], ["kaiser", 8.0], ["tukey", 0.3], "hann"], "detrend": ["linear", "constant", None],
    "smooth": [None, ["u", 0.1], ["u", 0.2], ["g", 1.0], ["g", 3.0]],
    "solver": ["ols", "wls1", "wls10", "huber", "huber2"], "intercept": [False, True],
    "out": ["Ex", "Hy", "Hx"], "gathered": [False, True], "cal": [1, 2],
}
READ = {
    "kind": ["npy", "txt"], "scalings": [True, False], "scale": [1.0, 2.0, 2.5], "from": [None, 0, 20, 21], "to": [None, 400, 401],
    "from_time": [None, None, None, "2021-03-04 05:06:08", "2021-03-04 05:06:08.01"],
}
CALS = {
    "cal": [1, 2, 3], "kind": ["json", "txt"], "points": [3, 4], "other": [None, 1], "ref": [0], "gain": [1.0, 2.0],
    "chopper": [False, True], "str": ["IC_$sensor$extension", "IC_$sensor$serial$extension"],
}
DEFAULTS = {"change": ["none", "levels", "name", "reader", "window", "channels"], "where": ["default", "loaded"]}
TIMES = {"a": [0, 7, 8], "b": [300, 301], "extra": [0, "1e-7", "1e-10", "1e-12"], "pts": [50, 51], "span": [3, "3.0001", "2.5"]}
STORE = {"kind": ["npy", "ascii", "decimated", "spectra"], "cal": [1, 2]}
PROJECT = {"site": ["a", "b"], "meas": ["m1", "m 2"], "sites": [1, 2], "ref": ["r1", "r2"], "config": ["x", "y"], "tf": ["imp", "mine"],
           "add": [None, 2.0, 3.0]}


def tables(kind):
    if kind == "process":
        return {}
    return {"chain": CHAIN, "read": READ, "cals": CALS, "times": TIMES, "store": STORE, "project": PROJECT,
            "defaults": DEFAULTS}[kind]


KINDS = ["process", "process", "process", "chain", "chain", "read", "cals", "times", "store", "project", "defaults"]
# these write files, always to the same place, and cannot run beside each other
WITH_FILES = ("read", "cals", "store", "project", "defaults")
NAMES = {cls.__name__: cls for cls in PROCESSES}


def pick(rng, table):
    return {key: rng.choice(values) for key, values in table.items()}


def make_use(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    use = {"use": kind, "data": pick(rng, DATA)}
    if kind == "process":
        cls = rng.choice(list(PROCESSES))
        use["cls"] = cls.__name__
        use["par"] = pick(rng, PROCESSES[cls])
        use["data"]["nan"] = cls is InterpolateNans
    else:
        use["par"] = pick(rng, tables(kind))
        use["data"]["nan"] = False
    return use


def near_miss(rng, use):
    """The same use but for one detail"""
    use = {**use, "data": dict(use["data"]), "par": dict(use["par"])}
    table = PROCESSES[NAMES[use["cls"]]] if use["use"] == "process" else tables(use["use"])
    part, table = ("par", table) if table and rng.random() < 0.6 else ("data", {k: v for k, v in DATA.items() if k != "nan"})
    key = rng.choice(list(table))
    others = [v for v in table[key] if v != use[part][key]]
    if others:
        use[part][key] = rng.choice(others)
    return use


def start(data):
    second, frac = data["time"]
    return attodatetime(2021, 3, 4, 5, 6, 7, second, Decimal(frac)) if frac else attodatetime(2021, 3, 4, 5, 6, 7, second)


def recording(data, name=None):
    nprs = np.random.RandomState(data["seed"])
    chans = data["chans"].split()
    values = nprs.randint(-1000, 1000, size=(4, 1100)).astype(float) + 0.25 * nprs.randn(4, 1100).round(3)
    values = values[:len(chans), :data["n"]].astype(data["dtype"])
    if data["nan"]:
        values = values.astype(float)
        values[0, 5:9] = np.nan
    td = build.time_data(None, None, data["fs"], data["n"], start(data), chans, data=values)
    for chan in chans:
        td.metadata.chans_metadata[chan].sensor = data["sensor"]
        td.metadata.chans_metadata[chan].serial = data["serial"]
        td.metadata.chans_metadata[chan].scaling = 1.0
    return td


def made(keep, cls, kwargs):
    """A new process, or the one in use with other parameters assigned"""
    if keep is None:
        return cls(**kwargs)
    if cls not in keep:
        keep[cls] = cls(**kwargs)
    for key, value in kwargs.items():
        setattr(keep[cls], key, value)
    return keep[cls]


def empty(path, name):
    """An empty folder which always has the same path"""
    folder = path / name
    if folder.exists():
        shutil.rmtree(str(folder))
    folder.mkdir(parents=True)
    return folder


def write_cals(folder, par, sensor="S"):
    from rt.checks.c18_cal_files import write_cal_json, write_cal_txt
    import random

    for serial in (1, 2, 12, ""):
        nprs = np.random.RandomState(100 * par["cal"] + (serial or 0))
        n = par.get("points", 3)
        freqs, mag, phs = np.sort(10 ** nprs.uniform(-1, 2, n)).round(3), nprs.uniform(1, 2, n).round(3), nprs.uniform(-1, 1, n).round(3)
        if par.get("kind", "json") == "json":
            write_cal_json(folder / f"IC_{sensor}{serial}.json", freqs, mag, phs, sensor, serial or 7, static_gain=par.get("gain", 1.0))
        else:
            write_cal_txt(folder / f"IC_{sensor}{serial}.TXT", random.Random(1), freqs, mag, phs, sensor, serial or 7,
                          gain=par.get("gain", 1.0), noise=False)


def chain(td, par, folder, keep=None):
    m = td.metadata
    kw = dict(n_levels=par["n_levels"], per_level=par["per_level"], min_samples=par["min_samples"], div_factor=par["div_factor"])
    kw["eval_freqs"] = None
    if par["eval_freqs"]:
        kw["eval_freqs"] = (par["eval_freqs"] + [3.0, 2.0, 1.0])[:par["n_levels"] * par["per_level"]]
    dec_params = made(keep, DecimationSetup, kw).run(m.fs)
    dd = made(keep, Decimator, dict(resample=par["resample"], max_single_factor=par["single"])).run(dec_params, td)
    setup = made(keep, WindowSetup, dict(
        min_size=par["min_size"], min_olap=par["min_olap"], olap_proportion=par["olap"], win_factor=par["factor"],
        min_n_wins=par["n_wins"]))
    windower = Windower() if par["target"] is None else made(
        keep, WindowerTarget, dict(target=par["target"], min_size=par["min_size"], olap_proportion=par["olap"]))
    ref = m.first_time + to_timedelta(par["ref"])
    wd = windower.run(ref, setup.run(dd.metadata.n_levels, dd.metadata.fs), dd)
    win_fnc = tuple(par["win_fnc"]) if isinstance(par["win_fnc"], list) else par["win_fnc"]
    sd = made(keep, FourierTransform, dict(win_fnc=win_fnc, detrend=par["detrend"], workers=1)).run(wd)
    if par["smooth"]:
        kind, val = par["smooth"]
        smoother = made(keep, SpectraSmootherUniform, dict(length_proportion=val)) if kind == "u" else made(
            keep, SpectraSmootherGaussian, dict(sigma=val))
        sd = smoother.run(sd)
    ed = EvaluationFreqs().run(dec_params, sd)
    write_cals(folder, par)
    ed = made(keep, SensorCalibrator, dict(readers=[SensorCalibrationJSON(), SensorCalibrationTXT()])).run(folder, ed)
    out = par["out"] if par["out"] in m.chans else m.chans[0]
    tf = TransferFunction(out_chans=[out], in_chans=["Hx", "Hy"] if "Hx" in m.chans else ["Hy"])
    if par["gathered"]:
        rd = RegressionPreparerGathered().run(tf, QuickGather().run(Path("m"), dec_params, tf, ed))
    else:
        rd = RegressionPreparerSpectra().run(tf, ed)
    kw = {"fit_intercept": par["intercept"]}
    if par["solver"].startswith("wls"):
        solver = made(keep, SolverScikitWLS, dict(n_iter=int(par["solver"][3:]), **kw))
    elif par["solver"].startswith("huber"):
        solver = made(keep, SolverScikitHuber, dict(epsilon=2.0 if par["solver"] == "huber2" else 1.35, **kw))
    else:
        solver = made(keep, SolverScikitOLS, kw)
    return [dec_params, dd, wd, sd, ed, rd, solver.run(rd)]


def read(td, par, folder, keep=None):
    for chan in td.metadata.chans:
        td.metadata.chans_metadata[chan].scaling = par["scale"]
    if par["kind"] == "npy":
        build.write_npy(folder / "m", td.metadata, td.data)
    else:
        build.write_txt(folder / "m", td.metadata, td.data, delimiter=" ", name="data.txt")
    kw = {} if par["kind"] == "npy" else {"extension": ".txt"}
    reader = made(keep, TimeReaderNumpy if par["kind"] == "npy" else TimeReaderAscii, dict(apply_scalings=par["scalings"], **kw))
    out = [reader.run(folder / "m"), reader.run(folder / "m", metadata_only=True)]
    out.append(reader.run(folder / "m", from_sample=par["from"], to_sample=par["to"]))
    if par["from_time"]:
        out.append(reader.run(folder / "m", from_time=par["from_time"]))
    if par["kind"] == "npy":
        out.append(letsgo.quick_read(folder / "m"))
    return out


def cals(td, par, folder, keep=None):
    meta = td.metadata
    write_cals(folder, par, sensor="S")
    if par["other"]:
        write_cals(folder, {**par, "cal": par["other"]}, sensor="T")
    for chan in meta.chans:
        meta.chans_metadata[chan].chopper = par["chopper"]
    cls = SensorCalibrationJSON if par["kind"] == "json" else SensorCalibrationTXT
    out = []
    for sensor in ("S", "T"):
        for chan in meta.chans:
            meta.chans_metadata[chan].sensor = sensor
            try:
                out.append(made(keep, cls, {"file_str": par["str"]}).run(folder, meta, chan))
            except Exception as exc:
                out.append(type(exc).__name__)
    return out


def times(td, par, folder, keep=None):
    m = td.metadata
    first = m.first_time + to_timedelta(par["extra"] and float(par["extra"]))
    last = sample_to_datetime(m.fs, first, m.n_samples - 1)
    text = datetime_to_string(first)
    lo, hi = samples_to_datetimes(m.fs, first, par["a"], par["b"])
    delta = to_timedelta(float(par["span"]))
    return [str(x) for x in (
        first, last, text, datetime_from_string(text), lo, hi, to_datetime(text), to_datetime(str(to_timestamp(first))),
        to_timestamp(first), delta, to_seconds(last - first), to_n_samples(delta, m.fs), to_n_samples(delta, m.fs, method="floor"),
        datetimes_to_samples(m.fs, first, last, lo, hi), from_time_to_sample(m.fs, first, last, lo + to_timedelta(1e-3)),
        to_time_to_sample(m.fs, first, last, hi + to_timedelta(1e-3)), list(datetime_array(first, m.fs, n_samples=9)),
    )] + [[[float(v) for v in x] for x in apply_lttb(td.data[0], par["pts"])], m]


def store(td, par, folder, keep=None):
    """Writing over what is there and reading it back"""
    if par["kind"] == "npy":
        made(keep, TimeWriterNumpy, dict(overwrite=True)).run(folder / "d", td)
        return made(keep, TimeReaderNumpy, {}).run(folder / "d")
    if par["kind"] == "ascii":
        made(keep, TimeWriterAscii, dict(overwrite=True)).run(folder / "d", td)
        return made(keep, TimeReaderAscii, dict(extension=".ascii")).run(folder / "d")
    dec_params = DecimationSetup(n_levels=2, per_level=2, min_samples=64).run(td.metadata.fs)
    dd = Decimator().run(dec_params, td)
    if par["kind"] == "decimated":
        made(keep, DecimatedDataWriter, dict(overwrite=True)).run(folder / "d", dd)
        return made(keep, DecimatedDataReader, {}).run(folder / "d")
    wd = Windower().run(dd.metadata.first_time, WindowSetup(min_size=32, min_olap=8).run(dd.metadata.n_levels, dd.metadata.fs), dd)
    sd = FourierTransform(workers=1).run(wd)
    made(keep, SpectraDataWriter, dict(overwrite=True)).run(folder / "d", sd)
    return made(keep, SpectraDataReader, {}).run(folder / "d")


def project(td, par, folder, keep=None):
    """A project in one place, whose contents differ from use to use"""
    from resistics.config import Configuration
    from resistics.project import get_meas_time_path
    from resistics.transfunc import ImpedanceTensor

    root = folder / "p"
    letsgo.new(root, {"ref_time": "2021-03-04 05:06:07" if par["ref"] == "r1" else "2021-03-04 05:06:06.98"})
    for k in range(par["sites"]):
        site = par["site"] + "x" * k
        build.write_npy(get_meas_time_path(root, site, par["meas"]), td.metadata, td.data + k)
    write_cals(root / "calibrate", {"cal": td.metadata.n_samples % 3})
    procs = [RemoveMean()] if par["add"] is None else [Add(add=par["add"])]
    tf = TransferFunction(variation="mine", out_chans=td.metadata.chans[:1], in_chans=td.metadata.chans[1:2])
    config = Configuration(
        name=par["config"], time_processors=procs, dec_setup=DecimationSetup(n_levels=2, per_level=2, min_samples=64),
        win_setup=WindowSetup(min_size=32, min_olap=8), tf=tf, fourier=FourierTransform(workers=1),
    )
    resenv = letsgo.load(root, config=config)
    fs = td.metadata.fs
    out = [resenv.proj.metadata, resenv.proj.fs(), sorted(resenv.proj.sites)]
    site = resenv.proj.get_site(par["site"])
    meas = site.get_measurement(par["meas"]) if hasattr(site, "get_measurement") else site[par["meas"]]
    out += [site.fs(), meas.metadata]
    letsgo.process_time_to_evals(resenv, par["site"], par["meas"])
    resenv = letsgo.reload(resenv)
    solution = letsgo.process_evals_to_tf(resenv, fs, par["site"])
    again = letsgo.get_solution(resenv, par["site"], par["config"], fs, tf.name, tf.variation)
    evals = root / "evals"
    files = sorted(str(p.relative_to(root)) for p in root.rglob("*") if p.is_file())
    return out + [solution, again, files, evals.exists()]


def defaults(td, par, folder, keep=None):
    """The default configuration, which belongs to whoever asked for it"""
    from resistics.common import History
    from resistics.config import Configuration, get_default_configuration
    from resistics.transfunc import ImpedanceTensor, Tipper

    if par["where"] == "default":
        config = get_default_configuration()
    else:
        letsgo.new(folder / "d", {"ref_time": "2021-03-04 05:06:07"})
        config = letsgo.load(folder / "d").config
    other, tf, tipper, history = Configuration(name="mine"), ImpedanceTensor(), Tipper(), History()
    out = [config.copy(deep=True), other.copy(deep=True), tf.copy(deep=True), tipper.copy(deep=True), history.copy(deep=True)]
    for c in (config, other):
        if par["change"] == "levels":
            c.dec_setup.n_levels = 3
            c.win_setup.min_size = 17
        elif par["change"] == "name":
            c.name = "changed"
        elif par["change"] == "reader":
            c.time_readers.append(TimeReaderAscii(extension=".x"))
            c.time_processors.append(RemoveMean())
            c.spectra_processors.append(SpectraSmootherUniform())
        elif par["change"] == "window":
            c.fourier.win_fnc = "hann"
            c.solver.fit_intercept = not c.solver.fit_intercept
        elif par["change"] == "channels":
            c.tf.out_chans.append("Hz")
            tf.cross_chans.append("Q")
            tipper.in_chans.append("Q")
            history.add_record(history_record())
    return out


def history_record():
    from resistics.common import get_record

    return get_record({"name": "x"}, ["m"])


FUNCTIONS = {"chain": chain, "read": read, "cals": cals, "times": times, "store": store, "project": project, "defaults": defaults}


def run_use(use, path, keep=None):
    td = recording(use["data"])
    if use["use"] == "process":
        return made(keep, NAMES[use["cls"]], use["par"]).run(td)
    folder = empty(Path(path), use["use"])
    return FUNCTIONS[use["use"]](td, use["par"], folder, keep)
