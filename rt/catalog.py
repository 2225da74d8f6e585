"""Random valid processes for the data at hand, and whole pipelines of them"""
import functools

import numpy as np

from resistics.calibrate import SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator
from resistics.decimate import DecimationSetup, Decimator
from resistics.sampling import datetime_to_string, sample_to_datetime
from resistics.spectra import (
    EvaluationFreqs, FourierTransform, SpectraSmootherGaussian, SpectraSmootherUniform,
)
from resistics.time import (
    Add, ApplyFunction, BandPass, Decimate, HighPass, InterpolateNans, LowPass, Multiply,
    Notch, RemoveMean, Resample, ShiftTimestamps, Subsection,
)
from resistics.window import Windower, WindowerTarget, WindowSetup
from rt import build


def _square(x):
    return x * x


class _Scale:
    def __init__(self, k):
        self.k = k

    def apply(self, x):
        return self.k * x


def time_process(rng, td, functions=True):
    """A process that can run on the time data"""
    meta = td.metadata
    fs, n, nyq = meta.fs, meta.n_samples, meta.fs / 2
    kinds = ["mean", "add", "addd", "mul", "muld", "shift", "sub"]
    if not np.isnan(td.data).all(axis=1).any():
        kinds.append("nans")
    if functions:
        kinds.append("fnc")
    nans = np.isnan(td.data).any()
    if n > 200 and not nans:
        kinds += ["low", "high", "band", "notch", "resample", "decimate"]
    kind = rng.choice(kinds)
    if kind == "nans":
        return InterpolateNans()
    if kind == "mean":
        return RemoveMean()
    if kind in ("add", "mul"):
        v = rng.choice([5, -0.25, 1e3, 2, 1 / 3])
        return Add(add=v) if kind == "add" else Multiply(multiplier=v)
    if kind in ("addd", "muld"):
        sel = rng.sample(build.CHANS, rng.randint(1, 5))
        vals = {c: rng.choice([3, -7, 0.5, 1e-2]) for c in sel}
        return Add(add=vals) if kind == "addd" else Multiply(multiplier=vals)
    if kind == "shift":
        return ShiftTimestamps(shift=rng.uniform(0.01, 0.99) / fs)
    if kind == "sub":
        a = rng.randrange(n - 1)
        b = rng.randrange(a + 1, n)
        times = [sample_to_datetime(fs, meta.first_time, s) for s in (a, b)]
        return Subsection(from_time=datetime_to_string(times[0]), to_time=datetime_to_string(times[1]))
    if kind == "fnc":
        fncs = [_square, np.abs, functools.partial(np.multiply, 3), _Scale(2.5).apply, abs, lambda x: x - 1]
        sel = rng.sample(build.CHANS, rng.randint(1, 5))
        return ApplyFunction(fncs={c: rng.choice(fncs) for c in sel})
    order = rng.choice([2, 4, 6, 10])
    if kind == "low":
        return LowPass(cutoff=rng.uniform(0.1, 0.9) * nyq, order=order)
    if kind == "high":
        return HighPass(cutoff=rng.uniform(0.1, 0.9) * nyq, order=order)
    if kind == "band":
        low = rng.uniform(0.1, 0.5) * nyq
        return BandPass(cutoff_low=low, cutoff_high=low + rng.uniform(0.1, 0.4) * nyq, order=order)
    if kind == "notch":
        band = rng.choice([None, 0.1 * nyq])
        return Notch(notch=rng.uniform(0.3, 0.7) * nyq, band=band, order=order)
    if kind == "resample":
        return Resample(new_fs=fs * rng.choice([0.5, 0.25, 0.75, 2.0, 1 / 3]))
    return Decimate(factor=rng.choice([1, 2, 3, 4, 6]), max_single_factor=rng.choice([2, 3, 4]))


def taper(rng):
    return rng.choice([("kaiser", 14), ("tukey", 0.3), "hann", "hamming", ("kaiser", 8.6), "boxcar"])


def fourier(rng):
    return FourierTransform(win_fnc=taper(rng), detrend=rng.choice(["linear", "constant", None]), workers=1)


def smoother(rng):
    if rng.random() < 0.5:
        return SpectraSmootherUniform(length_proportion=rng.choice([0.02, 0.1, 0.2]))
    return SpectraSmootherGaussian(sigma=rng.choice([0.5, 1, 3]))


def dec_setup(rng, fs=None):
    n, per = rng.randint(1, 4), rng.randint(1, 4)
    if rng.random() < 0.3 and fs:
        freqs = [fs / 5 / 2.1 ** (k / per) for k in range(n * per)]
        return DecimationSetup(n_levels=n, per_level=per, eval_freqs=freqs, min_samples=rng.choice([20, 64]))
    return DecimationSetup(
        n_levels=n, per_level=per, min_samples=rng.choice([20, 64, 256]), div_factor=rng.choice([2, 2, 3]),
    )


def decimator(rng):
    return Decimator(resample=rng.random() < 0.6, max_single_factor=rng.choice([3, 4, 6]))


def win_setup(rng, n_levels=None):
    if rng.random() < 0.3 and n_levels:
        sizes = [rng.choice([16, 20, 32, 64]) for _ in range(n_levels)]
        return WindowSetup(win_sizes=sizes, olap_sizes=[rng.randint(1, s - 1) for s in sizes])
    return WindowSetup(
        min_size=rng.choice([16, 32, 64]), min_olap=rng.choice([1, 4, 8]), win_factor=rng.choice([4, 8]),
        olap_proportion=rng.choice([0.1, 0.25, 0.5]), min_n_wins=rng.choice([1, 5]),
    )


def windower(rng):
    if rng.random() < 0.3:
        return WindowerTarget(target=rng.choice([20, 40, 1000]), min_size=rng.choice([16, 32]), olap_proportion=rng.choice([0.1, 0.25]))
    return Windower()


def calibrator(rng):
    readers = rng.sample([SensorCalibrationJSON(), SensorCalibrationTXT(), SensorCalibrationJSON(file_str="x_$serial$extension")], rng.randint(1, 3))
    chans = rng.choice([None, None, ["Hx", "Hy"], ["Hy", "Ex"]])
    return SensorCalibrator(chans=chans, readers=readers)


def same_arrays(a, b):
    """Whether two results hold identical data (resistics data or models)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_arrays(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_arrays(x, y) for x, y in zip(a, b))
    return a == b
