"""Builders of workloads from the public classes of resistics"""
import json

import numpy as np

from resistics.sampling import to_timedelta
from resistics.time import ChanMetadata, TimeData, TimeMetadata
from rt.util import FS_COMMON, make_time

CHANS = ["Ex", "Ey", "Hx", "Hy", "Hz"]


def time_metadata(fs, n, first, chans, **chan_kw):
    chans_metadata = {
        c: ChanMetadata(name=c, data_files=["data.npy"], **chan_kw) for c in chans
    }
    return TimeMetadata(
        fs=fs,
        chans=list(chans),
        n_samples=n,
        first_time=first,
        last_time=first + to_timedelta(1 / fs) * (n - 1),
        chans_metadata=chans_metadata,
    )


def dressed(rng, meta):
    """The same recording with details about where, by what and how it was recorded"""
    meta.system = rng.choice(["", "spam", "Lemi 423"])
    meta.serial = str(rng.randint(0, 999))
    meta.wgs84_latitude = rng.uniform(-90, 90)
    meta.wgs84_longitude = rng.uniform(-180, 180)
    meta.easting, meta.northing = rng.uniform(0, 1e6), rng.uniform(0, 1e7)
    meta.elevation = rng.uniform(-100, 4000)
    for chan in meta.chans:
        cm = meta.chans_metadata[chan]
        cm.sensor = rng.choice(["", "MFS06", "lemi120"])
        cm.serial = str(rng.randint(0, 999))
        cm.gain1, cm.gain2 = rng.choice([1, 2.5]), rng.choice([1, 0.1])
        cm.scaling = rng.uniform(0.1, 3)
        cm.chopper = rng.random() < 0.5
        cm.dipole_dist = rng.uniform(1, 100)
        cm.sensor_calibration_file = rng.choice(["", "abc.json"])
    return meta


def laid_out(rng, arr, swapped=True):
    """The same values somehow else in memory"""
    kind = rng.random()
    if kind < 0.6:
        return arr
    if kind < 0.72:
        return np.asfortranarray(arr)
    if kind < 0.8:
        big = np.repeat(arr, 2, axis=-1)
        big[..., 1::2] = 77
        return big[..., ::2]
    if kind < 0.86:
        return np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
    if kind < 0.94:
        return np.ascontiguousarray(np.moveaxis(arr, -1, 0)).transpose(*range(1, arr.ndim), 0)
    return arr.astype(arr.dtype.newbyteorder(">")) if swapped else arr


def time_data(rng, nprs, fs=None, n=None, first=None, chans=None, dtype=np.float64, data=None):
    if fs is None:
        fs = float(rng.choice(FS_COMMON))
    if n is None:
        n = rng.choice([3, 10, 64, 257, 1000, 4000])
    if first is None:
        first = make_time(rng)
    if chans is None:
        chans = pick_chans(rng)
    if data is None:
        data = nprs.randn(len(chans), n) * 10 ** rng.uniform(-2, 3)
        if np.dtype(dtype).kind in "iu":
            data = nprs.randint(-1000, 1000, size=(len(chans), n))
        data = laid_out(rng, data.astype(dtype))
    return TimeData(dressed(rng, time_metadata(fs, n, first, chans)), data)


def pick_chans(rng):
    k = rng.choice([1, 2, 3, 4, 5])
    chans = rng.sample(CHANS, k)
    return chans


def snapshot(obj):
    """A deep, comparable picture of an input: arrays by value, models by their JSON

    Volatile wall clock fields are kept: an untouched object keeps them.
    """
    if obj is None or isinstance(obj, (str, int, float, bool)):
        return repr(obj)
    if isinstance(obj, np.ndarray):
        return (str(obj.dtype), obj.shape, obj.tobytes())
    if isinstance(obj, dict):
        return {str(k): snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [snapshot(v) for v in obj]
    if hasattr(obj, "columns") and hasattr(obj, "to_csv"):
        return (list(obj.columns), obj.to_csv())
    if hasattr(obj, "json") and hasattr(obj, "__fields__"):
        try:
            return json.loads(obj.json())
        except Exception:
            return repr(obj)
    if hasattr(obj, "type_to_string"):
        # resistics data: everything it holds
        return {name: snapshot(value) for name, value in vars(obj).items()}
    return repr(obj)


def write_npy(path, metadata, data):
    """A measurement directory as a recording system would provide it"""
    path.mkdir(parents=True, exist_ok=True)
    meta = TimeMetadata(**metadata.dict())
    for chan in meta.chans:
        meta.chans_metadata[chan].data_files = ["data.npy"]
    np.save(path / "data.npy", data)
    (path / "metadata.json").write_text(meta.json())


def write_txt(path, metadata, data, delimiter=None, header=0, name="data.txt", fmt="%.9g"):
    path.mkdir(parents=True, exist_ok=True)
    meta = TimeMetadata(**metadata.dict())
    for chan in meta.chans:
        meta.chans_metadata[chan].data_files = [name]
    with (path / name).open("w") as f:
        for i in range(header):
            f.write(f"header line {i} 1 2 3\n")
        np.savetxt(f, data.T, fmt=fmt, delimiter=delimiter or " ")
    (path / "metadata.json").write_text(meta.json())


def check_time_meta(ctx, td, what):
    """Coherence monitor: the metadata describe the data"""
    from fractions import Fraction

    from rt.util import diff_seconds, time_tolerance

    meta = td.metadata
    n_chans, n = td.data.shape
    ctx.check(meta.n_samples == n, "meta-n-samples", f"{what}: {meta.n_samples} vs data {td.data.shape}")
    ctx.check(
        meta.n_chans == n_chans == len(meta.chans),
        "meta-n-chans", f"{what}: {meta.n_chans} {meta.chans} {td.data.shape}",
    )
    ctx.check(
        set(meta.chans) <= set(meta.chans_metadata), "meta-chans", f"{what}: {meta.chans}"
    )
    exact = Fraction(n - 1) / Fraction(meta.fs)
    err = abs(diff_seconds(meta.last_time, meta.first_time) - exact)
    tol = time_tolerance(n, meta.fs)
    ctx.check(
        err <= tol, "meta-last-time",
        f"{what}: {meta.first_time} + {n} samples at {meta.fs} Hz != {meta.last_time}",
    )
    ctx.observe("metadata_coherence_checks")


def dec_data(rng, nprs, first, levels, chans, dtype=np.float64, ramp=False):
    """Decimated data with given (fs, n_samples) per level

    With ramp, the value of a sample is its index plus a channel and level offset, so that
    every sample is identifiable
    """
    from resistics.decimate import DecimatedData, DecimatedLevelMetadata, DecimatedMetadata

    data = {}
    levels_metadata = []
    for ilevel, (fs, n) in enumerate(levels):
        if ramp:
            rows = [np.arange(n) + 10 ** 5 * (c + 1) + 10 ** 6 * ilevel for c in range(len(chans))]
            data[ilevel] = np.array(rows, dtype=dtype)
        else:
            data[ilevel] = (nprs.randn(len(chans), n) * 100).astype(dtype)
        data[ilevel] = laid_out(rng, data[ilevel])
        levels_metadata.append(
            DecimatedLevelMetadata(
                fs=fs, n_samples=n, first_time=first,
                last_time=first + to_timedelta(1 / fs) * (n - 1),
            )
        )
    meta = time_metadata(levels[0][0], levels[0][1], first, chans).dict()
    meta["fs"] = [fs for fs, _ in levels]
    meta["n_levels"] = len(levels)
    meta["levels_metadata"] = levels_metadata
    meta.pop("file_info")
    return DecimatedData(DecimatedMetadata(**meta), data)


def to_atto(stamp):
    """pandas timestamp to attodatetime"""
    from attotime import attodatetime

    return attodatetime(
        stamp.year, stamp.month, stamp.day, stamp.hour, stamp.minute, stamp.second,
        stamp.microsecond, stamp.nanosecond,
    )
