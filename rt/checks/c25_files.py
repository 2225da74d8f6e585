"""C25: decimated, windowed, spectra and solution files read back as they were written"""
import gc
import json

import numpy as np
import pandas as pd

from resistics.common import get_record
from resistics.decimate import DecimatedDataReader, DecimatedDataWriter
from resistics.errors import ReadError
from resistics.regression import Solution
from resistics.spectra import SpectraDataReader, SpectraDataWriter
from resistics.window import WindowedDataReader, WindowedDataWriter
from rt import build
from rt.checks.c15_fourier import win_data
from rt.checks.c16_evals import spec_data
from rt.core import scenario
from rt.pipeline import Chain
from rt.util import make_time

KINDS = ["dec", "win", "spec"]
IO = {
    "dec": (DecimatedDataWriter, DecimatedDataReader), "win": (WindowedDataWriter, WindowedDataReader),
    "spec": (SpectraDataWriter, SpectraDataReader),
}


def any_data(ctx, kind, n_levels=None):
    """Data of a kind with every metadata field set and values of any kind"""
    rng, nprs = ctx.rng, ctx.np
    n_levels = n_levels or rng.choice([1, 2, 3, 9, 10, 11, 12, 25])
    chans = build.pick_chans(rng)
    if kind == "dec":
        levels = [(1000.0 / 1.7 ** i, rng.choice([1, 2, 50, 333])) for i in range(n_levels)]
        dtype = rng.choice([np.float64, np.float32, np.int32, np.int64])
        data = build.dec_data(rng, nprs, make_time(rng), levels, chans, dtype=dtype)
    elif kind == "win":
        dtype = rng.choice([np.float64, np.float32, np.int32])
        data = win_data(rng, nprs, n_levels=n_levels, chans=chans, dtype=dtype, max_wins=4, sizes=[16, 20, 64])
    else:
        dtype = rng.choice([np.complex128, np.complex64])
        data = spec_data(ctx, n_levels=n_levels, chans=chans, dtype=dtype, max_wins=4, sizes=[16, 20, 64])
    first = data.data[0]
    if first.dtype.kind in "fc" and first.size > 2:
        flat = first.reshape(-1)
        flat[0], flat[1] = rng.choice([np.nan, np.inf, -0.0]), rng.choice([1e-300, 1e300, -np.inf, 0])
    if rng.random() < 0.3:
        # arrays as views, in any memory order
        level = rng.randrange(n_levels)
        data.data[level] = np.asfortranarray(data.data[level])
    meta = data.metadata
    meta.system, meta.serial = rng.choice(["", "spam", "ümlaut \"quoted\""]), str(rng.randint(0, 999))
    meta.wgs84_latitude, meta.wgs84_longitude = rng.uniform(-90, 90), rng.uniform(-180, 180)
    meta.easting, meta.northing, meta.elevation = (rng.uniform(-1e6, 1e6) for _ in range(3))
    for chan in chans:
        cm = meta.chans_metadata[chan]
        cm.sensor, cm.serial = rng.choice(["", "MFS06"]), str(rng.randint(0, 99))
        cm.gain1, cm.gain2, cm.scaling = rng.uniform(0, 3), rng.uniform(0, 3), rng.uniform(-3, 3)
        cm.chopper, cm.dipole_dist = rng.random() < 0.5, rng.uniform(1, 100)
        cm.sensor_calibration_file = rng.choice(["", "abc.json"])
    for k in range(rng.randint(0, 3)):
        creator = {"name": "Made", "value": rng.choice([1, 2.5, "x", None, [1, 2], {"a": 1.5}]), "k": k}
        meta.history.add_record(get_record(creator, [f"step {k}", "é"]))
    return data


def equal_bits(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def same_meta(ctx, got, want, what, n_extra):
    """All fields identical, then exactly the expected number of records more"""
    a, b = got.dict(), want.dict()
    a.pop("file_info"), b.pop("file_info")
    new, old = a.pop("history")["records"], b.pop("history")["records"]
    ctx.check(set(a) == set(b), "fields", f"{what}: {set(a) ^ set(b)}")
    for key in b:
        ctx.check(a[key] == b[key], "metadata", lambda: f"{what} {key}: {str(a[key])[:300]} expected {str(b[key])[:300]}")
        ctx.check(type(getattr(got, key)) is type(getattr(want, key)), "metadata-type", f"{what} {key}: {type(getattr(got, key))}")
    ctx.check(new[: len(old)] == old, "history", lambda: f"{what}: {new} expected {old}")
    ctx.check(len(new) == len(old) + n_extra, "history-records", f"{what}: {len(new)} after {len(old)}")
    return new[len(old):]


@scenario("C25", "roundtrip", quick=200)
def roundtrip(ctx):
    rng = ctx.rng
    kind = rng.choice(KINDS)
    data = any_data(ctx, kind)
    writer, reader = IO[kind]
    n_levels = len(data.data)
    what = f"{kind} {n_levels} levels {data.metadata.chans} {data.data[0].dtype}"
    ctx.case((what, data.data[0].tobytes()))
    want = {level: arr.copy() for level, arr in data.data.items()}
    path = ctx.scratch() / rng.choice(["a", "a/b c", "x.y/z"])
    generations = rng.randint(1, 3)
    meta = data.metadata.copy(deep=True)
    for gen in range(generations):
        w = f"{what} generation {gen}"
        before = pd.Timestamp.utcnow()
        with ctx.no_error("write", w):
            writer().run(path, data)
        after = pd.Timestamp.utcnow()
        with ctx.no_error("read", w):
            meta_only = reader().run(path, metadata_only=True)
            back = reader().run(path)
        ctx.check(type(back) is type(data), "type", f"{w}: {type(back)}")
        info = back.metadata.file_info
        ctx.require(info is not None, "file-info", w)
        made = pd.Timestamp(info.created_on_utc).tz_localize("UTC")
        slack = pd.Timedelta("1ms")
        ctx.check(before - slack <= made <= after + slack, "file-written-on", f"{w}: {made} written between {before} and {after}")
        ctx.require(sorted(back.data) == sorted(want), "levels", f"{w}: {sorted(back.data)}")
        ctx.check(all(type(k) is int for k in back.data), "level-keys", w)
        for level, arr in want.items():
            ctx.check(equal_bits(back.data[level], arr), "arrays", lambda: f"{w} level {level}: {back.data[level]} expected {arr}")
            ctx.observe("arrays_compared")
        records = same_meta(ctx, back.metadata, meta, w, 2)
        ctx.check([r["creator"].get("name") for r in records] == [writer.__name__, reader.__name__], "io-records", f"{w}: {records}")
        same_meta(ctx, meta_only, meta, w + " metadata only", 1)
        # access by channel and level of what was read
        level = rng.randrange(n_levels)
        chan = rng.choice(data.metadata.chans)
        c = data.metadata.chans.index(chan)
        axis = 0 if kind == "dec" else 1
        if kind != "dec":
            got = back.get_chan(level, chan)
            ctx.check(equal_bits(np.ascontiguousarray(got), np.ascontiguousarray(np.take(want[level], c, axis=axis))), "channel", f"{w} {level} {chan}")
        if rng.random() < 0.5:
            # the files are not needed any more
            gc.collect()
            for name in list(path.iterdir()):
                name.unlink()
            for level, arr in want.items():
                ctx.check(equal_bits(back.data[level], arr), "detached", f"{w} level {level}")
        data, meta = back, back.metadata.copy(deep=True)
    ctx.observe("roundtrips_" + kind, generations)


@scenario("C25", "unreadable", quick=40)
def unreadable(ctx):
    """Missing or damaged files raise, they do not return other data"""
    rng = ctx.rng
    kind = rng.choice(KINDS)
    data = any_data(ctx, kind, n_levels=2)
    writer, reader = IO[kind]
    path = ctx.scratch() / "d"
    ctx.case((kind, data.data[0].tobytes()))
    ctx.raises(lambda: reader().run(path), ReadError, "missing-directory", kind)
    writer().run(path, data)
    damage = rng.choice(["no-metadata", "no-data", "cut-metadata", "cut-data", "field", "empty"])
    meta_path = path / "metadata.json"
    data_path = [p for p in path.iterdir() if p != meta_path][0]
    if damage == "no-metadata":
        meta_path.unlink()
    elif damage == "no-data":
        data_path.unlink()
    elif damage == "cut-metadata":
        text = meta_path.read_text()
        meta_path.write_text(text[: rng.randrange(1, len(text) - 1)])
    elif damage == "cut-data":
        raw = data_path.read_bytes()
        data_path.write_bytes(raw[: rng.randrange(1, len(raw) - 30)])
    elif damage == "field":
        info = json.loads(meta_path.read_text())
        info.pop(rng.choice(["fs", "chans", "n_levels", "first_time", "levels_metadata"]))
        meta_path.write_text(json.dumps(info))
    else:
        meta_path.unlink()
        data_path.unlink()
    ctx.raises(lambda: reader().run(path), Exception, "damaged", f"{kind} {damage}")


@scenario("C25", "pipeline", quick=40, timeout=240)
def pipeline(ctx):
    """Real pipeline data and their solution through files, at every stage"""
    rng = ctx.rng
    chain = Chain(ctx)
    try:
        sol = chain.to_solution(functions=False)
    except Exception:
        # too few windows for this random combination
        ctx.observe("chains_without_solution")
        sol = None
    n = 0
    path = ctx.scratch()
    for name, _, _, out in chain.steps:
        kind = {"DecimatedData": "dec", "WindowedData": "win", "SpectraData": "spec"}.get(type(out).__name__)
        if kind is None:
            continue
        writer, reader = IO[kind]
        n += 1
        meta = out.metadata.copy(deep=True)
        with ctx.no_error("pipeline-io", name):
            writer().run(path / str(n), out)
            back = reader().run(path / str(n))
        ctx.require(sorted(back.data) == sorted(out.data), "levels", name)
        for level in out.data:
            ctx.check(equal_bits(back.data[level], np.asarray(out.data[level])), "arrays", f"{name} level {level}")
        same_meta(ctx, back.metadata, meta, name, 2)
        ctx.observe("stages_compared")
    if sol is not None:
        ctx.case((repr(sol.tf), sol.freqs, sol.components[list(sol.components)[0]].real), f"{len(chain.steps)} steps {sol.tf.name}")
        file = path / "sol.json"
        with ctx.no_error("solution-io", sol.tf.name):
            sol.write(file)
            back = Solution.parse_file(file)
        same_solution(ctx, back, sol, sol.tf.name)
    elif n:
        ctx.case((n, chain.td.data.tobytes()), f"{n} stages")


def same_solution(ctx, back, sol, what):
    ctx.equal(back.freqs, sol.freqs, "solution-freqs", what)
    ctx.check(type(back.tf) is type(sol.tf) and back.tf == sol.tf, "solution-tf", f"{what}: {back.tf!r}")
    ctx.require(list(back.components) == list(sol.components), "solution-components", what)
    for key, comp in sol.components.items():
        ctx.equal(back.components[key].real, comp.real, "solution-values", f"{what} {key}")
        ctx.equal(back.components[key].imag, comp.imag, "solution-values", f"{what} {key}")
    ctx.check(back.history == sol.history, "solution-history", what)
    ctx.require(set(back.contributors) == set(sol.contributors), "solution-contributors", what)
    for key, value in sol.contributors.items():
        got = back.contributors[key]
        ctx.check(type(got) is type(value), "contributor-type", f"{what} {key}: {type(got)}")
        a, b = got.dict(), value.dict()
        a.pop("file_info", None), b.pop("file_info", None)
        ctx.check(a == b, "contributor", f"{what} {key}: { {k: (a.get(k), b[k]) for k in b if a.get(k) != b[k]} }")
    ctx.observe("solutions_compared")
