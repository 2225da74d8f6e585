"""C03: reading any time or sample range returns exactly those stored samples"""
from fractions import Fraction

import numpy as np
import pandas as pd

from resistics.sampling import datetime_to_string, sample_to_datetime
from resistics.time import TimeMetadata, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii
from rt import build
from rt.core import scenario
from rt.util import FS_COMMON, diff_seconds, fraction_delta, make_time


def _recording(ctx, kind):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    n = rng.choice([2, 3, 10, 100, 500, 2000] if kind == "npy" else [2, 3, 10, 100, 400])
    first = make_time(rng)
    chans = build.pick_chans(rng)
    # every stored value is unique: a sample read tells where it was stored
    base = np.arange(n) + n * np.arange(len(chans))[:, None]
    if kind == "npy":
        dtype = rng.choice([np.float64, np.float32, np.int32, np.int16])
        if np.dtype(dtype) == np.int16 and base.max() > 30000:
            dtype = np.int32
        data = base.astype(dtype)
        if np.dtype(dtype).kind == "f":
            data = data + dtype(0.25)
        reader = TimeReaderNumpy()
    else:
        data = base.astype(np.float32) + np.float32(0.25)
        reader = None
    meta = build.time_metadata(fs, n, first, chans)
    path = ctx.scratch() / "meas"
    if kind == "npy":
        data = build.laid_out(rng, data)
        build.write_npy(path, meta, data)
    else:
        delimiter = rng.choice([None, ",", ";", "\t"])
        header = rng.choice([0, 0, 1, 5])
        ext = rng.choice([".txt", ".dat", ".asc"])
        build.write_txt(path, meta, data, delimiter, header, "data" + ext)
        reader = TimeReaderAscii(extension=ext, delimiter=delimiter, n_header=header)
    return path, meta, data, reader


def _compare(ctx, td, data, a, b, meta, what):
    ctx.equal(td.data, data[:, a : b + 1], "range-data", what)
    ctx.check(td.metadata.chans == meta.chans, "range-chans", what)
    ctx.check(td.metadata.fs == meta.fs, "range-fs", what)
    ctx.check(td.metadata.n_samples == b - a + 1, "range-n", f"{what}: {td.metadata.n_samples}")
    for t, k, kind in (
        (td.metadata.first_time, a, "range-first-time"),
        (td.metadata.last_time, b, "range-last-time"),
    ):
        err = abs(diff_seconds(t, meta.first_time) - Fraction(k) / Fraction(meta.fs))
        ctx.check(err <= k * Fraction(12, 10 ** 14) + Fraction(1, 10 ** 12), kind, f"{what}: {t}")
    build.check_time_meta(ctx, td, what)
    for chan in meta.chans:
        ctx.equal(td[chan], data[meta.chans.index(chan), a : b + 1], "range-chan", what)
    ctx.observe("samples_compared", td.data.size)


def _as_like(rng, time):
    """The same time in any of the accepted types, when exactly representable"""
    text = datetime_to_string(time)
    options = [text]
    stamp = pd.Timestamp(time.isoformat()[:29])
    from resistics.sampling import to_datetime

    if to_datetime(stamp) == time:
        options += [stamp, str(stamp)]
        if stamp.nanosecond == 0:
            options.append(stamp.to_pydatetime())
    return rng.choice(options)


def _ranges(ctx, kind):
    rng = ctx.rng
    path, meta, data, reader = _recording(ctx, kind)
    n = meta.n_samples
    fs = Fraction(meta.fs)
    ctx.case((kind, meta.fs, n, str(meta.first_time), tuple(meta.chans)))
    with ctx.no_error("read", f"{kind} fs={meta.fs} n={n}"):
        head = reader.run(path, metadata_only=True)
        full = reader.run(path)
    ctx.check(isinstance(head, TimeMetadata), "metadata-only", str(type(head)))
    ctx.check(
        (head.fs, head.n_samples, head.first_time, head.last_time, head.chans)
        == (meta.fs, n, meta.first_time, meta.last_time, meta.chans),
        "metadata-only", "differs",
    )
    _compare(ctx, full, data, 0, n - 1, meta, f"{kind} full read")
    for _ in range(8):
        a = rng.randrange(n - 1)
        b = rng.randrange(a + 1, n)
        mode = rng.choice(["samples", "times", "between", "mixed", "open", "beyond"])
        kw = {}
        if mode == "samples":
            kw = dict(from_sample=a, to_sample=b)
        elif mode == "times":
            kw = dict(
                from_time=_as_like(rng, sample_to_datetime(meta.fs, meta.first_time, a)),
                to_time=_as_like(rng, sample_to_datetime(meta.fs, meta.first_time, b)),
            )
        elif mode == "between":
            # anything in (a-1, a] reads from a, anything in [b, b+1) reads to b
            ea = a - Fraction(rng.choice([0.01, 0.5, 0.97]))
            eb = b + Fraction(rng.choice([0.01, 0.5, 0.97]))
            kw = dict(
                from_time=datetime_to_string(meta.first_time + fraction_delta(ea / fs)),
                to_time=datetime_to_string(meta.first_time + fraction_delta(eb / fs)),
            )
        elif mode == "mixed":
            # a time takes precedence over a sample given for the same end
            kw = dict(
                from_time=_as_like(rng, sample_to_datetime(meta.fs, meta.first_time, a)),
                to_sample=b,
            )
        elif mode == "open":
            if rng.random() < 0.5:
                b = n - 1
                kw = dict(from_sample=a)
            else:
                a = 0
                kw = dict(to_time=_as_like(rng, sample_to_datetime(meta.fs, meta.first_time, b)))
        else:
            a, b = 0, n - 1
            far = fraction_delta(Fraction(rng.choice([1, 1000, 10 ** 6])) / fs)
            kw = dict(
                from_time=datetime_to_string(meta.first_time - far),
                to_time=datetime_to_string(meta.last_time + far),
            )
        if rng.random() < 0.4:
            kw["metadata"] = head
        before = build.snapshot(head)
        what = f"{kind} fs={meta.fs} n={n} {mode} {a}..{b}"
        with ctx.no_error("read", what):
            td = reader.run(path, **kw)
        _compare(ctx, td, data, a, b, meta, what)
        ctx.check(build.snapshot(head) == before, "passed-metadata-kept", what)
        ctx.observe("reads:" + mode)
    # ranges which cannot be read are errors, never shorter or shifted data
    late = meta.last_time + fraction_delta(1 / fs)
    early = meta.first_time - fraction_delta(1 / fs)
    bad = [
        dict(from_sample=-1), dict(from_sample=n), dict(to_sample=n), dict(to_sample=-1),
        dict(from_time=datetime_to_string(late)), dict(to_time=datetime_to_string(early)),
        dict(from_sample=n - 1, to_sample=0),
    ]
    for kw in bad:
        ctx.raises(lambda: reader.run(path, **kw), ValueError, "bad-range", f"n={n} {kw}")


@scenario("C03", "numpy_ranges", quick=160)
def numpy_ranges(ctx):
    _ranges(ctx, "npy")


@scenario("C03", "ascii_ranges", quick=110)
def ascii_ranges(ctx):
    _ranges(ctx, "txt")


@scenario("C03", "broken_sources", quick=60)
def broken_sources(ctx):
    """Missing or mismatching files raise, and scalings run only when asked for"""
    rng = ctx.rng
    td = build.time_data(rng, ctx.np)
    meta = td.metadata
    path = ctx.scratch() / "meas"
    build.write_npy(path, meta, td.data)
    ctx.case(("broken", meta.fs, meta.n_samples, tuple(meta.chans)))
    reader = TimeReaderNumpy()
    ctx.raises(
        lambda: TimeReaderAscii().run(path), Exception, "wrong-extension", "ascii reader on npy"
    )
    ctx.raises(
        lambda: reader.run(path / "absent"), Exception, "no-directory", "absent directory"
    )
    with ctx.no_error("read"):
        reader.run(path)

    class Scaled(TimeReaderNumpy):
        def scale_data(self, time_data):
            time_data.data = np.asarray(time_data.data, dtype=float) * 3 + 1
            return time_data

    with ctx.no_error("read"):
        scaled = Scaled().run(path)
        raw = Scaled(apply_scalings=False).run(path)
    ctx.close_to(scaled.data, td.data * 3 + 1, "scaled", "apply_scalings")
    ctx.equal(raw.data, td.data, "unscaled", "apply_scalings=False")
    a = rng.randrange(meta.n_samples - 1)
    b = rng.randrange(a + 1, meta.n_samples)
    for kw in ({"from_sample": a}, {"to_sample": b}, {"from_sample": a, "to_sample": b}, {"metadata": meta}):
        with ctx.no_error("read"):
            scaled = Scaled().run(path, **kw)
            raw = Scaled(apply_scalings=False).run(path, **kw)
        want = td.data[:, kw.get("from_sample", 0) : kw.get("to_sample", meta.n_samples - 1) + 1]
        ctx.close_to(scaled.data, want * 3.0 + 1, "scaled", f"{list(kw)}")
        ctx.equal(raw.data, want, "unscaled", f"{list(kw)}")
    which = rng.choice(["data", "metadata"])
    if which == "data":
        (path / "data.npy").rename(path / "gone.npy")
    else:
        (path / "metadata.json").unlink()
    for only in (True, False):
        ctx.raises(
            lambda: reader.run(path, metadata_only=only), Exception, "missing-file", which
        )


@scenario("C03", "mismatched_sources", quick=60)
def mismatched_sources(ctx):
    """Files which do not hold what the metadata says are errors, however they are read"""
    rng = ctx.rng
    path, meta, data, reader = _recording(ctx, rng.choice(["npy", "txt"]))
    n, n_chans = meta.n_samples, len(meta.chans)
    what = rng.choice(["short", "row", "long", "extra"])
    ctx.case((what, type(reader).__name__, meta.fs, n, n_chans, reader.extension))
    if what == "short":
        bad = data[:, : n - rng.randint(1, min(n - 1, 50))]
    elif what == "long":
        bad = np.hstack([data, data[:, :3]])
    elif what == "extra":
        bad = np.vstack([data, data[:1]])
    else:
        bad = data[:-1]
    with ctx.no_error("read"):
        good = reader.run(path)
    ctx.equal(good.data, data, "matching-source", "before")
    if bad.shape[0] == 0:
        bad = np.zeros((2, n), dtype=data.dtype)
    if type(reader).__name__ == "TimeReaderNumpy":
        np.save(path / "data.npy", bad)
    else:
        build.write_txt(path, meta, bad, reader.delimiter, reader.n_header, "data" + reader.extension)
    if what == "long":
        # a recording that went on: the described samples are all there
        with ctx.no_error("read"):
            got = reader.run(path)
        ctx.equal(got.data, data, "longer-source", "")
        return
    ctx.raises(lambda: reader.run(path), Exception, "mismatched-source", what)
    if what == "short":
        have = bad.shape[1]
        if have >= 2:
            with ctx.no_error("read"):
                got = reader.run(path, to_sample=have - 1)
            ctx.equal(got.data, bad, "partial-source", "")
        ctx.raises(
            lambda: reader.run(path, to_sample=have), Exception, "mismatched-source", f"to {have} of {have}"
        )


@scenario("C03", "file_per_channel", quick=40)
def file_per_channel(ctx):
    """One of several files missing, or of another kind, is an error for every read"""
    rng = ctx.rng
    td = build.time_data(rng, ctx.np, n=rng.choice([10, 64, 257]), chans=rng.sample(build.CHANS, rng.randint(2, 5)))
    td.data = np.round(td.data, 3)
    path = ctx.scratch() / "meas"
    TimeWriterAscii().run(path, td)
    reader = TimeReaderAscii(extension=".ascii")
    with ctx.no_error("read"):
        full = reader.run(path)
        head = reader.run(path, metadata_only=True)
    ctx.close_to(full.data, td.data, "range-data", "file per channel", rtol=1e-4, atol=1e-3)
    victim = rng.choice(td.metadata.chans)
    name = head.chans_metadata[victim].data_files[0]
    how = rng.choice(["missing", "missing", "suffix", "directory"])
    ctx.case(("per-channel", tuple(td.metadata.chans), victim, how))
    if how == "suffix":
        text = (path / "metadata.json").read_text()
        (path / name).rename(path / (name + ".bak"))
        (path / "metadata.json").write_text(text.replace(f'"{name}"', f'"{name}.bak"'))
    else:
        (path / name).unlink()
        if how == "directory":
            (path / name).mkdir()
    for only in (True, False):
        ctx.raises(
            lambda: reader.run(path, metadata_only=only), Exception, "missing-file",
            f"{how} {victim} of {td.metadata.chans}",
        )
