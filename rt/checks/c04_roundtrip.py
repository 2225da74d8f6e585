"""C04: time data written is time data read back"""
import numpy as np

from resistics.time import (
    Add, Multiply, RemoveMean, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii,
    TimeWriterNumpy,
)
from rt import build
from rt.core import scenario

IGNORED = ("file_info", "history", "chans_metadata")


def _random_td(ctx):
    rng = ctx.rng
    td = build.time_data(rng, ctx.np, dtype=rng.choice([np.float64, np.float32, np.int32]))
    if td.data.dtype.kind == "f" and rng.random() < 0.3:
        td.data[:, rng.randrange(td.data.shape[1])] = np.nan
    meta = td.metadata
    meta.system = rng.choice(["", "spam", "Lemi 423"])
    meta.serial = str(rng.randint(0, 999))
    meta.wgs84_latitude = rng.uniform(-90, 90)
    meta.wgs84_longitude = rng.uniform(-180, 180)
    meta.elevation = rng.uniform(-100, 4000)
    for chan in meta.chans:
        cm = meta.chans_metadata[chan]
        cm.sensor = rng.choice(["", "MFS06", "lemi120"])
        cm.serial = str(rng.randint(0, 999))
        cm.gain1 = rng.choice([1, 2.5])
        cm.scaling = rng.uniform(0.1, 3)
        cm.chopper = rng.random() < 0.5
        cm.dipole_dist = rng.uniform(1, 100)
        cm.sensor_calibration_file = rng.choice(["", "abc.json"])
    return td


def _same_metadata(ctx, new, old, what, files):
    a, b = build.snapshot(new), build.snapshot(old)
    for key in b:
        if key not in IGNORED:
            ctx.check(a[key] == b[key], "metadata-kept", f"{what} {key}: {a[key]} vs {b[key]}")
    for chan, before in b["chans_metadata"].items():
        after = dict(a["chans_metadata"][chan])
        before = dict(before)
        got = after.pop("data_files")
        before.pop("data_files")
        ctx.check(after == before, "chan-metadata-kept", f"{what} {chan}: {after} vs {before}")
        ctx.check(got == files[chan], "data-files", f"{what} {chan}: {got} expected {files[chan]}")
    old_records = b["history"]["records"]
    ctx.check(
        a["history"]["records"][: len(old_records)] == old_records, "history-kept", what
    )


@scenario("C04", "numpy", quick=200)
def numpy_roundtrip(ctx):
    rng = ctx.rng
    td = _random_td(ctx)
    for _ in range(rng.randint(0, 2)):
        td = rng.choice([Add(add=1.5), Multiply(multiplier=2)]).run(td)
    ctx.case(("npy", td.metadata.fs, td.data.shape, td.data.dtype, str(td.metadata.first_time)))
    path = ctx.scratch() / "a" / "b"
    want = np.array(td.data)
    with ctx.no_error("write"):
        TimeWriterNumpy().run(path, td)
    with ctx.no_error("read"):
        back = TimeReaderNumpy().run(path)
    what = f"{td.data.shape} {td.data.dtype}"
    ctx.check(back.data.dtype == want.dtype, "dtype", f"{what} -> {back.data.dtype}")
    ctx.equal(back.data, want, "data", what)
    ctx.equal(td.data, want, "data-in-memory", what)
    _same_metadata(
        ctx, back.metadata, td.metadata, what, {c: ["data.npy"] for c in td.metadata.chans}
    )
    build.check_time_meta(ctx, back, what)
    ctx.observe("roundtrips")


@scenario("C04", "write_back", quick=80)
def write_back(ctx):
    """Read, process and write to the same place, several generations"""
    rng = ctx.rng
    td = build.time_data(rng, ctx.np, n=rng.choice([10, 300, 3000]))
    path = ctx.scratch() / "m"
    TimeWriterNumpy().run(path, td)
    want = np.array(td.data)
    ctx.case(("back", td.data.shape, str(td.metadata.first_time)))
    n_records = None
    held = []
    for gen in range(rng.randint(2, 4)):
        with ctx.no_error("read"):
            cur = TimeReaderNumpy().run(path)
        ctx.equal(cur.data, want, "generation-data", f"generation {gen}")
        held.append((cur, want))
        if n_records is not None:
            ctx.check(
                len(cur.metadata.history.records) > n_records, "generation-history", f"{gen}"
            )
        n_records = len(cur.metadata.history.records)
        chan = rng.choice(cur.metadata.chans)
        if rng.random() < 0.5:
            # data that was read is ordinary data: it can be changed in memory
            with ctx.no_error("set-channel"):
                cur[chan] = (cur[chan] * 2).astype(cur.data.dtype)
            want = np.array(want)
            want[cur.metadata.chans.index(chan)] *= 2
            held[-1] = (cur, want)
            out = cur
        elif rng.random() < 0.5:
            out = Multiply(multiplier={chan: -3.0}).run(cur)
            want = np.array(want)
            want[cur.metadata.chans.index(chan)] *= -3
        else:
            out = cur
        # a file-backed view must not be truncated under its own write: check first
        # whether the data still is a view of the file, to survive to report it
        backed = out.data
        while backed is not None and not isinstance(backed, np.memmap):
            backed = getattr(backed, "base", None)
        ctx.require(
            backed is None, "data-tied-to-file",
            "data which was read still is a memory map of the file it came from; "
            "overwriting the file changes or destroys the data in memory",
        )
        with ctx.no_error("write"):
            TimeWriterNumpy().run(path, out)
        for data, expected in held:
            ctx.equal(data.data, expected, "data-after-overwrite", f"generation {gen}")
    ctx.observe("write_back_chains")


@scenario("C04", "ascii", quick=80)
def ascii_write(ctx):
    """The ASCII writer: a file per channel with every sample, named in the metadata"""
    rng = ctx.rng
    td = build.time_data(rng, ctx.np, n=rng.choice([3, 50, 400]))
    ctx.case(("ascii", td.data.shape, str(td.metadata.first_time)))
    path = ctx.scratch() / "a"
    with ctx.no_error("write"):
        TimeWriterAscii().run(path, td)
    from resistics.time import TimeMetadata

    meta = TimeMetadata.parse_file(path / "metadata.json")
    files = {c: meta.chans_metadata[c].data_files for c in meta.chans}
    ctx.check(
        len({f[0] for f in files.values()}) == len(files), "ascii-files-distinct", f"{files}"
    )
    _same_metadata(ctx, meta, td.metadata, "ascii", files)
    for chan in td.metadata.chans:
        got = np.loadtxt(path / files[chan][0], ndmin=1)
        ctx.close_to(got, td[chan], "ascii-data", chan, rtol=0, atol=1e-6)
    # and the ASCII reader reads them back, all or a range
    reader = TimeReaderAscii(extension=".ascii")
    with ctx.no_error("read"):
        back = reader.run(path)
    want = np.array([np.loadtxt(path / files[c][0], ndmin=1) for c in meta.chans]).astype(np.float32)
    ctx.equal(back.data, want, "ascii-read", "")
    _same_metadata(ctx, back.metadata, meta, "ascii read", files)
    n = td.metadata.n_samples
    a = rng.randrange(n - 1)
    b = rng.randrange(a + 1, n)
    with ctx.no_error("read"):
        part = reader.run(path, from_sample=a, to_sample=b)
    ctx.equal(part.data, want[:, a : b + 1], "ascii-read-range", f"{a} {b}")
    ctx.check(part.metadata.n_samples == b - a + 1, "ascii-read-range", f"{part.metadata.n_samples}")


@scenario("C04", "copies", quick=60)
def copies(ctx):
    """A copy of time data shares nothing with the original"""
    rng = ctx.rng
    td = _random_td(ctx)
    ctx.case(("copy", td.data.shape, str(td.metadata.first_time)))
    before = build.snapshot(td)
    other = td.copy()
    ctx.check(build.snapshot(other) == before, "copy-equal", "copy differs")
    other.data[:] = 7
    other.metadata.n_samples = 5
    other.metadata.chans_metadata[other.metadata.chans[0]].serial = "changed"
    other.metadata.history.add_record(RemoveMean()._get_record("x"))
    ctx.check(build.snapshot(td) == before, "copy-independent", "original changed with its copy")
    chan = rng.choice(td.metadata.chans)
    new = np.arange(td.metadata.n_samples).astype(td.data.dtype)
    td[chan] = new
    ctx.equal(td[chan], new, "set-get", chan)
    ctx.equal(td.data[td.metadata.chans.index(chan)], new, "set-row", chan)
    ctx.raises(lambda: td.__setitem__(chan, new[:-1]), ValueError, "set-size", chan)
    ctx.raises(lambda: td.__setitem__("Zz", new), Exception, "set-unknown", "Zz")
    ctx.raises(lambda: td["Zz"], Exception, "get-unknown", "Zz")
