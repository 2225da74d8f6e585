"""C08: no operation modifies what it was given"""
import numpy as np

from resistics.common import History, ResisticsProcess, array_to_string, get_history, get_record
from resistics.decimate import DecimatedDataWriter
from resistics.spectra import SpectraDataWriter
from resistics.time import (
    TimeMetadata, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii, TimeWriterNumpy, get_time_metadata, new_time_data,
)
from resistics.window import WindowedDataWriter
from rt import build, catalog
from rt.build import snapshot
from rt.compare import run_differs
from rt.core import Broken, scenario
from rt.pipeline import Chain


def diff(a, b, path=""):
    """Where two snapshots differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}/{k}"
            out = diff(a[k], b[k], f"{path}/{k}")
            if out:
                return out
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path} length {len(a)} -> {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            out = diff(x, y, f"{path}[{i}]")
            if out:
                return out
        return None
    return None if a == b else f"{path}: {str(a)[:80]} -> {str(b)[:80]}"


def unchanged(ctx, before, after, kind, what):
    where = diff(before, after)
    ctx.check(where is None, kind, f"{what}: {where}")
    ctx.observe("inputs_compared")


def rerun(ctx, first, second, what):
    """Equal input gives an equal result"""
    where = run_differs(first, second, 1e-6 if "Solver" in what or "Regression" in what else 1e-10)
    ctx.check(where is None, "rerun-differs", f"{what}: {where}")
    ctx.observe("reruns_compared")


def strip(snap):
    """The results without the wall clock of their newest record"""
    if isinstance(snap, dict):
        return {k: strip(v) for k, v in snap.items() if k not in ("time_local", "time_utc", "created_on_local", "created_on_utc")}
    if isinstance(snap, list):
        return [strip(v) for v in snap]
    return snap


def random_td(ctx):
    rng = ctx.rng
    dtype = rng.choice([np.float64, np.float32, np.int32, np.int64])
    td = build.time_data(rng, ctx.np, n=rng.choice([50, 300, 700]), dtype=dtype)
    if dtype in (np.float64, np.float32) and rng.random() < 0.4:
        td.data[rng.randrange(td.data.shape[0]), rng.sample(range(1, td.data.shape[1]), 9)] = np.nan
    return td


@scenario("C08", "time_processes", quick=250)
def time_processes(ctx):
    rng = ctx.rng
    td = random_td(ctx)
    ctx.case((td.data.tobytes(), td.metadata.chans))
    held = [(td, snapshot(td), "input")]
    for _ in range(rng.randint(2, 6)):
        src, before, _name = rng.choice(held)
        if src.metadata.n_samples < 10:
            continue
        proc = catalog.time_process(rng, src)
        what = f"{proc!r} on {src.data.shape} {src.data.dtype}"
        params = snapshot(proc)
        with ctx.no_error("runs", what):
            out = proc.run(src)
        unchanged(ctx, before, snapshot(src), "input-changed", what)
        unchanged(ctx, params, snapshot(proc), "process-changed", what)
        picture = snapshot(out)
        with ctx.no_error("runs", what):
            again = proc.run(src)
        rerun(ctx, strip(picture), strip(snapshot(again)), what)
        held.append((out, picture, what))
        ctx.observe("process_runs", 2)
    for obj, before, name in held:
        unchanged(ctx, before, snapshot(obj), "changed-later", name)


@scenario("C08", "time_access", quick=120)
def time_access(ctx):
    """Accessors, plots, copies, readers and writers"""
    rng = ctx.rng
    td = random_td(ctx)
    before = snapshot(td)
    ctx.case(td.data.tobytes())
    path = ctx.scratch()
    chan = rng.choice(td.metadata.chans)
    ops = {
        "get_chan": lambda: td.get_chan(chan), "getitem": lambda: td[chan],
        "chan_index": lambda: td.get_chan_index(chan), "timestamps": lambda: td.get_timestamps(estimate=rng.random() < 0.5),
        "plot": lambda: td.plot(max_pts=rng.choice([None, 20, 10000])), "string": lambda: (str(td), td.to_string()),
        "copy": lambda: td.copy(), "numpy": lambda: TimeWriterNumpy().run(path / "n", td),
        "ascii": lambda: TimeWriterAscii().run(path / "a", td),
        "meta": lambda: (td.metadata.json(), td.metadata.nyquist, td.metadata.dt, td.metadata.duration),
    }
    names = [rng.choice(sorted(ops)) for _ in range(6)]
    for name in names:
        with ctx.no_error("access", name):
            ops[name]()
        unchanged(ctx, before, snapshot(td), "access-changes-data", name)
    copy = td.copy()
    copy.data[...] = 7
    copy.metadata.chans_metadata[chan].scaling = 5e5
    copy.metadata.history.records.clear()
    copy.metadata.chans_metadata[chan].data_files.append("zzz")
    unchanged(ctx, before, snapshot(td), "copy-aliases", "copy")
    # new time data based on others take what they are given, and the rest from copies
    n_records = len(td.metadata.history.records)
    mine = ctx.np.randn(*td.data.shape) if rng.random() < 0.5 else None
    record = get_record({"name": "test", "k": rng.random()}, "message") if rng.random() < 0.5 else None
    other = TimeMetadata(**dict(td.metadata.dict(), serial="elsewhere")) if rng.random() < 0.3 else None
    with ctx.no_error("new-time-data"):
        new = new_time_data(td, metadata=other, data=mine, record=record)
    ctx.equal(new.data, td.data if mine is None else mine, "new-time-data", "data")
    added = new.metadata.history.records[n_records:]
    ctx.check(added == ([] if record is None else [record]), "new-time-data", lambda: f"records {added}")
    unchanged(ctx, before, snapshot(td), "new-time-data-changes", "new_time_data")
    if mine is None:
        new.data[...] = 3
    new.metadata.chans_metadata[chan].scaling = 4e5
    new.metadata.history.records.clear()
    unchanged(ctx, before, snapshot(td), "copy-aliases", "new_time_data")
    # a reader given metadata leaves them alone, and so does reading twice
    if "numpy" in names:
        reader = TimeReaderNumpy()
        meta = reader.run(path / "n", metadata_only=True)
        snap = snapshot(meta)
        n = meta.n_samples
        a = reader.run(path / "n", metadata=meta)
        unchanged(ctx, snap, snapshot(meta), "reader-changes-metadata", "full read")
        b = reader.run(path / "n", metadata=meta, from_sample=1, to_sample=n - 2)
        unchanged(ctx, snap, snapshot(meta), "reader-changes-metadata", "part read")
        ctx.equal(a.data[:, 1:n - 1], b.data, "reader-changes-metadata", "second read of the same metadata")
        c = reader.run(path / "n", metadata=meta)
        unchanged(ctx, strip(snapshot(a)), strip(snapshot(c)), "rerun-differs", "reader")


@scenario("C08", "pipeline", quick=60, timeout=200)
def pipeline(ctx):
    """Every step of a pipeline: inputs, earlier results, parameters and reruns"""
    rng = ctx.rng
    chain = Chain(ctx)
    taken = []
    original = chain.run

    def run(name, process, *inputs):
        before = [snapshot(x) for x in inputs]
        params = snapshot(process)
        what = f"{name} {process!r}"
        with ctx.no_error("runs", what):
            out = original(name, process, *inputs)
        for k, (x, snap) in enumerate(zip(inputs, before)):
            unchanged(ctx, snap, snapshot(x), "input-changed", f"{what} input {k}")
        unchanged(ctx, params, snapshot(process), "process-changed", what)
        taken.append((name, out, snapshot(out)))
        return out

    chain.run = run
    start = snapshot(chain.td)
    ctx.case((chain.td.data.tobytes(), chain.fs))
    try:
        chain.to_solution()
    except Broken:
        raise
    # writers and accessors of the intermediate data
    for name, out, snap in taken:
        writer = {
            "Decimator": DecimatedDataWriter, "Windower": WindowedDataWriter, "FourierTransform": SpectraDataWriter,
            "EvaluationFreqs": SpectraDataWriter,
        }.get(name)
        if writer:
            with ctx.no_error("writes", name):
                writer().run(chain.path / name, out)
        if hasattr(out, "get_level"):
            out.get_level(0)
            chan = out.metadata.chans[0]
            if hasattr(out, "get_chan"):
                out.get_chan(0, chan)
            if hasattr(out, "get_chans"):
                out.get_chans(0, [chan])
            for fnc in ("get_mag_phs", "get_freq", "get_timestamps"):
                if hasattr(out, fnc):
                    call_quietly(getattr(out, fnc), fnc, chan)
        if hasattr(out, "to_string"):
            str(out)
        unchanged(ctx, snap, snapshot(out), "changed-later", f"{name} after the rest of the chain")
    unchanged(ctx, start, snapshot(chain.td), "changed-later", "time data")
    # any step again: same result
    for k in rng.sample(range(len(chain.steps)), min(4, len(chain.steps))):
        name, process, inputs, out = chain.steps[k]
        first = strip(snapshot(out))
        with ctx.no_error("runs", name):
            again = process.run(*inputs)
        rerun(ctx, first, strip(snapshot(again)), f"{name} {process!r}")
        ctx.observe("reruns")


@scenario("C08", "records", quick=60)
def records(ctx):
    """Histories and records made from others leave those alone"""
    rng = ctx.rng
    held = []

    def hold(obj, what):
        held.append((obj, snapshot(obj), what))
        return obj

    creator = {"name": "x", "a": [1, {"b": 2}]}
    messages = [str(rng.random()) for _ in range(rng.randint(1, 3))]
    ctx.case(tuple(messages))
    frozen = (snapshot(creator), list(messages))
    histories = [hold(History(), "empty")]
    for i in range(rng.randint(2, 8)):
        rec = get_record(creator, rng.choice([messages, messages[0]]), rng.choice(["process", "creation"]))
        hold(rec, f"record {i}")
        base = rng.choice(histories + [None])
        new = get_history(rec, base) if base is not None else get_history(rec)
        ctx.check(
            len(new.records) == 1 + (len(base.records) if base is not None else 0), "history-length",
            f"{len(new.records)} records from {base and len(base.records)}",
        )
        histories.append(hold(new, f"history {i}"))
        for obj, before, what in held:
            unchanged(ctx, before, snapshot(obj), "history-changed", f"{what} after history {i}")
    td = build.time_data(rng, ctx.np, n=20)
    time_dict = td.metadata.dict()
    chans_dict = {c: time_dict["chans_metadata"][c] for c in td.metadata.chans}
    del time_dict["chans_metadata"]
    given = snapshot([time_dict, chans_dict])
    made = get_time_metadata(time_dict, chans_dict)
    unchanged(ctx, given, snapshot([time_dict, chans_dict]), "input-changed", "get_time_metadata")
    unchanged(ctx, snapshot(td.metadata), snapshot(made), "rerun-differs", "get_time_metadata")
    unchanged(ctx, frozen[0], snapshot(creator), "history-changed", "creator")
    ctx.check(messages == frozen[1], "history-changed", "messages")
    arr = ctx.np.randn(3)
    keep = arr.copy()
    array_to_string(arr, precision=rng.randint(1, 8))
    ctx.equal(arr, keep, "history-changed", "array_to_string")


def call_quietly(fnc, name, chan):
    if name == "get_mag_phs":
        fnc(0, chan)
    elif name == "get_freq":
        fnc(0, 0)
    else:
        fnc(0)
