"""C09: the history records what was done, once, in order, reproducibly"""
import re
from datetime import datetime, timedelta

import numpy as np

from resistics.common import History, ResisticsProcess, array_to_string, get_history, get_record
from resistics.decimate import DecimatedDataReader, DecimatedDataWriter
from resistics.regression import Solution
from resistics.sampling import to_datetime
from resistics.spectra import SpectraDataReader, SpectraDataWriter
from resistics.time import TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii, TimeWriterNumpy
from resistics.window import WindowedDataReader, WindowedDataWriter
from rt import build, catalog
from rt.build import snapshot
from rt.compare import run_differs
from rt.checks.c08_inputs import diff, random_td, strip
from rt.core import scenario
from rt.util import diff_seconds
from rt.pipeline import Chain


def records(obj):
    meta = getattr(obj, "metadata", obj)
    return [snapshot(r) for r in meta.history.records]


def appended(ctx, old, obj, creators, what, start=None):
    """Monitor: obj's records are old plus one per creator"""
    new = records(obj)
    ctx.check(len(new) == len(old) + len(creators), "record-count", f"{what}: {len(old)} -> {len(new)}, added {len(creators)}")
    where = diff(old, new[:len(old)])
    ctx.check(where is None, "earlier-records", f"{what}: {where}")
    added = obj_records(obj)[len(old):]
    for record, creator in zip(added, creators):
        ctx.check(record.creator.get("name") == type(creator).__name__, "record-name", f"{what}: {record.creator}")
        ctx.check(
            dict(record.creator) == creator.parameters(), "record-parameters",
            f"{what}: {record.creator} expected {creator.parameters()}",
        )
        ctx.check(
            all(isinstance(m, str) and m for m in record.messages), "record-messages",
            f"{what}: {record.messages}",
        )
        now = datetime.utcnow()
        ctx.check(
            timedelta(0) <= now - record.time_utc < timedelta(seconds=300), "record-time",
            f"{what}: recorded {record.time_utc}, now {now}",
        )
        ctx.check(
            abs((datetime.now() - record.time_local) - (datetime.utcnow() - record.time_utc)) < timedelta(seconds=60),
            "record-time", f"{what}: local {record.time_local} utc {record.time_utc}",
        )
        ctx.observe("records_checked")
    stamps = [r.time_utc for r in obj_records(obj)]
    ctx.check(stamps == sorted(stamps), "record-order", f"{what}: {stamps}")
    return new


def obj_records(obj):
    meta = getattr(obj, "metadata", obj)
    return meta.history.records


def rebuilt(ctx, process, inputs, out, what):
    """Oracle: the process rebuilt from its record does the same"""
    creator = process.parameters()
    before = dict(creator)
    with ctx.no_error("rebuild", f"{what} from {creator}"):
        again = ResisticsProcess.validate(creator)
    ctx.check(creator == before, "rebuild-consumes", f"{what}: {creator}")
    ctx.check(type(again) is type(process), "rebuild-type", f"{what}: {type(again)}")
    ctx.check(again == process, "rebuild-parameters", f"{what}: {again!r} expected {process!r}")
    with ctx.no_error("rebuild", f"{what} run"):
        res = again.run(*inputs)
    loose = "Solver" in what or "Regression" in what
    where = run_differs(strip(snapshot(out)), strip(snapshot(res)), 1e-6 if loose else 1e-10)
    ctx.check(where is None, "rebuild-result", f"{what}: {where}")
    ctx.observe("processes_rebuilt")


@scenario("C09", "time_chains", quick=200)
def time_chains(ctx):
    """Random chains of processes with files in between, branching from earlier data"""
    rng = ctx.rng
    td = random_td(ctx)
    ctx.case((td.data.tobytes(), td.metadata.chans))
    path = ctx.scratch()
    nodes = [(td, records(td))]
    for k in range(rng.randint(2, 7)):
        src, recs = rng.choice(nodes[-2:])
        if src.metadata.n_samples < 10:
            continue
        if rng.random() < 0.25:
            target = path / str(k)
            ascii_file = rng.random() < 0.3
            writer = (TimeWriterAscii if ascii_file else TimeWriterNumpy)(overwrite=rng.random() < 0.5)
            what = f"{writer!r}"
            with ctx.no_error("runs", what):
                writer.run(target, src)
            appended(ctx, recs, src, [], f"{what}: data in memory")
            if ascii_file and src.metadata.n_chans > 1:
                continue  # a file per channel is not what the ascii reader reads
            scale = rng.random() < 0.5
            if ascii_file:
                reader = TimeReaderAscii(extension=".ascii", apply_scalings=scale)
            else:
                reader = TimeReaderNumpy(apply_scalings=scale)
            with ctx.no_error("runs", f"{reader!r}"):
                out = reader.run(target)
            recs2 = appended(ctx, recs, out, [writer, reader], f"{writer!r} {reader!r}")
            if rng.random() < 0.3:
                rebuilt(ctx, reader, (target,), out, f"{reader!r}")
        else:
            proc = catalog.time_process(rng, src)
            what = f"{proc!r} on {src.data.shape}"
            with ctx.no_error("runs", what):
                out = proc.run(src)
            recs2 = appended(ctx, recs, out, [proc], what)
            if type(proc).__name__ == "ShiftTimestamps":
                told = " ".join(out.metadata.history.records[-1].messages)
                stamps = [to_datetime(x) for x in re.findall(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(?:\.\d+)?", told)]
                for t in (out.metadata.first_time, out.metadata.last_time):
                    near = not stamps or min(abs(diff_seconds(x, t)) for x in stamps) <= 0.01 * out.metadata.dt
                    ctx.check(near, "record-times", f"{t!s} not in {told!r}: {what}")
            if type(proc).__name__ != "ApplyFunction":
                rebuilt(ctx, proc, (src,), out, what)
                # and from the record as it comes back from JSON
                meta = type(out.metadata).parse_raw(out.metadata.json())
                creator = meta.history.records[-1].creator
                again = ResisticsProcess.validate(creator)
                ctx.check(again == proc, "rebuild-json", f"{what}: {again!r}")
        nodes.append((out, recs2))
    for node, recs in nodes:
        where = diff(recs, records(node))
        ctx.check(where is None, "changed-later", f"history of earlier data: {where}")


@scenario("C09", "pipeline", quick=60, timeout=200)
def pipeline(ctx):
    rng = ctx.rng
    chain = Chain(ctx)
    ctx.case((chain.td.data.tobytes(), chain.fs))
    with ctx.no_error("runs", "pipeline"):
        solution = chain.to_solution()
    owners = []
    for name, proc, inputs, out in chain.steps:
        what = f"{name} {proc!r}"
        if name in ("DecimationSetup", "WindowSetup"):
            rebuilt(ctx, proc, inputs, out, what)
            continue
        if name == "QuickGather":
            for part in (out.out_data, out.in_data, out.cross_data):
                hist = part.metadata.histories
                ctx.check(list(hist) == ["meas"], "gathered-histories", f"{what}: {list(hist)}")
                where = diff(records(inputs[-1]), [snapshot(r) for r in hist["meas"].records])
                ctx.check(where is None, "gathered-histories", f"{what}: {where}")
            rebuilt(ctx, proc, inputs, out, what)
            continue
        src = inputs[-1]
        if name.startswith("RegressionPreparer"):
            old = []
            for part in out.metadata.contributors.values():
                hists = part.histories.values() if hasattr(part, "histories") else [part.history]
                for h in hists:
                    where = diff(records(chain.ed), [snapshot(r) for r in h.records])
                    ctx.check(where is None, "contributor-history", f"{what}: {where}")
        else:
            old = records(src)
        appended(ctx, old, out, [proc], what)
        owners.append((out, records(out)))
        if type(proc).__name__ != "ApplyFunction":
            rebuilt(ctx, proc, inputs, out, what)
    # files in between
    for name, _proc, _inputs, out in chain.steps:
        pair = {
            "Decimator": (DecimatedDataWriter, DecimatedDataReader), "Windower": (WindowedDataWriter, WindowedDataReader),
            "FourierTransform": (SpectraDataWriter, SpectraDataReader), "EvaluationFreqs": (SpectraDataWriter, SpectraDataReader),
        }.get(name)
        if not pair:
            continue
        writer, reader = pair[0](), pair[1]()
        old = records(out)
        with ctx.no_error("runs", f"write {name}"):
            writer.run(chain.path / name, out)
            back = reader.run(chain.path / name)
        appended(ctx, old, out, [], f"{name} in memory after writing")
        appended(ctx, old, back, [writer, reader], f"{name} written and read")
        # processing continues from the file as from memory
    target = chain.path / "solution.json"
    old = records(solution)
    solution.write(target)
    where = diff(old, records(Solution.parse_file(target)))
    ctx.check(where is None, "solution-history", where)
    for out, recs in owners:
        where = diff(recs, records(out))
        ctx.check(where is None, "changed-later", f"{type(out).__name__}: {where}")


@scenario("C09", "histories", quick=100)
def histories(ctx):
    """The history functions themselves"""
    rng = ctx.rng
    recs = []
    for i in range(rng.randint(1, 5)):
        creator = {"name": f"p{i}", "a": rng.random(), "b": [rng.randint(0, 5)]}
        msg = rng.choice(["one", ["one", "two"]])
        when = datetime(rng.randint(1990, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 7, 8, rng.randrange(10 ** 6))
        given = {k: when + timedelta(hours=h) for k, h in (("time_utc", 0), ("time_local", 3)) if rng.random() < 0.5}
        kind = rng.choice(["process", "creation", "other"])
        starts = {"time_utc": datetime.utcnow(), "time_local": datetime.now()}
        rec = get_record(creator, msg, kind, **given)
        ctx.check(rec.record_type == kind, "record-type", f"{rec.record_type}, not {kind}")
        for k in ("time_utc", "time_local"):
            if k in given:
                ctx.check(getattr(rec, k) == given[k], "record-times", f"{k} {getattr(rec, k)} expected {given[k]}")
            else:
                late = abs((getattr(rec, k) - starts[k]).total_seconds())
                ctx.check(late < 60, "record-times", f"{k} {getattr(rec, k)} made at {starts[k]}")
        ctx.check(get_record(creator, msg).record_type == "process", "record-type", "default")
        ctx.check(rec.messages == (["one"] if msg == "one" else ["one", "two"]), "record-messages", rec.messages)
        ctx.check(rec.creator == creator, "record-parameters", rec.creator)
        recs.append(rec)
    ctx.case([r.json() for r in recs])
    hist, seen = None, []
    for rec in recs:
        before = None if hist is None else hist.copy(deep=True)
        new = get_history(rec, hist)
        ctx.check(hist is None or hist == before, "history-changed", "get_history changed its input")
        seen.append((new, new.copy(deep=True)))
        hist = new
        ctx.observe("records_checked")
    ctx.check([r.json() for r in hist.records] == [r.json() for r in recs], "record-order", hist)
    for obj, copy in seen:
        ctx.check(obj == copy, "history-changed", "an earlier history grew")
    back = History.parse_raw(hist.json())
    ctx.check(back == hist, "history-json", f"{back} {hist}")
    # arrays in records: every value, in the style and precision asked for
    arr = ctx.np.randn(rng.randint(1, 12)) * 10 ** rng.uniform(-3, 4)
    digits, sep, scientific = rng.randint(1, 9), rng.choice([", ", " ", "; "]), rng.random() < 0.5
    text = array_to_string(arr, sep=sep, precision=digits, scientific=scientific)
    values = text.replace("\n", " ").split(sep.strip() or None)
    style = "e" if scientific else "f"
    want = [f"{x:.{digits}{style}}" for x in arr]
    ctx.check([v.strip() for v in values] == want, "array-text", f"{text!r} expected {want}")
    # two defaults are never the same list
    a, b = History(), History()
    a.add_record(recs[0])
    ctx.check(len(b.records) == 0 and len(History().records) == 0, "history-shared", "default history shared")
