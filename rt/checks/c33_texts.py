"""C33: what an object prints of itself is what it holds"""
import ast
import contextlib
import io
import json
import re
import string

import numpy as np
import yaml
from resistics.calibrate import CalibrationData
from resistics.common import Record
from resistics.decimate import DecimatedData
from resistics.sampling import datetime_to_string
from resistics.time import ChanMetadata
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction

from rt import build
from rt.build import snapshot
from rt.checks.c08_inputs import diff
from rt.checks.c15_fourier import win_data
from rt.checks.c16_evals import spec_data
from rt.checks.c21_serialisation import configuration, plain_process, transfer_function
from rt.core import scenario
from rt.util import FS_COMMON, make_time

ANSI = re.compile(r"\x1b\[[0-9;]*m")
AWKWARD = [
    "yes", "null", "1", "1.5", "1e3", "2021-01-01", "2021-01-01 00:00:00", "a: b", "# not a comment", "- x", "", " ", "  lead", "trail ",
    "two\nlines", "tab\there", "quote'", 'double"', "back\\slash", "é Ω", "日本", "{a}", "[1", "%", "@", "~", "x" * 150, "a " * 60,
    "0x1F", "0o7", "1_000", "12:30:45", ".inf", "=", "<<", "&a", "*a", "!t", "|", ">", "?", "on", "NO", "True",
]


def printed(fnc):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fnc()
    return ANSI.sub("", out.getvalue())


def is_same(ctx, got, expected, kind, what):
    where = diff(json.loads(json.dumps(expected)), json.loads(json.dumps(got)))
    ctx.check(where is None, kind, f"{what}: {where}")


def too_long(x):
    """prettyprinter shortens long sequences, by its design"""
    if isinstance(x, dict):
        return len(x) > 900 or any(too_long(v) for v in x.values())
    return isinstance(x, list) and (len(x) > 900 or any(too_long(v) for v in x))


def judge_model(ctx, model, what):
    """Oracle: text and summary, read back, are the fields of the model"""
    before = snapshot(model)
    held = json.loads(model.json())
    text = str(model)
    ctx.check(model.to_string() == text, "two-texts", f"{what}: str and to_string differ")
    is_same(ctx, yaml.safe_load(text) or {}, held, "text", f"{what} text")
    ctx.check(list(yaml.safe_load(text) or {}) == list(held), "text-order", f"{what}: order of fields in the text")
    ctx.observe("texts_read_back")
    shown = printed(model.summary)
    if not too_long(held):
        # the pretty printer writes nan and inf as float('nan'), float('inf')
        plain = re.sub(r"float\('(-?)(nan|inf)'\)", lambda m: m.group(1) + ("1e999" if m.group(2) == "inf" else "None"), shown)
        if "float('nan')" not in shown:
            try:
                back = ast.literal_eval(plain.strip())
            except (ValueError, SyntaxError) as e:
                ctx.fail("summary-unreadable", f"{what}: {e}: {shown[:300]!r}")
            is_same(ctx, back, held, "summary", f"{what} summary")
            ctx.observe("summaries_read_back")
    ctx.check(snapshot(model) == before, "printing-changes", f"{what} is not the same after printing it")
    ctx.check(str(model) == text, "second-text", f"{what}: printing twice gives two texts")


@scenario("C33", "models", quick=80)
def models(ctx):
    rng = ctx.rng
    texts = []
    for _ in range(3):
        kind = rng.choice([0, 2, 3, 4, 5, 6, 7, 8])
        if kind == 0:
            model = configuration(rng)
        elif kind == 2:
            model = plain_process(rng)
        elif kind == 3:
            model = build.time_data(rng, ctx.np).metadata
        elif kind == 4:
            model = some_levels(ctx).metadata
        elif kind == 5:
            model = win_data(rng, ctx.np).metadata
        elif kind == 6:
            model = spec_data(ctx).metadata
        elif kind == 7:
            n = rng.randint(1, 40)
            model = CalibrationData(
                file_path=rng.choice([None, "a/b c.json"]), sensor=rng.choice(AWKWARD), serial=rng.choice([0, "0012", "x"]), static_gain=rng.choice([1, 0.1]),
                frequency=list(np.sort(10 ** ctx.np.uniform(-4, 4, n))), magnitude=list(ctx.np.randn(n)), phase=list(ctx.np.randn(n)),
            )
        else:
            model = ChanMetadata(
                name=rng.choice(AWKWARD), data_files=rng.sample(AWKWARD, rng.randint(0, 3)), sensor=rng.choice(AWKWARD), serial=rng.choice(AWKWARD),
                chan_type=rng.choice(["magnetic", "electric"]), gain1=rng.choice([1, 1e-9, 1e300, 3.0]), dipole_dist=rng.choice([1, 1 / 3, 12345678.9]),
                chopper=rng.random() < 0.5,
            )
        texts.append(str(model))
        ctx.case(texts)
        judge_model(ctx, model, type(model).__name__)


@scenario("C33", "awkward", quick=60)
def awkward(ctx):
    """Histories and records whose words look like something else to a YAML reader"""
    rng = ctx.rng
    record = Record(
        creator={"name": rng.choice(AWKWARD), rng.choice(string.ascii_letters): rng.choice(AWKWARD + [None, 1, 1.5, True, [1, "1"], {"a": None}])},
        messages=rng.sample(AWKWARD, rng.randint(0, 5)), record_type=rng.choice(AWKWARD),
    )
    ctx.case([record.creator, record.messages, record.record_type])
    judge_model(ctx, record, "record")
    td = build.time_data(rng, ctx.np, n=10)
    td.metadata.system = rng.choice(AWKWARD)
    td.metadata.serial = rng.choice(AWKWARD)
    td.metadata.history.add_record(record)
    td.metadata.history.add_record(record)
    judge_model(ctx, td.metadata, "metadata")
    judge_model(ctx, td.metadata.history, "history")


def some_levels(ctx):
    rng = ctx.rng
    fs = float(rng.choice(FS_COMMON))
    levels, n = [], rng.choice([5, 1000, 123456 // 16])
    for _ in range(rng.randint(1, 12)):
        levels.append((fs, n))
        factor = rng.choice([2, 3, 4, 10])
        fs, n = fs / factor, max(1, n // factor)
    return build.dec_data(rng, ctx.np, make_time(rng), levels, build.pick_chans(rng))


def row(line):
    return re.split(r"\s{2,}", line.strip())


def shown_as(ctx, text, value, what):
    """A number of a table is the held one, to the digits shown"""
    digits = len(text.split("e")[0].split(".")[1]) if "." in text else 0
    exponent = int(text.split("e")[1]) if "e" in text else 0
    ctx.check(
        abs(float(text) - value) <= 0.51 * 10.0 ** (exponent - digits) + 1e-9 * abs(value), "table-value", f"{what}: shown {text} for {value!r}"
    )


@scenario("C33", "data", quick=60)
def data(ctx):
    rng = ctx.rng
    td = build.time_data(rng, ctx.np)
    ctx.case(str(td))
    before = snapshot(td)
    text = td.to_string()
    ctx.check(text == str(td) == repr(td), "two-texts", "time data: str, repr and to_string differ")
    head, _, rest = text.partition("\n")
    ctx.check(head == str(type(td)), "class-line", head)
    is_same(ctx, yaml.safe_load(rest), json.loads(td.metadata.json()), "text", "time data text")
    frame(ctx, td, rng)
    ctx.check(snapshot(td) == before, "printing-changes", "time data is not the same after printing it")
    changed(ctx, td, rng)
    dd = some_levels(ctx)
    before = snapshot(dd)
    text = dd.to_string()
    ctx.check(text == str(dd) == repr(dd), "two-texts", "decimated data: str, repr and to_string differ")
    lines = text.split("\n")
    ctx.check(lines[0] == str(DecimatedData), "class-line", lines[0])
    ctx.equal(row(lines[1]), ["fs", "dt", "n_samples", "first_time", "last_time"], "table-head", "columns")
    rows = [row(x) for x in lines[3:]]
    ctx.check(len(rows) == dd.metadata.n_levels, "table-rows", f"{len(rows)} rows for {dd.metadata.n_levels} levels")
    for i, (cells, lm) in enumerate(zip(rows, dd.metadata.levels_metadata)):
        ctx.check(len(cells) == 6, "table-cells", str(cells))
        ctx.check(int(cells[0]) == i, "table-level", str(cells))
        shown_as(ctx, cells[1], lm.fs, f"level {i} fs")
        shown_as(ctx, cells[2], lm.dt, f"level {i} dt")
        ctx.check(int(cells[3]) == lm.n_samples, "table-samples", f"{cells[3]} for {lm.n_samples}")
        for cell, held in zip(cells[4:], (lm.first_time, lm.last_time)):
            whole, _, part = datetime_to_string(held).partition(".")
            ctx.check(
                cell.partition(".")[0] == whole and cell.partition(".")[2].ljust(24, "0") == part.replace("_", ""), "table-time", f"{cell} for {whole}.{part}"
            )
        ctx.observe("table_rows_read")
    frame(ctx, dd, rng)
    ctx.check(snapshot(dd) == before, "printing-changes", "decimated data is not the same after printing it")
    wd = win_data(rng, ctx.np)
    before = snapshot(wd)
    is_same(ctx, yaml.safe_load(wd.to_string()), json.loads(wd.metadata.json()), "text", "windowed data text")
    ctx.check(wd.to_string() == str(wd) == repr(wd), "two-texts", "windowed data: str, repr and to_string differ")
    frame(ctx, wd, rng)
    ctx.check(snapshot(wd) == before, "printing-changes", "windowed data is not the same after printing it")
    changed(ctx, wd, rng)
    sd = spec_data(ctx)
    before = snapshot(sd)
    ctx.check(sd.to_string() == str(sd) == repr(sd) and type(sd).__name__ in str(sd), "two-texts", "spectra data: str, repr and to_string differ")
    frame(ctx, sd, rng)
    ctx.check(snapshot(sd) == before, "printing-changes", "spectra data is not the same after printing it")


def changed(ctx, obj, rng):
    """What was changed after printing shows when printing again"""
    obj.metadata.serial = rng.choice(AWKWARD[:-1]) + "new"
    obj.metadata.history.add_record(Record(creator={"name": "after"}, messages=["printed"], record_type="later"))
    text = obj.to_string()
    rest = text.partition("\n")[2] if text.startswith("<class") else text
    is_same(ctx, yaml.safe_load(rest), json.loads(obj.metadata.json()), "text-after", "text after a change")


def frame(ctx, obj, rng):
    """The summary is the text of the object between two marks"""
    lines = printed(obj.summary).rstrip("\n").split("\n")
    ctx.check(lines[0].startswith("##") and "Begin Summary" in lines[0] and lines[-1].startswith("##") and "End summary" in lines[-1], "frame", f"{lines[0]} … {lines[-1]}")
    ctx.check("\n".join(lines[1:-1]).rstrip("\n") == obj.to_string().rstrip("\n"), "frame-text", "the summary is not the text of the object")
    ctx.observe("frames_read")


@scenario("C33", "transfer", quick=80)
def transfer(ctx):
    """Oracle: the printed equation multiplied out is the transfer function"""
    rng = ctx.rng
    names = ["Ex", "Ey", "Hx", "Hy", "Hz", "E", "H1", "longer", "a_b", "Bx"]
    n_out, n_in = rng.randint(1, 5), rng.randint(1, 5)
    tf = rng.choice([
        lambda: ImpedanceTensor(), lambda: Tipper(),
        lambda: TransferFunction(out_chans=rng.sample(names, n_out), in_chans=rng.sample(names, n_in), variation="v", cross_chans=rng.sample(names, 2)),
        lambda: TransferFunction(out_chans=rng.sample(names, n_out), in_chans=rng.sample(names, n_in)),
        lambda: transfer_function(rng),
    ])()
    ctx.case(tf.json())
    before = snapshot(tf)
    lines = tf.to_string().split("\n")
    n_out, n_in = len(tf.out_chans), len(tf.in_chans)
    n_lines = max(n_out, n_in)
    # blank lines at the end do not count
    ctx.check(len(lines) == n_lines, "equation-lines", f"{len(lines)} for {n_out} x {n_in}: {lines}")
    outs, tensor, ins, equals, columns = [], [], [], [], set()
    for i, line in enumerate(lines):
        equals += [i] * line.count("=")
        columns |= {line.index("=")} if "=" in line else set()
        groups = re.findall(r"\|([^|]*)\|", line)
        words = [g.split() for g in groups]
        expect = (2 if i < n_out else 0) + (1 if i < n_in else 0)
        ctx.check(len(words) == expect, "equation-groups", f"line {i}: {line!r}")
        if i < n_out:
            outs += words.pop(0)
            tensor.append(words.pop(0))
        if i < n_in:
            ins += words.pop(0)
    ctx.check(outs == list(tf.out_chans), "equation-out", f"{outs} for {tf.out_chans}")
    ctx.check(ins == list(tf.in_chans), "equation-in", f"{ins} for {tf.in_chans}")
    ctx.check(tensor == [[f"{o}_{i}" for i in tf.in_chans] for o in tf.out_chans], "equation-tensor", str(tensor))
    ctx.check(len(equals) == 1, "equation-sign", f"{len(equals)} equal signs")
    # everything which is above one another is of the same column
    bars = [[m.start() for m in re.finditer(r"\|", line)] for line in lines]
    for i, b in enumerate(bars):
        full = [x for x in bars if len(x) == 6]
        if full:
            sub = set(full[0])
            ctx.check(set(b) <= sub, "equation-columns", f"line {i} is not below the others: {lines}")
    ctx.check(snapshot(tf) == before, "printing-changes", "the transfer function is not the same after printing it")
    judge_model_fields(ctx, tf)
    ctx.observe("equations_read")


def judge_model_fields(ctx, tf):
    shown = ast.literal_eval(printed(tf.summary).strip())
    is_same(ctx, shown, json.loads(tf.json()), "summary", "transfer function")
