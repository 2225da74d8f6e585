"""C02: high resolution times survive strings, JSON and conversions"""
from datetime import datetime
from decimal import Decimal
from fractions import Fraction

import pandas as pd

import resistics.sampling as rs
from resistics.project import ProjectMetadata
from resistics.time import ChanMetadata, TimeMetadata
from rt.core import scenario
from rt.util import diff_seconds, fraction_delta, make_time, pick_fs


def _time(rng):
    t = make_time(rng)
    if rng.random() < 0.5:
        t = t + rng.randrange(10 ** 6) * fraction_delta(1 / Fraction(pick_fs(rng)))
    return t


@scenario("C02", "strings", quick=600)
def strings(ctx):
    """time -> string -> time is the identity; strings order as the times do"""
    t = _time(ctx.rng)
    ctx.case(("string", str(t)))
    text = rs.datetime_to_string(t)
    back = rs.datetime_from_string(text)
    ctx.check(back == t, "string-roundtrip", f"{t!r} -> {text} -> {back!r}")
    ctx.check(rs.to_datetime(text) == t, "to-datetime-string", f"{text}")
    ctx.check(rs.datetime_to_string(back) == text, "string-fixpoint", text)
    atto = ctx.rng.choice([10, 10 ** 3, 10 ** 6, 10 ** 9, 990, 123456780])
    later = t + fraction_delta(Fraction(atto, 10 ** 18))
    text2 = rs.datetime_to_string(later)
    back2 = rs.datetime_from_string(text2)
    ctx.check(
        diff_seconds(back2, back) == Fraction(atto, 10 ** 18),
        "attosecond", f"{text} + {atto} as -> {text2}",
    )
    ctx.check(text2 > text, "string-order", f"{text} {text2}")


@scenario("C02", "json", quick=400)
def json_roundtrip(ctx):
    """times in written metadata come back identical"""
    rng = ctx.rng
    first = _time(rng)
    fs = pick_fs(rng)
    n = rng.choice([1, 10, 12345])
    last = rs.sample_to_datetime(fs, first, n - 1)
    ctx.case(("json", str(first), fs, n))
    chan = ChanMetadata(name="Ex", data_files=["Ex.ascii"])
    metadata = TimeMetadata(
        fs=fs, chans=["Ex"], n_samples=n, first_time=first, last_time=last,
        chans_metadata={"Ex": chan},
    )
    ctx.check(metadata.first_time == first, "validated-time", f"{first!r}")
    back = TimeMetadata.parse_raw(metadata.json())
    ctx.check(back.first_time == first, "json-first", f"{first!r} -> {back.first_time!r}")
    ctx.check(back.last_time == last, "json-last", f"{last!r} -> {back.last_time!r}")
    ctx.check(back.fs == fs, "json-fs", f"{fs!r} -> {back.fs!r}")
    path = ctx.scratch() / "proj.json"
    ProjectMetadata(ref_time=first).write(path)
    proj = ProjectMetadata.parse_file(path)
    ctx.check(proj.ref_time == first, "file-time", f"{first!r} -> {proj.ref_time!r}")


@scenario("C02", "foreign_types", quick=400)
def foreign_types(ctx):
    """datetime, Timestamp and plain strings convert at their full resolution"""
    rng = ctx.rng
    stamp = pd.Timestamp("1990-01-01") + pd.Timedelta(rng.randint(0, 10 ** 18), "ns")
    ctx.case(("stamp", stamp.value))
    t = rs.to_datetime(stamp)
    epoch = rs.to_datetime("1970-01-01")
    ctx.check(
        diff_seconds(t, epoch) == Fraction(stamp.value, 10 ** 9),
        "from-timestamp", f"{stamp} -> {t}",
    )
    ctx.check(rs.to_timestamp(t) == stamp, "timestamp-roundtrip", f"{stamp} -> {rs.to_timestamp(t)}")
    native = stamp.floor("us").to_pydatetime()
    t = rs.to_datetime(native)
    ctx.check(
        (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.nanosecond)
        == (native.year, native.month, native.day, native.hour, native.minute,
            native.second, native.microsecond, 0),
        "from-datetime", f"{native} -> {t}",
    )
    ctx.check(isinstance(native, datetime) and rs.to_timestamp(t) == pd.Timestamp(native), "datetime-roundtrip")
    for text in (str(stamp), stamp.isoformat(), str(stamp.floor("s")), str(stamp.date())):
        ctx.check(
            diff_seconds(rs.to_datetime(text), epoch) == Fraction(pd.Timestamp(text).value, 10 ** 9),
            "from-string", f"{text} -> {rs.to_datetime(text)}",
        )
    # models accept every one of these types for a time
    for value in (stamp, native, str(stamp), rs.datetime_to_string(rs.to_datetime(stamp))):
        got = ProjectMetadata(ref_time=value).ref_time
        ctx.check(
            diff_seconds(got, epoch) == diff_seconds(rs.to_datetime(value), epoch),
            "model-accepts", f"{value!r} -> {got!r}",
        )
    ctx.raises(lambda: ProjectMetadata(ref_time=[1]), ValueError, "model-rejects", "a list")
    # sub nanosecond digits: the nearest nanoseconds, never a wrong one
    fine = rs.to_datetime(stamp) + fraction_delta(Fraction(Decimal("0.4e-9")))
    ctx.check(abs((rs.to_timestamp(fine) - stamp).value) <= 1, "subns-timestamp", f"{fine}")
