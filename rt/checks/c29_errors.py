"""C29: failures are errors of the package which name their cause"""
import json
from pathlib import Path

import numpy as np

from resistics import errors, letsgo
from resistics.calibrate import InstrumentCalibrator, SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator
from resistics.common import assert_dir, assert_file, dir_contents, dir_files, dir_subdirs, is_dir, is_file
from resistics.config import Configuration
from resistics.decimate import DecimatedDataReader, DecimatedDataWriter
from resistics.spectra import SpectraDataReader, SpectraDataWriter
from resistics.time import (
    BandPass, Decimate, HighPass, LowPass, Notch, Resample, TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii,
    TimeWriterNumpy,
)
from resistics.window import WindowedDataReader, WindowedDataWriter
from rt import build
from rt.checks.c25_files import any_data
from rt.core import scenario


def expect(ctx, fnc, kinds, names, what):
    """Oracle: fnc raises one of kinds and its text holds all the names"""
    ctx.observe("failures_provoked")
    try:
        out = fnc()
    except kinds as exc:
        try:
            text = f"{exc} {exc!r}"
        except Exception as bad:
            return ctx.check(False, "error-text", f"{what}: {type(exc).__name__} cannot be shown: {bad!r}")
        for name in names:
            ctx.check(str(name) in str(exc), "error-names-cause", lambda: f"{what}: {name!r} not in {str(exc)!r}")
        return ctx.check(True, "error-kind")
    except Exception as exc:
        return ctx.check(False, "error-kind", f"{what}: {type(exc).__name__} {exc}, not {kinds}")
    return ctx.check(False, "error-kind", f"{what}: no error but {str(out)[:100]}")


@scenario("C29", "paths", quick=150)
def paths(ctx):
    """Files and directories which are missing, or are the other one"""
    rng = ctx.rng
    base = ctx.scratch()
    file, folder, none = (base / rng.choice(n) for n in (["f", "a.txt", "x y"], ["d", "d.txt", "ü"], ["n", "m.json", "f/x"]))
    file.write_text("x")
    folder.mkdir()
    inside = {"files": set(), "dirs": set()}
    for name in rng.sample(["a", "b.txt", ".hidden", "c d", "é", ".x.txt", "metadata.json", "_u", "__pycache__", "~b", "#c", "d.", "x.tmp", "Thumbs.db", "a.bak", "-", "0"], rng.randint(0, 9)):
        if rng.random() < 0.5:
            (folder / name).write_text("y")
            key = "files"
        else:
            (folder / name).mkdir()
            key = "dirs"
        if not name.startswith("."):
            inside[key].add(folder / name)
    ctx.case((str(file.name), str(folder.name), str(none.name), sorted(map(str, inside["files"])), sorted(map(str, inside["dirs"]))))
    for fnc, good, path in ((is_file, True, file), (is_file, False, folder), (is_file, False, none), (is_dir, True, folder), (is_dir, False, file), (is_dir, False, none)):
        ctx.check(fnc(path) is good, "path-kind", f"{fnc.__name__} {path}")
    with ctx.no_error("path-assert"):
        assert_file(file)
        assert_dir(folder)
    expect(ctx, lambda: assert_file(none), FileNotFoundError, [none], "assert_file")
    expect(ctx, lambda: assert_file(folder), errors.NotFileError, [folder], "assert_file")
    expect(ctx, lambda: assert_dir(none), FileNotFoundError, [none], "assert_dir")
    expect(ctx, lambda: assert_dir(file), errors.NotDirectoryError, [file], "assert_dir")
    dirs, files = dir_contents(folder)
    ctx.check(set(files) == inside["files"] and len(files) == len(inside["files"]), "listing", f"{files} expected {inside}")
    ctx.check(set(dirs) == inside["dirs"] and len(dirs) == len(inside["dirs"]), "listing", f"{dirs} expected {inside}")
    ctx.check(set(dir_files(folder)) == inside["files"] and set(dir_subdirs(folder)) == inside["dirs"], "listing", f"{inside}")
    for fnc in (dir_contents, dir_files, dir_subdirs):
        expect(ctx, lambda: fnc(none), errors.PathNotFoundError, [none], fnc.__name__)
        expect(ctx, lambda: fnc(file), errors.NotDirectoryError, [file], fnc.__name__)


@scenario("C29", "reading", quick=150)
def reading(ctx):
    """Recordings and data which are not there or not readable"""
    rng = ctx.rng
    base = ctx.scratch()
    path = base / rng.choice(["meas", "a b", "é.1"])
    td = build.time_data(rng, ctx.np, n=30)
    cls = rng.choice([TimeReaderNumpy, TimeReaderAscii])
    reader = cls()
    how = rng.choice(["absent", "empty", "file", "no-metadata", "bad-metadata", "no-data", "folder-for-data", "wrong-suffix", "second-file"])
    if how == "file":
        path.write_text("no directory")
    elif how != "absent":
        (build.write_npy if cls is TimeReaderNumpy else build.write_txt)(path, td.metadata, td.data)
        data = [f for f in path.iterdir() if f.name != "metadata.json"]
        if how == "empty":
            for f in list(path.iterdir()):
                f.unlink()
        elif how == "no-metadata":
            (path / "metadata.json").unlink()
        elif how == "bad-metadata":
            (path / "metadata.json").write_text(rng.choice(["", "{", "[]", '{"fs": 1}']))
        elif how == "no-data":
            data[0].unlink()
        elif how == "folder-for-data":
            data[0].unlink()
            data[0].mkdir()
        elif how == "second-file":
            # one of several files of a channel is not there
            text = json.loads((path / "metadata.json").read_text())
            files = text["chans_metadata"][rng.choice(text["chans"])]["data_files"]
            files.insert(rng.randint(0, len(files)), f"later{data[0].suffix}")
            (path / "metadata.json").write_text(json.dumps(text))
        else:
            text = (path / "metadata.json").read_text()
            stem, kind = data[0].stem, data[0].suffix[1:]
            other = rng.choice([data[0].name + ".bin", stem + kind, f"{stem}.x{kind}", f"{stem}.{kind}x"])
            (path / "metadata.json").write_text(text.replace(data[0].name, other))
            data[0].rename(path / other)
    what = f"{cls.__name__} {how}"
    ctx.case((what, path.name, ctx.index))
    kinds = (errors.MetadataReadError, errors.TimeDataReadError, FileNotFoundError, errors.PathError, NotADirectoryError)
    if how == "bad-metadata":
        kinds = Exception
    expect(ctx, lambda: reader.run(path), kinds, [] if how == "bad-metadata" else [path], what)
    expect(ctx, lambda: letsgo.quick_read(path, Configuration(name="c", time_readers=[reader])), errors.TimeDataReadError, [path, cls.__name__], what + " quick")
    vague = cls()
    vague.extension = None
    expect(ctx, lambda: vague.run(path), errors.TimeDataReadError, [path], f"{cls.__name__} without extension")
    # processed data
    kind = rng.choice(["dec", "win", "spec"])
    reader = {"dec": DecimatedDataReader, "win": WindowedDataReader, "spec": SpectraDataReader}[kind]()
    none = base / "not there"
    for only in (True, False):
        expect(ctx, lambda: reader.run(none, metadata_only=only), errors.ReadError, [none], f"{kind} absent")
    folder = base / "empty"
    folder.mkdir()
    expect(ctx, lambda: reader.run(folder), (errors.MetadataReadError, errors.ReadError, FileNotFoundError), [folder], f"{kind} empty")
    # the other way: not writing over existing data
    data = any_data(ctx, kind, n_levels=1)
    used = base / "used"
    used.mkdir()
    (used / "x").write_text("x")
    writer = {"dec": DecimatedDataWriter, "win": WindowedDataWriter, "spec": SpectraDataWriter}[kind](overwrite=False)
    expect(ctx, lambda: writer.run(used, data), errors.WriteError, [used], f"{kind} not overwriting")
    writer = rng.choice([TimeWriterAscii, TimeWriterNumpy])(overwrite=False)
    expect(ctx, lambda: writer.run(used, td), errors.WriteError, [used], f"{writer.name} not overwriting")


@scenario("C29", "processes", quick=120)
def processes(ctx):
    """Processes which cannot be run on the data name themselves and the value at fault"""
    rng = ctx.rng
    fs = rng.choice([10.0, 128.0, 0.5, 4096.0])
    td = build.time_data(rng, ctx.np, fs=fs, n=300)
    high = round(fs * rng.uniform(0.51, 3), 3)
    low = round(fs * 0.1, 4)
    procs = [
        (LowPass(cutoff=high), [high]), (HighPass(cutoff=high), [high]), (BandPass(cutoff_low=low, cutoff_high=high), [high]),
        (BandPass(cutoff_low=low, cutoff_high=low / 2), []), (Notch(notch=high), [high]), (Resample(new_fs=round(fs * 1.5, 3)), []),
    ]
    proc, names = rng.choice(procs[:5])
    ctx.case((repr(proc), fs))
    expect(ctx, lambda: proc.run(td), errors.ProcessRunError, [proc.name] + names, f"{proc!r} at {fs}")
    chan = rng.choice(["Zz", "ex", ""])
    expect(ctx, lambda: td[chan], errors.ChannelNotFoundError, [chan] + td.metadata.chans, "channel")
    what = "calibration"
    base = ctx.scratch()
    cls = rng.choice([SensorCalibrationJSON, SensorCalibrationTXT])
    bad = base / "x.json"
    bad.write_text(rng.choice(["no calibration", "{}", "[1, 2", ""]))
    expect(
        ctx, lambda: cls().read_calibration_data(bad, td.metadata.chans_metadata[td.metadata.chans[0]]),
        Exception, [], what,
    )


@scenario("C29", "projects", quick=60)
def projects(ctx):
    """Projects, sites and measurements which are not there"""
    rng = ctx.rng
    base = ctx.scratch()
    path = base / rng.choice(["proj", "p q"])
    how = rng.choice(["absent", "empty", "no-time", "bad-metadata"])
    info = {"ref_time": "2020-01-01"}
    if how == "empty":
        path.mkdir()
    elif how != "absent":
        letsgo.new(path, info)
        if how == "no-time":
            (path / "time").rmdir()
        else:
            (path / "resistics.json").write_text("{")
    ctx.case((how, path.name, ctx.index))
    kinds = Exception if how == "bad-metadata" else (errors.ProjectLoadError, FileNotFoundError)
    expect(ctx, lambda: letsgo.load(path), kinds, [] if how == "bad-metadata" else [path], how)
    good = base / "good"
    letsgo.new(good, info)
    expect(ctx, lambda: letsgo.new(good, info), errors.ProjectCreateError, [good], "existing project")
    mine = base / "mine"
    letsgo.new(mine, {**info, "description": "kept"})
    for sub in list(mine.iterdir()):
        if sub.is_dir() and rng.random() < 0.6:
            sub.rmdir()
    before = (mine / "resistics.json").read_text()
    expect(ctx, lambda: letsgo.new(mine, info), errors.ProjectCreateError, [mine], "existing project without folders")
    ctx.check((mine / "resistics.json").read_text() == before, "project-kept", "a project created over another")
    site, meas = rng.choice(["s1", "MT 01"]), rng.choice(["m1", "m 2"])
    td = build.time_data(rng, ctx.np, n=20)
    build.write_npy(good / "time" / site / meas, td.metadata, td.data)
    env = letsgo.load(good)
    proj = env.proj
    wrong = rng.choice(["nowhere", site + "x", site[:-1], ""])
    expect(ctx, lambda: proj[wrong], errors.SiteNotFoundError, [wrong], "site")
    expect(ctx, lambda: proj.get_site(wrong), errors.SiteNotFoundError, [wrong], "site")
    expect(ctx, lambda: proj[site][wrong], errors.MeasurementNotFoundError, [wrong, site], "measurement")
    expect(ctx, lambda: proj[site].get_measurement(wrong), errors.MeasurementNotFoundError, [wrong, site], "measurement")
    # every step which needs an earlier one says so, instead of giving a result
    expect(ctx, lambda: letsgo.process_evals_to_tf(env, td.metadata.fs, site), Exception, [], "solving before processing")
    ctx.check(not list((good / "results").rglob("*.json")), "no-results", "a solution was written")


@scenario("C29", "texts", quick=40)
def texts(ctx):
    """Every error of the package can be shown, and shows what it was given"""
    rng = ctx.rng
    p, q = Path(rng.choice(["/a/b", "x y", "é"])), Path(rng.choice(["c.json", "k"]))
    msg = rng.choice(["went wrong", "", "50% {x}", "é\n2"])
    made = [
        (errors.PathError(p), [p]), (errors.PathNotFoundError(p), [p]), (errors.NotFileError(p), [p]),
        (errors.NotDirectoryError(p), [p]), (errors.WriteError(p, msg), [p, msg]), (errors.WriteError(p), [p]),
        (errors.ReadError(p, msg), [p, msg]), (errors.ReadError(p), [p]), (errors.MetadataReadError(p, msg), [p, msg]),
        (errors.MetadataReadError(p), [p]), (errors.ProjectPathError(p, msg), [p, msg]),
        (errors.ProjectCreateError(p, msg), [p, msg]), (errors.ProjectLoadError(p, msg), [p, msg]),
        (errors.MeasurementNotFoundError("s1", "m1"), ["s1", "m1"]), (errors.SiteNotFoundError("s1"), ["s1"]),
        (errors.TimeDataReadError(p, msg), [p, msg]), (errors.ChannelNotFoundError("Ex", ["Hx", "Hy"]), ["Ex", "Hx", "Hy"]),
        (errors.ChannelNotFoundError("Ex", []), ["Ex"]), (errors.CalibrationFileNotFound(p, q, msg), [p, q, msg]),
        (errors.CalibrationFileNotFound(p, [q, p]), [p]), (errors.CalibrationFileReadError(q, msg), [q, msg]),
        (errors.CalibrationFileReadError(q), [q]), (errors.ProcessRunError("LowPass", msg), ["LowPass", msg]),
    ]
    ctx.case((str(p), str(q), msg, ctx.index))
    for error, names in made:
        ctx.check(isinstance(error, Exception), "error-kind", repr(error))

        def again():
            raise error

        expect(ctx, again, type(error), names, type(error).__name__)
