"""C24: writers leave existing data alone unless overwriting"""
import os

import numpy as np

from resistics.errors import WriteError
from resistics.time import TimeReaderAscii, TimeReaderNumpy, TimeWriterAscii, TimeWriterNumpy
from rt import build
from rt.checks.c25_files import IO, any_data, equal_bits
from rt.core import scenario

KINDS = ["npy", "ascii", "dec", "win", "spec"]


def writer_reader(kind):
    if kind == "npy":
        return TimeWriterNumpy, lambda: TimeReaderNumpy()
    if kind == "ascii":
        return TimeWriterAscii, lambda: TimeReaderAscii(extension=".ascii")
    return IO[kind][0], lambda: IO[kind][1]()


def make(ctx, kind):
    if kind in ("npy", "ascii"):
        n = ctx.rng.choice([2, 50, 300, 1200])
        td = build.time_data(ctx.rng, ctx.np, n=n)
        if kind == "ascii":
            td.data = np.round(td.data, 4)
        return td
    return any_data(ctx, kind, n_levels=ctx.rng.choice([1, 2, 3, 11]))


def tree(path):
    """Everything below a path: contents, kinds and times of change"""
    found = {}
    for root, dirs, files in os.walk(str(path)):
        for name in dirs + files:
            full = os.path.join(root, name)
            stat = os.lstat(full)
            content = None
            if os.path.isfile(full):
                with open(full, "rb") as f:
                    content = f.read()
            found[os.path.relpath(full, str(path))] = (stat.st_mtime_ns, stat.st_ino, stat.st_mode, content)
    return found


def check_readable(ctx, kind, path, data, what):
    reader = writer_reader(kind)[1]()
    with ctx.no_error("read-back", what):
        back = reader.run(path)
    meta, want = back.metadata.dict(), data.metadata.dict()
    for key in set(want) - {"file_info", "history", "chans_metadata"}:
        ctx.check(meta[key] == want[key], "read-metadata", lambda: f"{what} {key}: {meta[key]} expected {want[key]}")
    ctx.check(set(meta["chans_metadata"]) == set(want["chans_metadata"]), "read-channels", what)
    if kind == "npy":
        ctx.check(equal_bits(back.data, np.ascontiguousarray(data.data)), "read-data", what)
    elif kind == "ascii":
        ctx.close_to(back.data, data.data, "read-data", what, rtol=1e-5, atol=1e-6)
    else:
        ctx.require(sorted(back.data) == sorted(data.data), "read-levels", f"{what}: {sorted(back.data)}")
        for level in data.data:
            ctx.check(equal_bits(back.data[level], data.data[level]), "read-data", f"{what} level {level}")
    ctx.observe("read_back")


@scenario("C24", "protected", quick=150)
def protected(ctx):
    """A sequence of writes to one target, with overwriting on and off"""
    rng = ctx.rng
    base = ctx.scratch()
    target = base / rng.choice(["a", "a/b/c", "with space", "x.npz"])
    state = rng.choice(["absent", "absent", "foreign", "same", "other-kind", "half", "nested", "link", "file", "hidden"])
    kind = rng.choice(KINDS)
    data = make(ctx, kind)
    current = None
    what = f"{kind} {target.name} {state}"
    ctx.case((what, data.metadata.chans, str(data.metadata.first_time)))
    if state in ("foreign", "nested", "hidden"):
        target.mkdir(parents=True)
        name = {"foreign": "notes.txt", "nested": "sub", "hidden": ".keep"}[state]
        if state == "nested":
            (target / name).mkdir()
            (target / name / "x").write_text("x")
        else:
            (target / name).write_text("do not lose")
    elif state == "same":
        current = (kind, make(ctx, kind))
        writer_reader(kind)[0]().run(target, current[1])
    elif state == "other-kind":
        other = rng.choice([k for k in KINDS if k != kind])
        current = (other, make(ctx, other))
        writer_reader(other)[0]().run(target, current[1])
    elif state == "half":
        # what a crash of an earlier run left behind
        writer_reader(kind)[0]().run(target, make(ctx, kind))
        victim = rng.choice(sorted(target.iterdir()))
        victim.unlink()
    elif state == "link":
        real = base / "real"
        current = (kind, make(ctx, kind))
        writer_reader(kind)[0]().run(real, current[1])
        target.parent.mkdir(parents=True, exist_ok=True)
        os.symlink(str(real), str(target))
    elif state == "file":
        target.parent.mkdir(parents=True, exist_ok=True)
        target.write_text("a file, not a directory")

    for step in range(rng.randint(1, 4)):
        overwrite = rng.random() < 0.4
        new_kind = kind if rng.random() < 0.7 else rng.choice(KINDS)
        new = make(ctx, new_kind)
        writer = writer_reader(new_kind)[0](overwrite=overwrite)
        w = f"{what} step {step} {new_kind} overwrite={overwrite}"
        before = tree(base)
        snap = build.snapshot(new)
        existed = target.exists() and (not target.is_dir() or any(target.iterdir()))
        if existed and not overwrite:
            ctx.raises(lambda: writer.run(target, new), WriteError, "refused", w)
            after = tree(base)
            ctx.check(after == before, "left-alone", lambda: f"{w}: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")
            ctx.check(build.snapshot(new) == snap, "data-unchanged", w)
            if current is not None and current[0] is not None and state != "file":
                check_readable(ctx, current[0], target, current[1], w + " earlier data")
            ctx.observe("writes_refused")
        elif state == "file" and not target.is_dir():
            ctx.raises(lambda: writer.run(target, new), Exception, "file-target", w)
            ctx.check(target.read_text() == "a file, not a directory", "file-kept", w)
        else:
            with ctx.no_error("write", w):
                writer.run(target, new)
            current = (new_kind, new)
            check_readable(ctx, new_kind, target, new, w)
            others = {k: v for k, v in before.items() if not k.startswith(target.name)}
            after = tree(base)
            outside = {k for k, v in others.items() if v[3] is not None and after.get(k, (0, 0, 0, None))[3] != v[3]}
            if state == "link":
                outside = {k for k in outside if not k.startswith("real")}
            inside = str(target.relative_to(base))
            outside = {k for k in outside if not k.startswith(inside)}
            ctx.check(not outside, "outside-target", f"{w}: {outside}")
            ctx.observe("writes_done")


@scenario("C24", "unwritable", quick=20)
def unwritable(ctx):
    """Writers given a target below a file fail and leave that file"""
    rng = ctx.rng
    base = ctx.scratch()
    (base / "f").write_text("content")
    kind = rng.choice(KINDS)
    data = make(ctx, kind)
    ctx.case((kind, data.metadata.chans, str(data.metadata.first_time)))
    before = tree(base)
    writer = writer_reader(kind)[0](overwrite=rng.random() < 0.5)
    ctx.raises(lambda: writer.run(base / "f" / "x", data), Exception, "below-file", kind)
    ctx.check(tree(base) == before, "below-file-kept", kind)


@scenario("C24", "shrinking", quick=60)
def shrinking(ctx):
    """Overwriting more data by less: nothing of the old data can be read any more"""
    rng = ctx.rng
    kind = rng.choice(["dec", "win", "spec", "npy", "ascii"])
    path = ctx.scratch() / "t"
    if kind in ("npy", "ascii"):
        big = build.time_data(rng, ctx.np, n=3000, chans=build.CHANS)
        small = build.time_data(rng, ctx.np, n=20, chans=rng.choice([["Hx"], ["Hx", "Ex"], build.CHANS]))
        big.data, small.data = np.round(big.data, 4), np.round(small.data, 4)
    else:
        big, small = (any_data(ctx, kind, n_levels=n) for n in (12, 2))
    ctx.case((kind, str(small.metadata.first_time), small.metadata.chans))
    order = [big, small] if rng.random() < 0.7 else [small, big]
    for data in order:
        writer_reader(kind)[0](overwrite=True).run(path, data)
        check_readable(ctx, kind, path, data, kind)
        if kind == "ascii":
            lines = (path / "hx.ascii").read_text().split()
            ctx.check(len(lines) == data.metadata.n_samples, "ascii-lines", f"{len(lines)} of {data.metadata.n_samples}")
