"""C19: gathered data hold the windows every site has, row by row the same window"""
from pathlib import Path

import numpy as np

from resistics.common import get_record
from resistics.decimate import DecimationParameters
from resistics.gather import ProjectGather, QuickGather, Selector, get_site_wins
from resistics.project import Measurement, Project, ProjectMetadata, Site, get_meas_evals_path
from resistics.spectra import SpectraData, SpectraDataWriter, SpectraLevelMetadata, SpectraMetadata
from resistics.time import ChanMetadata, TimeReaderNumpy
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction
from rt import build
from rt.core import scenario
from rt.util import make_time

ALL = ["Ex", "Ey", "Hx", "Hy", "Hz", "Bx"]


def code(site, meas, level, win, chan, freq):
    """A spectral value that tells where it comes from"""
    value = ((((site * 8 + meas) * 8 + level) * 4096 + win) * 8 + ALL.index(chan)) * 16 + freq
    return complex(value, value + 0.5)


def decode(value):
    n = int(value.real)
    ok = value.imag == n + 0.5 and value.real == n
    n, freq = divmod(n, 16)
    n, chan = divmod(n, 8)
    n, win = divmod(n, 4096)
    n, level = divmod(n, 8)
    site, meas = divmod(n, 8)
    return ok, site, meas, level, win, ALL[chan % len(ALL)], freq


def spectra(rng, isite, imeas, fs, layout, chans, per_level, first, params):
    """Spectra at evaluation frequencies, layout: (index offset, number of windows) per level"""
    data, levels = {}, []
    for level, (offset, n_wins) in enumerate(layout):
        arr = np.empty((n_wins, len(chans), per_level), dtype=np.complex128)
        for w in range(n_wins):
            for c, chan in enumerate(chans):
                for f in range(per_level):
                    arr[w, c, f] = code(isite, imeas, level, offset + w, chan, f)
        data[level] = arr
        levels.append(SpectraLevelMetadata(
            fs=params.dec_fs[level], n_wins=n_wins, win_size=64, olap_size=16, index_offset=offset,
            n_freqs=per_level, freqs=params.get_eval_freqs(level),
        ))
    meta = SpectraMetadata(
        fs=[lm.fs for lm in levels], chans=chans, n_levels=len(levels), first_time=first, last_time=first,
        chans_metadata={c: ChanMetadata(name=c, data_files=["d"]) for c in chans},
        levels_metadata=levels, ref_time=first, system=f"sys{isite}", serial=str(imeas),
        easting=100.0 * isite, northing=isite + 0.5 + 10 * imeas, elevation=isite - 40.5,
        wgs84_latitude=isite + 0.25, wgs84_longitude=-isite - 0.125 * imeas,
    )
    meta.history.add_record(get_record({"name": "made", "by": f"{isite} {imeas}"}, "made"))
    return SpectraData(meta, data)


def make_params(rng, fs, n_levels, per_level):
    freqs, f = [], fs / 4.2
    for _ in range(n_levels * per_level):
        freqs.append(f)
        f /= rng.uniform(1.2, 1.9)
    return DecimationParameters(
        eval_freqs=freqs, dec_factors=[2 ** i for i in range(n_levels)],
        dec_increments=[1] + [2] * (n_levels - 1), dec_fs=[fs / 2 ** i for i in range(n_levels)],
        fs=fs, n_levels=n_levels, per_level=per_level, min_samples=10,
    )


def random_tf(rng, chans):
    r = rng.random()
    if r < 0.3 and {"Ex", "Ey", "Hx", "Hy"} <= set(chans):
        return ImpedanceTensor()
    if r < 0.4 and {"Hz", "Hx", "Hy"} <= set(chans):
        return Tipper()
    cross = rng.choice([None, rng.sample(chans, rng.randint(1, len(chans)))])
    return TransferFunction(
        out_chans=rng.sample(chans, rng.randint(1, len(chans))), in_chans=rng.sample(chans, rng.randint(1, len(chans))),
        cross_chans=cross,
    )


class World:
    """A project with spectra files; keeps what is in it"""

    def __init__(self, ctx):
        rng = ctx.rng
        self.path = ctx.scratch()
        self.fs = float(rng.choice([1, 32, 128, 0.25]))
        self.n_levels, self.per_level = rng.randint(1, 4), rng.randint(1, 3)
        self.params = make_params(rng, self.fs, self.n_levels, self.per_level)
        self.config = rng.choice(["default", "other one"])
        self.common = rng.sample(ALL, rng.randint(2, 6))
        n_sites = rng.randint(1, 3)
        names = rng.sample(["site1", "site10", "Remote", "a b", "Z", "2"], n_sites)
        self.names = names
        first = make_time(rng)
        # where windows can be: sites share this stretch at each level
        span = [rng.choice([6, 20, 40, 300]) for _ in range(self.n_levels)]
        base = [rng.choice([0, 3, 1000]) for _ in range(self.n_levels)]
        self.wins, self.metas = {}, {}
        sites = {}
        for isite, name in enumerate(names):
            n_meas = rng.choice([1, 1, 2, 3, 4])
            order = rng.sample(["m1", "m2", "run", "A", "x y"], n_meas)
            self.wins[name], self.metas[name], measurements = {}, {}, {}
            deep = rng.randrange(n_meas)
            for imeas, meas in enumerate(order):
                depth = self.n_levels if imeas == deep and rng.random() < 0.8 else rng.randint(1, self.n_levels)
                layout = []
                for level in range(depth):
                    a = base[level] + rng.randint(0, span[level] - 1)
                    b = base[level] + rng.randint(0, span[level] - 1)
                    a, b = min(a, b), max(a, b)
                    if imeas == deep:
                        # the middle is shared, so that there is something to gather
                        mid = base[level] + span[level] // 2
                        a, b = min(a, mid), max(b, mid)
                    layout.append((a, b - a + 1))
                chans = list(self.common) + [c for c in ALL if c not in self.common and rng.random() < 0.3]
                rng.shuffle(chans)
                other = rng.random() < 0.12 and imeas != deep
                fs = self.fs * 2 if other else self.fs
                sd = spectra(rng, isite, imeas, fs, layout, chans, self.per_level, first, self.params)
                missing = not other and imeas != deep and rng.random() < 0.12
                if not missing:
                    SpectraDataWriter().run(get_meas_evals_path(self.path, name, meas, self.config), sd)
                if rng.random() < 0.2:
                    # another configuration must not be mixed in
                    wrong = spectra(rng, 7, 7, fs, layout, chans, self.per_level, first, self.params)
                    SpectraDataWriter().run(get_meas_evals_path(self.path, name, meas, "third"), wrong)
                meta = build.time_metadata(fs, 1000, first, chans)
                measurements[meas] = Measurement(
                    site_name=name, dir_path=self.path / "time" / name / meas, metadata=meta, reader=TimeReaderNumpy(),
                )
                if not other and not missing:
                    self.metas[name][meas] = (imeas, sd.metadata)
                    for level, (offset, n) in enumerate(layout):
                        for w in range(offset, offset + n):
                            self.wins[name].setdefault(level, {}).setdefault(w, set()).add(meas)
            sites[name] = Site(
                dir_path=self.path / "time" / name, measurements=measurements, begin_time=first, end_time=first,
            )
        self.proj = Project(
            dir_path=self.path, begin_time=first, end_time=first, metadata=ProjectMetadata(ref_time=first), sites=sites,
        )

    def shared(self, names, level):
        sets = [set(self.wins[n].get(level, {})) for n in names]
        return set.intersection(*sets)

    def depth(self, names):
        return min(max(m.n_levels for _, m in self.metas[n].values()) for n in names)


@scenario("C19", "project_gather", quick=160, timeout=240)
def project_gather(ctx):
    rng = ctx.rng
    world = World(ctx)
    tf = random_tf(rng, world.common)
    out = rng.choice(world.names)
    in_name = rng.choice([None] + world.names)
    cross = rng.choice([None] + world.names)
    used = [n for n in (out, in_name, cross) if n is not None]
    rng.shuffle(used)
    what = (
        f"{ {n: list(m) for n, m in world.metas.items()} } levels {world.n_levels}x{world.per_level} "
        f"out {out} in {in_name} cross {cross} {tf.out_chans}<-{tf.in_chans} x{tf.cross_chans}"
    )
    ctx.case((what, {n: {lv: sorted(w) for lv, w in v.items()} for n, v in world.wins.items()}), what)
    with ctx.no_error("select", what):
        selection = Selector().run(world.config, world.proj, used, world.params)
    depth = world.depth(used)
    ctx.require(selection.n_levels == depth, "selection-levels", f"{what}: {selection.n_levels} expected {depth}")
    for level in range(depth):
        shared = world.shared(used, level)
        for f in range(world.per_level):
            n = selection.get_n_wins(level, f)
            ctx.check(n == len(shared), "selection-count", f"{what} level {level}: {n} of {len(shared)}")
            table = selection.get_eval_wins(level, f)
            ctx.check(set(table.index) == shared and len(table) == len(shared), "selection-windows", f"{what} level {level}")
            ctx.observe("windows_selected", len(table))
            for w, row in table.iterrows():
                ok = all(row[n] in world.wins[n][level][w] for n in set(used))
                ctx.check(ok, "selection-measurement", f"{what} level {level} window {w}: {dict(row)}")
    for n in set(used):
        got = selection.get_measurements(world.proj[n])
        ctx.check(set(got) <= set(world.metas[n]) and len(got) == len(set(got)), "selection-measurements", f"{what}: {got}")
    freqs = [f for level in range(depth) for f in world.params.get_eval_freqs(level)]
    ctx.check(selection.get_eval_freqs() == freqs, "selection-freqs", what)
    ctx.check(selection.get_n_evals() == len(freqs), "selection-evals", what)
    ctx.raises(lambda: selection.get_n_wins(depth, 0), ValueError, "selection-level-range", what)

    with ctx.no_error("gather", what):
        gathered = ProjectGather().run(
            world.config, world.proj, selection, tf, out_name=out, in_name=in_name, cross_name=cross,
        )
    in_site = in_name or out
    cross_site = cross or in_site
    parts = {
        "out": (gathered.out_data, out, tf.out_chans), "in": (gathered.in_data, in_site, tf.in_chans),
        "cross": (gathered.cross_data, cross_site, tf.cross_chans),
    }
    for ieval in range(len(freqs)):
        level, f = divmod(ieval, world.per_level)
        shared = world.shared(used, level)
        rows = {}
        for part, (combined, site, chans) in parts.items():
            arr = combined.data[ieval]
            w = f"{what} {part} eval {ieval}"
            ctx.require(arr.shape == (len(shared), len(chans)), "gathered-shape", f"{w}: {arr.shape}, {len(shared)} windows")
            wins, seen = [], []
            for row in arr:
                where = [decode(v) for v in row]
                ctx.require(all(x[0] for x in where), "gathered-value", f"{w}: {row}")
                ctx.require([x[5] for x in where] == chans, "gathered-channels", f"{w}: {[x[5] for x in where]}")
                ctx.require(len({x[1:5] for x in where}) == 1, "gathered-row", f"{w}: {where}")
                _, isite, imeas, lv, win, _, freq = where[0]
                ctx.check(world.names[isite] == site, "gathered-site", f"{w}: {world.names[isite]} expected {site}")
                ctx.check(lv == level and freq == f, "gathered-level", f"{w}: level {lv} freq {freq}")
                known = [world.metas[site][m][0] for m in world.wins[site][level].get(win, ())]
                ctx.check(imeas in known, "gathered-measurement", f"{w}: window {win} from {imeas}")
                wins.append(win)
                seen.append((win, imeas))
            ctx.check(len(set(wins)) == len(wins) and set(wins) == shared, "gathered-windows", f"{w}: {wins} expected {sorted(shared)}")
            rows[part] = wins
            rows.setdefault(site, seen)
            ctx.check(rows[site] == seen, "gathered-same-source", f"{w}: one window from two recordings")
            ctx.observe("rows_decoded", len(arr))
        ctx.check(rows["out"] == rows["in"] == rows["cross"], "rows-aligned", f"{what} eval {ieval}: {rows}")
    for part, (combined, site, chans) in parts.items():
        meta = combined.metadata
        w = f"{what} {part}"
        ctx.check(meta.site_name == site, "meta-site", w)
        ctx.check(meta.chans == chans, "meta-chans", w)
        ctx.check(meta.eval_freqs == freqs and meta.n_evals == len(freqs), "meta-freqs", f"{w}: {meta.eval_freqs}")
        ctx.check(meta.fs == world.fs, "meta-fs", w)
        ctx.check(meta.system == f"sys{world.names.index(site)}" and meta.easting == 100.0 * world.names.index(site), "meta-location", w)
        fields = ("system", "serial", "wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation")
        where = tuple(getattr(meta, k) for k in fields)
        known = [tuple(getattr(world.metas[site][m][1], k) for k in fields) for m in meta.measurements]
        ctx.check(where in known, "meta-location", f"{w}: {where} is not one of {known}")
        ctx.check(sorted(meta.measurements) == sorted(meta.histories), "meta-measurements", w)
        used_meas = set(meta.measurements)
        ctx.check(used_meas == set(selection.get_measurements(world.proj[site])), "meta-measurements", w)
        for meas in used_meas:
            imeas, smeta = world.metas[site][meas]
            creator = meta.histories[meas].records[0].creator
            ctx.check(creator["by"] == f"{world.names.index(site)} {imeas}", "meta-history", f"{w}: {creator}")


@scenario("C19", "unprocessed", quick=15)
def unprocessed(ctx):
    """Sites without evaluation data are an error, not an empty result"""
    rng = ctx.rng
    world = World(ctx)
    ctx.case((world.names, world.config))
    used = list(world.names)
    for name in used:
        ctx.raises(lambda: get_site_wins("absent", world.proj, name, world.fs), ValueError, "no-evals", name)
        ctx.raises(lambda: get_site_wins(world.config, world.proj, name, world.fs * 8), ValueError, "no-fs", name)
    ctx.raises(lambda: Selector().run("absent", world.proj, used, world.params), ValueError, "no-evals")
    other = make_params(rng, world.fs * 8, world.n_levels, world.per_level)
    ctx.raises(lambda: Selector().run(world.config, world.proj, used, other), ValueError, "no-fs")
    ctx.raises(lambda: Selector().run(world.config, world.proj, used + ["nowhere"], world.params), Exception, "no-site")


@scenario("C19", "quick_gather", quick=80)
def quick_gather(ctx):
    rng = ctx.rng
    n_levels, per_level = rng.randint(1, 5), rng.randint(1, 5)
    params = make_params(rng, float(rng.choice([1, 64, 0.1])), n_levels, per_level)
    depth = rng.randint(1, n_levels)
    chans = rng.sample(ALL, rng.randint(1, 6))
    layout = [(rng.choice([0, 5, 100]), rng.randint(1, 12)) for _ in range(depth)]
    sd = spectra(rng, 1, 2, params.fs, layout, chans, per_level, make_time(rng), params)
    tf = random_tf(rng, chans)
    what = f"{depth} of {n_levels}x{per_level} {chans} {layout} {tf.out_chans}<-{tf.in_chans} x{tf.cross_chans}"
    ctx.case(what)
    with ctx.no_error("quick-gather", what):
        gathered = QuickGather().run(Path("some/meas"), params, tf, sd)
    freqs = [f for level in range(depth) for f in params.get_eval_freqs(level)]
    where = {k: getattr(sd.metadata, k) for k in ("system", "serial", "wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation")}
    for part, combined, names in (
        ("out", gathered.out_data, tf.out_chans), ("in", gathered.in_data, tf.in_chans), ("cross", gathered.cross_data, tf.cross_chans),
    ):
        w = f"{what} {part}"
        meta = combined.metadata
        ctx.check(meta.eval_freqs == freqs and meta.n_evals == len(freqs), "meta-freqs", f"{w}: {meta.eval_freqs}")
        ctx.check(meta.chans == names and meta.fs == params.fs, "meta-chans", w)
        got = {k: getattr(meta, k) for k in where}
        ctx.check(got == where, "meta-location", f"{w}: {got} expected {where}")
        ctx.require(sorted(combined.data) == list(range(len(freqs))), "eval-keys", f"{w}: {sorted(combined.data)}")
        for ieval in range(len(freqs)):
            level, f = divmod(ieval, per_level)
            offset, n_wins = layout[level]
            want = [[code(1, 2, level, offset + k, c, f) for c in names] for k in range(n_wins)]
            ctx.equal(combined.data[ieval], want, "quick-values", f"{w} eval {ieval}")
            ctx.observe("rows_decoded", n_wins)
