"""C28: a lookup gives exactly what was asked for, or an error"""
import numpy as np

from resistics.common import check_chan, get_chan_type, is_electric, is_magnetic
from resistics.errors import ChannelNotFoundError
from resistics.sampling import to_timedelta
from resistics.time import ChanMetadata
from rt import build
from rt.checks.c15_fourier import win_data
from rt.checks.c16_evals import spec_data
from rt.checks.c25_files import any_data
from rt.core import scenario
from rt.util import diff_seconds, make_time

ELECTRIC = ["Ex", "Ey", "E1", "E2", "E3", "E4"]
MAGNETIC = ["Hx", "Hy", "Hz", "Bx", "By", "Bz"]


def absent(rng, chans):
    """A name close to those there are, but not one of them"""
    base = rng.choice(chans)
    names = [base.lower(), base.upper(), base + " ", base[:-1], "", "E", "X", base + base, "0", base[::-1]]
    return rng.choice([n for n in names if n not in chans])


@scenario("C28", "channels", quick=250)
def channels(ctx):
    """Time data and their metadata by channel and by type of channel"""
    rng, nprs = ctx.rng, ctx.np
    names = rng.sample(ELECTRIC[:2] + MAGNETIC[:3] + ["temp", "aux", "E1", "Bz", "ex"], rng.randint(1, 6))
    types = {}
    cms = {}
    for c in names:
        known = "electric" if c in ("Ex", "Ey", "E1") else "magnetic" if c in MAGNETIC else None
        forced = rng.choice(["electric", "magnetic", "unknown", "Electric", ""]) if rng.random() < 0.3 else None
        if known is None and forced is None or c == "E1" and forced is None or c == "Bz" and forced is None:
            forced = rng.choice(["electric", "magnetic", "other"])
        types[c] = known if forced is None else forced
        cms[c] = ChanMetadata(name=c, data_files=["d"], **({} if forced is None else {"chan_type": forced}))
    n = rng.randint(2, 40)
    td = build.time_data(rng, nprs, n=n, chans=["Ex"])
    order = list(names)
    rng.shuffle(order)  # the dictionary need not be in the order of the channels
    raw = dict(td.metadata.dict(), chans=names, n_chans=len(names), chans_metadata={c: cms[c] for c in order})
    meta = type(td.metadata)(**raw)
    data = nprs.randn(len(names), n).astype(rng.choice([np.float32, np.float64]))
    td = type(td)(meta, data.copy())
    what = f"{types}"
    ctx.case((what, data.tobytes()))
    for c in names:
        ctx.check(meta[c].name == c and meta[c].chan_type == types[c], "chan-metadata", lambda: f"{what}: {meta[c]}")
        ctx.check(meta[c].electric() is (types[c] == "electric"), "chan-type", f"{what} {c}")
        ctx.check(meta[c].magnetic() is (types[c] == "magnetic"), "chan-type", f"{what} {c}")
        ctx.equal(td[c], data[names.index(c)], "chan-data", f"{what} {c}")
        ctx.equal(td.get_chan(c), data[names.index(c)], "chan-data", f"{what} {c}")
        ctx.check(td.get_chan_index(c) == names.index(c), "chan-index", f"{what} {c}")
    for t in sorted(set(types.values())) + ["nothing", "electrical"]:
        want = [c for c in names if types[c] == t]
        ctx.check(meta.get_chans_with_type(t) == want, "chans-of-type", f"{what} {t}: {meta.get_chans_with_type(t)}")
    ctx.check(meta.get_chan_types() == sorted(set(types.values())), "chan-types", f"{what}: {meta.get_chan_types()}")
    elec, mag = ([c for c in names if types[c] == t] for t in ("electric", "magnetic"))
    ctx.check(meta.get_electric_chans() == elec and meta.get_magnetic_chans() == mag, "chans-of-type", what)
    ctx.check(meta.any_electric() is bool(elec) and meta.any_magnetic() is bool(mag), "any-of-type", what)
    ctx.check(meta.n_chans == len(names), "n-chans", f"{meta.n_chans}")
    ctx.check(meta.dt == 1 / meta.fs and meta.nyquist == meta.fs / 2, "derived", f"{meta.dt} {meta.nyquist}")
    ctx.check(meta.duration == meta.last_time - meta.first_time, "derived", f"{meta.duration}")
    # assigned values are validated as those given at the start are
    cm = meta[names[0]].copy(deep=True)
    cm.gain1, cm.serial, cm.data_files = "2.5", 12, "a.txt"
    ctx.check(cm.gain1 == 2.5 and cm.serial == "12" and cm.data_files == ["a.txt"], "assigned", f"{cm!r}")
    ctx.raises(lambda: setattr(cm, "gain2", "much"), ValueError, "assigned-wrong", names[0])
    ctx.check(cm.gain2 == meta[names[0]].gain2, "assigned-wrong", f"{cm!r}")
    bad = absent(rng, names)
    for fnc in (td.get_chan, td.__getitem__, meta.__getitem__, lambda c: check_chan(c, names), lambda c: td.set_chan(c, data[0])):
        ctx.raises(lambda: fnc(bad), ChannelNotFoundError, "absent-channel", f"{bad!r} of {names}")
    ctx.raises(lambda: td.get_chan_index(bad), Exception, "absent-channel", f"{bad!r} of {names}")
    ctx.check(check_chan(names[-1], names) is True, "present-channel", names[-1])
    # setting a channel sets this one only, and keeps size and type
    c = rng.choice(names)
    new = nprs.randn(n).astype(data.dtype)
    if rng.random() < 0.5:
        td.set_chan(c, new)
    else:
        td[c] = new
    want = data.copy()
    want[names.index(c)] = new
    ctx.equal(td.data, want, "set-channel", f"{what} {c}")
    wider = {np.dtype(np.float64): np.float32, np.dtype(np.float32): np.float64}.get(data.dtype, np.float16)
    for wrong in (new[:-1], np.append(new, 1).astype(data.dtype), new.astype(np.int64), new.astype(np.complex128), new.astype(wider)):
        if wrong.size == n and wrong.dtype == data.dtype:
            continue
        ctx.raises(lambda: td.set_chan(c, wrong), ValueError, "set-wrong", f"{wrong.dtype} {wrong.shape}")
    ctx.equal(td.data, want, "set-channel", f"{what} {c} after wrong ones")


@scenario("C28", "names", quick=60)
def names(ctx):
    """The type of a channel follows from its name where that is a known one"""
    rng = ctx.rng
    name = rng.choice(ELECTRIC + MAGNETIC + ["ex", "HX", "E", "H", "", "temp", "Ez", "Exx", "Hxy", " Ex", "B1"])
    from resistics.common import ELECTRIC_CHANS, MAGNETIC_CHANS

    elec, mag = name in ELECTRIC_CHANS, name in MAGNETIC_CHANS
    ctx.case((name, ctx.index))
    for c in ("Ex", "Ey"):
        ctx.check(c in ELECTRIC_CHANS and c not in MAGNETIC_CHANS, "standard-names", c)
    for c in ("Hx", "Hy", "Hz"):
        ctx.check(c in MAGNETIC_CHANS and c not in ELECTRIC_CHANS, "standard-names", c)
    ctx.check(is_electric(name) is elec and is_magnetic(name) is mag, "type-of-name", name)
    if elec or mag:
        ctx.check(get_chan_type(name) == ("electric" if elec else "magnetic"), "type-of-name", name)
        ctx.check(ChanMetadata(name=name, data_files=["d"]).chan_type == get_chan_type(name), "type-of-name", name)
    else:
        ctx.raises(lambda: get_chan_type(name), ValueError, "unknown-name", name)
        ctx.raises(lambda: ChanMetadata(name=name, data_files=["d"]), ValueError, "unknown-name", name)
        ctx.check(ChanMetadata(name=name, data_files=["d"], chan_type="unknown").chan_type == "unknown", "given-type", name)
    one = ChanMetadata(name="Ex", data_files="a.txt")
    ctx.check(one.data_files == ["a.txt"], "data-files", f"{one.data_files}")


@scenario("C28", "levels", quick=250)
def levels(ctx):
    """Decimated, windowed and spectra data by level, window, channel and frequency"""
    rng, nprs = ctx.rng, ctx.np
    kind = rng.choice(["dec", "win", "spec"])
    data = any_data(ctx, kind, n_levels=rng.randint(1, 5))
    meta = data.metadata
    n_levels = meta.n_levels
    raw = {k: v.copy() for k, v in data.data.items()}
    chans = meta.chans
    what = f"{kind} {n_levels} levels {chans}"
    ctx.case((what, raw[0].tobytes()))
    for level in range(n_levels):
        lm = meta.levels_metadata[level]
        arr = raw[level]
        w = f"{what} level {level}"
        ctx.equal(data.get_level(level), arr, "level", w)
        derived = lm.nyquist == lm.fs / 2 if kind == "spec" else lm.dt == 1 / lm.fs
        ctx.check(derived, "derived", w)
        if kind == "dec":
            k = rng.sample(range(lm.n_samples), min(3, lm.n_samples))
            stamps = data.get_timestamps(level, samples=np.array(k), estimate=False)
            for i, t in zip(k, stamps):
                want = lm.first_time + to_timedelta(1 / lm.fs) * i
                ctx.check(abs(diff_seconds(t, want)) < 1e-9, "level-times", f"{w} sample {i}: {t} expected {want}")
            for est in (True, False):
                ctx.check(len(data.get_timestamps(level, estimate=est)) == lm.n_samples, "level-times", f"{w} {est}")
            continue
        for idx, c in enumerate(chans):
            ctx.equal(data.get_chan(level, c), arr[:, idx, :], "level-channel", f"{w} {c}")
        if kind == "win":
            for local in rng.sample(range(lm.n_wins), min(3, lm.n_wins)):
                ctx.equal(data.get_local(level, local), arr[local], "local-window", f"{w} {local}")
                glob = local + lm.index_offset
                ctx.equal(data.get_global(level, glob), arr[local], "global-window", f"{w} {glob} from {lm.index_offset}")
            for bad in (-1, lm.n_wins, lm.n_wins + 7, -lm.n_wins):
                ctx.raises(lambda: data.get_local(level, bad), ValueError, "absent-window", f"{w} local {bad} of {lm.n_wins}")
                glob = bad + lm.index_offset
                ctx.raises(lambda: data.get_global(level, glob), ValueError, "absent-window", f"{w} global {glob}")
        else:
            pick = [rng.choice(chans) for _ in range(rng.randint(1, 4))]
            got = data.get_chans(level, pick)
            ctx.equal(got, np.stack([arr[:, chans.index(c)] for c in pick], axis=1), "level-channels", f"{w} {pick}")
            for f in rng.sample(range(lm.n_freqs), min(3, lm.n_freqs)):
                ctx.equal(data.get_freq(level, f), np.squeeze(arr[..., f]), "level-frequency", f"{w} {f}")
            for bad in (-1, lm.n_freqs, lm.n_freqs + 3):
                ctx.raises(lambda: data.get_freq(level, bad), ValueError, "absent-frequency", f"{w} {bad} of {lm.n_freqs}")
            ctx.check(len(data.get_timestamps(level)) == lm.n_wins, "level-times", w)
            mag, phs = data.get_mag_phs(level)
            ctx.equal(mag, np.absolute(arr), "magnitude", w)
            ctx.equal(phs, np.angle(arr), "phase", w)
            mag, phs = data.get_mag_phs(level, unwrap=True)
            ctx.equal(mag, np.absolute(arr), "magnitude", w)
            # continuous along the frequencies, and the same angle
            if not np.all(np.isfinite(arr)):
                continue
            ctx.check(np.all(np.abs(np.diff(phs, axis=-1)) <= np.pi + 1e-4), "unwrapped", w)
            ctx.close_to(np.exp(1j * phs), np.exp(1j * np.angle(arr)), "unwrapped", w, atol=1e-4 if phs.dtype == np.float32 or arr.dtype == np.complex64 else 1e-9)
    fncs = {"get_level": lambda lv: data.get_level(lv)}
    if kind != "dec":
        fncs["get_chan"] = lambda lv: data.get_chan(lv, chans[0])
    if kind == "win":
        fncs["get_local"] = lambda lv: data.get_local(lv, 0)
        fncs["get_global"] = lambda lv: data.get_global(lv, meta.levels_metadata[lv].index_offset)
    else:
        fncs["get_timestamps"] = lambda lv: data.get_timestamps(lv)
    if kind == "dec":
        fncs["get_timestamps_exact"] = lambda lv: data.get_timestamps(lv, estimate=False)
    if kind == "spec":
        fncs["get_chans"] = lambda lv: data.get_chans(lv, chans)
        fncs["get_freq"] = lambda lv: data.get_freq(lv, 0)
        fncs["get_mag_phs"] = lambda lv: data.get_mag_phs(lv)
    for name, fnc in fncs.items():
        for bad in (-1, -n_levels, n_levels, n_levels + 4):
            kinds = ValueError if bad > 0 and name.startswith(("get_level", "get_time")) else (ValueError, LookupError)
            ctx.raises(lambda: fnc(bad), kinds, "absent-level", f"{what} {name} level {bad}")
    if kind != "dec":
        bad = absent(rng, chans)
        ctx.raises(lambda: data.get_chan(0, bad), ChannelNotFoundError, "absent-channel", f"{what} {bad!r}")
        if kind == "spec":
            ctx.raises(lambda: data.get_chans(0, chans + [bad]), ChannelNotFoundError, "absent-channel", f"{what} {bad!r}")
    for level in raw:
        ctx.equal(data.data[level], raw[level], "lookups-change-nothing", what)


@scenario("C28", "window_times", quick=60)
def window_times(ctx):
    """The timestamps of spectra are those of the starts of their windows"""
    rng, nprs = ctx.rng, ctx.np
    data = spec_data(ctx, n_levels=rng.randint(1, 4))
    meta = data.metadata
    ctx.case((str(meta.ref_time), tuple(lm.index_offset for lm in meta.levels_metadata)))
    for level in range(meta.n_levels):
        lm = meta.levels_metadata[level]
        got = data.get_timestamps(level)
        for k in {0, lm.n_wins - 1, lm.n_wins // 2}:
            want = meta.ref_time + to_timedelta((lm.win_size - lm.olap_size) / lm.fs) * (lm.index_offset + k)
            err = abs(diff_seconds(build.to_atto(got[k]), want))
            inc = (lm.win_size - lm.olap_size) / lm.fs
            ctx.check(err <= 3e-9 + 1e-9 * inc, "window-time", f"level {level} window {k}: {got[k]} expected {want}")
            ctx.observe("window_times")
