"""C14: window and overlap sizes are usable and as asked"""
import numpy as np

from resistics.decimate import DecimationSetup
from resistics.window import WindowSetup, WindowParameters
from rt.core import scenario
from rt.util import pick_fs


@scenario("C14", "automatic", quick=500)
def automatic(ctx):
    rng = ctx.rng
    fs = pick_fs(rng)
    n_levels = rng.randint(1, 9)
    dec_fs = [fs / rng.choice([1, 2, 4, 8]) ** i for i in range(n_levels)]
    if rng.random() < 0.4:
        dec_fs = DecimationSetup(n_levels=n_levels, per_level=rng.randint(2, 6)).run(fs).dec_fs
    kw = {}
    if rng.random() < 0.7:
        kw["min_size"] = rng.choice([16, 32, 64, 100, 128, 333, 1000])
    if rng.random() < 0.6:
        kw["min_olap"] = rng.choice([1, 4, 8, 15, 32])
    if rng.random() < 0.6:
        kw["win_factor"] = rng.choice([1, 2, 3, 4, 8])
    if rng.random() < 0.6:
        kw["olap_proportion"] = rng.choice([0.05, 0.1, 0.25, 0.3, 0.5, 0.75])
    if rng.random() < 0.5:
        kw["min_n_wins"] = rng.choice([1, 3, 10])
    min_size, min_olap = kw.get("min_size", 128), kw.get("min_olap", 32)
    factor, prop = kw.get("win_factor", 4), kw.get("olap_proportion", 0.25)
    what = f"fs {dec_fs} {kw}"
    ctx.case((what,))
    if min_olap >= min_size:
        # whether this fails depends on the levels
        try:
            params = WindowSetup(**kw).run(n_levels, dec_fs)
        except ValueError:
            ctx.observe("rejected")
            return
    else:
        with ctx.no_error("setup", what):
            params = WindowSetup(**kw).run(n_levels, dec_fs)
    ctx.check(params.n_levels == n_levels, "n-levels", what)
    ctx.check(params.min_n_wins == kw.get("min_n_wins", 5), "min-n-wins", what)
    ctx.check(len(params.win_sizes) == n_levels == len(params.olap_sizes), "all-levels", what)
    for i, lfs in enumerate(dec_fs):
        win, olap = params.get_win_size(i), params.get_olap_size(i)
        w = f"{what} level {i}: window {win} overlap {olap}"
        ctx.check(isinstance(win, int) and isinstance(olap, int), "integer", w)
        ctx.check(win >= min_size, "min-size", w)
        ctx.check(abs(win - max(min_size, lfs / factor)) < 1 + 1e-9 * lfs, "size", w)
        ctx.check(olap >= min_olap, "min-olap", w)
        ctx.check(abs(olap - max(min_olap, prop * win)) < 1 + 1e-9 * win, "olap", w)
        ctx.check(0 < olap < win, "olap-smaller", w)
        ctx.observe("levels")
    _ranges(ctx, params, what)


def _ranges(ctx, params, what):
    for level in (-1, params.n_levels):
        ctx.raises(lambda: params.get_win_size(level), ValueError, "level-range", what)
        ctx.raises(lambda: params.get_olap_size(level), ValueError, "level-range", what)
        ctx.raises(lambda: params.check_level(level), ValueError, "level-range", what)


@scenario("C14", "explicit", quick=400)
def explicit(ctx):
    rng = ctx.rng
    n_levels = rng.randint(1, 8)
    fs = pick_fs(rng)
    dec_fs = [fs / 2 ** i for i in range(n_levels)]
    n_given = max(1, n_levels + rng.choice([-2, -1, 0, 0, 0, 1, 3]))
    wins = [rng.choice([8, 20, 64, 100, 128, 1000]) for _ in range(n_given)]
    olaps = None
    if rng.random() < 0.5:
        n_olaps = max(1, n_levels + rng.choice([-1, 0, 0, 0, 0, 2]))
        olaps = [rng.choice([2, 5, 7, 25, 64, 128]) for _ in range(n_olaps)]
    only_olaps = olaps is not None and rng.random() < 0.3
    kw = {"min_olap": rng.choice([2, 32])}
    if not only_olaps:
        kw["win_sizes"] = list(wins)
    if olaps is not None:
        kw["olap_sizes"] = list(olaps)
    what = f"{n_levels} levels fs {fs} {kw}"
    ctx.case((what,))
    setup = WindowSetup(**kw)
    short = (not only_olaps and n_given < n_levels) or (olaps is not None and len(olaps) < n_levels)
    if short:
        ctx.raises(lambda: setup.run(n_levels, dec_fs), ValueError, "missing-levels", what)
        return
    want_wins = wins[:n_levels]
    if only_olaps:
        want_wins = [max(128, int(f // 4)) for f in dec_fs]
    want_olaps = olaps[:n_levels] if olaps is not None else [
        max(kw["min_olap"], int(0.25 * x)) for x in want_wins
    ]
    if any(o >= w for o, w in zip(want_olaps, want_wins)):
        ctx.raises(lambda: setup.run(n_levels, dec_fs), ValueError, "unusable", what)
        return
    for _ in range(2):
        with ctx.no_error("setup", what):
            params = setup.run(n_levels, dec_fs)
        ctx.check(list(params.win_sizes) == want_wins, "explicit-sizes", f"{what}: {params.win_sizes}")
        ctx.check(list(params.olap_sizes) == want_olaps, "explicit-olaps", f"{what}: {params.olap_sizes}")
        ctx.check([params.get_win_size(i) for i in range(n_levels)] == want_wins, "get-size", what)
        ctx.check([params.get_olap_size(i) for i in range(n_levels)] == want_olaps, "get-olap", what)
        # using the parameters does not change the setup
        if not only_olaps:
            ctx.check(setup.win_sizes == wins, "setup-kept", what)
        if olaps is not None:
            ctx.check(setup.olap_sizes == olaps, "setup-kept", what)
    _ranges(ctx, params, what)
    ctx.observe("setups")
