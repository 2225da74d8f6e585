"""C17: calibration divides by exactly the response of the sensor of the channel"""
import numpy as np

from resistics.calibrate import (
    SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator,
)
from resistics.spectra import SpectraData, SpectraLevelMetadata, SpectraMetadata
from rt import build
from rt.checks.c15_fourier import win_data
from rt.checks.c16_evals import spec_data
from rt.checks.c18_cal_files import SENSORS, response, write_cal_json, write_cal_txt
from rt.core import scenario


def eval_data(ctx, dtype=np.complex128):
    """Spectra at few frequencies, as after evaluation frequency calculation"""
    rng = ctx.rng
    wd = win_data(rng, ctx.np, max_wins=8)
    n_freqs = rng.choice([1, 1, 2, 5, 7])
    data, levels = {}, []
    for i, lm in enumerate(wd.metadata.levels_metadata):
        shape = (lm.n_wins, len(wd.metadata.chans), n_freqs)
        data[i] = build.laid_out(rng, (ctx.np.randn(*shape) + 1j * ctx.np.randn(*shape)).astype(dtype))
        freqs = sorted((rng.uniform(0.001, lm.fs / 2) for _ in range(n_freqs)), reverse=True)
        levels.append(SpectraLevelMetadata(n_freqs=n_freqs, freqs=freqs, **lm.dict()))
    meta = wd.metadata.dict()
    meta["levels_metadata"] = levels
    meta.pop("file_info", None)
    return SpectraData(SpectraMetadata(**meta), data)


def reference(freqs, cal):
    """Piecewise linear magnitude and phase, held at the ends"""
    f, m, p = cal
    order = np.argsort(f)
    f, m, p = f[order], m[order], p[order]
    out = np.empty(len(freqs), dtype=complex)
    for k, x in enumerate(freqs):
        if x <= f[0]:
            mag, phs = m[0], p[0]
        elif x >= f[-1]:
            mag, phs = m[-1], p[-1]
        else:
            j = int(np.searchsorted(f, x, side="right")) - 1
            t = (x - f[j]) / (f[j + 1] - f[j])
            mag, phs = m[j] + t * (m[j + 1] - m[j]), p[j] + t * (p[j + 1] - p[j])
        out[k] = mag * (np.cos(phs) + 1j * np.sin(phs))
    return out


@scenario("C17", "calibrate", quick=300)
def calibrate(ctx):
    rng = ctx.rng
    path = ctx.scratch()
    dtype = rng.choice([np.complex128, np.complex128, np.complex64])
    sd = spec_data(ctx, dtype=dtype) if rng.random() < 0.4 else eval_data(ctx, dtype)
    chans = sd.metadata.chans
    pattern = rng.choice(["IC_$sensor$extension", "$sensor_$serial$extension", "c_$serial$extension"])
    kinds = rng.choice([["json"], ["txt"], ["json", "txt"], ["txt", "json"]])
    readers = [
        (SensorCalibrationJSON if k == "json" else SensorCalibrationTXT)(file_str=pattern) for k in kinds
    ]
    select = None
    if rng.random() < 0.4:
        select = rng.sample(build.CHANS, rng.randint(1, 5))
    # sensors and serials, some shared between channels
    serials = [str(rng.randint(1, 99)) for _ in range(rng.randint(1, len(chans)))]
    sensors = rng.sample(SENSORS, rng.randint(1, min(len(SENSORS), len(chans))))
    for chan in chans:
        cm = sd.metadata.chans_metadata[chan]
        cm.sensor, cm.serial = rng.choice(sensors), rng.choice(serials)
    expected = {}
    made = {}
    for chan in chans:
        cm = sd.metadata.chans_metadata[chan]
        base = pattern.replace("$sensor", cm.sensor).replace("$serial", cm.serial).replace("$extension", "")
        if base not in made:
            made[base] = None
            for k in kinds:
                state = rng.choice(["good", "good", "good", "missing", "broken"])
                cal = response(ctx, n=rng.choice([1, 2, 4, 12]))
                if rng.random() < 0.4:
                    order = ctx.np.permutation(len(cal[0]))
                    cal = tuple(x[order] for x in cal)
                target = path / (base + (".json" if k == "json" else ".TXT"))
                if state == "good":
                    if k == "json":
                        write_cal_json(target, *cal, cm.sensor, cm.serial, static_gain=rng.choice([1, 3.5]))
                    else:
                        write_cal_txt(target, rng, *cal, cm.sensor, cm.serial, degrees=rng.random() < 0.5)
                    if made[base] is None:
                        made[base] = cal
                elif state == "broken":
                    target.write_text("broken")
        expected[chan] = made[base]
    before = {i: np.array(v) for i, v in sd.data.items()}
    proc = SensorCalibrator(chans=select, readers=readers)
    what = f"{pattern} {kinds} chans {chans} select {select} {[v.shape for v in sd.data.values()]} {dtype.__name__}"
    ctx.case((what, sd.data[0].tobytes(), len(list(path.iterdir()))))
    with ctx.no_error("calibrate", what):
        out = proc.run(path, sd)
    ctx.check(out.metadata.chans == chans, "cal-chans", what)
    ctx.check(out.metadata.levels_metadata == sd.metadata.levels_metadata, "cal-levels", what)
    ctx.check(len(out.data) == len(before), "cal-n-levels", what)
    rtol = 1e-5 if dtype == np.complex64 else 1e-9
    for i, lm in enumerate(sd.metadata.levels_metadata):
        ctx.require(out.data[i].shape == before[i].shape, "cal-shape", f"{what}: {out.data[i].shape}")
        for c, chan in enumerate(chans):
            got, src = out.data[i][:, c], before[i][:, c]
            w = f"{what} level {i} chan {chan}"
            if expected[chan] is None or (select is not None and chan not in select):
                ctx.equal(got, src, "cal-untouched", w)
                ctx.observe("uncalibrated_channels")
            else:
                ref = reference(lm.freqs, expected[chan])
                for k in range(src.shape[0]):
                    ctx.close_to(got[k] * ref, src[k], "cal-values", f"{w} window {k}", rtol=rtol)
                ctx.observe("calibrated_channels")
        ctx.equal(sd.data[i], before[i], "cal-input", what)
