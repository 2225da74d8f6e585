"""C18: calibration files are read as they are written"""
import json

import numpy as np

from resistics.calibrate import CalibrationData, SensorCalibrationJSON, SensorCalibrationTXT
from resistics.errors import CalibrationFileNotFound
from resistics.time import ChanMetadata
from rt import build
from rt.core import scenario

SENSORS = ["LEMI120", "MFS06e", "mfs-07", "Coil A", "bf4", "S_1"]


def response(ctx, n=None):
    """A random calibration: frequency, magnitude, phase in radians"""
    rng = ctx.rng
    if n is None:
        n = rng.choice([1, 2, 3, 5, 17, 40])
    freqs = np.sort(10 ** ctx.np.uniform(-4, 4, size=n))
    mag = 10 ** ctx.np.uniform(-3, 3, size=n)
    if rng.random() < 0.2:
        mag *= ctx.np.choice([-1.0, 1.0], size=n)  # of a coil wired the other way round
    phs = ctx.np.uniform(-np.pi, np.pi, size=n)
    return freqs, mag, phs


def write_cal_json(path, freqs, mag, phs, sensor, serial, **kw):
    path.write_text(json.dumps(dict(
        sensor=sensor, serial=serial, frequency=list(freqs), magnitude=list(mag),
        phase=list(phs), **kw,
    )))


def write_cal_txt(path, rng, freqs, mag, phs, sensor, serial, gain=1.0, unit="mV/nT", degrees=True,
                  chopper=False, noise=True):
    """TXT as documented, with the freedom people take with it"""
    def key(text):
        return rng.choice([text, text.lower(), text.upper(), text.title()]) if noise else text

    eq = (lambda: rng.choice([" = ", "=", " =  "])) if noise else (lambda: " = ")
    phase_unit = "degrees" if degrees else "radians"
    if noise:
        phase_unit = rng.choice([phase_unit, phase_unit.title(), phase_unit.upper()])
    lines = [
        key("Serial") + eq() + str(serial), key("Sensor") + eq() + sensor,
        key("Static gain") + eq() + repr(gain), key("Magnitude unit") + eq() + unit,
        key("Phase unit") + eq() + phase_unit, key("Chopper") + eq() + str(chopper),
    ]
    if noise:
        rng.shuffle(lines)
    lines += [""] * rng.randint(1, 3) + ["CALIBRATION DATA"]
    for f, m, p in zip(freqs, mag, phs):
        p = np.rad2deg(p) if degrees else p
        sep = rng.choice(["\t", " ", "   ", "\t  "]) if noise else " "
        row = sep.join(rng.choice(["{!r}", "{:.17E}"]).format(float(x)) for x in (f, m, p))
        lines.append(rng.choice(["", "  "]) + row + rng.choice(["", " "]))
    if rng.random() < 0.5:
        lines += ["", "trailing remarks 1 2 3"]
    path.write_text("\n".join(lines) + rng.choice(["", "\n"]))


def chan_meta(sensor="", serial=""):
    return ChanMetadata(name="Hx", data_files=["x"], sensor=sensor, serial=serial)


def spec_meta(sensor, serial):
    class M:
        chans_metadata = {"Hx": chan_meta(sensor, serial), "Hy": chan_meta("other", "999")}
    return M


def same_serial(a, b):
    return str(a) == str(b) or (str(b).isdigit() and str(a).isdigit() and int(a) == int(b))


@scenario("C18", "read_files", quick=400)
def read_files(ctx):
    rng = ctx.rng
    path = ctx.scratch()
    freqs, mag, phs = response(ctx)
    order = list(range(len(freqs)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    sensor = rng.choice(SENSORS)
    serial = rng.choice(["710", "1", "A12", "b-7", "20"])
    gain = round(10 ** rng.uniform(-3, 3), 4)
    unit = rng.choice(["mV/nT", "V/nT", "mV/(nT*Hz)"])
    txt = rng.random() < 0.6
    default_name = rng.random() < 0.4
    if default_name:
        reader = SensorCalibrationTXT() if txt else SensorCalibrationJSON()
        name = "IC_" + sensor
    else:
        pattern = rng.choice(["$sensor-$serial$extension", "IC_$sensor_$serial$extension", "cal$serial$extension"])
        reader = (SensorCalibrationTXT if txt else SensorCalibrationJSON)(file_str=pattern)
        name = pattern.replace("$sensor", sensor).replace("$serial", serial).replace("$extension", "")
    f, m, p = freqs[order], mag[order], phs[order]
    degrees = rng.random() < 0.6
    ext = ".TXT" if txt else ".json"
    target = path / (name + ext)
    # decoys that must not be read
    write_cal_json(path / "IC_other.json", [1.0], [5.0], [0.0], "decoy", 0)
    write_cal_json(path / "cal999.json", [1.0], [5.0], [0.0], "decoy", 0)
    what = f"{reader!r} file {target.name} degrees={degrees}"
    if txt:
        write_cal_txt(target, rng, f, m, p, sensor, serial, gain, unit, degrees, rng.random() < 0.5)
    else:
        write_cal_json(target, f, m, p, sensor, serial, static_gain=gain, magnitude_unit=unit)
    ctx.case((what, f.tobytes(), target.read_text()))
    with ctx.no_error("cal-read", what):
        cal = reader.run(path, spec_meta(sensor, serial), "Hx")
    if txt:
        f, m, p = freqs, mag, phs
    ctx.equal(cal.frequency, f, "cal-frequency", what)
    ctx.equal(cal.magnitude, m, "cal-magnitude", what)
    ctx.close_to(cal.phase, p, "cal-phase", what, rtol=1e-12, atol=1e-14)
    for arg, ref in (("frequency", cal.frequency), ("magnitude", cal.magnitude), ("phase", cal.phase)):
        ctx.equal(cal[arg], ref, "cal-getitem", f"{what} {arg}")
    ctx.raises(lambda: cal["Frequency "], ValueError, "cal-getitem-unknown", what)
    ctx.check(cal.sensor == sensor, "cal-sensor", f"{what}: {cal.sensor!r} expected {sensor!r}")
    ctx.check(same_serial(cal.serial, serial), "cal-serial", f"{what}: {cal.serial!r} expected {serial!r}")
    ctx.check(cal.static_gain == gain, "cal-gain", f"{what}: {cal.static_gain} expected {gain}")
    ctx.check(cal.magnitude_unit == unit, "cal-unit", f"{what}: {cal.magnitude_unit}")
    ctx.check(cal.n_samples == len(freqs), "cal-n-samples", f"{what}: {cal.n_samples}")
    ctx.check(cal.file_path == target, "cal-file-path", f"{what}: {cal.file_path}")
    df = cal.to_dataframe()
    ctx.equal(df.index.values, cal.frequency, "cal-frame", what)
    ctx.equal(df["magnitude"].values, cal.magnitude, "cal-frame", what)
    ctx.equal(df["phase"].values, cal.phase, "cal-frame", what)
    # JSON written from the model reads back as the same calibration
    again = path / "again.json"
    cal.write(again)
    with ctx.no_error("cal-reread", what):
        back = SensorCalibrationJSON().read_calibration_data(again, chan_meta())
    for field in ("frequency", "magnitude", "phase", "sensor", "serial", "static_gain", "magnitude_unit", "n_samples"):
        ctx.check(getattr(back, field) == getattr(cal, field), "cal-round-trip", f"{what} {field}")
    ctx.observe("calibration_samples_compared", len(freqs))
    if rng.random() < 0.3:
        fig = cal.plot()
        ctx.equal(np.array(fig.data[0].x), cal.frequency, "cal-plot", what)
        ctx.equal(np.array(fig.data[0].y), cal.magnitude, "cal-plot", what)
        ctx.equal(np.array(fig.data[1].y), cal.phase, "cal-plot", what)


@scenario("C18", "bad_files", quick=160)
def bad_files(ctx):
    rng = ctx.rng
    path = ctx.scratch()
    freqs, mag, phs = response(ctx, n=rng.choice([2, 5, 9]))
    txt = rng.random() < 0.5
    reader = SensorCalibrationTXT() if txt else SensorCalibrationJSON()
    target = path / ("IC_S" + reader.extension)
    meta = spec_meta("S", "1")
    fault = rng.choice(["missing", "other-sensor", "empty", "broken", "field", "no-data"])
    ctx.case((txt, fault, freqs.tobytes()))
    what = f"{'TXT' if txt else 'JSON'} {fault}"
    if fault in ("missing", "other-sensor"):
        if fault == "other-sensor":
            other = path / ("IC_T" + reader.extension)
            write_cal_txt(other, rng, freqs, mag, phs, "T", "1") if txt else write_cal_json(other, freqs, mag, phs, "T", 1)
        ctx.raises(lambda: reader.run(path, meta, "Hx"), CalibrationFileNotFound, "cal-missing", what)
        return
    if txt:
        write_cal_txt(target, rng, freqs, mag, phs, "S", "1", noise=False)
        lines = target.read_text().splitlines()
        start = lines.index("CALIBRATION DATA")
        if fault == "empty":
            lines = []
        elif fault == "broken":
            k = rng.randrange(start + 1, start + 1 + len(freqs))
            lines[k] = rng.choice(["1.0 2.0", "a b c", "1.0 2.0 x", "1 2 3 4"])
        elif fault == "field":
            lines = [x for x in lines if x != "CALIBRATION DATA"]
        else:
            lines = lines[:start + 1]
        target.write_text("\n".join(lines))
    else:
        write_cal_json(target, freqs, mag, phs, "S", 1)
        content = json.loads(target.read_text())
        if fault == "empty":
            text = ""
        elif fault == "broken":
            text = target.read_text()
            text = text[:rng.randrange(1, len(text) - 1)]
        elif fault == "field":
            del content[rng.choice(["frequency", "magnitude", "phase", "serial"])]
            text = json.dumps(content)
        else:
            content[rng.choice(["frequency", "magnitude", "phase"])] = rng.choice(["none", {"a": 1}, ["x"]])
            text = json.dumps(content)
        target.write_text(text)
    ctx.raises(lambda: reader.run(path, meta, "Hx"), Exception, "cal-malformed", what)
