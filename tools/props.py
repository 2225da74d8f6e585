"""Writes properties.jsonl and MANIFEST.json from the single table below"""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


def P(id, title, statement, over, quant, why, files, mech, observe=None):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": ["resistics/" + f for f in files],
            "mechanism": [{"name": n, "where": "resistics/" + w} for n, w in mech],
            "observe_at": observe or ["return values and raised errors at the public API"],
            "hook_needed": None,
        },
    }


PROPS = [
    P("C01", "Times and samples convert into each other without drifting",
      "The timestamp of a sample converts back to exactly that sample, and a time between two "
      "samples converts to the following sample for the start of a range and to the preceding "
      "sample for the end of one. Times outside a recording are clipped to it where the range "
      "overlaps it, and rejected where it does not. Timestamp arrays agree with the scalar "
      "conversion for every sample.",
      ["inputs"], "all sampling frequencies (sub-millihertz periods to hundreds of kHz), first times "
      "with sub-nanosecond parts, sample numbers up to 1e9 and query times on, between and outside samples",
      "Tests convert a handful of round frequencies and times; rounding shows only for particular "
      "combinations of frequency, offset and sample number.",
      ["sampling.py"], [("to_n_samples / sample_to_datetime / from_time_to_sample / to_time_to_sample", "sampling.py"),
                        ("datetime_array, datetime_array_estimate", "sampling.py")]),
    P("C02", "High resolution times survive text and JSON unchanged",
      "A time with sub-nanosecond parts written as text or in JSON reads back as the identical time. "
      "Times given as strings, standard library or pandas objects are taken over exactly, and text which is not a time is rejected.",
      ["inputs"], "all dates and fractions of a second down to 10 attoseconds, in every accepted input type",
      "Tests check single literals; field padding, carries and missing fields are only visible over the whole domain.",
      ["sampling.py", "common.py"], [("datetime_to_string, string_to_datetime, HighResDateTime", "sampling.py")]),
    P("C03", "Reading a range of a recording gives exactly those samples",
      "Reading with any combination of from/to times or samples returns exactly the samples of the recording in that "
      "range, with the scaling of the full read, all requested channels, and metadata that describe the returned samples. "
      "Unreadable or inconsistent sources and invalid ranges raise an error instead of returning data.",
      ["inputs", "configurations"], "all recordings, channel selections, formats and ranges, including ranges on, between, across and outside the samples",
      "Tests read one small file with a few ranges; off by one at a range edge depends on the frequency and on the position of the edge.",
      ["time.py"], [("TimeReader._get_read_samples, read_metadata, run", "time.py"), ("TimeReaderNumpy.read_data, TimeReaderAscii.read_data", "time.py")]),
    P("C04", "Time data written and read back are the same recording",
      "Data written by a time writer and read back have the same samples (bit for bit for binary, to the written precision for text), "
      "channels, times, sampling frequency, location and history plus the write and read records. Data in memory are not tied to the files they came from.",
      ["inputs", "histories"], "all data types, shapes, channel sets, times and read-process-write sequences, including writing back where the data came from",
      "Tests write one array; loss shows for other types, single channels, high resolution times or rewriting the source.",
      ["time.py"], [("TimeWriterNumpy, TimeWriterAscii", "time.py"), ("TimeReaderNumpy, TimeReaderAscii", "time.py")]),
    P("C05", "Sample-wise processing does only what it says to each channel",
      "Scaling, addition, multiplication, mean removal, gap interpolation, function application and sub-sectioning change each sample of each addressed channel by exactly the stated formula, "
      "leave every other channel as it was, and keep sample count, order and times in step with the data.",
      ["inputs", "configurations"], "all channel sets, data types, process parameters and orders of processes",
      "Tests apply each process once to small float data; channel mix-ups and type truncation need other inputs.",
      ["time.py"], [("Add, Multiply, RemoveMean, InterpolateNans, ApplyFunction, Subsection", "time.py")]),
    P("C06", "Resampling, decimation and shifting keep the signal on its time line",
      "After resampling, decimating or shifting timestamps, the value at each new timestamp is that of the original signal at that time, for signals the new rate can represent. "
      "First time, last time, number of samples and sampling frequency of the result describe its data.",
      ["inputs", "configurations"], "all band limited signals, sampling frequencies, factors, offsets and compositions of the three operations",
      "Tests compare a few outputs with stored arrays; a delay or time base error of a fraction of a sample is invisible there.",
      ["time.py"], [("Resample, Decimate, ShiftTimestamps", "time.py"), ("adjust_time_metadata", "time.py")]),
    P("C07", "Filters pass their pass band, stop their stop band and do not delay",
      "Low, high, band pass and notch filters leave a tone inside the pass band with its amplitude and phase and remove a tone well inside the stop band, for any sampling frequency. "
      "Cutoffs that the sampling frequency cannot support are rejected.",
      ["inputs", "configurations"], "all sampling frequencies, cutoffs, tones, channel sets and data types",
      "Tests use one frequency; normalisation by the wrong rate or a phase shift need others to be seen.",
      ["time.py"], [("LowPass, HighPass, BandPass, Notch", "time.py")]),
    P("C08", "No operation modifies the data it was given",
      "Running any process, writer, solver or accessor leaves its inputs (arrays, metadata, history, parameters) exactly as they were, so that the same input can be processed again with the same result.",
      ["inputs", "histories"], "every process of the package, all inputs, and any sequence of processes that share an input",
      "Tests look at outputs only; aliasing shows only when an input is used again.",
      ["time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "gather.py", "regression.py", "transfunc.py", "common.py"],
      [("TimeProcess.run, adjust_time_metadata", "time.py"), ("ResisticsWriter implementations", "time.py"), ("History.add_record", "common.py")]),
    P("C09", "The history records what was done, once, in order and reproducibly",
      "Each processing step appends exactly one record after those of its input, naming the process and all its parameters. A process rebuilt from the record of a step produces the same result.",
      ["inputs", "histories"], "every recording process, all parameters and all sequences of steps, including through files",
      "Tests do not follow a history through a chain; duplicated, lost or shared records need several steps to appear.",
      ["common.py", "time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py"],
      [("History, Record, ResisticsProcess._get_record", "common.py")]),
    P("C10", "Decimation parameters are consistent and cover the band downwards",
      "Automatic evaluation frequencies start at a quarter of the sampling frequency and decrease strictly; requested ones are kept exactly, in the level they are listed for. "
      "Every level has the lowest sampling frequency, reached by the division factor, which is at least four times its highest evaluation frequency (or the sampling frequency itself where that is lower). "
      "Factors, increments and level sampling frequencies agree with each other at every level, and setups which have no such parameters are refused.",
      ["inputs", "configurations"], "all sampling frequencies, numbers of levels and frequencies, explicit frequency lists and factors",
      "Tests have a few fixed setups; float comparisons of frequency against rate depend on the values.",
      ["decimate.py"], [("DecimationSetup.run, DecimationParameters", "decimate.py"), ("get_eval_freqs_size, get_eval_freqs_min", "decimate.py")]),
    P("C11", "Every decimation level is the same signal at a lower rate",
      "Each level of decimated data holds the channels of the input at the level's sampling frequency, starting at the same time, with values of the input signal and without aliases of what the level cannot represent. "
      "Level metadata describe the level data and decimation stops where too few samples would be left.",
      ["inputs", "configurations"], "all signals, sampling frequencies, numbers of levels, decimation methods and data lengths",
      "Tests check shapes on one example; aliasing, delay and level bookkeeping need signals and depth.",
      ["decimate.py", "time.py"], [("Decimator.run", "decimate.py")]),
    P("C12", "Windows are exact, complete and contiguous slices of the data",
      "Every window of every level holds exactly the consecutive samples its position implies for all channels, windows step by window size less overlap, none reaches outside the data, and none that would fit is missing. "
      "The position of a window agrees with its time relative to the reference time to within a sample.",
      ["inputs", "configurations"], "all reference times, first times, sampling frequencies, data lengths, window and overlap sizes and channel sets",
      "There are no tests of windowing; the edge cases depend on the relation between reference time, first time and data length.",
      ["window.py"], [("get_first_and_last_win, get_win_table", "window.py"), ("Windower._get_level_data", "window.py")]),
    P("C13", "The same global window is the same time in every recording",
      "Windows with the same global number from different recordings and sites at a common sampling frequency, reference time and window setup start at the same time to within a sample. "
      "Accessing a window by global number gives the one whose time that number stands for.",
      ["inputs", "histories"], "all sets of overlapping, separate and gapped recordings against one reference time",
      "No test windows two recordings; a shift of one window is invisible in either alone.",
      ["window.py"], [("datetime_to_win, win_to_datetime", "window.py"), ("WindowedData.get_global", "window.py")]),
    P("C14", "Window sizes and overlaps are always usable and as asked",
      "For every level the window size and overlap follow the setup (explicit values, or proportion of the rate with minimums), with an overlap smaller than the window. "
      "Setups that do not provide every level are rejected.",
      ["inputs", "configurations"], "all sampling frequencies, numbers of levels, minimums, proportions and explicit sizes",
      "There are no tests of the window setup.",
      ["window.py"], [("WindowSetup.run", "window.py")]),
    P("C15", "Spectra are the Fourier transform of the tapered windows",
      "Each spectrum equals an independently evaluated orthonormal discrete Fourier transform of the detrended, tapered window of its channel, at the frequencies listed in its metadata. "
      "Magnitudes, phases and access by channel, level and frequency refer to the same values.",
      ["inputs", "configurations"], "all window sizes, channel counts, data types, tapers and detrending choices",
      "There are no tests of the Fourier transform.",
      ["spectra.py"], [("FourierTransform.run", "spectra.py"), ("SpectraData accessors", "spectra.py")]),
    P("C16", "Evaluation frequency spectra interpolate, smoothers average, nothing more",
      "Spectra at evaluation frequencies are the linear interpolation of the spectra at the neighbouring frequencies of the same window, channel and level. "
      "Smoothing over frequency has the width its parameter asks for, keeps a constant spectrum as it is and mixes no windows or channels.",
      ["inputs", "configurations"], "all spectra, evaluation frequencies, smoother parameters, window and channel counts",
      "There are no tests of evaluation frequencies or smoothers.",
      ["spectra.py"], [("EvaluationFreqs.run", "spectra.py"), ("SpectraSmootherUniform, SpectraSmootherGaussian", "spectra.py")]),
    P("C17", "Calibration divides by exactly the response of the channel's sensor",
      "Calibrated spectra are the input divided by the complex response of the sensor of that channel, its magnitude and phase interpolated linearly at each frequency and held beyond the calibrated range. "
      "Channels that are not selected, or for which no reader finds a readable calibration file named after their sensor and serial, keep their values.",
      ["inputs", "configurations"], "all responses in any frequency order, frequency grids (including single frequencies), window and channel counts, channel selections, readers and files",
      "Tests cover reading of two files only; no test calibrates data.",
      ["calibrate.py"], [("SensorCalibrator.run, Calibrator._calibrate, _interpolate", "calibrate.py"), ("SensorCalibrationReader._get_path", "calibrate.py")]),
    P("C18", "Calibration files are read as they are written",
      "The frequencies, magnitudes and phases read from a calibration file are those in the file, with phases in radians whatever the stated unit, together with its sensor, serial, static gain and magnitude unit; text files are ordered by frequency. "
      "Missing, malformed or incomplete files raise an error, and the file read for a channel is the one the naming pattern gives for its sensor and serial.",
      ["inputs", "configurations"], "all calibration contents, units, line orders, letter cases, spacings and file names",
      "Tests read two fixed texts.",
      ["calibrate.py"], [("SensorCalibrationJSON, SensorCalibrationTXT", "calibrate.py"), ("SensorCalibrationReader.run", "calibrate.py")]),
    P("C19", "Gathered data combine the same windows of all sites and nothing else",
      "Data gathered for a transfer function contain, per level and evaluation frequency, exactly the windows that exist in every participating site, each row holding the spectra of one and the same global window with the right channels of the right site. "
      "No shared window is lost, duplicated or reordered between output, input and cross spectra.",
      ["inputs", "histories"], "all sets of sites and measurements with overlaps, gaps, differing levels and channel orders",
      "Tests gather a few mocked sites; misalignment needs unequal, gapped recordings.",
      ["gather.py"], [("Selector.run", "gather.py"), ("ProjectGather, QuickGather", "gather.py")]),
    P("C20", "Regression recovers the tensor that produced the data",
      "For spectra generated from a known tensor, the solved transfer function equals that tensor at every evaluation frequency for every output and input channel, for all solvers and any scaling, and robust solvers keep it when a minority of windows is corrupted. "
      "Regression equations pair outputs, inputs and cross spectra of the same window and frequency.",
      ["inputs", "configurations"], "all tensors, channel sets and orders, window counts, transfer function definitions and solvers",
      "The regression tests check equation layout for small cases, not recovery.",
      ["regression.py", "transfunc.py"], [("RegressionPreparerGathered, RegressionPreparerSpectra", "regression.py"), ("Solver.run", "regression.py")]),
    P("C21", "Configurations, processes and models survive serialisation",
      "A configuration, process, parameter set or transfer function written as a dictionary or JSON and read back equals the original in all parameters and types and produces the same results. "
      "Reading does not change the dictionary it read from, unknown process names are rejected, and parameters and metadata which are left out take their documented default values.",
      ["inputs", "configurations"], "all processes of the package with all parameter values, nested in configurations",
      "Tests save one configuration.",
      ["common.py", "config.py", "transfunc.py"], [("ResisticsProcess.validate, parameters", "common.py"), ("Configuration", "config.py"), ("TransferFunction.validate", "transfunc.py")]),
    P("C22", "A loaded project is exactly what is on disk",
      "Loading a project finds every readable measurement of every site with its own metadata, skips unreadable ones without losing others, and reports sampling frequencies, sites and measurements consistently with them. "
      "Paths of data, spectra, features and results are distinct for distinct sites, measurements, configurations and frequencies.",
      ["inputs", "configurations", "histories"], "all directory trees of sites and measurements, including empty, foreign, broken and hidden entries",
      "Tests mock one tree.",
      ["project.py", "common.py", "letsgo.py"], [("Project, Site, Measurement", "project.py"), ("ProjectLoader", "project.py"), ("directory functions", "project.py")]),
    P("C23", "Processing a project recovers the impedance in the ground",
      "Processing recordings synthesised from a known impedance tensor yields that tensor, for single site, remote reference and intersite processing, any number of recordings per site and any supported configuration. "
      "Results computed through files, in pieces or in one go agree.",
      ["inputs", "configurations", "histories"], "all tensors, sampling frequencies, recording layouts across sites, and configurations",
      "No test runs the pipeline to a result.",
      ["letsgo.py", "project.py", "gather.py", "regression.py"], [("quick_tf, process_time, process_evals, solve and variants", "letsgo.py")]),
    P("C24", "Writers never overwrite existing data unless told to",
      "A writer whose overwrite option is turned off leaves every existing file of its target as it was and raises an error. With the option it replaces the target completely and readably.",
      ["inputs", "configurations", "histories"], "all writers, target states and repeated writes",
      "Tests write to mocked paths.",
      ["common.py", "time.py", "decimate.py", "window.py", "spectra.py"], [("ResisticsWriter._check_dir, overwrite", "common.py")]),
    P("C25", "Decimated, windowed, spectra and solution files read back the same",
      "Decimated, windowed and spectral data and solutions written to files and read back have identical arrays, levels, metadata and history, apart from the added write and read records.",
      ["inputs", "histories"], "all level counts (including ten or more), channel sets, data types and times",
      "No test writes these data.",
      ["decimate.py", "window.py", "spectra.py", "regression.py"], [("DecimatedDataWriter/Reader, WindowedDataWriter/Reader, SpectraDataWriter/Reader", "spectra.py"), ("Solution", "regression.py")]),
    P("C26", "Solution components, resistivity and phase describe the same tensor",
      "Components, tensors, apparent resistivity and phase obtained from a solution are those of the values it was built from, at the frequency asked for, with resistivity and phase equal to the textbook formulas of that component.",
      ["inputs"], "all tensors, frequency sets, component names and access paths",
      "No test reads values from a solution.",
      ["regression.py", "transfunc.py"], [("Solution.get_component, get_tensor", "regression.py"), ("ImpedanceTensor", "transfunc.py")]),
    P("C27", "Plotted data are points of the data, including its ends",
      "Plots of time data, decimated data, spectra and calibrations show samples of the data at their own times or frequencies, for the channels and levels asked for, including the first and last, and never more than the requested number of points.",
      ["inputs", "configurations"], "all data lengths, point limits and channel sets",
      "Tests check one example of the reduction.",
      ["plot.py", "time.py", "decimate.py"], [("apply_lttb, lttb_downsample", "plot.py"), ("TimeData.plot", "time.py")]),
    P("C28", "A lookup gives exactly what was asked for, or an error",
      "Data, metadata, times and types looked up by channel, level, window, frequency or kind of channel are those of exactly that item. "
      "A channel, level, window or frequency which is not there raises an error instead of giving that of another item, and setting a channel changes that channel only.",
      ["inputs"], "all channel sets and types, level and window counts, index offsets, and absent names and indices, including negative ones",
      "Tests look up a few items which are there; wrong items come from other orders, axes, offsets and out of range indices.",
      ["time.py", "decimate.py", "window.py", "spectra.py", "common.py"],
      [("TimeData.get_chan, set_chan", "time.py"), ("get_chans_with_type and relatives, get_chan_type", "time.py"),
       ("DecimatedData, WindowedData, SpectraData lookups", "decimate.py")]),
    P("C29", "Failures are errors of the package which name their cause",
      "Missing or wrong files, directories, projects, sites, measurements, channels, metadata and unsuitable process parameters raise the documented error whose text names the path, item or value at fault; "
      "nothing is returned or written instead. Directory listings hold exactly the visible files and directories there.",
      ["inputs", "configurations"], "all functions and readers taking paths or names, all kinds of missing, wrong or unreadable targets",
      "Tests check single errors with mocks; a swallowed or misleading failure needs the real file system state.",
      ["common.py", "errors.py", "letsgo.py", "project.py", "time.py"],
      [("assert_file, assert_dir, dir_contents", "common.py"), ("errors", "errors.py"), ("quick_read, new, load", "letsgo.py")]),
    P("C30", "Generated example data are consistent and hold what they describe",
      "Example time, decimated and spectra data, solutions, regression inputs and records generated by the package have the sampling frequency, times, sizes, channels and types asked for, "
      "metadata which describe their data, the stated values, and are new objects every time.",
      ["inputs"], "all sampling frequencies, first times, sizes, data types, levels, factors and tones",
      "The tests take the generated data as given.",
      ["testing.py"], [("time_data_*, decimated_data_*, spectra_metadata_multilevel, solution_mt", "testing.py")]),
    P("C31", "Results depend on parameters and inputs, not on earlier or concurrent use",
      "A process, reader or configuration gives the same result whatever it, other instances or the program ran before, and the same when threads share processes and recordings. "
      "Running the package leaves global settings of the program as they were.",
      ["histories", "schedules", "inputs"], "all sequences and concurrent schedules of runs sharing processes, recordings and configurations",
      "Each test runs a process once in a fresh state; caches, class level state and shared defaults show only in sequences of different uses.",
      ["time.py", "decimate.py", "window.py", "spectra.py", "calibrate.py", "gather.py", "regression.py", "letsgo.py", "sampling.py", "plot.py", "config.py"],
      [("ResisticsProcess.run implementations", "time.py"), ("get_default_configuration", "config.py"), ("TimeReader", "time.py")]),
    P("C32", "Interrupted or repeated processing ends like one undisturbed run",
      "Processing which fails or is killed at any write leaves recordings, calibration files, project file and other results as they were, reports the failure, and what it left half written is never read as complete nor listed as a new measurement. "
      "Processing again, also over earlier results or after recordings, calibrations or parameters changed, gives the results of a project processed once from scratch.",
      ["histories", "crash points", "inputs", "configurations"], "all operations on a project, write failures and kills at every file and byte, and sequences of changes to recordings, calibrations and parameters",
      "No test interrupts or repeats processing.",
      ["letsgo.py", "spectra.py", "time.py", "regression.py", "common.py", "gather.py"],
      [("process_time, process_time_to_evals, process_evals_to_tf", "letsgo.py"), ("SpectraDataWriter, SpectraDataReader", "spectra.py"), ("TimeWriterNumpy", "time.py")]),
    P("C33", "What an object prints of itself is what it holds",
      "The text and the summary of metadata, processes, parameters, records and configurations, read back, are the fields of the object in their order. "
      "The text of time, decimated and windowed data shows its metadata, one row for each decimation level. The text of a transfer function is its equation: each output, tensor element and input once, in place. Printing changes nothing.",
      ["inputs"], "all models, data objects, channel names, text values and transfer function shapes",
      "Only a few doctests print anything, with plain values.",
      ["common.py", "time.py", "decimate.py", "window.py", "transfunc.py"],
      [("ResisticsModel.to_string, summary", "common.py"), ("ResisticsBase.summary", "common.py"), ("DecimatedData.to_string", "decimate.py"), ("TransferFunction.to_string", "transfunc.py")]),
]

NOT_APPLICABLE = {}

NOTES = {}


def main():
    checks = []
    with (VERIF / "properties.jsonl").open("w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            done = list((VERIF / "rt" / "checks").glob(p["id"].lower() + "_*.py"))
            f.write(json.dumps(p) + "\n")
            if not done:
                continue
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check.sh " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "runtime monitoring: seeded diverse workloads on the real code, reference-model and invariant monitors on what it returns",
                "level": "exploration",
                "level_note": NOTES.get(p["id"], "Held on the executions listed in the evidence file; nothing is claimed for inputs not generated. "
                              "Trusts numpy, scipy and pandas, the monitors' own reference formulas, and a stand-in for scikit-learn, which is not installed here."),
            })
    claimed = {c["property"] for c in checks}
    na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "No check built yet.")}
          for p in PROPS if p["id"] not in claimed]
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo are needed: all monitors observe the public API from outside. Known findings: KNOWN_FINDINGS.txt.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    print(len(PROPS), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
