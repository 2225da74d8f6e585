"""The processing chain from time data to a solution, step by step"""
from pathlib import Path

import numpy as np

from resistics.gather import QuickGather
from resistics.regression import (
    RegressionPreparerGathered, RegressionPreparerSpectra, SolverScikitHuber, SolverScikitOLS,
    SolverScikitRANSAC, SolverScikitTheilSen, SolverScikitWLS,
)
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction
from rt import build, catalog
from rt.checks.c18_cal_files import response, write_cal_json
from rt.util import make_time


def random_tf(rng, chans):
    """Any transfer function that the channels allow"""
    kind = rng.random()
    if kind < 0.4 and {"Ex", "Ey", "Hx", "Hy"} <= set(chans):
        return ImpedanceTensor(variation=rng.choice(["default", "v 2"]))
    if kind < 0.6 and {"Hz", "Hx", "Hy"} <= set(chans):
        return Tipper()
    outs = rng.sample(chans, rng.randint(1, len(chans)))
    ins = rng.sample(chans, rng.randint(1, min(2, len(chans))))
    cross = rng.choice([None, rng.sample(chans, rng.randint(len(ins), len(chans)))])
    return TransferFunction(variation="mine", out_chans=outs, in_chans=ins, cross_chans=cross)


def random_solver(rng, fast=True):
    kinds = [SolverScikitOLS, SolverScikitHuber, SolverScikitWLS]
    if not fast:
        kinds += [SolverScikitTheilSen, SolverScikitRANSAC]
    cls = rng.choice(kinds)
    kw = {"fit_intercept": rng.random() < 0.3}
    if cls is SolverScikitWLS:
        kw["n_iter"] = rng.choice([1, 3, 10])
    if cls is SolverScikitHuber:
        kw["epsilon"] = rng.choice([1, 1.35, 2])
    return cls(**kw)


class Chain:
    """Steps of (name, process, inputs, output), every step rerunnable"""

    def __init__(self, ctx, n=None, chans=None):
        rng = ctx.rng
        self.ctx = ctx
        self.path = ctx.scratch()
        self.fs = float(rng.choice([1, 10, 64, 128, 1000, 0.5]))
        n = n or rng.choice([2500, 4000, 6000])
        chans = chans or rng.sample(build.CHANS, rng.randint(2, 5))
        dtype = rng.choice([np.float64, np.float32, np.int32])
        self.td = build.time_data(rng, ctx.np, self.fs, n, make_time(rng), chans, dtype)
        for i, chan in enumerate(chans):
            self.td.metadata.chans_metadata[chan].sensor = f"S{i}"
            self.td.metadata.chans_metadata[chan].serial = str(i)
        self.steps = []

    def run(self, name, process, *inputs):
        out = process.run(*inputs)
        self.steps.append((name, process, inputs, out))
        return out

    def to_evals(self, functions=True):
        rng = self.ctx.rng
        td = self.td
        for _ in range(rng.randint(0, 2)):
            proc = catalog.time_process(rng, td, functions=functions)
            name = type(proc).__name__
            if name in ("Decimate", "Resample", "Subsection"):
                continue
            td = self.run(name, proc, td)
        self.dec_params = self.run("DecimationSetup", catalog.dec_setup(rng, td.metadata.fs), td.metadata.fs)
        dd = self.run("Decimator", catalog.decimator(rng), self.dec_params, td)
        setup = catalog.win_setup(rng, dd.metadata.n_levels)
        wp = self.run("WindowSetup", setup, dd.metadata.n_levels, dd.metadata.fs)
        first = td.metadata.first_time
        wd = self.run("Windower", catalog.windower(rng), first, wp, dd)
        sd = self.run("FourierTransform", catalog.fourier(rng), wd)
        if rng.random() < 0.5:
            sd = self.run("Smoother", catalog.smoother(rng), sd)
        self.sd = sd
        from resistics.spectra import EvaluationFreqs
        ed = self.run("EvaluationFreqs", EvaluationFreqs(), self.dec_params, sd)
        for i in range(len(td.metadata.chans)):
            if rng.random() < 0.7:
                write_cal_json(self.path / f"IC_S{i}.json", *response(self.ctx, n=4), f"S{i}", i)
        ed = self.run("SensorCalibrator", catalog.calibrator(rng), Path(self.path), ed)
        self.ed = ed
        return ed

    def to_solution(self, functions=True):
        rng = self.ctx.rng
        ed = self.to_evals(functions)
        tf = random_tf(rng, ed.metadata.chans)
        if rng.random() < 0.7:
            gd = self.run("QuickGather", QuickGather(), Path("meas"), self.dec_params, tf, ed)
            rd = self.run("RegressionPreparerGathered", RegressionPreparerGathered(), tf, gd)
        else:
            rd = self.run("RegressionPreparerSpectra", RegressionPreparerSpectra(), tf, ed)
        return self.run("Solver", random_solver(rng), rd)
