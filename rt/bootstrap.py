"""Make the real resistics of /repo importable and quiet"""
import os
import sys
import warnings
from pathlib import Path

REPO = Path(os.environ.get("RT_REPO", "/repo"))
STUBS = Path(__file__).resolve().parent / "stubs"


def prepare():
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    try:
        import sklearn  # noqa: F401  the real one, when there is one
    except ImportError:
        sys.path.append(str(STUBS))
    from loguru import logger

    logger.remove()
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import resistics
    import resistics.letsgo  # noqa: F401

    assert str(Path(resistics.__file__).resolve()).startswith(str(REPO.resolve())), (
        resistics.__file__
    )
    # progress bars off
    import tqdm

    import resistics.regression as reg

    if getattr(reg, "tqdm", None) is tqdm.tqdm:
        reg.tqdm = lambda it, *a, **k: it
