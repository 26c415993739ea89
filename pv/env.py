"""Prepare the process for importing popsynth from the working tree."""

import os
import sys
import warnings


def setup():
    repo = os.environ.get("PV_REPO", "/repo")
    warnings.simplefilter("ignore")
    import logging

    import popsynth

    assert os.path.dirname(os.path.abspath(popsynth.__file__)) == os.path.join(
        repo, "popsynth"
    ), popsynth.__file__
    # keep the consoles of the workers quiet; C19 has its own processes
    import popsynth.utils.logging as L

    L.popsynth_console_log_handler.setLevel(logging.CRITICAL + 1)
    L.popsynth_usr_log_handler.setLevel(logging.CRITICAL + 1)
    popsynth.silence_progress_bars()
    import numpy as np

    np.seterr(all="ignore")
