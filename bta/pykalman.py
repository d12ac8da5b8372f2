"""Imports the Kalman filter of the code under test without compiling it: compiling takes a minute, the few tracks of a case do not."""


def load():
    from numba import config
    keep = config.DISABLE_JIT
    config.DISABLE_JIT = 1
    try:
        from beam_telescope_analysis.tools import kalman
    finally:
        config.DISABLE_JIT = keep
    return kalman
