"""Importing the Zurich Instruments backend where its vendor packages are not installed.

The backend refuses to be imported on this Python version and without the vendor's packages.  What is verified here are its own
functions, none of which calls into those packages; stand-ins of the vendor modules make the import possible.
"""
import importlib
import sys
import types


class Anything:
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k


class Waveform:
    """the two components of a waveform, interleaved and not rounded to the integers of the device"""

    def __init__(self, re, im, *a, **k):
        import numpy as np

        self.data = np.empty(2 * len(re))
        self.data[0::2], self.data[1::2] = re, im


class StandIn(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return type(n, (Anything,), {})


def module(name="quantify_scheduler.backends.zhinst_backend"):
    from quantify_scheduler import compatibility_check as cc

    import pandas as pd

    # the backend supports Python 3.9 only, where pandas keeps None in columns of strings
    try:
        pd.set_option("future.infer_string", False)
    except Exception:  # noqa: BLE001  (versions without that option)
        pass
    keep = cc.check_zhinst_compatibility
    if name not in sys.modules:
        for i in range(8):
            try:
                cc.check_zhinst_compatibility = lambda: None
                importlib.import_module(name)
                break
            except ModuleNotFoundError as e:
                if not (e.name or "").startswith("zhinst"):
                    raise
                parts = e.name.split(".")
                for k in range(1, len(parts) + 1):
                    m = ".".join(parts[:k])
                    if m not in sys.modules:
                        sys.modules[m] = StandIn(m)
                        sys.modules[m].__path__ = []
            finally:
                cc.check_zhinst_compatibility = keep
    if name.endswith("zhinst_backend"):
        sys.modules[name].Waveform = Waveform
    return sys.modules[name]
