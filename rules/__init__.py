import importlib
import os

_REG = {}


def prop(*ids):
    """Register a rule function (P, R) for properties."""
    def deco(fn):
        for i in ids:
            _REG.setdefault(i, []).append(fn)
        return fn
    return deco


def registry():
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f.startswith("r_") and f.endswith(".py"):
            importlib.import_module("rules." + f[:-3])
    return _REG
