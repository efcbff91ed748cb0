"""The properties.  Each module defines obs() -> list of obligations."""
import importlib

IDS = ['P%02d' % i for i in range(1, 40)]


def load(pid):
    return importlib.import_module('mirv.props.' + pid.lower())
