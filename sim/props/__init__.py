import importlib

IDS = ["C%02d" % i for i in range(1, 21)] + ["C27"]


def get(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())
