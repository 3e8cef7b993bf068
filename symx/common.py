"""Shared by the symbolic runner and the native replay."""
import importlib.util
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_harness(pid):
    path = os.path.join(HERE, "harness", pid + ".py")
    hd = os.path.join(HERE, "harness")
    if hd not in sys.path:
        sys.path.append(hd)
    spec = importlib.util.spec_from_file_location("harness_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    if hasattr(m, "load"):
        m.load()
    return m


def where(exc):
    """The innermost frame of /repo that raised, for messages."""
    tb = traceback.extract_tb(exc.__traceback__)
    for f in reversed(tb):
        if "/neutrinomass/" in f.filename:
            return f"{os.path.basename(f.filename)}:{f.name}"
    return "harness:" + tb[-1].name + ":" + str(tb[-1].lineno) if tb else "?"


def in_repo(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return any("/neutrinomass/" in f.filename for f in tb)
