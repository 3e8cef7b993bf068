"""setup_cmd: are the interpreter, z3 and the repository's imports there?"""
import sys
from fractions import Fraction


def main():
    import z3

    from . import instrument

    instrument.setup(True)
    from .engine import Engine
    from .env import SymEnv
    import neutrinomass.tensormethod.core as core

    g = Engine()
    Engine.current = g
    g.start([])
    env = SymEnv(g)
    f = core.Field("A", "00110", charges={"y": env.rat("y")})
    assert g.must((f.conj.charges["y"] + env.rat("y") == 0).e if not isinstance(
        f.conj.charges["y"] + env.rat("y") == 0, bool) else True)
    print("selftest ok: python", sys.version.split()[0], "z3", z3.get_version_string())
    return 0
