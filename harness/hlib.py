"""Helpers shared by the harnesses."""
import importlib
import itertools


def repo(name):
    return importlib.import_module("neutrinomass." + name)


def dynkins(n, digits=5):
    """All digit strings whose digits add up to at most n."""
    return [d for d in itertools.product(range(n + 1), repeat=digits) if sum(d) <= n]


def index_string(dynkin, gen=0):
    u, d, cu, cd, i = map(int, dynkin)
    out = [f"u{k}" for k in range(u)] + [f"d{k}" for k in range(d)]
    out += [f"c{k}" for k in range(cu)] + [f"-c{k + cu}" for k in range(cd)]
    out += [f"i{k}" for k in range(i)] + [f"g{k}" for k in range(gen)]
    return " ".join(out)
