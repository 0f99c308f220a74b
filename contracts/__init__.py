"""Registry of contracts: which real function, which symbolic pre-state,
which specification program / postconditions, for which properties."""
import importlib

MODULES = ["timegrid", "symplectic_", "dyngen", "dyninit", "prop", "evo", "access", "fid", "optim", "optrun", "pulse", "files", "dumps", "grape", "route"]


def registry():
    out = []
    for m in MODULES:
        out += importlib.import_module("contracts." + m).CONTRACTS
    return out
