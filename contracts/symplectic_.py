from pyvc.setups import *
from pyvc.vc import Contract


def s_n(eng):
    fresh_roots(eng)
    return [nat(eng, "nmodes")], {}


CONTRACTS = [
    Contract("symplectic.calc_omega", s_n, None, ["symplectic_:ens_omega"], ["C16"]),
]
