"""Contracts of the slot generator (C02)."""


def apply_preop(self, dg):
    """phase times generator"""
    ph = self._dyn_gen_phase
    if hasattr(ph, "dot"):
        return ph.dot(dg)
    return ph * dg


def apply_postop(self, dg):
    """generator times phase"""
    ph = self._dyn_gen_phase
    if hasattr(ph, "dot"):
        return dg.dot(ph)
    return dg * ph


def drift_of(self, k):
    if self.time_depend_drift:
        return self._drift_dyn_gen[k]
    return self._drift_dyn_gen


def ctrl_of(self, k, j):
    if self.time_depend_ctrl_dyn_gen:
        return self._ctrl_dyn_gen[k, j]
    return self._ctrl_dyn_gen[j]


def slot_generator(self, k):
    """drift plus amplitude-weighted controls"""
    amps = self.ctrl_amps
    return drift_of(self, k) + Sum(0, self._num_ctrls, lambda j: amps[k, j] * ctrl_of(self, k, j))


def phased(self, x):
    if self._dyn_gen_phase is None:
        return x
    return self._apply_phase(x)


def combine(self, k):
    dg = slot_generator(self, k)
    self._dyn_gen[k] = dg
    if self.cache_phased_dyn_gen:
        self._phased_dyn_gen[k] = phased(self, dg)


def get_phased(self, k):
    return phased(self, self._dyn_gen[k])


def get_phased_ctrl(self, k, j):
    return phased(self, ctrl_of(self, k, j))
