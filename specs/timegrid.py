"""Contracts of the time grid (C01)."""


def init_timeslots(self):
    if self._num_tslots is None:
        self._num_tslots = 10
    if self._evo_time is None:
        self._evo_time = 1
    if self._tau is None:
        n, T = self._num_tslots, self._evo_time
        self._tau = array(n, lambda k: T / n)
    else:
        tau0 = self._tau
        self._num_tslots = len(tau0)
        self._evo_time = Sum(0, len(tau0), lambda k: tau0[k])
    tau = self._tau
    self.time = array(self._num_tslots + 1, lambda k: Sum(0, k, lambda t: tau[t]))
    self._timeslots_initialized = True


def num_tslots_set(self, value):
    self._num_tslots = value
    if self._timeslots_initialized:
        self._tau = None
        init_timeslots(self)


def num_tslots_get(self):
    if not self._timeslots_initialized:
        init_timeslots(self)
    return self._num_tslots


def evo_time_set(self, value):
    self._evo_time = value
    if self._timeslots_initialized:
        self._tau = None
        init_timeslots(self)


def evo_time_get(self):
    if not self._timeslots_initialized:
        init_timeslots(self)
    return self._evo_time


def tau_set(self, value):
    self._tau = value
    init_timeslots(self)


def tau_get(self):
    if not self._timeslots_initialized:
        init_timeslots(self)
    return self._tau


# ------------------------------------------------------------- the invariant
def grid_invariant(self):
    """C01: holds whenever the grid has been initialised"""
    if self._timeslots_initialized:
        n = self._num_tslots
        check("one duration per slot", len(self._tau) == n)
        check("n+1 boundaries", len(self.time) == n + 1)
        check("boundaries start at 0", self.time[0] == 0)
        k = any_int(0, n)
        check("consecutive boundaries differ by the slot duration", self.time[k + 1] - self.time[k] == self._tau[k])


def grid_total(self):
    check("last boundary is the total evolution time", self.time[self._num_tslots] == self._evo_time)


def ens_init(self, result):
    grid_invariant(self)
    grid_total(self)


def ens_set(self, value, result):
    grid_invariant(self)
    if self._timeslots_initialized:
        grid_total(self)


def old_tau(self, value=None):
    return self._tau


def ens_num_set(self, value, result):
    ens_set(self, value, result)
    check("slot count as set", self._num_tslots == value)
    if self._timeslots_initialized:
        k = any_int(0, value)
        check("equal durations", self._tau[k] * value == self._evo_time)


def ens_evo_set(self, value, result):
    ens_set(self, value, result)
    check("evolution time as set", self._evo_time == value)
    if self._timeslots_initialized:
        k = any_int(0, self._num_tslots)
        check("equal durations", self._tau[k] * self._num_tslots == value)


def ens_tau_set(self, value, result):
    ens_set(self, value, result)
    check("slot count determined by the durations", self._num_tslots == len(value))
    check("grid usable", self._timeslots_initialized)
    k = any_int(0, len(value))
    check("explicit durations kept", self._tau[k] == value[k])


def ens_get(self, result):
    grid_invariant(self)
    grid_total(self)
