"""Contracts of the pulse generators (C11, C12, C13, C20)."""
import numpy as np
from qutip_qtrl import dynamics


def inb(self, v):
    """v lies within the bounds"""
    r = True
    if lower(self):
        r = all_of(r, v >= self.lbound)
    if upper(self):
        r = all_of(r, v <= self.ubound)
    return r


def lower(self):
    return self.lbound is not None and not np.isinf(self.lbound)


def upper(self):
    return self.ubound is not None and not np.isinf(self.ubound)


# ------------------------------------------------------------ common (C11, C13)
def base_init(self):
    n = self.num_tslots
    if self.tau is None:
        T = self.pulse_time
        self.tau = array(n, lambda k: T / n)
    if self._uses_time:
        tau = self.tau
        self.time = array(n, lambda k: Sum(0, k, lambda i: tau[i]))
    self._pulse_initialised = True
    if self.lbound is not None and np.isinf(self.lbound):
        self.lbound = None
    if self.ubound is not None and np.isinf(self.ubound):
        self.ubound = None
    if self.lbound is not None and self.ubound is not None and self.ubound < self.lbound:
        raise ValueError("bounds")


def ens_bounds(self, pulse, result):
    """also all that callers know of the result"""
    n = len(pulse)
    off = self.offset
    check("one value per slot", len(result) == n)
    if not lower(self) and not upper(self):
        check("without bounds: pulse plus offset", forall(0, n, lambda k: result[k] == pulse[k] + off))
    else:
        check("within the bounds", forall(0, n, lambda k: inb(self, result[k])))
        fits = forall(0, n, lambda k: inb(self, pulse[k] + off))
        check("a pulse within the bounds is only offset", implies(fits, forall(0, n, lambda k: result[k] == pulse[k] + off)))


def ens_shape(self, pulse, result):
    """out of bounds: one-sided bounds shift the pulse; two-sided ones scale it down to the range if needed and shift it"""
    n = len(pulse)
    lb, ub = self.lbound, self.ubound
    fits = forall(0, n, lambda k: inb(self, pulse[k] + self.offset))
    j, k = any_int(0, n), any_int(0, n)
    if not lower(self) and not upper(self):
        return
    if not lower(self) or not upper(self):
        check("one-sided bound: differences kept", implies(not fits, result[j] - result[k] == pulse[j] - pulse[k]))
    else:
        small = forall(0, n, lambda a: forall(0, n, lambda b: pulse[a] - pulse[b] <= ub - lb))
        check("two-sided bounds: differences kept if they fit", implies(small, result[j] - result[k] == pulse[j] - pulse[k]))
        check("two-sided bounds: order kept", implies(pulse[j] <= pulse[k], result[j] <= result[k]))


def t_at(self, k):
    return Sum(0, k, lambda i: self.tau[i])


def judge(self, result, wave):
    n = self.num_tslots
    off = self.offset
    check("one value per slot", len(result) == n)
    k = any_int(0, n)
    check("within the bounds", inb(self, result[k]))
    if self.lbound is None and self.ubound is None:
        check("without bounds: waveform plus offset", result[k] == wave(k) + off)
    else:
        fits = forall(0, n, lambda i: inb(self, wave(i) + off))
        check("waveform plus offset if that is within the bounds", implies(fits, result[k] == wave(k) + off))


# ------------------------------------------------------------------ waveforms
def ens_zero(self, result):
    judge(self, result, lambda k: 0)


def ens_rnd(self, result):
    judge(self, result, lambda k: self.scaling * (2 * DRAW(k) - 1))
    check("one random number per slot", NDRAW() == self.num_tslots)


def n_fourier(self, result):
    c = NWAVES()
    A = np.sqrt(8) * self.scaling / c
    return lambda k: Sum(0, c, lambda i: A * (2 * DRAW(2 * i) - 1) * np.sin(2 * np.pi * t_at(self, k) / WL(i) + DRAW(2 * i + 1) * np.pi / 2))


def ens_rndfourier(self, min_wavelen, result):
    judge(self, result, n_fourier(self, result))
    check("the minimum wavelength reported is the one used", implies(min_wavelen is not None, self.min_wavelen == min_wavelen))


def ens_rndwaves(self, num_comp_waves, min_wavelen, max_wavelen, result):
    c = self.num_comp_waves
    lo, hi = self.min_wavelen, self.max_wavelen
    if num_comp_waves is not None:
        check("number of waves as given", c == num_comp_waves)
    if min_wavelen is not None:
        check("minimum wavelength as given", lo == min_wavelen)
    if max_wavelen is not None:
        check("maximum wavelength as given", hi == max_wavelen)
    A = np.sqrt(8) * self.scaling / c
    judge(self, result, lambda k: Sum(0, c, lambda i: A * (2 * DRAW(3 * i) - 1) * np.sin(
        2 * np.pi * t_at(self, k) / (lo + DRAW(3 * i + 2) * (hi - lo)) + DRAW(3 * i + 1) * np.pi / 2)))
    i = any_int(0, c)
    wl = lo + DRAW(3 * i + 2) * (hi - lo)
    check("wavelengths within their limits", wl >= lo and wl <= hi)


def ens_walk1(self, max_d_amp, result):
    if max_d_amp is not None:
        check("maximum change as given", self.max_d_amp == max_d_amp)
    s = self.scaling
    d = self.max_d_amp * s
    judge(self, result, lambda k: s * (2 * DRAW(0) - 1) + Sum(0, k, lambda i: (2 * DRAW(i + 1) - 1) * d))


def ens_walk2(self, init_grad_range, max_d2_amp, result):
    if max_d2_amp is not None:
        check("maximum change as given", self.max_d2_amp == max_d2_amp)
    s = self.scaling
    d = self.max_d2_amp
    judge(self, result, lambda k: s * (2 * DRAW(0) - 1) + Sum(0, k, lambda i: Sum(0, i + 1, lambda j: (2 * DRAW(j + 1) - 1) * d)))


def lin_init(self, gradient, start_val, end_val):
    base_init(self)
    if start_val is not None:
        self.start_val = start_val
    if end_val is not None:
        self.end_val = end_val
    elif gradient is not None:
        self.gradient, self.end_val = gradient, None
    n = self.num_tslots
    if self.start_val is not None and self.end_val is not None:
        if n > 1:
            self.gradient = (self.end_val - self.start_val) / (self.pulse_time - self.tau[n - 1])
        else:
            self.gradient = 0


def ens_lin(self, gradient, start_val, end_val, result):
    judge(self, result, lambda k: self.scaling * (self.gradient * t_at(self, k) + self.start_val))
    n = self.num_tslots
    if start_val is not None:
        check("start value as given", self.start_val == start_val)
    if end_val is not None:
        check("end value as given", self.end_val == end_val)
    elif gradient is not None:
        check("gradient as given", self.gradient == gradient)
    if self.lbound is None and self.ubound is None:
        check("starts at the start value", result[0] == self.scaling * self.start_val + self.offset)
        if end_val is not None and n > 1:
            # the slots cover the pulse time
            T = self.pulse_time
            covers = Sum(0, n, lambda i: self.tau[i]) == T
            check("the end value is reached in the last slot", implies(covers, result[n - 1] == self.scaling * self.end_val + self.offset))


# ------------------------------------------------------------------ periodic
def per_init(self, num_waves, wavelen, freq, start_phase):
    base_init(self)
    if start_phase is not None:
        self.start_phase = start_phase
    if num_waves is not None or wavelen is not None or freq is not None:
        self.num_waves, self.wavelen, self.freq = num_waves, wavelen, freq
    T = self.pulse_time
    if self.num_waves is not None:
        self.freq = self.num_waves / T
    elif self.wavelen is not None:
        self.freq = 1 / self.wavelen
    self.wavelen = 1 / self.freq
    self.num_waves = self.freq * T


def ens_per(self, num_waves, wavelen, freq, start_phase, result):
    rel_per(self, num_waves, wavelen, freq, start_phase)


def rel_per(self, num_waves, wavelen, freq, start_phase):
    check("waves = frequency times pulse time", self.num_waves == self.freq * self.pulse_time)
    check("wavelength times frequency is one", self.wavelen * self.freq == 1)
    if num_waves is not None:
        check("number of waves as given", self.num_waves == num_waves)
    elif wavelen is not None:
        check("wavelength as given", self.wavelen == wavelen)
    elif freq is not None:
        check("frequency as given", self.freq == freq)
    if start_phase is not None:
        check("start phase as given", self.start_phase == start_phase)


def cycles(self, k):
    """phase at slot k in units of full turns"""
    return (2 * np.pi * self.freq * t_at(self, k) + self.start_phase) / (2 * np.pi)


def ens_sine(self, num_waves, wavelen, freq, start_phase, result):
    rel_per(self, num_waves, wavelen, freq, start_phase)
    judge(self, result, lambda k: self.scaling * np.sin(2 * np.pi * self.freq * t_at(self, k) + self.start_phase))


def ens_square(self, num_waves, wavelen, freq, start_phase, result):
    """1 in the first half of a turn, -1 in the second"""
    rel_per(self, num_waves, wavelen, freq, start_phase)

    def y(x):
        return 4 * np.floor(x) - 2 * np.floor(2 * x) + 1
    judge(self, result, lambda k: self.scaling * y(cycles(self, k)))
    # every real is an integer plus a fraction
    i, f = some_int(), some_real()
    lemma("square wave", y(i + f) == ite(f < 1 / 2, 1, -1), all_of(0 <= f, f < 1))


def ens_saw(self, num_waves, wavelen, freq, start_phase, result):
    """rises from 0 through a turn, jumps from 1 to -1 half-way"""
    rel_per(self, num_waves, wavelen, freq, start_phase)

    def y(x):
        return 2 * (x - np.floor(1 / 2 + x))
    judge(self, result, lambda k: self.scaling * y(cycles(self, k)))
    i, f = some_int(), some_real()
    lemma("saw tooth", y(i + f) == ite(f < 1 / 2, 2 * f, 2 * f - 2), all_of(0 <= f, f < 1))


def ens_triangle(self, num_waves, wavelen, freq, start_phase, result):
    """0, 1, 0, -1, 0 at the quarters of a turn, linear in between"""
    rel_per(self, num_waves, wavelen, freq, start_phase)

    def y(x):
        return 2 * np.abs(2 * (x - np.floor(1 / 2 + x))) - 1

    def shifted(k):
        return (2 * np.pi * self.freq * t_at(self, k) + self.start_phase + np.pi / 2) / (2 * np.pi)
    judge(self, result, lambda k: self.scaling * y(shifted(k)))
    k = any_int(0, self.num_tslots)
    x = cycles(self, k)
    lemma("a quarter turn ahead", shifted(k) == x + 1 / 4)
    i, f = some_int(), some_real()
    lemma("triangle wave", y(i + f + 1 / 4) == ite(f < 1 / 4, 4 * f, ite(f < 3 / 4, 2 - 4 * f, 4 * f - 4)), all_of(0 <= f, f < 1))


def ens_gauss(self, mean, variance, result):
    m = self.mean if mean is None else mean
    v = self.variance if not variance else variance
    judge(self, result, lambda k: self.scaling * np.exp(-((t_at(self, k) - m) ** 2) / (2 * v)))


def ens_edge(self, decay_time, result):
    d = self.decay_time if not decay_time else decay_time
    T = self.pulse_time
    judge(self, result, lambda k: self.scaling * (1 - np.exp(-(t_at(self, k) ** 2) / d) - np.exp(-((t_at(self, k) - T) ** 2) / d)))


# ---------------------------------------------------------------------- CRAB
def crab_est(self, dim):
    return dim - 1 if dim > 3 else 2


def ens_getvals(self, result):
    nc, nb = self.num_coeffs, self.num_basis_funcs
    check("one value per coefficient", len(result) == nc * nb)
    i, j = any_int(0, nc), any_int(0, nb)
    check("values in row order", result[i * nb + j] == self.coeffs[i, j])


def crab_set(self, param_vals):
    nc, nb = self.num_coeffs, self.num_basis_funcs
    self.coeffs = array2(nc, nb, lambda i, j: param_vals[i * nb + j])


def crab_init_coeffs(self, num_coeffs, init_coeffs):
    if num_coeffs:
        self.num_coeffs = num_coeffs
    self._num_coeffs_estimated = False
    if not self.num_coeffs:
        if isinstance(self.parent, dynamics.Dynamics):
            self.num_coeffs = crab_est(self, DIM())
            self._num_coeffs_estimated = True
        else:
            self.num_coeffs = 4
    nc, nb = self.num_coeffs, self.num_basis_funcs
    self.num_optim_vars = nc * nb
    s = self.scaling
    if init_coeffs is not None:
        crab_set(self, init_coeffs)
    elif self.randomize_coeffs:
        r = np.random.random([nc, nb])
        self.coeffs = array2(nc, nb, lambda i, j: (2 * r[i, j] - 1) * s)
    else:
        self.coeffs = array2(nc, nb, lambda i, j: s)


def crab_init_guess(self):
    a = self.guess_pulse_action
    self.guess_pulse_func = None
    if a in ("MODULATE", "modulate"):
        self.guess_pulse_func = self.guess_pulse_modulate
    elif a in ("ADD", "Add"):
        self.guess_pulse_func = self.guess_pulse_add


def ens_guess_add(self, pulse, result):
    check("one value per slot", len(result) == len(pulse))
    k = any_int(0, len(pulse))
    check("sum with the guess", result[k] == pulse[k] + self.guess_pulse[k])


def ens_guess_mod(self, pulse, result):
    check("one value per slot", len(result) == len(pulse))
    k = any_int(0, len(pulse))
    check("guess modulated", result[k] == (1 + pulse[k]) * self.guess_pulse[k])


def ens_init_bounds(self, result):
    lb, ub = self.lbound, self.ubound
    c = self._bound_scale_cond
    if lb is None and ub is None:
        check("no bounds, no scaling", c is None)
        return
    s = np.abs(self._bound_scale)
    if ub is not None:
        check("stays below the upper bound", self._bound_mean + s <= ub)
    if lb is not None:
        check("stays above the lower bound", self._bound_mean - s >= lb)
    if lb is None:
        check("values above the mean are scaled", c == self._BSC_GT_MEAN)
    elif ub is None:
        check("values below the mean are scaled", c == self._BSC_LT_MEAN)
    else:
        check("all values are scaled", c == self._BSC_ALL)


def ens_applyb(self, pulse, result, old):
    n = self.num_tslots
    check("one value per slot", len(result) == n)
    k = any_int(0, n)
    check("within the bounds", inb(self, result[k]))
    if self.lbound is None and self.ubound is None:
        check("unbounded pulses are unchanged", result[k] == old[k])


def ens_ramp(self, pulse, ramping_pulse, result):
    r = self.ramping_pulse if ramping_pulse is None else ramping_pulse
    k = any_int(0, len(pulse))
    check("one value per slot", len(result) == len(pulse))
    check("pulse times ramp", result[k] == (pulse[k] if r is None else pulse[k] * r[k]))


def crab_freqs(self):
    nc = self.num_coeffs
    ff = 2 * np.pi / self.pulse_time
    if self.randomize_freqs:
        r = np.random.random(nc)
        self.freqs = array(nc, lambda i: ff * (i + 1) + r[i] - 1 / 2)
    else:
        self.freqs = array(nc, lambda i: ff * (i + 1))


def ens_crab_init(self, num_coeffs, init_coeffs, result):
    nc, nb = self.num_coeffs, self.num_basis_funcs
    n = self.num_tslots
    check("initialised", self._pulse_initialised)
    if num_coeffs is not None:
        check("number of coefficients as given", nc == num_coeffs)
    check("number of optimisation variables", self.num_optim_vars == nc * nb)
    check("coefficients and frequencies", all_of(len(self.coeffs) == nc, len(self.freqs) == nc))
    i, j = any_int(0, nc), any_int(0, nb)
    if init_coeffs is not None:
        check("coefficients as given", self.coeffs[i, j] == init_coeffs[i * nb + j])
    else:
        check("coefficients within the scaling", np.abs(self.coeffs[i, j]) <= np.abs(self.scaling))
    k = any_int(0, n)
    check("slot start times", self.time[k] == t_at(self, k))
    if self.guess_pulse is not None:
        check("guess is used", self.guess_pulse_func is not None)
    ens_init_bounds(self, None)
    check("the requested bounds are kept", all_of(iff(self.lbound is None, LB() is None or np.isinf(LB())), iff(self.ubound is None, UB() is None or np.isinf(UB()))))


def ens_crab(self, coeffs, result):
    n = self.num_tslots
    c = self.coeffs
    if coeffs is not None:
        i, j = any_int(0, self.num_coeffs), any_int(0, self.num_basis_funcs)
        check("coefficients as given", all_of(len(c) == self.num_coeffs, c[i, j] == coeffs[i, j]))
    check("one value per slot", len(result) == n)

    def fr(i):
        return self.freqs[i] if self.fix_freqs else c[i, 2]

    def value(k):
        t = t_at(self, k)
        p = Sum(0, self.num_coeffs, lambda i: c[i, 0] * np.sin(fr(i) * t) + c[i, 1] * np.cos(fr(i) * t))
        if self.guess_pulse is not None:
            if self.guess_pulse_action == "ADD":
                p = p + self.guess_pulse[k]
            else:
                p = (1 + p) * self.guess_pulse[k]
        if self.ramping_pulse is not None:
            p = p * self.ramping_pulse[k]
        return p
    k = any_int(0, n)
    check("within the bounds", inb(self, result[k]))
    if self.lbound is None and self.ubound is None:
        check("Fourier expansion, guess and ramp", result[k] == value(k))


def copy_pulse(self, pulse):
    return array(len(pulse), lambda k: pulse[k])
