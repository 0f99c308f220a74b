"""C11-C13: the pulse generators."""
from .dynstate import *
from pyvc.vc import Contract
import z3

INF = float("inf")


def rng(eng):
    """the random state is a stream of numbers in [0, 1)"""
    R = z3.Function("RND", z3.IntSort(), z3.RealSort())
    h = eng.rngh = obj(eng, "optimconfig", "OptimConfig", drawn=0)
    eng.roots.remove(h)

    i = z3.Int("i!rnd")
    eng.fact(z3.ForAll([i], z3.And(R(i) >= 0, R(i) < 1)))

    def num(i):
        return Sc("r", R(S.zi(i)))

    def draw(e, shp):
        at = h.f["drawn"]
        if not shp:
            e.write(h, "drawn", S.add(at, 1))
            return num(at)
        size = shp[0]
        for d in shp[1:]:
            size = S.mul(size, d)
        e.write(h, "drawn", S.add(at, size))

        def base(ix):
            p = ix[0]
            for i, d in zip(ix[1:], shp[1:]):
                p = S.add(S.mul(p, d), i)
            return num(S.add(at, p))
        return Seq(e, "ndarray", shape=tuple(shp), base=base, dtype="float")
    eng.libhooks["rng"] = draw
    eng.specfns["DRAW"] = lambda e, a, k: num(a[0])
    eng.specfns["NDRAW"] = lambda e, a, k: h.f["drawn"]


def bounds(eng):
    lb = opt(eng, None, -INF, lambda: real(eng, "lb"))
    ub = opt(eng, None, INF, lambda: real(eng, "ub"))
    return lb, ub


def gen(eng, cls, time=False, init=None, ordered=True, small=True, **kw):
    """a generator before (inf bounds possible) or after init_pulse"""
    fresh_roots(eng)
    rng(eng)
    n = nat(eng, "n")
    T = pos(eng, "T")
    init = flag(eng) if init is None else init
    if init:
        lb, ub = opt(eng, None, lambda: real(eng, "lb")), opt(eng, None, lambda: real(eng, "ub"))
        if lb is not None and ub is not None:
            eng.assume(S.cmp("<=", lb, ub))
    elif small:
        # the handling of infinite and inverted bounds is init_pulse's own contract
        lb, ub = opt(eng, (None, None), (-INF, INF), (1, 1))
        if lb == 1:
            lb, ub = real(eng, "lb"), real(eng, "ub")
            eng.assume(S.cmp("<=", lb, ub))
    else:
        lb, ub = bounds(eng)
        if ordered and S.is_num(lb) and S.is_num(ub):
            eng.assume(S.cmp("<=", lb, ub))
    hast = init or flag(eng)
    tau = vec(eng, "tau", n, fact=lambda v: S.cmp(">", v, 0)) if hast else None
    g = obj(eng, "pulsegen", cls, open_=False, parent=None, params=None, num_tslots=n, pulse_time=T, scaling=real(eng, "scaling"), offset=real(eng, "offset"),
            tau=tau, lbound=lb, ubound=ub, _uses_time=time, time=None, _pulse_initialised=init, periodic=False, random=False, ramping_pulse=None)
    if init and time:
        t = Seq(eng, "ndarray", shape=(n,), base=lambda ix: eng.ssum(0, ix[0], lambda i: eng.sget(tau, (i,)), "r"), dtype="float")
        g.f["time"] = t
    g.f.update(kw)
    return g, n


def s_binit(eng):
    g, n = gen(eng, "PulseGen", time=flag(eng), init=False, ordered=False, small=False)
    return [g], {}


def s_bounds(eng):
    g, n = gen(eng, "PulseGen", init=True)
    # bounds may have been set to infinity since
    if g.f["lbound"] is None:
        g.f["lbound"] = opt(eng, None, -INF)
    if g.f["ubound"] is None:
        g.f["ubound"] = opt(eng, None, INF)
    p = vec(eng, "p", n)
    eng.shared.append(p)
    return [g, p], {}


def r_bounds(eng, self, pulse):
    f = eng.fresh_fn("r", 1, "bounded")
    return Seq(eng, "ndarray", shape=tuple(pulse.f["shape"]), base=lambda ix: f(*ix), dtype="float")


def s_gen(cls, time=False, **attrs):
    def s(eng):
        g, n = gen(eng, cls, time=time)
        g.f.update({k: v(eng) for k, v in attrs.items()})
        return [g], {}
    return s


def orn(eng, mk):
    return opt(eng, None, mk)


def s_walk(cls, attr):
    def s(eng):
        g, n = gen(eng, cls)
        g.f[attr] = real(eng, attr)
        a = orn(eng, lambda: real(eng, "arg"))
        return [g] + ([None] if cls.endswith("2") else []) + [a], {}
    return s


def s_rndfourier(eng):
    eng.symwhile = True
    g, n = gen(eng, "PulseGenRndFourier", time=True)
    mw = pos(eng, "mw0")
    T = g.f["pulse_time"]
    g.f["min_wavelen"] = mw
    a = orn(eng, lambda: pos(eng, "mw"))
    eng.assume(S.cmp("<=", mw if a is None else a, T))
    H = z3.Function("HALF", z3.IntSort(), z3.RealSort())

    def half(t):
        h = H(S.zi(t))
        eng.fact(h > 0)
        eng.fact(z3.Implies(S.zi(t) >= 0, H(S.zi(t) + 1) == h / 2))
        eng.fact(H(0) == 1)
        return Sc("r", h)
    eng.templates.append(("wavelen", lambda t: S.mul(S.mul(2, T), half(t))))
    eng.specfns["WL"] = lambda e, a, k: S.mul(S.mul(2, T), half(a[0]))
    eng.specfns["NWAVES"] = lambda e, a, k: S.floordiv(e.rngh.f["drawn"], 2)
    return [g, a], {}


def s_rndwaves(eng):
    g, n = gen(eng, "PulseGenRndWaves", time=True)
    c0, lo0, hi0 = nat(eng, "c0"), pos(eng, "lo0"), pos(eng, "hi0")
    g.f.update(num_comp_waves=c0, min_wavelen=lo0, max_wavelen=hi0)
    c, lo, hi = opt(eng, (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1))
    c = nat(eng, "c") if c else None
    lo = pos(eng, "lo") if lo else None
    hi = pos(eng, "hi") if hi else None
    l, h = lo0 if lo is None else lo, hi0 if hi is None else hi
    eng.assume(S.and_(S.cmp("<=", l, g.f["pulse_time"]), S.cmp("<", l, h)))
    return [g, c, lo, hi], {}


def lin(full):
    def s(eng):
        if full:
            st, a = flag(eng), [flag(eng) for _ in range(3)]
        else:
            st, a = opt(eng, (1, (0, 0, 0)), (1, (1, 1, 0)), (1, (0, 0, 1)), (1, (0, 1, 1)), (1, (1, 0, 1)), (0, (0, 0, 0)), (0, (1, 0, 0)), (0, (0, 1, 1)))
        g, n = gen(eng, "PulseGenLinear", init=bool(st), small=not full)
        g.f.update(gradient=real(eng, "gr0"), start_val=real(eng, "sv0"), end_val=opt(eng, None, lambda: real(eng, "ev0")))
        t = g.f["tau"]
        if t is not None:
            # more than one slot: the last one starts after the beginning
            eng.assume(S.or_(S.cmp("==", n, 1), S.cmp("<", eng.sget(t, (S.sub(n, 1),)), g.f["pulse_time"])))
        return [g] + [real(eng, x) if y else None for x, y in zip(("gr", "sv", "ev"), a)], {}
    return s


def per(cls, full=False):
    """full: all combinations of attributes and arguments"""
    def s(eng):
        T = None

        def nz(nm):
            v = real(eng, nm)
            eng.assume(S.cmp("!=", v, 0))
            return v
        if full:
            st = opt(eng, "init", "none", "waves", "len", "waveslen")
            k, ph = opt(eng, "", "w", "l", "f", "wlf", "lf"), flag(eng)
        else:
            st, k, ph = opt(eng, ("init", "", 0), ("init", "", 1), ("init", "w", 0), ("init", "l", 1), ("init", "f", 0), ("init", "wlf", 1),
                            ("none", "", 1), ("waves", "", 0), ("waveslen", "", 0), ("len", "", 0), ("len", "f", 1))
        g, n = gen(eng, cls, init=st == "init", small=not full)
        T = g.f["pulse_time"]
        g.f.update(num_waves=None, wavelen=None, freq=nz("f0"), start_phase=real(eng, "ph0"))
        if st == "init":
            g.f.update(wavelen=S.div(1, g.f["freq"]), num_waves=S.mul(g.f["freq"], T))
        if st in ("waves", "waveslen"):
            g.f["num_waves"] = nz("nw0")
        if st in ("len", "waveslen"):
            g.f["wavelen"] = nz("wl0")
        return [g, nz("nw") if "w" in k else None, nz("wl") if "l" in k else None, nz("fr") if "f" in k else None, real(eng, "ph") if ph else None], {}
    return s


def s_gauss(eng):
    g, n = gen(eng, "PulseGenGaussian", time=True)
    g.f.update(mean=real(eng, "m0"), variance=pos(eng, "v0"))
    return [g, orn(eng, lambda: real(eng, "m")), orn(eng, lambda: pos(eng, "v"))], {}


def s_edge(eng):
    g, n = gen(eng, "PulseGenGaussianEdge", time=True)
    g.f.update(decay_time=pos(eng, "d0"))
    return [g, orn(eng, lambda: pos(eng, "d"))], {}


P = "pulsegen."
B = ["C11", "C13"]
CONTRACTS = [
    Contract(P + "PulseGen.init_pulse", s_binit, "pulse:base_init", [], ["C11", "C12", "C13"]),
    Contract(P + "PulseGen._apply_bounds_and_offset", s_bounds, None, ["pulse:ens_bounds", "pulse:ens_shape"], ["C11"], pure=True, ret=r_bounds),
    Contract(P + "PulseGenZero.gen_pulse", s_gen("PulseGenZero"), None, ["pulse:ens_zero"], B),
    Contract(P + "PulseGenRandom.gen_pulse", s_gen("PulseGenRandom"), None, ["pulse:ens_rnd"], B),
    Contract(P + "PulseGenRndFourier.gen_pulse", s_rndfourier, None, ["pulse:ens_rndfourier"], B),
    Contract(P + "PulseGenRndWaves.gen_pulse", s_rndwaves, None, ["pulse:ens_rndwaves"], B),
    Contract(P + "PulseGenRndWalk1.gen_pulse", s_walk("PulseGenRndWalk1", "max_d_amp"), None, ["pulse:ens_walk1"], B),
    Contract(P + "PulseGenRndWalk2.gen_pulse", s_walk("PulseGenRndWalk2", "max_d2_amp"), None, ["pulse:ens_walk2"], B),
    Contract(P + "PulseGenLinear.init_pulse", lin(True), "pulse:lin_init", [], B),
    Contract(P + "PulseGenLinear.gen_pulse", lin(False), None, ["pulse:ens_lin"], B),
    Contract(P + "PulseGenPeriodic.init_pulse", per("PulseGenSine", True), "pulse:per_init", ["pulse:ens_per"], B),
    Contract(P + "PulseGenSine.gen_pulse", per("PulseGenSine"), None, ["pulse:ens_sine"], B),
    Contract(P + "PulseGenSquare.gen_pulse", per("PulseGenSquare"), None, ["pulse:ens_square"], B),
    Contract(P + "PulseGenSaw.gen_pulse", per("PulseGenSaw"), None, ["pulse:ens_saw"], B),
    Contract(P + "PulseGenTriangle.gen_pulse", per("PulseGenTriangle"), None, ["pulse:ens_triangle"], B),
    Contract(P + "PulseGenGaussian.gen_pulse", s_gauss, None, ["pulse:ens_gauss"], B),
    Contract(P + "PulseGenGaussianEdge.gen_pulse", s_edge, None, ["pulse:ens_edge"], B),
]


# ------------------------------------------------------------------------ CRAB
F = "PulseGenCrabFourier"


def bm(eng, o, name):
    return eng.getattr_(o, name)


def crab_inv(eng, g, nc, which=None):
    """the state left by _init_bounds (postcondition of its contract)"""
    k = opt(eng, None, 1, 2, 3) if which is None else which
    g.f.update(_bound_scale_cond=k, lbound=None, ubound=None)
    if k is None:
        return
    mean, sc = real(eng, "bmean"), real(eng, "bscale")
    g.f.update(_bound_mean=mean, _bound_scale=sc)
    a = S.abs_(sc) if hasattr(S, "abs_") else S.ite(S.cmp(">=", sc, 0), sc, S.neg(sc))
    if k in (1, 3):
        lb = g.f["lbound"] = real(eng, "lb")
        eng.assume(S.cmp("<=", lb, S.sub(mean, a)))
    if k in (1, 2):
        ub = g.f["ubound"] = real(eng, "ub")
        eng.assume(S.cmp("<=", S.add(mean, a), ub))


def crabgen(eng, init=True, fix=None, inv=True, guess=True, cond=None, rnd=False):
    """a CRAB generator; init: after init_pulse"""
    g, n = gen(eng, F, time=True, init=True if init else False)
    nc = nat(eng, "nc")
    fix = flag(eng) if fix is None else fix
    nb = 2 if fix else 3
    g.f.update(NUM_COEFFS_WARN_LVL=20, DEF_NUM_COEFFS=4, _BSC_ALL=1, _BSC_GT_MEAN=2, _BSC_LT_MEAN=3, num_basis_funcs=nb, num_coeffs=nc,
               num_optim_vars=S.mul(nc, nb), coeffs=arr2(eng, "C0", nc, nb), randomize_coeffs=flag(eng) if rnd else True, _num_coeffs_estimated=False,
               guess_pulse_action="MODULATE", guess_pulse=None, guess_pulse_func=None, freqs=vec(eng, "freqs", nc) if init else None,
               randomize_freqs=flag(eng) if rnd else True, fix_freqs=bool(fix), log_level=30)
    if inv:
        crab_inv(eng, g, nc, cond)
    if guess:
        w = opt(eng, None, "MODULATE", "ADD")
        if w:
            g.f.update(guess_pulse=vec(eng, "guess", n), guess_pulse_action=w,
                       guess_pulse_func=bm(eng, g, "guess_pulse_modulate" if w == "MODULATE" else "guess_pulse_add") if init else None)
    return g, n, nc, nb


def s_est(eng):
    g, n, nc, nb = crabgen(eng, guess=False, cond=0, inv=False)
    return [g, nat(eng, "dim")], {}


def s_getvals(eng):
    g, n, nc, nb = crabgen(eng, guess=False, inv=False)
    return [g], {}


def s_setvals(eng):
    g, n, nc, nb = crabgen(eng, guess=False, inv=False)
    x = vec(eng, "x", S.mul(nc, nb))
    eng.shared.append(x)
    return [g, x], {}


def s_initcoeffs(eng):
    g, n, nc, nb = crabgen(eng, init=True, rnd=True, guess=False, inv=False)
    k = opt(eng, "attr", "none", "arg", "dyn", "both")
    N = nat(eng, "Ndim")
    if k in ("none", "dyn"):
        g.f["num_coeffs"] = None
    if k == "dyn":
        g.f["parent"] = obj(eng, "dynamics", "Dynamics", log_level=30)
        eng.contracts["dynamics.Dynamics.get_drift_dim"] = lambda e, a, kw: N
    eng.specfns["DIM"] = lambda e, a, kw: N
    c = nat(eng, "ncarg") if k in ("arg", "both") else None
    tot = {"attr": nc, "none": 4, "arg": c, "both": c, "dyn": S.ite(S.cmp(">", N, 3), S.sub(N, 1), 2)}[k]
    x = vec(eng, "x", S.mul(tot, nb)) if flag(eng) else None
    if x is not None:
        eng.shared.append(x)
    return [g, c, x], {}


def s_initguess(eng):
    g, n, nc, nb = crabgen(eng, init=True, fix=True, guess=False, inv=False)
    g.f.update(guess_pulse_action=opt(eng, None, "", "MODULATE", "modulate", "Add", "ADD", "other"), guess_pulse=vec(eng, "guess", n))
    return [g], {}


def s_guessop(eng):
    g, n, nc, nb = crabgen(eng, guess=False, inv=False, cond=None)
    g.f["guess_pulse"] = vec(eng, "guess", n)
    p = vec(eng, "p", n)
    eng.shared += [p, g.f["guess_pulse"]]
    return [g, p], {}


def s_initbounds(eng):
    g, n, nc, nb = crabgen(eng, init=True, fix=True, inv=False)
    lb, ub = opt(eng, None, lambda: real(eng, "lb")), opt(eng, None, lambda: real(eng, "ub"))
    if lb is not None and ub is not None:
        eng.assume(S.cmp("<=", lb, ub))
    g.f.update(lbound=lb, ubound=ub)
    return [g], {}


def s_applyb(eng):
    g, n, nc, nb = crabgen(eng, guess=False)
    return [g, vec(eng, "p", n)], {}


def s_ramp(eng):
    g, n = gen(eng, "PulseGen", init=True)
    g.f["ramping_pulse"] = orn(eng, lambda: vec(eng, "ramp0", n))
    p = vec(eng, "p", n)
    r = orn(eng, lambda: vec(eng, "ramp", n))
    eng.shared.append(p)
    if r is not None:
        eng.shared.append(r)
    return [g, p, r], {}


def s_freqs(eng):
    g, n, nc, nb = crabgen(eng, init=True, rnd=True, guess=False, inv=False)
    return [g], {}


def s_crabgen(eng):
    g, n, nc, nb = crabgen(eng)
    g.f["ramping_pulse"] = orn(eng, lambda: vec(eng, "ramp0", n))
    c = orn(eng, lambda: arr2(eng, "C", nc, nb))
    for x in (c, g.f["ramping_pulse"], g.f["guess_pulse"]):
        if x is not None:
            eng.shared.append(x)
    return [g, c], {}


def s_crabinit(eng):
    g, n, nc, nb = crabgen(eng, init=False, inv=False)
    lb, ub = g.f["lbound"], g.f["ubound"]
    eng.specfns["LB"] = lambda e, a, k: lb
    eng.specfns["UB"] = lambda e, a, k: ub
    c = nat(eng, "ncarg") if flag(eng) else None
    x = vec(eng, "x", S.mul(nc if c is None else c, nb)) if flag(eng) else None
    return [g, c, x], {}


def s_crabgen0(eng):
    """not initialised yet"""
    g, n, nc, nb = crabgen(eng, init=False, inv=False)
    c = orn(eng, lambda: arr2(eng, "C", nc, nb))
    if c is not None:
        eng.shared.append(c)
    return [g, c], {}


CONTRACTS += [
    Contract(P + "PulseGenCrab.estimate_num_coeffs", s_est, "pulse:crab_est", [], ["C12"]),
    Contract(P + "PulseGenCrab.get_optim_var_vals", s_getvals, None, ["pulse:ens_getvals"], ["C12", "C08"]),
    Contract(P + "PulseGenCrab.set_coeffs", s_setvals, "pulse:crab_set", [], ["C12", "C08"]),
    Contract(P + "PulseGenCrab.set_optim_var_vals", s_setvals, "pulse:crab_set", [], ["C12", "C08"]),
    Contract(P + "PulseGenCrab.init_coeffs", s_initcoeffs, "pulse:crab_init_coeffs", [], ["C12"]),
    Contract(P + "PulseGenCrab.init_guess_pulse", s_initguess, "pulse:crab_init_guess", [], ["C12"]),
    Contract(P + "PulseGenCrab.guess_pulse_add", s_guessop, None, ["pulse:ens_guess_add"], ["C12"]),
    Contract(P + "PulseGenCrab.guess_pulse_modulate", s_guessop, None, ["pulse:ens_guess_mod"], ["C12"]),
    Contract(P + "PulseGenCrab._init_bounds", s_initbounds, None, ["pulse:ens_init_bounds"], ["C12"]),
    Contract(P + "PulseGenCrab._apply_bounds", s_applyb, None, ["pulse:ens_applyb"], ["C12"], old="pulse:copy_pulse"),
    Contract(P + "PulseGen._apply_ramping_pulse", s_ramp, None, ["pulse:ens_ramp"], ["C12"]),
    Contract(P + F + ".init_freqs", s_freqs, "pulse:crab_freqs", [], ["C12"]),
    Contract(P + F + ".init_pulse", s_crabinit, None, ["pulse:ens_crab_init"], ["C12"]),
    Contract(P + F + ".gen_pulse", s_crabgen, None, ["pulse:ens_crab"], ["C12"]),
    Contract(P + F + ".gen_pulse", s_crabgen0, None, ["pulse:ens_crab"], ["C12"], name=P + F + ".gen_pulse (first call)"),
]
