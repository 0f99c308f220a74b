"""Contracts of the cost/gradient/iteration callables, of the result and of
whole optimisation runs (C09, C10, C21)."""
import timeit
import numpy as np
from qutip import Qobj
from qutip_qtrl import dump, dynamics, errors, optimizer, optimresult, termcond


def fid_err_func(self, args):
    self.num_fid_func_calls = self.num_fid_func_calls + 1
    if self.stats is not None:
        self.stats.num_fidelity_func_calls = self.num_fid_func_calls
    A = self._get_ctrl_amps(args[0].copy())
    self.dynamics.ctrl_amps = A
    err = E(A)
    if self.iter_summary is not None:
        self.iter_summary.fid_func_call_num = self.num_fid_func_calls
        self.iter_summary.fid_err = err
    if self.dump is not None and self.dump.dump_fid_err:
        emit("update_fid_err_log", err)
    if err <= self.termination_conditions.fid_err_targ:
        raise errors.GoalAchievedTerminate(err)
    if self.num_fid_func_calls > self.termination_conditions.max_fid_func_calls:
        raise errors.MaxFidFuncCallTerminate()
    return err


def ens_func(self, args, result):
    check("the error returned is the one of the current amplitudes", result == E(self.dynamics.ctrl_amps))
    check("an accepted error is above the target", result > self.termination_conditions.fid_err_targ)
    check("an accepted call is within the permitted number", self.num_fid_func_calls <= self.termination_conditions.max_fid_func_calls)
    check("the variables kept are not the minimiser's array", not shares(self.optim_var_vals, args[0]))
    check("the amplitudes kept are not the minimiser's array", not shares(self.dynamics.ctrl_amps, args[0]))


def fid_err_grad(self, args):
    self.num_grad_func_calls = self.num_grad_func_calls + 1
    if self.stats is not None:
        self.stats.num_grad_func_calls = self.num_grad_func_calls
    A = self._get_ctrl_amps(args[0].copy())
    self.dynamics.ctrl_amps = A
    G, norm = GRAD(A), GN(A)
    self.dynamics.fid_computer.grad_norm = norm
    if self.iter_summary is not None:
        self.iter_summary.grad_func_call_num = self.num_grad_func_calls
        self.iter_summary.grad_norm = norm
    if self.dump is not None:
        if self.dump.dump_grad_norm:
            emit("update_grad_norm_log", norm)
        if self.dump.dump_grad:
            emit("update_grad_log", G)
    if norm < self.termination_conditions.min_gradient_norm:
        raise errors.GradMinReachedTerminate(norm)
    n, m = A.shape
    return array(n * m, lambda i: G[i // m, i % m])


def ens_grad(self, args, result):
    A = self.dynamics.ctrl_amps
    n, m = A.shape
    k, j = any_int(0, n), any_int(0, m)
    check("component k*m+j is the derivative for slot k, control j", result[k * m + j] == GRAD(A)[k, j])
    check("an accepted gradient norm is not below the minimum", self.dynamics.fid_computer.grad_norm >= self.termination_conditions.min_gradient_norm)
    check("the amplitudes kept are not the minimiser's array", not shares(A, args[0]))
    check("the gradient kept is not given away", not shares(result, GRAD(A)))


def callback(self, args):
    self.num_iter = self.num_iter + 1
    t = timeit.default_timer() - self.wall_time_optimize_start
    if self.iter_summary is not None:
        self.iter_summary.iter_num = self.num_iter
        self.iter_summary.wall_time = t
    if self.dump is not None and self.dump.dump_summary:
        emit("add_iter_summary")
    if self.stats is not None:
        self.stats.num_iter = self.num_iter
    if t > self.termination_conditions.max_wall_time:
        raise errors.MaxWallTimeTerminate()


def interpret(self, except_term, result):
    if isinstance(except_term, errors.GoalAchievedTerminate):
        result.goal_achieved = True
        result.termination_reason = "Goal achieved"
    elif isinstance(except_term, errors.MaxWallTimeTerminate):
        result.wall_time_limit_exceeded = True
        result.termination_reason = "Max wall time exceeded"
    elif isinstance(except_term, errors.GradMinReachedTerminate):
        result.grad_norm_min_reached = True
        result.termination_reason = "Gradient normal minimum reached"
    else:
        result.max_fid_func_exceeded = True
        result.termination_reason = "Number of fidelity error calls has exceeded the maximum"


def ens_common(self, result, st_time, end_time, ret):
    dyn = self.dynamics
    A = dyn.ctrl_amps
    check("iterations of the run", result.num_iter == self.num_iter)
    check("cost function calls of the run", result.num_fid_func_calls == self.num_fid_func_calls)
    check("wall time of the run", result.wall_time == end_time - st_time)
    check_eq("final amplitudes are the current ones", result.final_amps, A)
    check("final error is the one of the final amplitudes", result.fid_err == E(A))
    if hasattr(dyn.fid_computer, "get_fidelity"):
        check("fidelity is the one of the final amplitudes", result.fidelity == F(A))
    check("final gradient norm is the last one computed", result.grad_norm_final == dyn.fid_computer.grad_norm)
    check("final evolution is an operator", isinstance(result.evo_full_final, Qobj))
    check_eq("final evolution is the one of the final amplitudes", result.evo_full_final.full(), EVO(A).full() if isinstance(EVO(A), Qobj) else EVO(A))
    check_eq("with the dimensions of the system", result.evo_full_final.dims, dyn.sys_dims)
    if self.stats is not None:
        check("statistics given back are a copy", not is_same(result.stats, self.stats))
        check("wall time in the statistics", result.stats.wall_time_optim == ite(end_time > 0, end_time - self.stats.wall_time_optim_start, result.stats.wall_time_optim))
        check("iterations in the statistics", result.stats.num_iter == self.stats.num_iter)
        check("calls in the statistics", result.stats.num_fidelity_func_calls == self.stats.num_fidelity_func_calls)


def ens_create(self, result):
    dyn = self.dynamics
    A = dyn.ctrl_amps
    check("initial error is the one of the initial amplitudes", result.initial_fid_err == E(A))
    check_eq("initial amplitudes", result.initial_amps, A)
    check("initial amplitudes are a copy", not shares(result.initial_amps, A))
    check_eq("initial evolution", result.evo_full_initial, EVO(A))
    check_eq("slot boundaries", result.time, dyn.time)
    check("slot boundaries are a copy", not shares(result.time, dyn.time))
    check("optimiser", is_same(result.optimizer, self))
    check("no goal yet", result.goal_achieved == False and result.grad_norm_min_reached == False and result.max_iter_exceeded == False
          and result.max_fid_func_exceeded == False and result.wall_time_limit_exceeded == False)


# ------------------------------------------------------- settings of the run
def apply_method_params(self, params):
    if not params:
        params = self.method_params
    if not isinstance(params, dict):
        return
    self.method_params = params
    tc = self.termination_conditions
    rest = {}
    for k in params:
        if present(self, k):
            setattr(self, k, params[k])
        elif present(tc, k):
            setattr(tc, k, params[k])
        else:
            rest[k] = params[k]
    if len(rest) > 0:
        new = {}
        if isinstance(self.method_options, dict):
            for k in self.method_options:
                new[k] = self.method_options[k]
        for k in rest:
            new[k] = rest[k]
        self.method_options = new


def method_options(self):
    tc = self.termination_conditions
    old = self.method_options if self.method_options is not None else {}
    mo = {}
    for k in old:
        mo[k] = old[k]
    if "maxcor" not in old:
        if "max_metric_corr" in old:
            mo["maxcor"] = old["max_metric_corr"]
        elif present(self, "max_metric_corr"):
            mo["maxcor"] = self.max_metric_corr
    if "ftol" not in old:
        if "accuracy_factor" in old:
            mo["ftol"] = old["accuracy_factor"]
        elif present(tc, "accuracy_factor"):
            mo["ftol"] = tc.accuracy_factor
    if "maxiter" not in old and tc.max_iterations > 0:
        mo["maxiter"] = tc.max_iterations
    if "maxfev" not in old and tc.max_fid_func_calls > 0:
        mo["maxfev"] = tc.max_fid_func_calls
    if "gtol" not in old and tc.min_gradient_norm > 0:
        mo["gtol"] = tc.min_gradient_norm
    if "disp" not in old:
        mo["disp"] = self.disp_conv_msg
    return mo


def init_optim(self, term_conds):
    if term_conds is not None:
        self.termination_conditions = term_conds
    tc = self.termination_conditions
    if not isinstance(tc, termcond.TerminationConditions):
        raise errors.UsageError("no termination conditions")
    if not isinstance(self.dynamics, dynamics.Dynamics):
        raise errors.UsageError("no dynamics")
    if not self.dynamics._ctrls_initialized:
        raise errors.UsageError("controls not initialised")
    apply_method_params(self, None)
    if tc.fid_err_targ is None and tc.fid_goal is None:
        raise errors.UsageError("no target")
    if tc.fid_err_targ is None:
        tc.fid_err_targ = abs(1 - tc.fid_goal)
    if tc.fid_goal is None:
        tc.fid_goal = 1 - tc.fid_err_targ
    if self.alg == "CRAB":
        self.approx_grad = True
    if self.stats is not None:
        stats_clear(self.stats)
    if self.dump_to_file:
        if self.dump is None:
            self.dump = dump.OptimDump(self, level="SUMMARY")
        self.dump.write_to_file = True
        emit("create_dump_dir")
    self.iter_summary = optimizer.OptimIterSummary() if self.dump is not None else None
    self.num_iter = self.num_fid_func_calls = self.num_grad_func_calls = 0
    self.iteration_steps = None


def init_optim_lbfgsb(self, term_conds):
    tc = term_conds if term_conds is not None else self.termination_conditions
    cfg = self.config
    if present(cfg, "max_metric_corr") and cfg.max_metric_corr:
        self.max_metric_corr = cfg.max_metric_corr
    if present(cfg, "accuracy_factor") and cfg.accuracy_factor:
        if not isinstance(tc, termcond.TerminationConditions):
            raise Exception("no termination conditions")
        tc.accuracy_factor = cfg.accuracy_factor
    init_optim(self, term_conds)


def init_optim_crab(self, term_conds):
    init_optim(self, term_conds)
    if GENS() != "ok":
        raise errors.UsageError("pulse generators do not match the controls")
    self.num_optim_vars = Sum(0, self.dynamics._num_ctrls, lambda j: NV(j))


# ---------------------------------------------------------------- statistics
def stats_clear(self):
    for a in ("num_iter", "num_fidelity_func_calls", "num_grad_func_calls", "num_tslot_recompute", "num_fidelity_computes", "num_grad_computes",
              "num_ctrl_amp_updates", "num_timeslot_changes", "num_ctrl_amp_changes",
              "wall_time_optim_start", "wall_time_optim_end", "wall_time_optim", "wall_time_dyn_gen_compute", "wall_time_prop_compute",
              "wall_time_fwd_prop_compute", "wall_time_onwd_prop_compute", "wall_time_gradient_compute",
              "mean_num_ctrl_amp_updates_per_iter", "mean_num_timeslot_changes_per_update", "mean_num_ctrl_amp_changes_per_update"):
        setattr(self, a, 0)


def ratio(a, b):
    if b == 0:
        return np.nan
    return a / b


def stats_calc(self):
    if self.wall_time_optim_end > 0:
        self.wall_time_optim = self.wall_time_optim_end - self.wall_time_optim_start
    self.mean_num_ctrl_amp_updates_per_iter = ratio(self.num_ctrl_amp_updates, self.num_iter)
    self.mean_num_timeslot_changes_per_update = ratio(self.num_timeslot_changes, self.num_ctrl_amp_updates)
    self.mean_num_ctrl_amp_changes_per_update = ratio(self.num_ctrl_amp_changes, self.num_ctrl_amp_updates)


def stats_ts_clear(self):
    stats_clear(self)
    for a in ("num_dyn_gen_computes", "mean_num_dyn_gen_computes_per_update", "mean_wall_time_dyn_gen_compute",
              "num_prop_computes", "mean_num_prop_computes_per_update", "mean_wall_time_prop_compute",
              "num_fwd_prop_step_computes", "mean_num_fwd_prop_step_computes_per_update", "mean_wall_time_fwd_prop_compute",
              "num_onwd_prop_step_computes", "mean_num_onwd_prop_step_computes_per_update", "mean_wall_time_onwd_prop_compute"):
        setattr(self, a, 0)


# ------------------------------------------------------------------- the run
def ens_run(self, term_conds, result):
    dyn = self.dynamics
    tc = self.termination_conditions
    if term_conds is not None:
        check("the termination conditions given are used", is_same(tc, term_conds))
    A = dyn.ctrl_amps
    check_eq("final amplitudes are the current ones", result.final_amps, A)
    check("final error is the one of the final amplitudes", result.fid_err == E(A))
    check("fidelity is the one of the final amplitudes", result.fidelity == F(A))
    check_eq("final evolution is the one of the final amplitudes", result.evo_full_final.full(), EVO(A))
    check("final gradient norm", result.grad_norm_final == dyn.fid_computer.grad_norm)
    check_eq("initial amplitudes", result.initial_amps, A0())
    check("initial error is the one of the initial amplitudes", result.initial_fid_err == E(A0()))
    check_eq("initial evolution", result.evo_full_initial, EVO(A0()))
    check_eq("slot boundaries", result.time, dyn.time)
    check("goal achieved exactly when the final error does not exceed the target", iff(result.goal_achieved, result.fid_err <= tc.fid_err_targ))
    check("iterations of the run", result.num_iter == G("NI"))
    check("cost function calls of the run", result.num_fid_func_calls == G("NF"))
    check("wall time covers the minimisation", result.wall_time >= G("T1") - G("T0"))
    check("wall time within the run", result.wall_time <= CLK(NCLK() - 1) - CLK(0))
    check("optimiser", is_same(result.optimizer, self))
    kind, which = G("kind"), G("which")
    goal = maxf = grad = wall = maxit = False
    reason = result.termination_reason
    if kind == "fun":
        goal = result.fid_err <= tc.fid_err_targ
        maxf = not goal
        check_eq("final amplitudes are the last ones evaluated", A, AMPS(G("xx")))
        check("a run ended by the cost function has reached the target or exceeded the calls", implies(maxf, G("NF") > tc.max_fid_func_calls))
        check_eq("reason", reason, "Goal achieved" if goal else "Number of fidelity error calls has exceeded the maximum")
    elif kind == "jac":
        grad = True
        check("gradient norm below its minimum", GN(A) < tc.min_gradient_norm)
        check("gradient norm reported is the one that ended the run", result.grad_norm_final == GN(A))
        check_eq("final amplitudes are the last ones evaluated", A, AMPS(G("xx")))
        check_eq("reason", reason, "Gradient normal minimum reached")
    elif kind == "cb":
        wall = True
        check_eq("reason", reason, "Max wall time exceeded")
    else:
        check_eq("final amplitudes are the ones returned by the minimiser", A, AMPS(G("xx")))
        if which == "minimize":
            check_eq("reason", reason, G("message"))
            limit = tc.max_iterations > 0 and G("nit") >= tc.max_iterations
            maxit = limit and not G("success")
        elif which == "fmin_bfgs":
            w = G("warn")
            grad, maxit = w == 0, w == 1
            if w < 3:
                check_eq("reason", reason, ["Gradient normal minimum reached", "Iteration count limit reached", "Gradient and/or function calls not changing"][w])
        elif which == "fmin":
            w = G("warn")
            maxf, maxit = w == 1, w == 2
            check_eq("reason", reason, ["Function converged (within tolerance)", "Maximum number of function evaluations reached", "Maximum number of iterations reached"][w])
        else:
            w = G("warn")
            grad, maxit = w == 0 and "GRADIENT" in G("task"), w == 1
            check_eq("reason", reason, ["function converged", "Iteration or fidelity function call limit reached", G("task")][w])
    check("goal flag", iff(result.goal_achieved, goal))
    check("call limit flag", iff(result.max_fid_func_exceeded, maxf))
    check("gradient minimum flag", iff(result.grad_norm_min_reached, grad))
    check("wall time flag", iff(result.wall_time_limit_exceeded, wall))
    check("iteration limit flag", iff(result.max_iter_exceeded, maxit))
    if self.stats is not None:
        check("statistics are given", result.stats is not None)
        check("statistics: iterations", result.stats.num_iter == G("NI"))
        check("statistics: cost function calls", result.stats.num_fidelity_func_calls == G("NF"))
        check("statistics: wall time covers the minimisation", implies(CLK(0) > 0, result.stats.wall_time_optim >= G("T1") - G("T0")))
