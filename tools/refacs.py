"""Behaviour-preserving edits of the source: every contract named by the
patterns has to stay free of "refuted" on each of them.
(id, patterns for runvc, [(file, old, new)])"""
R = []


def r(id, pats, *edits):
    R.append((id, pats, edits))


r("tau_helper", ["dynamics.Dynamics.init_timeslots"], (
"dynamics.py", '''        if self._tau is None:
            self._tau = (
                np.ones(self._num_tslots, dtype="f")
                * self._evo_time
                / self._num_tslots
            )
        else:
            self._num_tslots = len(self._tau)
            self._evo_time = np.sum(self._tau)

        self.time = np.zeros(self._num_tslots + 1, dtype=float)
        # set the cumulative time by summing the time intervals
        for t in range(self._num_tslots):
            self.time[t + 1] = self.time[t] + self._tau[t]

        self._timeslots_initialized = True
''', '''        if self._tau is not None:
            self._num_tslots = len(self._tau)
            self._evo_time = np.sum(self._tau)
        else:
            self._tau = self._equal_slots(self._num_tslots, self._evo_time)

        self._timeslots_initialized = True
        n_ts = self._num_tslots
        times = np.zeros(n_ts + 1, dtype=float)
        # set the cumulative time by summing the time intervals
        for t in range(1, n_ts + 1):
            times[t] = times[t - 1] + self._tau[t - 1]
        self.time = times

    def _equal_slots(self, n_ts, evo_time):
        return np.ones(n_ts, dtype="f") * evo_time / n_ts
'''))
r("tau_full", ["dynamics.Dynamics.init_timeslots"], (
"dynamics.py", '''        self.time = np.zeros(self._num_tslots + 1, dtype=float)
        # set the cumulative time by summing the time intervals
        for t in range(self._num_tslots):
            self.time[t + 1] = self.time[t] + self._tau[t]
''', '''        self.time = np.zeros(self._num_tslots + 1, dtype=float)
        # set the cumulative time by summing the time intervals
        total = 0.0
        for t, dt in enumerate(self._tau):
            total = total + dt
            self.time[t + 1] = total
'''))
r("tau_while", ["dynamics.Dynamics.init_timeslots"], (
"dynamics.py", '''        for t in range(self._num_tslots):
            self.time[t + 1] = self.time[t] + self._tau[t]
''', '''        t = 0
        while t < self._num_tslots:
            self.time[t + 1] = self.time[t] + self._tau[t]
            t += 1
'''))
r("combine_branch_out", ["dynamics.Dynamics._combine_dyn_gen"], (
"dynamics.py", '''        for j in range(self._num_ctrls):
            if self.time_depend_ctrl_dyn_gen:
                dg = dg + self.ctrl_amps[k, j] * self._ctrl_dyn_gen[k, j]
            else:
                dg = dg + self.ctrl_amps[k, j] * self._ctrl_dyn_gen[j]

        self._dyn_gen[k] = dg
        if self.cache_phased_dyn_gen:
            self._phased_dyn_gen[k] = self._apply_phase(dg)
''', '''        if self.time_depend_ctrl_dyn_gen:
            for j in range(self._num_ctrls):
                dg = dg + self.ctrl_amps[k, j] * self._ctrl_dyn_gen[k, j]
        else:
            for j in range(self._num_ctrls):
                dg = dg + self.ctrl_amps[k, j] * self._ctrl_dyn_gen[j]

        if self.cache_phased_dyn_gen:
            self._phased_dyn_gen[k] = self._apply_phase(dg)
        self._dyn_gen[k] = dg
'''))
r("combine_helper", ["dynamics.Dynamics._combine_dyn_gen"], (
"dynamics.py", '''        if self.time_depend_drift:
            dg = self._drift_dyn_gen[k]
        else:
            dg = self._drift_dyn_gen
        for j in range(self._num_ctrls):
            if self.time_depend_ctrl_dyn_gen:
                dg = dg + self.ctrl_amps[k, j] * self._ctrl_dyn_gen[k, j]
            else:
                dg = dg + self.ctrl_amps[k, j] * self._ctrl_dyn_gen[j]
''', '''        dg = self._drift_dyn_gen[k] if self.time_depend_drift else (
            self._drift_dyn_gen)
        for j in range(self._num_ctrls):
            amp = self.ctrl_amps[k, j]
            dg = dg + amp * self._ctrl_at(k, j)
'''), ("dynamics.py", '''    def get_dyn_gen(self, k):
''', '''    def _ctrl_at(self, k, j):
        if self.time_depend_ctrl_dyn_gen:
            return self._ctrl_dyn_gen[k, j]
        return self._ctrl_dyn_gen[j]

    def get_dyn_gen(self, k):
'''))
r("phased_guard", ["_get_phased_dyn_gen", "_get_phased_ctrl_dyn_gen"], (
"dynamics.py", '''        if self.dyn_gen_phase is None:
            return self._dyn_gen[k]
        else:
            if self._phased_dyn_gen is None:
                return self._apply_phase(self._dyn_gen[k])
            else:
                return self._phased_dyn_gen[k]
''', '''        if self.dyn_gen_phase is not None:
            if self._phased_dyn_gen is not None:
                return self._phased_dyn_gen[k]
            return self._apply_phase(self._dyn_gen[k])
        return self._dyn_gen[k]
'''))
r("phase_one", ["_apply_phase_p"], (
"dynamics.py", '''        if hasattr(self.dyn_gen_phase, "dot"):
            phased_dg = self._dyn_gen_phase.dot(dg)
        else:
            phased_dg = self._dyn_gen_phase * dg
        return phased_dg
''', '''        phase = self._dyn_gen_phase
        return (
            phase.dot(dg)
            if hasattr(self.dyn_gen_phase, "dot")
            else phase * dg
        )
'''))
r("onto_flip", ["_get_onto_evo_target"], (
"dynamics.py", '''        if self.target.shape[0] == self.target.shape[1]:
            # Target is operator
            targ = la.inv(self.target.full())
            if self.oper_dtype == Qobj:
                rev_dims = [self.target.dims[1], self.target.dims[0]]
                self._onto_evo_target = Qobj(targ, dims=rev_dims)
            elif self.oper_dtype == np.ndarray:
                self._onto_evo_target = targ
            else:
                assert False, f"Unknown oper_dtype {self.oper_dtype!r}"
        else:
            if self.oper_dtype == Qobj:
                self._onto_evo_target = self.target.dag()
            elif self.oper_dtype == np.ndarray:
                self._onto_evo_target = self.target.dag().full()
            else:
                assert False, f"Unknown oper_dtype {self.oper_dtype!r}"
''', '''        nr, nc = self.target.shape
        if nr != nc:
            onto = self.target.dag()
            if self.oper_dtype == np.ndarray:
                onto = onto.full()
        else:
            # Target is operator
            onto = la.inv(self.target.full())
            if self.oper_dtype == Qobj:
                onto = Qobj(
                    onto, dims=[self.target.dims[1], self.target.dims[0]]
                )
        self._onto_evo_target = onto
'''))
r("spec_direct", ["DynamicsUnitary._spectral_decomp"], (
"dynamics.py", '''        o = np.ones([n, n])
        eig_val_cols = eig_val_tau * o
        # calculate all the differences by subtracting it from its transpose
        eig_val_diffs = eig_val_cols - eig_val_cols.T
        # repeat for the propagator
        prop_eig_cols = prop_eig * o
        prop_eig_diffs = prop_eig_cols - prop_eig_cols.T
''', '''        o = np.ones((n, n))
        prop_eig_cols = o * prop_eig
        prop_eig_diffs = prop_eig_cols - prop_eig_cols.T
        # calculate all the differences by subtracting it from its transpose
        eig_val_cols = o * eig_val_tau
        eig_val_diffs = eig_val_cols - eig_val_cols.T
'''))
r("spec_loop", ["DynamicsUnitary._spectral_decomp"], (
"dynamics.py", '''        eig_val_cols = eig_val_tau * o
        # calculate all the differences by subtracting it from its transpose
        eig_val_diffs = eig_val_cols - eig_val_cols.T
''', '''        eig_val_diffs = eig_val_tau[np.newaxis, :] * o - (
            eig_val_tau[:, np.newaxis] * o)
'''))
r("spec_where", ["DynamicsUnitary._spectral_decomp"], (
"dynamics.py", '''        eig_val_diffs[degen_mask] = 1
        factors = prop_eig_diffs / eig_val_diffs
        # for degenerate eigenvalues the factor is just the exponent
        factors[degen_mask] = prop_eig_cols[degen_mask]
''', '''        denom = np.where(degen_mask, 1, eig_val_diffs)
        factors = np.where(
            degen_mask, prop_eig_cols, prop_eig_diffs / denom)
'''))
r("eig_adj", ["_get_dyn_gen_eigenvectors_adj"], (
"dynamics.py", '''        if self._dyn_gen_eigenvectors_adj is not None:
            return self._dyn_gen_eigenvectors_adj[k]
        if self.oper_dtype == Qobj:
            return self._dyn_gen_eigenvectors[k].dag()
        return self._dyn_gen_eigenvectors[k].conj().T
''', '''        if self._dyn_gen_eigenvectors_adj is None:
            vecs = self._dyn_gen_eigenvectors[k]
            if self.oper_dtype != Qobj:
                return vecs.T.conj()
            return vecs.dag()
        return self._dyn_gen_eigenvectors_adj[k]
'''))
r("diag_names", ["PropCompDiag"], (
"propcomp.py", '''            prop = (
                dyn._dyn_gen_eigenvectors[k]
                .dot(dyn._prop_eigen[k])
                .dot(dyn._get_dyn_gen_eigenvectors_adj(k))
            )

        return prop
''', '''            V = dyn._dyn_gen_eigenvectors[k]
            Vd = dyn._get_dyn_gen_eigenvectors_adj(k)
            prop = V.dot(dyn._prop_eigen[k].dot(Vd))

        return prop
'''), ("propcomp.py", '''            cdg = np.multiply(cdg * dyn.tau[k], dyn._dyn_gen_factormatrix[k])
''', '''            cdg = dyn._dyn_gen_factormatrix[k] * cdg * dyn.tau[k]
'''))
r("diag_at", ["PropCompDiag"], (
"propcomp.py", '''                dyn._dyn_gen_eigenvectors[k]
                .dot(cdg)
                .dot(dyn._get_dyn_gen_eigenvectors_adj(k))
''', '''                dyn._dyn_gen_eigenvectors[k]
                @ cdg
                @ dyn._get_dyn_gen_eigenvectors_adj(k)
'''))
r("aug_block", ["PropCompAugMat"], (
"propcomp.py", '''            aug = np.vstack([np.hstack([A, E]), np.hstack([Z, A])])
        return aug
''', '''            aug = np.block([[A, E], [Z, A]])
        return aug
'''))
r("aug_helper", ["PropCompAugMat"], (
"propcomp.py", '''            A = dg.full() * dyn.tau[k]
            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
            Z = np.zeros(dg.shape)
            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
        else:
            A = dg * dyn.tau[k]
            E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
            Z = np.zeros(dg.shape)
            aug = np.vstack([np.hstack([A, E]), np.hstack([Z, A])])
        return aug
''', '''            A = dg.full()
            E = dyn._get_phased_ctrl_dyn_gen(k, j).full()
        else:
            A = dg
            E = dyn._get_phased_ctrl_dyn_gen(k, j)
        tau = dyn.tau[k]
        A = tau * A
        E = tau * E
        lower = np.hstack([np.zeros(dg.shape), A])
        aug = np.vstack([np.hstack([A, E]), lower])
        if dyn.oper_dtype == Qobj:
            return Qobj(aug)
        return aug
'''))
r("frechet_tau", ["PropCompFrechet"], (
"propcomp.py", '''            if compute_prop:
                prop, prop_grad = la.expm_frechet(A, E)
            else:
                prop_grad = la.expm_frechet(A, E, compute_expm=False)
        if compute_prop:
            return prop, prop_grad
        else:
            return prop_grad
''', '''            prop, prop_grad = la.expm_frechet(A, E)
        if not compute_prop:
            return prop_grad
        return prop, prop_grad
'''))
r("approx_split", ["PropCompApproxGrad"], (
"propcomp.py", '''        dgt_eps = dyn.tau[k] * (
            dyn._get_phased_dyn_gen(k)
            + epsilon * dyn._get_phased_ctrl_dyn_gen(k, j)
        )

        if dyn.oper_dtype == Qobj:
            prop_eps = dgt_eps.expm()
        else:
            prop_eps = la.expm(dgt_eps)

        return prop_eps
''', '''        tau = dyn.tau[k]
        dgt_eps = dyn._get_phased_dyn_gen(k) * tau
        dgt_eps = dgt_eps + dyn._get_phased_ctrl_dyn_gen(k, j) * (
            epsilon * tau)
        return (
            dgt_eps.expm() if dyn.oper_dtype == Qobj else la.expm(dgt_eps)
        )
'''))
r("fid_swap_loops", ["FidCompUnitary.compute_fid_grad"], (
"fidcomp.py", '''        for j in range(n_ctrls):
            for k in range(n_ts):
                fwd_evo = dyn._fwd_evo[k]
                onto_evo = dyn._onto_evo[k + 1]
                if dyn.oper_dtype == Qobj:
                    g = onto_evo * dyn._get_prop_grad(k, j) * fwd_evo
''', '''        for k in range(n_ts):
            fwd_evo = dyn._fwd_evo[k]
            onto_evo = dyn._onto_evo[k + 1]
            for j in range(n_ctrls):
                if dyn.oper_dtype == Qobj:
                    g = onto_evo * dyn._get_prop_grad(k, j) * fwd_evo
'''))
r("fid_cyclic", ["FidCompUnitary.compute_fid_grad"], (
"fidcomp.py", '''                    g = _trace(
                        onto_evo.dot(dyn._get_prop_grad(k, j)).dot(fwd_evo)
                    )
''', '''                    g = _trace(
                        dyn._get_prop_grad(k, j).dot(fwd_evo.dot(onto_evo))
                    )
'''))
r("fid_sum", ["FidCompUnitary.get_fidelity_prenorm"], (
"fidcomp.py", '''                f = _trace(dyn._onto_evo[k].dot(dyn._fwd_evo[k]))
            self.fidelity_prenorm = f
''', '''                f = _trace(dyn._onto_evo[k] @ dyn._fwd_evo[k])
            self.fidelity_prenorm = f
'''))
r("fid_norm_helper", ["FidCompUnitary.normalize"], (
"fidcomp.py", '''    def normalize_SU(self, A):
        try:
            if A.shape[0] == A.shape[1]:
                # input is an operator (Qobj, array), so
                norm = _trace(A)
            else:
                raise TypeError("Cannot compute trace (not square)")
        except (AttributeError, IndexError):
            # assume input is already scalar and hence assumed
            # to be the prenormalised scalar value, e.g. fidelity
            norm = A
        return np.real(norm) / self.dimensional_norm
''', '''    @staticmethod
    def _norm_value(A):
        try:
            nr, nc = A.shape[0], A.shape[1]
        except (AttributeError, IndexError):
            # assume input is already scalar and hence assumed
            # to be the prenormalised scalar value, e.g. fidelity
            return A
        if nr != nc:
            raise TypeError("Cannot compute trace (not square)")
        # input is an operator (Qobj, array), so
        return _trace(A)

    def normalize_SU(self, A):
        return np.real(self._norm_value(A)) / self.dimensional_norm
'''), ("fidcomp.py", '''        try:
            if A.shape[0] == A.shape[1]:
                # input is an operator (Qobj, array, sparse etc), so
                norm = _trace(A)
            else:
                raise TypeError("Cannot compute trace (not square)")
        except (AttributeError, IndexError):
            # assume input is already scalar and hence assumed
            # to be the prenormalised scalar value, e.g. fidelity
            norm = A
        return np.abs(norm) / self.dimensional_norm
''', '''        return np.abs(self._norm_value(A)) / self.dimensional_norm
'''))
r("fid_grad_sign", ["FidCompUnitary.get_fid_err_gradient"], (
"fidcomp.py", '''            if self.get_fidelity() >= 1:
                self.fid_err_grad = self.grad_norm_func(grad_prenorm)
            else:
                self.fid_err_grad = -self.grad_norm_func(grad_prenorm)
''', '''            grad = self.grad_norm_func(grad_prenorm)
            if self.get_fidelity() < 1:
                grad = -1 * grad
            self.fid_err_grad = grad
'''))
r("fid_grad_early", ["FidCompUnitary.get_fidelity", "FidCompTraceDiff.get_fid_err_gradient"], (
"fidcomp.py", '''        if not self.fidelity_current:
            self.fidelity = self.fid_norm_func(self.get_fidelity_prenorm())
            self.fidelity_current = True
            if self.log_level <= logging.DEBUG:
                logger.debug("Fidelity (normalised): {}".format(self.fidelity))
        return self.fidelity
''', '''        if self.fidelity_current:
            return self.fidelity
        prenorm = self.get_fidelity_prenorm()
        self.fidelity = self.fid_norm_func(prenorm)
        if self.log_level <= logging.DEBUG:
            logger.debug("Fidelity (normalised): {}".format(self.fidelity))
        self.fidelity_current = True
        return self.fidelity
'''), ("fidcomp.py", '''            self.fid_err_grad = self.compute_fid_err_grad()
            self.fid_err_grad_current = True
            if dyn.stats is not None:
                dyn.stats.num_grad_computes += 1

            self.grad_norm = np.sqrt(np.sum(self.fid_err_grad**2))
''', '''            grad = self.compute_fid_err_grad()
            self.fid_err_grad = grad
            self.grad_norm = np.sqrt(np.sum(grad * grad))
            self.fid_err_grad_current = True
            if dyn.stats is not None:
                dyn.stats.num_grad_computes += 1

'''))
r("td_helper", ["FidCompTraceDiff.get_fid_err]", "FidCompTraceDiff.get_fid_err", "FidCompTraceDiffApprox.compute"], (
"fidcomp.py", '''            if dyn.oper_dtype == Qobj:
                self.fid_err = self.scale_factor * np.real(
                    _trace(evo_f_diff.dag() * evo_f_diff)
                )
            else:
                self.fid_err = self.scale_factor * np.real(
                    _trace(evo_f_diff.conj().T.dot(evo_f_diff))
                )

            if np.isnan(self.fid_err):
                self.fid_err = np.inf
''', '''            fid_err = self._diff_norm(evo_f_diff)
            if np.isnan(fid_err):
                fid_err = np.inf
            self.fid_err = fid_err
'''), ("fidcomp.py", '''    def compute_fid_err_grad(self):
        """
        Calculate exact gradient of the fidelity error function
''', '''    def _diff_norm(self, diff):
        if self.parent.oper_dtype == Qobj:
            sq = diff.dag() * diff
        else:
            sq = diff.conj().T.dot(diff)
        return self.scale_factor * np.real(_trace(sq))

    def compute_fid_err_grad(self):
        """
        Calculate exact gradient of the fidelity error function
'''), ("fidcomp.py", '''                    fid_err_eps = self.scale_factor * np.real(
                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                    )
''', '''                    fid_err_eps = self._diff_norm(evo_f_diff_eps)
'''))
r("td_grad_pre", ["FidCompTraceDiff.compute_fid_err_grad"], (
"fidcomp.py", '''                    evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
                    if k + 1 < n_ts:
                        evo_grad = dyn._onwd_evo[k + 1].dot(evo_grad)
                    g = (
                        -2
                        * self.scale_factor
                        * np.real(_trace(evo_f_diff.conj().T.dot(evo_grad)))
                    )
''', '''                    evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
                    if k != n_ts - 1:
                        evo_grad = dyn._onwd_evo[k + 1].dot(evo_grad)
                    overlap = _trace(evo_f_diff.T.conj().dot(evo_grad))
                    g = overlap.real * (-2 * self.scale_factor)
'''))
r("recompute_hoist", ["TSlotCompUpdateAll.recompute_evolution"], (
"tslotcomp.py", '''        R = range(n_ts)
        for k in R:
            if dyn.oper_dtype == Qobj:
                dyn._fwd_evo[k + 1] = dyn._prop[k] * dyn._fwd_evo[k]
            else:
                dyn._fwd_evo[k + 1] = dyn._prop[k].dot(dyn._fwd_evo[k])
''', '''        if dyn.oper_dtype == Qobj:
            for k in range(1, n_ts + 1):
                dyn._fwd_evo[k] = dyn._prop[k - 1] * dyn._fwd_evo[k - 1]
        else:
            for k in range(1, n_ts + 1):
                dyn._fwd_evo[k] = dyn._prop[k - 1].dot(dyn._fwd_evo[k - 1])
'''))
r("recompute_rev", ["TSlotCompUpdateAll.recompute_evolution"], (
"tslotcomp.py", '''            R = range(n_ts - 1, -1, -1)
            for k in R:
                if dyn.oper_dtype == Qobj:
                    dyn._onto_evo[k] = dyn._onto_evo[k + 1] * dyn._prop[k]
                else:
                    dyn._onto_evo[k] = dyn._onto_evo[k + 1].dot(dyn._prop[k])
''', '''            for k in reversed(range(n_ts)):
                after = dyn._onto_evo[k + 1]
                if dyn.oper_dtype == Qobj:
                    dyn._onto_evo[k] = after * dyn._prop[k]
                else:
                    dyn._onto_evo[k] = after.dot(dyn._prop[k])
'''))
r("recompute_mult", ["TSlotCompUpdateAll.recompute_evolution"], (
"tslotcomp.py", '''            R = range(n_ts - 2, -1, -1)
            for k in R:
                if dyn.oper_dtype == Qobj:
                    dyn._onwd_evo[k] = dyn._onwd_evo[k + 1] * dyn._prop[k]
                else:
                    dyn._onwd_evo[k] = dyn._onwd_evo[k + 1].dot(dyn._prop[k])
''', '''            for k in range(n_ts - 2, -1, -1):
                dyn._onwd_evo[k] = self._mult(
                    dyn._onwd_evo[k + 1], dyn._prop[k])
'''), ("tslotcomp.py", '''    def get_timeslot_for_fidelity_calc(self):
        """
        Returns the timeslot index that will be used calculate current fidelity
        value.
        This (default) method simply returns the last timeslot
        """
        _func_deprecation(
            "'get_timeslot_for_fidelity_calc' is deprecated. "
            "Use '_get_timeslot_for_fidelity_calc'"
        )
''', '''    def _mult(self, a, b):
        if self.parent.oper_dtype == Qobj:
            return a * b
        return a.dot(b)

    def get_timeslot_for_fidelity_calc(self):
        """
        Returns the timeslot index that will be used calculate current fidelity
        value.
        This (default) method simply returns the last timeslot
        """
        _func_deprecation(
            "'get_timeslot_for_fidelity_calc' is deprecated. "
            "Use '_get_timeslot_for_fidelity_calc'"
        )
'''))
r("recompute_split", ["TSlotCompUpdateAll.recompute_evolution"], (
"tslotcomp.py", '''        for k in range(n_ts):
            dyn._combine_dyn_gen(k)
            if dyn._decomp_curr is not None:
                dyn._decomp_curr[k] = False
''', '''        if dyn._decomp_curr is not None:
            for k in range(n_ts):
                dyn._decomp_curr[k] = False
        for k in range(n_ts):
            dyn._combine_dyn_gen(k)
'''))
r("recompute_first", ["TSlotCompUpdateAll.recompute_evolution"], (
"tslotcomp.py", '''            if prop_comp.grad_exact and dyn.cache_prop_grad:
                for j in range(n_ctrls):
                    if j == 0:
                        (
                            dyn._prop[k],
                            dyn._prop_grad[k, j],
                        ) = prop_comp._compute_prop_grad(k, j)
                        if self.log_level <= logging.DEBUG_INTENSE:
                            logger.log(
                                logging.DEBUG_INTENSE,
                                "propagator {}:\\n{}".format(
                                    k, dyn._prop[k]
                                ),
                            )
                    else:
                        dyn._prop_grad[k, j] = prop_comp._compute_prop_grad(
                            k, j, compute_prop=False
                        )
''', '''            if prop_comp.grad_exact and dyn.cache_prop_grad:
                prop, grad = prop_comp._compute_prop_grad(k, 0)
                dyn._prop[k] = prop
                dyn._prop_grad[k, 0] = grad
                for j in range(1, n_ctrls):
                    dyn._prop_grad[k, j] = prop_comp._compute_prop_grad(
                        k, j, compute_prop=False
                    )
'''))
r("mo_setdefault", ["_build_method_options"], (
"optimizer.py", '''        if tc.max_iterations > 0 and "maxiter" not in mo:
            mo["maxiter"] = tc.max_iterations
        if tc.max_fid_func_calls > 0 and "maxfev" not in mo:
            mo["maxfev"] = tc.max_fid_func_calls
        if tc.min_gradient_norm > 0 and "gtol" not in mo:
            mo["gtol"] = tc.min_gradient_norm
        if "disp" not in mo:
            mo["disp"] = self.disp_conv_msg
        return mo
''', '''        limits = [
            ("maxiter", tc.max_iterations),
            ("maxfev", tc.max_fid_func_calls),
            ("gtol", tc.min_gradient_norm),
        ]
        for name, value in limits:
            if value > 0:
                mo.setdefault(name, value)
        mo.setdefault("disp", self.disp_conv_msg)
        return mo
'''))
r("amp_items", ["optimizer.Optimizer.apply_method_params"], (
"optimizer.py", '''            for key in params:
                val = params[key]
                if hasattr(self, key):
                    setattr(self, key, val)
                elif hasattr(self.termination_conditions, key):
                    setattr(self.termination_conditions, key, val)
                else:
                    unused_params[key] = val

            if len(unused_params) > 0:
''', '''            tc = self.termination_conditions
            for key, val in params.items():
                if not hasattr(self, key):
                    if hasattr(tc, key):
                        setattr(tc, key, val)
                    else:
                        unused_params[key] = val
                    continue
                setattr(self, key, val)
                tc = self.termination_conditions

            if unused_params:
'''))
r("bounds_helper", ["_build_bounds_list", "_init_bounds"], (
"optimizer.py", '''        for t in range(dyn.num_tslots):
            for c in range(n_ctrls):
                if isinstance(self.amp_lbound, list):
                    lb = self.amp_lbound[c]
                else:
                    lb = self.amp_lbound
                if isinstance(self.amp_ubound, list):
                    ub = self.amp_ubound[c]
                else:
                    ub = self.amp_ubound

                if lb is not None and np.isinf(lb):
                    lb = None
                if ub is not None and np.isinf(ub):
                    ub = None

                self.bounds.append((lb, ub))
''', '''        for t in range(dyn.num_tslots):
            for c in range(n_ctrls):
                self.bounds.append(
                    (
                        self._bound_of(self.amp_lbound, c),
                        self._bound_of(self.amp_ubound, c),
                    )
                )

    @staticmethod
    def _bound_of(bound, c):
        if isinstance(bound, list):
            bound = bound[c]
        if bound is None or np.isinf(bound):
            return None
        return bound
'''))
r("bounds_row", ["_build_bounds_list"], (
"optimizer.py", '''        for t in range(dyn.num_tslots):
            for c in range(n_ctrls):
                if isinstance(self.amp_lbound, list):
                    lb = self.amp_lbound[c]
                else:
                    lb = self.amp_lbound
                if isinstance(self.amp_ubound, list):
                    ub = self.amp_ubound[c]
                else:
                    ub = self.amp_ubound

                if lb is not None and np.isinf(lb):
                    lb = None
                if ub is not None and np.isinf(ub):
                    ub = None

                self.bounds.append((lb, ub))
''', '''        row = []
        for c in range(n_ctrls):
            lb, ub = self.amp_lbound, self.amp_ubound
            if isinstance(lb, list):
                lb = lb[c]
            if isinstance(ub, list):
                ub = ub[c]
            if lb is not None and np.isinf(lb):
                lb = None
            if ub is not None and np.isinf(ub):
                ub = None
            row.append((lb, ub))
        self.bounds = row * dyn.num_tslots
'''))
r("fidwrap_reorder", ["optimizer.Optimizer.fid_err_func_wrapper", "optimizer.Optimizer.fid_err_grad_wrapper"], (
"optimizer.py", '''        amps = self._get_ctrl_amps(args[0].copy())
        self.dynamics.update_ctrl_amps(amps)

        tc = self.termination_conditions
        err = self.dynamics.fid_computer.get_fid_err()
''', '''        tc = self.termination_conditions
        dyn = self.dynamics
        dyn.update_ctrl_amps(self._get_ctrl_amps(args[0].copy()))
        err = dyn.fid_computer.get_fid_err()
'''), ("optimizer.py", '''        return grad.flatten()

    def iter_step''', '''        return grad.reshape([-1]).copy()

    def iter_step'''))
r("interp_map", ["_interpret_term_exception"], (
"optimizer.py", '''        if isinstance(except_term, errors.GoalAchievedTerminate):
            result.goal_achieved = True
        elif isinstance(except_term, errors.MaxWallTimeTerminate):
            result.wall_time_limit_exceeded = True
        elif isinstance(except_term, errors.GradMinReachedTerminate):
            result.grad_norm_min_reached = True
        elif isinstance(except_term, errors.MaxFidFuncCallTerminate):
            result.max_fid_func_exceeded = True
''', '''        flags = (
            (errors.GoalAchievedTerminate, "goal_achieved"),
            (errors.MaxWallTimeTerminate, "wall_time_limit_exceeded"),
            (errors.GradMinReachedTerminate, "grad_norm_min_reached"),
            (errors.MaxFidFuncCallTerminate, "max_fid_func_exceeded"),
        )
        for exc_class, flag in flags:
            if isinstance(except_term, exc_class):
                setattr(result, flag, True)
                break
'''))
r("run_helper", ["run_optimization"], (
"optimizer.py", '''        if self.approx_grad:
            jac = None
        else:
            jac = self.fid_err_grad_wrapper

        if self.log_level <= logging.INFO:
            msg = (
                "Optimising pulse(s) using {} with " "minimise '{}' method"
''', '''        jac = None if self.approx_grad else self.fid_err_grad_wrapper

        if self.log_level <= logging.INFO:
            msg = (
                "Optimising pulse(s) using {} with " "minimise '{}' method"
'''), ("optimizer.py", '''            amps = self._get_ctrl_amps(opt_res.x)
            dyn.update_ctrl_amps(amps)
            result.termination_reason = opt_res.message
''', '''            result.termination_reason = opt_res.message
            dyn.update_ctrl_amps(self._get_ctrl_amps(opt_res.x))
'''))
r("result_reorder", ["_add_common_result_attribs", "_create_result"], (
"optimizer.py", '''        result.num_iter = self.num_iter
        result.num_fid_func_calls = self.num_fid_func_calls
        result.wall_time = end_time - st_time
        result.fid_err = dyn.fid_computer.get_fid_err()
        if hasattr(dyn.fid_computer, "get_fidelity"):
            result.fidelity = dyn.fid_computer.get_fidelity()
        result.grad_norm_final = dyn.fid_computer.grad_norm
        result.final_amps = dyn.ctrl_amps
''', '''        fid_comp = dyn.fid_computer
        result.fid_err = fid_comp.get_fid_err()
        get_fidelity = getattr(fid_comp, "get_fidelity", None)
        if get_fidelity is not None:
            result.fidelity = get_fidelity()
        result.grad_norm_final = fid_comp.grad_norm
        result.final_amps = dyn.ctrl_amps
        result.num_iter = self.num_iter
        result.num_fid_func_calls = self.num_fid_func_calls
        result.wall_time = end_time - st_time
'''))
r("pulse_guard", ["PulseGen.init_pulse", "_apply_bounds_and_offset"], (
"pulsegen.py", '''        max_amp = max(pulse)
        min_amp = min(pulse)
        if (ubound is None or max_amp + self.offset <= ubound) and (
            lbound is None or min_amp + self.offset >= lbound
        ):
            return pulse + self.offset

        # Some shifting / scaling is required.
        if ubound is None or lbound is None:
            # One of the bounds is inf, so just shift the pulse
            if lbound is None:
                # max_amp + offset must exceed the ubound
                return pulse + ubound - max_amp
            else:
                # min_amp + offset must exceed the lbound
                return pulse + lbound - min_amp
        else:
            bound_range = ubound - lbound
            amp_range = max_amp - min_amp
            if max_amp - min_amp > bound_range:
                # pulse range is too high, it must be scaled
                pulse = pulse * bound_range / amp_range

            # otherwise the pulse should fit anyway
            return pulse + lbound - min(pulse)
''', '''        max_amp = np.max(pulse)
        min_amp = np.min(pulse)
        below = ubound is None or max_amp + self.offset <= ubound
        above = lbound is None or min_amp + self.offset >= lbound
        if below and above:
            return pulse + self.offset

        # Some shifting / scaling is required.
        if lbound is None:
            # max_amp + offset must exceed the ubound
            return pulse + (ubound - max_amp)
        if ubound is None:
            # min_amp + offset must exceed the lbound
            return pulse + (lbound - min_amp)

        bound_range = ubound - lbound
        amp_range = max_amp - min_amp
        if amp_range > bound_range:
            # pulse range is too high, it must be scaled
            pulse = pulse * (bound_range / amp_range)
        # otherwise the pulse should fit anyway
        return pulse - np.min(pulse) + lbound
'''))
r("pulse_time", ["PulseGen.init_pulse", "PulseGenLinear"], (
"pulsegen.py", '''            self.time = np.zeros(self.num_tslots, dtype=float)
            for k in range(self.num_tslots - 1):
                self.time[k + 1] = self.time[k] + self.tau[k]

        self._pulse_initialised = True
''', '''            times = np.zeros(self.num_tslots, dtype=float)
            for k in range(1, self.num_tslots):
                times[k] = times[k - 1] + self.tau[k - 1]
            self.time = times

        self._pulse_initialised = True
'''))
r("apply_items", ["pulsegen.PulseGen.apply_params", "dynamics.Dynamics.apply_params"], (
"pulsegen.py", '''            for key in params:
                setattr(self, key, params[key])
''', '''            for key, val in params.items():
                setattr(self, key, val)
'''), ("dynamics.py", '''        if not params:
            params = self.params
''', '''        params = params or self.params
'''))
r("while_fwd", ["TSlotCompUpdateAll.recompute_evolution"], (
"tslotcomp.py", '''        R = range(n_ts)
        for k in R:
            if dyn.oper_dtype == Qobj:
                dyn._fwd_evo[k + 1] = dyn._prop[k] * dyn._fwd_evo[k]
            else:
                dyn._fwd_evo[k + 1] = dyn._prop[k].dot(dyn._fwd_evo[k])
''', '''        k = 0
        while k < n_ts:
            if dyn.oper_dtype == Qobj:
                dyn._fwd_evo[k + 1] = dyn._prop[k] * dyn._fwd_evo[k]
            else:
                dyn._fwd_evo[k + 1] = dyn._prop[k].dot(dyn._fwd_evo[k])
            k += 1
'''), ("tslotcomp.py", '''            R = range(n_ts - 1, -1, -1)
            for k in R:
                if dyn.oper_dtype == Qobj:
                    dyn._onto_evo[k] = dyn._onto_evo[k + 1] * dyn._prop[k]
                else:
                    dyn._onto_evo[k] = dyn._onto_evo[k + 1].dot(dyn._prop[k])
''', '''            k = n_ts - 1
            while k >= 0:
                if dyn.oper_dtype == Qobj:
                    dyn._onto_evo[k] = dyn._onto_evo[k + 1] * dyn._prop[k]
                else:
                    dyn._onto_evo[k] = dyn._onto_evo[k + 1].dot(dyn._prop[k])
                k -= 1
'''))
r("load_helper", ["load_parameters"], *[(
"loadparams.py", '''        s = "%s"
        try:
            attr_names = parser.options(s)
            for a in attr_names:
                set_param(parser, s, a, %s, a)
        except Exception as e:
            logger.warn(
                "Unable to load {} parameters:({}) {}".format(
                    s, type(e).__name__, e
                )
            )
''' % x, '''        _load_section(parser, "%s", %s)
''' % x) for x in (("termconds", "term_conds"), ("dynamics", "dynamics"), ("optimizer", "optim"), ("pulsegen", "pulsegen"))],
("loadparams.py", '''def set_param(parser''', '''def _load_section(parser, s, obj):
    try:
        for a in parser.options(s):
            set_param(parser, s, a, obj, a)
    except Exception as e:
        logger.warn(
            "Unable to load {} parameters:({}) {}".format(
                s, type(e).__name__, e
            )
        )


def set_param(parser'''))
r("set_guard", ["loadparams.set_param"], (
"loadparams.py", '''    dtype = None
    if hasattr(obj, attrib_name):
        a = getattr(obj, attrib_name)
        dtype = type(a)
    else:
        logger.warn(
            "Unable to load parameter {}.{}\\n"
            "Attribute does not exist".format(section, attrib_name)
        )
        return
''', '''    if not hasattr(obj, attrib_name):
        logger.warn(
            "Unable to load parameter {}.{}\\n"
            "Attribute does not exist".format(section, attrib_name)
        )
        return
    a = getattr(obj, attrib_name)
    dtype = type(a)
'''))
r("dir_return", ["create_dir"], (
"io.py", '''    if dir_ok:
        return dir_ok, dir_name, msg
    else:
        return dir_ok, dir_name, errmsg
''', '''    return dir_ok, dir_name, (msg if dir_ok else errmsg)
'''), ("io.py", '''    if os.path.exists(dir_name):
        if not os.path.isdir(dir_name):
            dir_ok = False
            errmsg += "A file already exists with the same name"
    else:
''', '''    if os.path.exists(dir_name):
        dir_ok = os.path.isdir(dir_name)
        if not dir_ok:
            errmsg += "A file already exists with the same name"
    else:
'''))
r("grape_limit_clip", ["cy_grape_inner"], (
"cy_grape.py", '''            u[r + 1, j, m] = u[r, j, m] + eps * du.real

            if use_u_limits:
                if u[r + 1, j, m] < u_min:
                    u[r + 1, j, m] = u_min
                elif u[r + 1, j, m] > u_max:
                    u[r + 1, j, m] = u_max
''', '''            new = u[r, j, m] + eps * du.real

            if use_u_limits:
                if new < u_min:
                    new = u_min
                elif new > u_max:
                    new = u_max
            u[r + 1, j, m] = new
'''))
r("grape_clip_np", ["cy_grape_inner"], (
"cy_grape.py", '''            if use_u_limits:
                if u[r + 1, j, m] < u_min:
                    u[r + 1, j, m] = u_min
                elif u[r + 1, j, m] > u_max:
                    u[r + 1, j, m] = u_max
''', '''            if use_u_limits:
                u[r + 1, j, m] = min(max(u[r + 1, j, m], u_min), u_max)
'''))
r("grape_swap", ["cy_grape_inner"], (
"cy_grape.py", '''    for m in range(M - 1):
        P = U_b_list[m] @ U
        for j in range(J):
            Q = 1j''', '''    for j in range(J):
        for m in range(M - 1):
            P = U_b_list[m] @ U
            Q = 1j'''))
r("grape_last", ["cy_grape_inner"], (
"cy_grape.py", '''    for j in range(J):
        u[r + 1, j, M - 1] = u[r + 1, j, M - 2]''', '''    u[r + 1, :, M - 1] = u[r + 1, :, M - 2]'''))
r("grape_lists", ["grape_unitary[sensitive", "grape_unitary[free"], (
"grape.py", '''            U_f = U_list[n] @ U_f
            U_f_list.append(U_f)
            U_b_list.insert(0, U_b)
            U_b = U_list[M - 2 - n].dag() @ U_b

        for j in range(J):
            for m in range(M - 1):
                P = U_b_list[m] @ U
''', '''            U_f = U_list[n] @ U_f
            U_f_list.append(U_f)
        for n in range(M - 1):
            U_b_list.insert(0, U_b)
            U_b = U_list[M - 2 - n].dag() @ U_b

        for j in range(J):
            for m in range(M - 1):
                P = U_b_list[m] @ U
'''))
r("grape_H", ["grape_unitary["], (
"grape.py", '''            def _H_idx(idx):
                return H0 + sum([u[r, j, idx] * H_ops[j] for j in range(J)])

            U_list = [(-1j * _H_idx(idx) * dt).expm() for idx in range(M - 1)]

        U_f_list = []''', '''            U_list = []
            for idx in range(M - 1):
                H = H0
                for j in range(J):
                    H = H + u[r, j, idx] * H_ops[j]
                U_list.append((-1j * dt * H).expm())

        U_f_list = []'''))
r("crab_freqs", ["PulseGenCrabFourier"], (
"pulsegen.py", '''        self.freqs = np.empty(self.num_coeffs)
        ff = 2 * np.pi / self.pulse_time
        for i in range(self.num_coeffs):
            self.freqs[i] = ff * (i + 1)
''', '''        ff = 2 * np.pi / self.pulse_time
        self.freqs = np.arange(1, self.num_coeffs + 1) * ff
'''), ("pulsegen.py", '''            pulse += self.coeffs[i, 0] * np.sin(phase) + self.coeffs[
                i, 1
            ] * np.cos(phase)
''', '''            a, b = self.coeffs[i, 0], self.coeffs[i, 1]
            pulse += b * np.cos(phase) + a * np.sin(phase)
'''))
r("crab_freqs2", ["PulseGenCrabFourier"], (
"pulsegen.py", '''        self.freqs = np.empty(self.num_coeffs)
        ff = 2 * np.pi / self.pulse_time
        for i in range(self.num_coeffs):
            self.freqs[i] = ff * (i + 1)
''', '''        ff = 2 * np.pi / self.pulse_time
        self.freqs = np.array([ff * (i + 1) for i in range(self.num_coeffs)])
'''), ("pulsegen.py", '''            pulse += self.coeffs[i, 0] * np.sin(phase) + self.coeffs[
                i, 1
            ] * np.cos(phase)
''', '''            pulse = pulse + self.coeffs[i, 0] * np.sin(phase)
            pulse = pulse + self.coeffs[i, 1] * np.cos(phase)
'''))
r("crab_bounds", ["PulseGenCrab._apply_bounds", "PulseGenCrab._init_bounds"], (
"pulsegen.py", '''        if self._bound_scale_cond == self._BSC_ALL:
            pulse = np.tanh(pulse) * self._bound_scale + self._bound_mean
            return pulse
        elif self._bound_scale_cond == self._BSC_GT_MEAN:
            scale_where = pulse > self._bound_mean
            pulse[scale_where] = (
                np.tanh(pulse[scale_where]) * self._bound_scale
                + self._bound_mean
            )
            return pulse
        elif self._bound_scale_cond == self._BSC_LT_MEAN:
            scale_where = pulse < self._bound_mean
            pulse[scale_where] = (
                np.tanh(pulse[scale_where]) * self._bound_scale
                + self._bound_mean
            )
            return pulse
        else:
            return pulse
''', '''        cond = self._bound_scale_cond
        if cond == self._BSC_ALL:
            return self._bound_mean + self._bound_scale * np.tanh(pulse)
        if cond == self._BSC_GT_MEAN:
            scale_where = pulse > self._bound_mean
        elif cond == self._BSC_LT_MEAN:
            scale_where = pulse < self._bound_mean
        else:
            return pulse
        scaled = np.tanh(pulse) * self._bound_scale + self._bound_mean
        return np.where(scale_where, scaled, pulse)
'''))
r("crab_amps", ["OptimizerCrab._get_ctrl_amps", "OptimizerCrab._get_optim_var_vals"], (
"optimizer.py", '''        j = 0
        param_idx_st = 0
        for p_gen in self.pulse_generator:
            param_idx_end = param_idx_st + p_gen.num_optim_vars
            pg_pvals = optim_var_vals[param_idx_st:param_idx_end]
            p_gen.set_optim_var_vals(pg_pvals)
            amps[:, j] = p_gen.gen_pulse()
            param_idx_st = param_idx_end
            j += 1
''', '''        start = 0
        for j, p_gen in enumerate(self.pulse_generator):
            end = start + p_gen.num_optim_vars
            p_gen.set_optim_var_vals(optim_var_vals[start:end])
            amps[:, j] = p_gen.gen_pulse()
            start = end
'''), ("optimizer.py", '''            pvals.extend(pgen.get_optim_var_vals())
''', '''            pvals += pgen.get_optim_var_vals()
'''))
r("crab_check", ["OptimizerCrab.init_optim"], (
"optimizer.py", '''        if pulse_gen_valid:
            for p_gen in self.pulse_generator:
                if not isinstance(p_gen, pulsegen.PulseGenCrab):
                    pulse_gen_valid = False
                    err_msg = (
                        "pulse_generator contained object of type '{}'".format(
                            p_gen.__class__.__name__
                        )
                    )
                    break
                self.num_optim_vars += p_gen.num_optim_vars
''', '''        if pulse_gen_valid:
            total = 0
            for p_gen in self.pulse_generator:
                if isinstance(p_gen, pulsegen.PulseGenCrab):
                    total += p_gen.num_optim_vars
                    self.num_optim_vars = total
                    continue
                pulse_gen_valid = False
                err_msg = "pulse_generator contained object of type '%s'" % (
                    p_gen.__class__.__name__
                )
                break
'''))
r("stats_helper", ["stats.Stats.calculate"], (
"stats.py", '''        try:
            self.mean_num_ctrl_amp_updates_per_iter = (
                self.num_ctrl_amp_updates / float(self.num_iter)
            )
        except Exception:
            self.mean_num_ctrl_amp_updates_per_iter = np.nan
''', '''        self.mean_num_ctrl_amp_updates_per_iter = self._mean(
            self.num_ctrl_amp_updates, self.num_iter
        )
'''), ("stats.py", '''    def _format_datetime(self''', '''    @staticmethod
    def _mean(total, number):
        try:
            return total / float(number)
        except Exception:
            return np.nan

    def _format_datetime(self'''))
r("stats_if", ["stats.Stats.calculate"], (
"stats.py", '''        try:
            self.mean_num_ctrl_amp_updates_per_iter = (
                self.num_ctrl_amp_updates / float(self.num_iter)
            )
        except Exception:
            self.mean_num_ctrl_amp_updates_per_iter = np.nan
''', '''        if self.num_iter:
            self.mean_num_ctrl_amp_updates_per_iter = (
                self.num_ctrl_amp_updates / self.num_iter
            )
        else:
            self.mean_num_ctrl_amp_updates_per_iter = np.nan
'''))
r("ecs_with", ["add_evo_comp_summary"], (
"dump.py", '''            if ecs.idx == 0:
                f = open(self.summary_file, "w")
                f.write(
                    "{}\\n{}\\n".format(
                        ecs.get_header_line(self.summary_sep),
                        ecs.get_value_line(self.summary_sep),
                    )
                )
            else:
                f = open(self.summary_file, "a")
                f.write("{}\\n".format(ecs.get_value_line(self.summary_sep)))

            f.close()
        return ecs
''', '''            line = ecs.get_value_line(self.summary_sep) + "\\n"
            mode = "a"
            if ecs.idx == 0:
                mode = "w"
                line = ecs.get_header_line(self.summary_sep) + "\\n" + line
            with open(self.summary_file, mode) as f:
                f.write(line)
        return ecs
'''))
r("dump_items", ["add_evo_dump"], (
"dump.py", '''        if self.dump_prop:
            item.prop = copy.deepcopy(dyn._prop)
        if self.dump_prop_grad:
            item.prop_grad = copy.deepcopy(dyn._prop_grad)
        if self.dump_fwd_evo:
            item.fwd_evo = copy.deepcopy(dyn._fwd_evo)
''', '''        for name in ("prop", "prop_grad", "fwd_evo"):
            if getattr(self, "dump_" + name):
                setattr(item, name, copy.deepcopy(getattr(dyn, "_" + name)))
'''))
r("save_helper", ["save_amps"], (
"dynamics.py", '''    def update_ctrl_amps(self, new_amps):''', '''    def _noop(self):
        return None

    def update_ctrl_amps(self, new_amps):'''))
r("compare_amps", ["compare_amps"], (
"tslotcomp.py", '''        if changed:
            # Copy, so that later changes to the array passed in are detected
            dyn.ctrl_amps = new_amps.copy()
            dyn.flag_system_changed()
            return False
        else:
            return True

    def recompute''', '''        if not changed:
            return True
        dyn.flag_system_changed()
        # Copy, so that later changes to the array passed in are detected
        dyn.ctrl_amps = np.array(new_amps)
        return False

    def recompute'''))
