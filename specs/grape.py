"""C14/C15: the GRAPE pulse update and its results."""
import qutip_qtrl.grape as grape


def overlap(A, B):
    return (A.dag() * B).tr() / A.shape[0]


def data_overlap(op1, op2):
    return TRACE(DAG(op1), op2) / op1.shape[0]


def direction(P, Q, F, sens):
    """derivative of the overlap (or of its square) w.r.t. one amplitude"""
    if sens:
        return -(TRACE(DAG(P), Q) / P.shape[0])
    return -2 * (TRACE(DAG(P), Q) / P.shape[0]) * (TRACE(DAG(F), P) / P.shape[0])


def clip(x, lo, hi):
    return ite(x < lo, lo, ite(x > hi, hi, x))


def stepped(x, j, m, U, back, fwd, hop, dt, eps, alpha, beta, sens, lim, lo, hi):
    P = back(m) @ U
    du = direction(P, 1j * dt * hop(j) @ fwd(m), fwd(m), sens)
    y = du.real
    if alpha is not None:
        y = y - 2 * alpha * x * dt
    if beta is not None:
        y = y - 2 * beta * m * m * x * dt
    y = x + eps * y
    if lim:
        return clip(y, lo, hi)
    return y


def inner(U, u, r, J, M, U_b_list, U_f_list, H_ops, dt, eps, alpha, beta, phase_sensitive, use_u_limits, u_min, u_max):
    old, back, fwd, hop = CONTENTS(u), CONTENTS(U_b_list), CONTENTS(U_f_list), CONTENTS(H_ops)

    def new(j, m):
        return stepped(old(r, j, m), j, m, U, back, fwd, hop, dt, eps,
                       alpha, beta, phase_sensitive, use_u_limits, u_min, u_max)
    STORE(u, lambda a, j, m: all_of(a == r + 1, 0 <= j, j < J, 0 <= m, m < M), lambda a, j, m: new(j, ite(m == M - 1, M - 2, m)))


def slot_hamiltonian(row, k):
    """Hamiltonian of slot k for the pulses of one row"""
    return H0_() + Sum(0, CTRLS(), lambda j: row(j, k) * CTRL(j))


def slot_propagator(row, k, dt):
    return (-1j * slot_hamiltonian(row, k) * dt).expm()


def forward(row, m, dt):
    """U_{m-1} ... U_0"""
    return PRODUCT(m, lambda k: slot_propagator(row, k, dt))


def backward(row, m, M, dt):
    """adjoint of U_{M-2} ... U_{m+1}"""
    return PRODUCT(M - 2 - m, lambda n: DAG(slot_propagator(row, M - 2 - n, dt)))


def first_row(u_start, u_limits, j, m):
    if u_start is None:
        return 0.0
    x = ite(j < len(u_start), START(j, m), 0.0)
    if u_limits:
        return ite(j < len(u_start), clip(x, u_limits[0], u_limits[1]), 0.0)
    return x


def next_row(row, j, m, U, times, eps, u_limits, alpha, beta, phase_sensitive):
    M = len(times)
    dt = times[1] - times[0]
    if eps is None:
        eps = 0.1 * (2 * PI()) / times[M - 1]
    k = ite(m == M - 1, M - 2, m)
    lo, hi = (u_limits[0], u_limits[1]) if u_limits else (0.0, 0.0)
    return stepped(row(j, k), j, k, U, lambda i: backward(row, i, M, dt), lambda i: forward(row, i + 1, dt), CTRL,
                   dt, eps, alpha, beta, phase_sensitive, True if u_limits else False, lo, hi)


def unitary(U, H0, H_ops, R, times, eps, u_start, u_limits, interp_kind, use_interp, alpha, beta, phase_sensitive, progress_bar, result):
    if u_limits and len(u_limits) != 2:
        check("a bad list of limits is refused", isinstance(result, ValueError))
        return
    M, J = len(times), len(H_ops)
    dt = times[1] - times[0]
    check("result class", isinstance(result, grape.GRAPEResult))
    check("shape of the pulses", result.u.shape == (R, J, M))
    r, j, m = any_int(0, R), any_int(0, J), any_int(0, M)
    check_eq("pulse values", result.u[r, j, m], PULSES(r, j, m))
    check_eq("final evolution", result.U_f, forward(lambda a, b: RAW(R - 2, a, b), M - 1, dt))
    check("result is an operator with the dimensions of the target", HASDIMS(result.U_f, U))
    check("terms", len(result.H_t) == J + 1)
    check_eq("drift term", result.H_t[0], H0)
    check_eq("control term", result.H_t[1 + j][0], H_ops[j])
    if use_interp:
        check_eq("control coefficients", result.H_t[1 + j][1](times[m], None), result.u[R - 1, j, m])
    else:
        check("number of coefficients", len(result.H_t[1 + j][1]) == M)
        check_eq("control coefficients", result.H_t[1 + j][1][m], result.u[R - 1, j, m])
