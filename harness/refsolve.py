"""Textbook CG / damped CGLS on dense matrices: iterates and residual histories."""
import numpy as np


def ref_cg(A, y, x0, niter, tol):
    x = x0.astype(np.result_type(A, y, x0, np.float64))
    r = y - A @ x
    c = r.copy()
    k0 = np.vdot(r, r).real
    xs, cost = [x.copy()], [np.sqrt(k0)]
    it = 0
    while it < niter and k0 > tol:
        Ac = A @ c
        a = k0 / abs(np.vdot(c, Ac))
        x = x + a * c
        r = r - a * Ac
        k = np.vdot(r, r).real
        c = r + (k / k0) * c
        k0 = k
        it += 1
        xs.append(x.copy())
        cost.append(np.sqrt(k0))
    return xs, cost


def ref_cgls(A, y, x0, niter, damp, tol):
    d2 = damp ** 2
    x = x0.astype(np.result_type(A, y, x0, np.float64))
    AH = A.conj().T
    s = y - A @ x
    r = AH @ s - d2 * x
    c = r.copy()
    k0 = np.vdot(r, r).real
    xs, cost = [x.copy()], [np.linalg.norm(s)]
    cost1 = [np.sqrt(cost[0] ** 2 + d2 * np.vdot(x, x).real)]
    it = 0
    while it < niter and k0 > tol:
        q = A @ c
        a = k0 / (np.vdot(q, q).real + d2 * np.vdot(c, c).real)
        x = x + a * c
        s = s - a * q
        r = AH @ s - d2 * x
        k = np.vdot(r, r).real
        c = r + (k / k0) * c
        k0 = k
        it += 1
        xs.append(x.copy())
        cost.append(np.linalg.norm(s))
        cost1.append(np.sqrt(cost[-1] ** 2 + d2 * np.vdot(x, x).real))
    return xs, cost, cost1


def sensitivity(fn, A, y, x0, eps, runs=4):
    """Largest change of the iterates and of the gradient norms over reference runs with inputs perturbed by eps (relative):
    tells from which iteration on rounding errors dominate.  fn(A, y, x0) -> (xs, ks)."""
    g = np.random.default_rng(12345)
    xs, ks = fn(A, y, x0)
    dx, stable = np.zeros(len(xs)), True

    def wiggle(v):
        w = v * (1 + eps * g.standard_normal(v.shape))
        return w + 1j * eps * np.abs(v) * g.standard_normal(v.shape) if np.iscomplexobj(v) else w
    for _ in range(runs):
        xp, kp = fn(wiggle(A), wiggle(y), wiggle(x0))
        stable &= len(xp) == len(xs)
        m = min(len(xp), len(xs))
        for k in range(m):
            dx[k] = max(dx[k], float(np.max(np.abs(xp[k] - xs[k]), initial=0.)))
        dx[m:] = np.inf
    return np.maximum.accumulate(dx), stable
