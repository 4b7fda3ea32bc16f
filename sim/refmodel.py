"""Independent reference model (plain Python / NumPy float64, no JAX, no astrodynx).

Everything the simulator compares against is computed here, from first
principles and by other algorithms than the ones in the repository:

* two-body motion: universal variables with Stumpff series and a *bracketed*
  root finder (never Newton alone), so it cannot diverge;
* perturbed motion: zonal gravity as the analytic gradient of the potential,
  integrated with SciPy's DOP853 at tolerances far below the library's;
* classical elements <-> state with explicit quadrants.
"""

from __future__ import annotations

import math

import numpy as np
from scipy.integrate import solve_ivp


# ----------------------------------------------------------------- two-body
def stumpff(z: float) -> tuple[float, float, float, float]:
    """c0..c3 of the Stumpff functions at z = alpha * chi**2."""
    if abs(z) < 0.5:
        c2 = c3 = 0.0
        t2, t3 = 0.5, 1.0 / 6.0
        for k in range(1, 16):
            c2 += t2
            c3 += t3
            t2 *= -z / ((2 * k + 1) * (2 * k + 2))
            t3 *= -z / ((2 * k + 2) * (2 * k + 3))
        return 1.0 - z * c2, 1.0 - z * c3, c2, c3
    if z > 0:
        s = math.sqrt(z)
        c0, c1 = math.cos(s), math.sin(s) / s
        c2 = 2.0 * math.sin(s / 2) ** 2 / z
        return c0, c1, c2, (1.0 - c1) / z
    s = math.sqrt(-z)
    c0, c1 = math.cosh(s), math.sinh(s) / s
    c2 = 2.0 * math.sinh(s / 2) ** 2 / (-z)
    return c0, c1, c2, (1.0 - c1) / z


def ufuncs(chi: float, alpha: float) -> tuple[float, float, float, float]:
    c0, c1, c2, c3 = stumpff(alpha * chi * chi)
    return c0, chi * c1, chi * chi * c2, chi**3 * c3


def twobody(r0, v0, dt: float, mu: float):
    """State after dt under a point mass; exact up to float64 round-off."""
    r0 = np.asarray(r0, float)
    v0 = np.asarray(v0, float)
    rn = float(np.linalg.norm(r0))
    if dt == 0.0:
        return r0.copy(), v0.copy()
    smu = math.sqrt(mu)
    sig = float(r0 @ v0) / smu
    alpha = 2.0 / rn - float(v0 @ v0) / mu
    full = dt
    if alpha > 0:  # drop whole revolutions: better conditioned
        period = 2 * math.pi / (smu * alpha**1.5)
        dt = math.remainder(dt, period)
    if dt == 0.0:
        return r0.copy(), v0.copy()

    def f(chi):
        _, u1, u2, u3 = ufuncs(chi, alpha)
        return rn * u1 + sig * u2 + u3 - smu * dt

    def df(chi):
        u0, u1, u2, _ = ufuncs(chi, alpha)
        return rn * u0 + sig * u1 + u2

    # f is increasing (df = radius > 0); bracket the root.
    s = 1.0 if dt > 0 else -1.0
    lo, hi = 0.0, s * 1e-3 * math.sqrt(rn)
    for _ in range(400):
        try:
            fh = f(hi)
        except OverflowError:
            break
        if fh * s >= 0 or not math.isfinite(fh):
            break
        lo, hi = hi, hi * 2.0
        if alpha < 0 and abs(hi) * math.sqrt(-alpha) > 600:
            hi = s * 600 / math.sqrt(-alpha)
            break
    if lo > hi:
        lo, hi = hi, lo
    chi = 0.5 * (lo + hi)
    for _ in range(300):
        fc = f(chi)
        if fc > 0:
            hi = chi
        else:
            lo = chi
        d = df(chi)
        new = chi - fc / d if d > 0 else 0.5 * (lo + hi)
        if not (lo < new < hi):
            new = 0.5 * (lo + hi)
        if abs(new - chi) <= 2e-16 * abs(chi) or new == chi:
            chi = new
            break
        chi = new
    u0, u1, u2, u3 = ufuncs(chi, alpha)
    r = rn * u0 + sig * u1 + u2
    F = 1 - u2 / rn
    G = (rn * u1 + sig * u2) / smu
    Ft = -smu / (r * rn) * u1
    Gt = 1 - u2 / r
    del full
    return F * r0 + G * v0, Ft * r0 + Gt * v0


def invariants(r, v, mu: float):
    r = np.asarray(r, float)
    v = np.asarray(v, float)
    h = np.cross(r, v)
    energy = 0.5 * float(v @ v) - mu / float(np.linalg.norm(r))
    evec = np.cross(v, h) / mu - r / np.linalg.norm(r)
    return energy, h, evec


# ----------------------------------------------------------------- elements
def coe_to_state(p, e, inc, raan, argp, nu, mu):
    ci, si = math.cos(inc), math.sin(inc)
    cO, sO = math.cos(raan), math.sin(raan)
    u = argp + nu
    cu, su = math.cos(u), math.sin(u)
    cw, sw = math.cos(argp), math.sin(argp)
    r = p / (1 + e * math.cos(nu))
    n1 = np.array([cO, sO, 0.0])
    n2 = np.array([-sO * ci, cO * ci, si])
    k = math.sqrt(mu / p)
    return r * (cu * n1 + su * n2), k * (-(su + e * sw) * n1 + (cu + e * cw) * n2)


def state_to_coe(r, v, mu):
    r = np.asarray(r, float)
    v = np.asarray(v, float)
    _, h, evec = invariants(r, v, mu)
    hn = float(np.linalg.norm(h))
    e = float(np.linalg.norm(evec))
    inc = math.atan2(math.hypot(h[0], h[1]), h[2])
    raan = math.atan2(h[0], -h[1]) % (2 * math.pi)
    n = np.array([math.cos(raan), math.sin(raan), 0.0])
    m = np.cross(h / hn, n)
    argp = math.atan2(float(evec @ m), float(evec @ n)) % (2 * math.pi)
    u = math.atan2(float(r @ m), float(r @ n))
    return hn * hn / mu, e, inc, raan, argp, (u - argp) % (2 * math.pi)


# ---------------------------------------------------------------- perturbed
def accel(x, mu, R_eq=1.0, J2=0.0, J3=0.0, J4=0.0):
    """Gradient of U = mu/r [1 - sum Jn (R/r)^n Pn(z/r)] via Legendre recursion.

    grad U = -mu/r^2 rhat
             + sum Jn mu R^n / r^(n+2) [ ((n+1) Pn + s Pn') rhat - Pn' zhat ]
    with s = z/r.
    """
    r = math.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
    ux, uy, s = x[0] / r, x[1] / r, x[2] / r
    rad = -mu / (r * r)
    zed = 0.0
    J = (0.0, 0.0, J2, J3, J4)
    P0, P1, D0, D1 = 1.0, s, 0.0, 1.0
    for n in range(2, 5):
        P = ((2 * n - 1) * s * P1 - (n - 1) * P0) / n
        D = D0 + (2 * n - 1) * P1
        if J[n]:
            c = J[n] * mu * R_eq**n / r ** (n + 2)
            rad += c * ((n + 1) * P + s * D)
            zed -= c * D
        P0, P1, D0, D1 = P1, P, D1, D
    return (rad * ux, rad * uy, rad * s + zed)


class Trajectory:
    """Dense reference trajectory of one force model from x0 over [0, t1]."""

    def __init__(self, x0, t1, mu, R_eq=1.0, J2=0.0, J3=0.0, J4=0.0,
                 thrust=0.0, omega=0.0, epoch=0.0):
        self.x0 = np.asarray(x0, float)
        self.t1 = float(t1)
        self.p = (mu, R_eq, J2, J3, J4)

        def f(t, y):
            a = accel(y, *self.p)
            if thrust:
                w = omega * (epoch + t)
                a = (a[0] + thrust * math.cos(w), a[1] + thrust * math.sin(w),
                     a[2] + 0.3 * thrust * math.cos(2.0 * w))
            return np.array([y[3], y[4], y[5], a[0], a[1], a[2]])

        rn = np.linalg.norm(self.x0[:3])
        vn = np.linalg.norm(self.x0[3:])
        atol = np.array([rn] * 3 + [vn] * 3) * 1e-14
        self.sol = solve_ivp(
            f, (0.0, self.t1), self.x0, method="DOP853", rtol=2.3e-14,
            atol=atol, dense_output=True,
        )
        if not self.sol.success:
            raise ArithmeticError("reference integration failed")
        self.end = self.sol.y[:, -1]

    def at(self, t):
        t = float(t)
        if t == self.t1:
            return self.end
        return self.sol.sol(t)

    def radius(self, t):
        return float(np.linalg.norm(self.at(t)[:3]))

    def energy(self, x):
        mu, R, J2, J3, J4 = self.p
        r = float(np.linalg.norm(x[:3]))
        s = x[2] / r
        P2 = 0.5 * (3 * s * s - 1)
        P3 = 0.5 * (5 * s**3 - 3 * s)
        P4 = (35 * s**4 - 30 * s * s + 3) / 8
        U = mu / r * (1 - J2 * (R / r) ** 2 * P2 - J3 * (R / r) ** 3 * P3
                      - J4 * (R / r) ** 4 * P4)
        return 0.5 * float(x[3:] @ x[3:]) - U


# ------------------------------------------------------------ sensitivities
PARAMS = ("mu", "R_eq", "J2", "J3", "J4", "thrust", "omega", "epoch")


def sensitivities(x0, times, rtol=1e-12, **par):
    """States at `times` (one sign, increasing in size) with their derivatives.

    Complex-step differentiation of an ordinary integration: column k carries
    an imaginary perturbation of one component of x0 or one parameter, so
    nothing is subtracted and no Jacobian has to be written down.
    Returns [(x (6,), dx/dx0 (6,6), {parameter: dx/dp (6,)})].
    """
    eps = 1e-30
    n = 6 + len(PARAMS)
    P = {}
    for j, k in enumerate(PARAMS):
        v = np.full(n, complex(par.get(k, 1.0 if k == "R_eq" else 0.0)))
        v[6 + j] += 1j * eps
        P[k] = v
    y0 = np.repeat(np.asarray(x0, complex)[:, None], n, axis=1)
    for j in range(6):
        y0[j, j] += 1j * eps
    mu, R, w0 = P["mu"], P["R_eq"], P["omega"]
    C = [P[f"J{m}"] * mu * R**m for m in (2, 3, 4)]

    def f(t, y):
        x = y.reshape(6, n)
        r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
        r = np.sqrt(r2)
        s = x[2] / r
        P0, P1, D0, D1 = 1.0, s, 0.0, 1.0
        rad, zed, q = -mu / r2, 0.0, 1.0 / (r2 * r2)
        for m in (2, 3, 4):
            Pm = ((2 * m - 1) * s * P1 - (m - 1) * P0) / m
            Dm = D0 + (2 * m - 1) * P1
            c = C[m - 2] * q
            rad = rad + c * ((m + 1) * Pm + s * Dm)
            zed = zed - c * Dm
            q = q / r
            P0, P1, D0, D1 = P1, Pm, D1, Dm
        w = w0 * (P["epoch"] + t)
        g = rad / r
        return np.concatenate([
            x[3], x[4], x[5], g * x[0] + P["thrust"] * np.cos(w),
            g * x[1] + P["thrust"] * np.sin(w),
            g * x[2] + zed + 0.3 * P["thrust"] * np.cos(2.0 * w)])

    rn, vn = float(np.linalg.norm(x0[:3])), float(np.linalg.norm(x0[3:]))
    atol = np.repeat(np.array([rn] * 3 + [vn] * 3), n) * rtol / 2
    out, t, y = [], 0.0, y0.ravel()
    for t1 in times:
        if t1 != t:
            sol = solve_ivp(f, (t, float(t1)), y, method="DOP853", rtol=rtol, atol=atol)
            if not sol.success:
                raise ArithmeticError("reference integration failed")
            t, y = float(t1), sol.y[:, -1]
        x = y.reshape(6, n)
        d = x.imag / eps
        out.append((x[:, 0].real.copy(), d[:, :6].copy(),
                    {k: d[:, 6 + j].copy() for j, k in enumerate(PARAMS)}))
    return out
