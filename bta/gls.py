"""Independent generalised least-squares track fit with multiple scattering (broken line through planes in z order).

Parameters of a track: local position and local slopes at the first plane, and two scattering angles at every plane but the last.
Residuals: hit minus intersection over the measurement error on fit sensors, scattering angle over its expected width.
Solved with Gauss-Newton on the exact (non-linear) geometry. Optional priors on the states of planes represent a start covariance.
"""
import numpy as np

from bta import gen


class Plane:
    def __init__(self, t, R, budget):
        self.t, self.R, self.budget = np.asarray(t, float), np.asarray(R, float), float(budget)


def plane(d):
    R, t = gen.pose(d)
    return Plane(t, R, d.material_budget)


def order(planes):
    """Planes by the position of their intersection with the z axis."""
    return list(np.argsort([(p.R[:, 2] @ p.t) / p.R[2, 2] for p in planes], kind='stable'))


def step(p, o, d):
    """Intersection of lines (o, d) with the plane: local x, y."""
    n = p.R[:, 2]
    s = ((p.t - o) @ n) / (d @ n)
    x = o + s[:, None] * d
    l = (x - p.t) @ p.R
    return x, l[:, :2]


def kick(p, d, w):
    """Direction after scattering by the angles w: rotation of the local direction, first around the axis perpendicular to x and track."""
    l = d @ p.R
    l = l / np.linalg.norm(l, axis=1)[:, None]
    l = l * np.where(l[:, 2:] < 0, -1, 1)
    ex = np.array([1., 0, 0])
    v = np.cross(l, ex)
    v /= np.linalg.norm(v, axis=1)[:, None]
    u = np.cross(v, l)
    l2 = l + w[:, :1] * u + w[:, 1:] * v
    g = l2 @ p.R.T
    return g * np.where(np.sum(g * d, axis=1) < 0, -1, 1)[:, None]


def theta(p, d, energy, mass):
    l = d @ p.R
    L = np.sqrt(1 + (l[:, 0] / l[:, 2]) ** 2 + (l[:, 1] / l[:, 2]) ** 2)
    x = p.budget * L
    mom = np.sqrt(energy ** 2 - mass ** 2)
    return 13.6 / mom / (mom / energy) * np.sqrt(x) * (1 + .038 * np.log(x))


def propagate(planes, o, par):
    """par: n x (4 + 2 (planes - 1)), o: planes in z order. Returns local positions and slopes on all planes, and directions."""
    k = len(o)
    p = planes[o[0]]
    loc = np.column_stack([par[:, 0], par[:, 1], np.zeros(len(par))])
    d = np.column_stack([par[:, 2], par[:, 3], np.ones(len(par))]) @ p.R.T
    d = d * np.where(d[:, 2:] < 0, -1, 1)
    x = p.t + loc @ p.R.T
    pos, slo, dirs = np.empty((len(par), len(planes), 2)), np.empty((len(par), len(planes), 2)), np.empty((len(par), len(planes), 3))
    for j, i in enumerate(o):
        p = planes[i]
        x, l = step(p, x, d)
        s = d @ p.R
        pos[:, i], slo[:, i], dirs[:, i] = l, s[:, :2] / s[:, 2:], d
        if j < k - 1:
            d = kick(p, d, par[:, 4 + 2 * j:6 + 2 * j])
    return pos, slo, dirs


def fit(planes, hits, errs, fitted, energy, mass, start, priors=(), ref=None, iterations=3):
    """hits, errs: n x planes x 2 (nan: no hit); start: n x 4 local state at the first plane;
    priors: [(plane, mean n x 4, sigma of 4)] on local states; ref: states at the first plane for which the scattering widths are calculated.
    Returns positions, slopes, position covariances, chi2 with all residuals at the minimum."""
    o = order(planes)
    n, npar = len(hits), 4 + 2 * (len(o) - 1)
    par = np.zeros((n, npar))
    par[:, :4] = start
    if ref is not None:
        par[:, :4] = ref
    _, _, d0 = propagate(planes, o, par)
    par[:, :4] = start
    th = np.stack([theta(planes[i], d0[:, i], energy, mass) for i in o[:-1]], axis=1) if len(o) > 1 else np.zeros((n, 0))
    use = np.zeros(hits.shape[:2], bool)
    use[:, fitted] = np.isfinite(hits[:, fitted]).all(axis=2)

    def residuals(q):
        pos, slo, _ = propagate(planes, o, q)
        r = np.where(use[:, :, None], (np.where(use[:, :, None], hits, 0) - pos) / np.where(use[:, :, None], errs, 1), 0).reshape(n, -1)
        w = (q[:, 4:].reshape(n, -1, 2) / th[:, :, None]).reshape(n, -1)
        parts = [r, w]
        for k, mean, sig in priors:
            parts.append((np.concatenate([pos[:, k], slo[:, k]], axis=1) - mean) / sig)
        return np.concatenate(parts, axis=1), pos
    steps = np.r_[1., 1., 1e-5, 1e-5, np.full(npar - 4, 1e-5)]
    for it in range(iterations + 1):
        r, pos = residuals(par)
        J, P = np.empty(r.shape + (npar,)), np.empty((n, len(planes), 2, npar))
        for a in range(npar):
            e = np.zeros(npar)
            e[a] = steps[a]
            rp, pp = residuals(par + e)
            rm, pm = residuals(par - e)
            J[:, :, a] = (rp - rm) / (2 * steps[a])
            P[:, :, :, a] = (pp - pm) / (2 * steps[a])
        N = np.einsum('nra,nrb->nab', J, J)
        sc = 1 / np.sqrt(np.einsum('naa->na', N))
        N = N * sc[:, :, None] * sc[:, None, :]
        C = np.linalg.inv(N) * sc[:, :, None] * sc[:, None, :]
        if it < iterations:
            par = par - np.einsum('nab,nrb,nr->na', C, J, r)
    pos, slo, _ = propagate(planes, o, par)
    return pos, slo, np.einsum('nija,nab,nikb->nijk', P, C, P), np.sum(r ** 2, axis=1)


def straight(planes, state):
    """Local states at all planes of a line given by its local state at the first plane."""
    par = np.zeros((len(state), 4 + 2 * (len(planes) - 1)))
    par[:, :4] = state
    pos, slo, _ = propagate(planes, order(planes), par)
    return np.concatenate([pos, slo], axis=2)


def kalman(planes, hits, errs, fitted, energy, mass, seed, own=1., sigma=(200 ** .5, 200 ** .5, 3e-3, 3e-3)):
    """The result of the filter with start covariance: a first backward pass improves the seed, then every state is the least-squares
    fit with the start covariance at the last plane (first sensor), at the first plane (last sensor) or both (else).
    own: weight of the hit of the sensor itself at sensors between the first and the last."""
    o = order(planes)
    sigma = np.array(sigma)
    ref = straight(planes, seed)
    p, s, _, _ = fit(planes, hits, errs, fitted, energy, mass, seed, priors=[(o[-1], ref[:, o[-1]], sigma)], ref=seed)
    seed = np.concatenate([p[:, o[0]], s[:, o[0]]], axis=1)
    ref = straight(planes, seed)
    first, last = (o[0], ref[:, o[0]], sigma), (o[-1], ref[:, o[-1]], sigma)
    P, S, E = np.empty(hits.shape), np.empty(hits.shape), np.empty(hits.shape + (2,))
    both = None
    for i in o:
        e = errs
        if i == o[0]:
            r = fit(planes, hits, e, fitted, energy, mass, seed, priors=[last], ref=seed)
        elif i == o[-1]:
            r = fit(planes, hits, e, fitted, energy, mass, seed, priors=[first], ref=seed)
        elif own == 1. or i not in fitted:
            if both is None:
                both = fit(planes, hits, e, fitted, energy, mass, seed, priors=[first, last], ref=seed)
            r = both
        else:
            e = errs.copy()
            e[:, i] /= own ** .5
            r = fit(planes, hits, e, fitted, energy, mass, seed, priors=[first, last], ref=seed)
        P[:, i], S[:, i], E[:, i] = r[0][:, i], r[1][:, i], r[2][:, i]
    return P, S, E
