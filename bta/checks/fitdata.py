"""Track candidates for the fit checks, and the settings of fit_tracks resolved independently of the code under test."""
import numpy as np

from bta import gen


def telescope(rng, path, n, lo=2, kalman=False):
    order = rng.permutation(n) if (rng.random() < .4 and not kalman) else np.arange(n)
    dz = float(rng.choice([1e4, 5e4]))
    specs = []
    for i in range(n):
        cs, rs, nc, nr = [(50., 50., 80, 336), (18.4, 18.4, 1152, 576), (250., 50., 80, 336)][int(rng.integers(3))]
        s = dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr, translation_x=float(rng.normal(0, 300)), translation_y=float(rng.normal(0, 300)),
                 translation_z=float(order[i] * dz * (1 + (.2 * rng.random() if i else 0))), material_budget=float(rng.choice([1e-3, 5e-3, 2e-2])))
        if rng.random() < .5:
            s.update(rotation_alpha=float(rng.choice([0, np.pi]) + rng.normal(0, .1)), rotation_beta=float(rng.normal(0, .1)), rotation_gamma=float(rng.uniform(-3, 3)))
        if rng.random() < .4:
            lim = lambda w: [float(-rng.uniform(.1, .5) * w) if rng.random() < .8 else None, float(rng.uniform(.1, .5) * w) if rng.random() < .8 else None]
            s['x_limit'], s['y_limit'] = [tuple(-np.inf if (j == 0 and v is None) else np.inf if v is None else v for j, v in enumerate(lim(w))) for w in (cs * nc, rs * nr)]
        specs.append(s)
    lims = [(s.pop('x_limit', None), s.pop('y_limit', None)) for s in specs]
    tel = gen.telescope(path, n_duts=n, specs=specs)
    for d, (x, y) in zip(tel, lims):
        if x is not None:
            d.x_limit, d.y_limit = x, y
    tel.save_configuration(path)
    return tel, lims


def uneven(rng):
    """Event sizes and a chunk size: few events in the first chunk, most events in the second chunk, and a rest
    (the number of events cannot be shared among the chunks in proportion)."""
    f = int(rng.integers(6, 24))
    cs = int(f / rng.uniform(.25, .6))
    big = min(cs - 1, cs - f + 1 + int(rng.integers(2)))
    if rng.random() < .3:
        big, cs = 1, cs + int(rng.integers(3))
    k = max(1, cs - big)
    return np.array([3] * (f // 3) + [1] * (f % 3) + [big] + [1] * k + [1] * int(rng.integers(1, 4))), max(cs, big + 1, 4)


def candidates(rng, tel, n, n_ev, top, noise=20., missing=.15, spread=2000., slope=2e-3, wild=.1, sizes=None):
    """Track candidates: lines with noise, wild hits and missing hits."""
    ev = np.repeat(gen.event_numbers(rng, n_ev), rng.integers(1, top + 1, n_ev) if sizes is None else sizes)
    k = len(ev)
    m = gen.merged(rng, ev, n)
    off = np.column_stack([rng.normal(0, spread, k), rng.normal(0, spread, k), np.zeros(k)])
    slo = np.column_stack([rng.normal(0, slope, k), rng.normal(0, slope, k), np.ones(k)])
    twin = np.flatnonzero(rng.random(k) < .3)       # close to the track before
    twin = twin[twin > 0]
    off[twin] = off[twin - 1] + rng.normal(0, 300, (len(twin), 3)) * [1, 1, 0]
    slo[twin] = slo[twin - 1]
    for i in range(n):
        rows = np.flatnonzero(rng.random(k) >= missing * rng.choice([0, 1, 2]))
        x, y = gen.line_hits(tel[i], off, slo)
        x, y = x + rng.normal(0, noise, k), y + rng.normal(0, noise, k)
        w = rng.random(k) < wild
        x[w] += rng.normal(0, 400, w.sum())
        gen.put_hits(rng, m, i, rows, x[rows], y[rows], xerr=rng.choice([5., 14.4, 72.], len(rows)), yerr=rng.choice([5., 14.4], len(rows)))
        dup = rows[rows > 0]
        dup = dup[rng.random(len(dup)) < .03]
        for r in dup:       # the same hit in two candidates of one event
            if m['event_number'][r] == m['event_number'][r - 1] and np.isfinite(m['x_dut_%d' % i][r - 1]):
                m['x_dut_%d' % i][r], m['y_dut_%d' % i][r] = m['x_dut_%d' % i][r - 1], m['y_dut_%d' % i][r - 1]
    gen.set_hit_flag(m, n)
    return m


def settings(rng, n, method='fit'):
    """Arguments of fit_tracks, and for every selected sensor the fit sensors, hit sensors and minimum number of hits."""
    lo = 2 if method == 'fit' else 3
    duts = list(range(n))
    sel = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    form = rng.choice(['none', 'flat', 'nested'])
    sub = lambda k: sorted(int(i) for i in rng.choice(n, size=int(k), replace=False))
    fit = {'none': None, 'flat': sub(rng.integers(min(n, lo + 1), n + 1)), 'nested': [sub(rng.integers(min(n, lo + 1), n + 1)) for _ in sel]}[str(form)]
    if form == 'nested' and rng.random() < .3:
        fit[0] = None
    per = [duts if fit is None else (fit if form == 'flat' else (duts if fit[j] is None else fit[j])) for j in range(len(sel))]
    hform = rng.choice(['none', 'flat', 'nested'])
    hit = {'none': None, 'flat': sub(rng.integers(1, min(n, 3) + 1)), 'nested': [sub(rng.integers(1, min(n, 3) + 1)) for _ in sel]}[str(hform)]
    hper = [[] if hit is None else (hit if hform == 'flat' else hit[j]) for j in range(len(sel))]
    excl = bool(rng.random() < .6) if rng.random() < .7 else [bool(rng.random() < .5) for _ in sel]
    eper = [excl] * len(sel) if isinstance(excl, bool) else excl
    used = [[i for i in f if not (e and i == d)] for d, f, e in zip(sel, per, eper)]
    if min(len(u) for u in used) < lo:       # cannot be fitted
        return settings(rng, n, method)
    mf = rng.choice(['none', 'one', 'list'])
    least = min(len(u) for u in used)
    mh = {'none': None, 'one': int(rng.integers(lo, least + 1)), 'list': [int(rng.integers(lo, len(u) + 1)) for u in used]}[str(mf)]
    if mf == 'list' and rng.random() < .4:
        mh[int(rng.integers(len(mh)))] = None
    mper = [len(u) if (mh is None or (mf == 'list' and mh[j] is None)) else (mh if mf == 'one' else mh[j]) for j, u in enumerate(used)]
    kw = dict(select_duts=None if sel == duts and rng.random() < .5 else list(sel), select_fit_duts=fit, select_hit_duts=hit, min_track_hits=mh, exclude_dut_hit=excl)
    return kw, {d: dict(fit=u, hit=h, least=k) for d, u, h, k in zip(sel, used, hper, mper)}


def popcount(flag, duts):
    return sum(((flag >> np.uint32(i)) & 1).astype(int) for i in duts) if len(duts) else np.zeros(len(flag), int)


def select(m, s, method='fit'):
    """Candidates that are fitted, and those that are stored."""
    k = popcount(m['hit_flag'], s['fit'])
    fitted = k >= (2 if method == 'fit' else max(3, s['least']))
    stored = fitted & (k >= s['least'])
    for i in s['hit']:
        stored &= ((m['hit_flag'] >> np.uint32(i)) & 1).astype(bool)
    return fitted, stored


def hits_global(m, tel, i, rows):
    x, y = m['x_dut_%d' % i][rows], m['y_dut_%d' % i][rows]
    return gen.to_global(tel[i], x, y).T


def lines(m, tel, fit, rows):
    """Orthogonal least-squares line for each of the rows: point and direction, and the condition of the problem."""
    P = np.stack([hits_global(m, tel, i, rows) for i in fit], axis=1)
    off, slo, good = np.full((len(P), 3), np.nan), np.full((len(P), 3), np.nan), np.zeros(len(P), bool)
    for j, p in enumerate(P):
        p = p[np.isfinite(p).all(axis=1)]
        c = p.mean(axis=0)
        q = p - c
        w, v = np.linalg.eigh(q.T @ q)
        off[j], slo[j] = c, v[:, 2] * (np.sign(v[2, 2]) or 1)
        # second best direction must be clearly worse, and the line not nearly parallel to the sensors
        good[j] = w[1] < 1e-2 * w[2] and abs(v[2, 2]) > .2
    return off, slo, good


def intersect(dut, off, slo):
    """Intersection in local coordinates, and direction in local coordinates with positive z and unit length."""
    x, y = gen.line_hits(dut, off, slo)
    R, _ = gen.pose(dut)
    s = slo @ R
    s = s * np.where(s[:, 2:] < 0, -1, 1)
    return x, y, s / np.linalg.norm(s, axis=1)[:, None]
