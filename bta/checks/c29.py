"""Statistics, fits and areas against their definition: own evaluation, and distributions of known parameters."""
import math

import numpy as np

ID = 'C29'
RULE = 'a case is one random histogram, distribution, image or set of points; non-trivial when it has more than three non-empty bins or points'
MIN = {'moments': 200, 'gauss': 25, 'box': 30, 'single_bin': 1, 'peaks': 60, 'simple_peaks': 60, 'no_peak': 20, 'hough': 9, 'lines': 2, 'groups': 60, 'polygons': 60, 'cells': 3000, 'nearest': 3000, 'bits': 2000, 'quantiles': 80, 'functions': 80, 'index': 30, 'neighbours': 30, 'gaps': 300, 'slopes': 20}
ASSUMPTIONS = ['Fitted distributions have at least 2000 entries and bins not wider than the standard deviation.', 'Points of a tessellation are at least a tenth of a percent of the extent apart and lie within it.']
CASE_TIMEOUT = 100.
KINDS = ['moments', 'gauss', 'box', 'peak', 'hough', 'groups', 'polygon', 'voronoi', 'bits', 'quantiles', 'functions', 'index', 'slope']


def cases(seed, tier):
    n = 60 if tier == 'quick' else 1500
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in KINDS]


def warm():
    from beam_telescope_analysis.tools import analysis_utils  # noqa


def run(case, ctx):
    from beam_telescope_analysis.tools import analysis_utils as au
    globals()[case['kind']](case, ctx, ctx.rng, au)


def edges(rng, lo, hi, n):
    return np.linspace(lo, hi, n + 1)


def moments(case, ctx, rng, au):
    """Mean, standard deviation and median of binned values."""
    for _ in range(6):
        n = int(rng.choice([1, 2, 7, 50, 300]))
        x = np.sort(rng.normal(size=n) * 10. ** int(rng.integers(-3, 5)) + rng.choice([0, 0, 50]))
        c = rng.integers(0, int(rng.choice([2, 5, 200])), n) * (rng.random(n) < rng.choice([1, .3]))
        c = c.astype(rng.choice([np.int64, np.int32, np.uint32]))
        if not c.sum():
            c[int(rng.integers(n))] = 1
        v = np.array([q for p, k in zip(x, c) for q in [p] * int(k)])
        with ctx.sut('histogram'):
            mean, rms, med = au.get_mean_from_histogram(c, x), au.get_rms_from_histogram(c, x), au.get_median_from_histogram(c, x)
        scale = abs(v).max() + 1e-12
        m = math.fsum(v) / len(v)
        ctx.expect(abs(mean - m) < 1e-9 * scale, 'mean', 'mean of a histogram', got=mean, want=m, counts=c, bins=x)
        s = math.sqrt(math.fsum((v - m) ** 2) / len(v))
        ctx.expect(abs(rms - s) < 1e-7 * scale, 'rms', 'standard deviation of a histogram', got=rms, want=s, counts=c, bins=x)
        q = sorted(v)
        w = (q[(len(q) - 1) // 2] + q[len(q) // 2]) / 2
        ctx.expect(abs(med - w) < 1e-9 * scale, 'median', 'median of a histogram', got=med, want=w, counts=c, bins=x)
        ctx.count(moments=1)
        if (c > 0).sum() > 3:
            ctx.interesting(case, _)
    ctx.ok(18)


def gauss(case, ctx, rng, au):
    """A fit finds mean and width of normally distributed residuals."""
    N = int(rng.choice([2000, 20000]))
    mu, sigma = float(rng.normal() * rng.choice([.01, 3, 100])), float(10. ** rng.uniform(-1, 3))
    bin_width = sigma / rng.uniform(1, 12)
    half = sigma * rng.uniform(4.5, 15)
    off = mu + rng.uniform(-.3, .3) * bin_width      # as the residual histograms, around the peak
    n = int(2 * half / bin_width)
    e = off + (np.arange(n + 1) - n / 2) * bin_width
    if rng.random() < .1:
        h = np.zeros(n, int)
        h[int(rng.integers(n))] = N
        with ctx.sut('fit_residuals_gauss'):
            fit, cov = au.fit_residuals_gauss(h, e)
        k = np.flatnonzero(h)[0]
        ctx.expect(abs(fit[1] - (e[k] + e[k + 1]) / 2) < 1e-6 * sigma and abs(fit[2]) < 1e-6 * bin_width and fit[0] == N, 'single-bin', 'fit of a histogram with a single filled bin', got=fit)
        ctx.count(single_bin=1)
        return
    h = np.histogram(rng.normal(mu, sigma, N), e)[0].astype(rng.choice([np.int64, np.int32]))
    with ctx.sut('fit_residuals_gauss'):
        fit, cov = au.fit_residuals_gauss(h, e)
    A, m, s = fit
    w = math.hypot(sigma, bin_width / math.sqrt(12))
    det = dict(entries=N, mu=mu, sigma=sigma, bin_width=bin_width, fit=fit)
    ctx.expect(abs(m - mu) < 8 * sigma / math.sqrt(N), 'fit-mean', 'fitted mean', **det)
    ctx.expect(abs(abs(s) / w - 1) < 8 / math.sqrt(N), 'fit-width', 'fitted width', **det)
    a = N * bin_width / (math.sqrt(2 * math.pi) * w)
    ctx.expect(abs(A / a - 1) < 10 / math.sqrt(N), 'fit-height', 'fitted height', want=a, **det)
    cov = np.asarray(cov)
    ctx.expect(cov.shape == (3, 3) and np.all(np.isfinite(cov)) and 0 < cov[1, 1] < (.5 * sigma) ** 2, 'fit-covariance', 'covariance of the fit', cov=cov, **det)
    ctx.ok(4, gauss=1)
    ctx.interesting(case)


def box(case, ctx, rng, au):
    """A fit of a box smeared with a normal distribution (residuals of clusters of one pixel) finds its middle, width and smearing."""
    N = int(rng.choice([20000, 100000]))
    width = float(10. ** rng.uniform(1, 2.5))
    sigma, mu = width * rng.uniform(.08, .3), float(rng.normal() * width * .2)
    e = np.linspace(-2.5 * width, 2.5 * width, int(rng.integers(100, 300)) + 1) + mu + rng.uniform(-.1, .1) * width
    v = rng.uniform(-width / 2, width / 2, N) + rng.normal(0, sigma, N) + mu
    h = np.histogram(v, e)[0]
    with ctx.sut('fit_residuals_gauss_box_erf'):
        fit, cov = au.fit_residuals_gauss_box_erf(h, e, w=width * rng.uniform(.8, 1.2))
    det = dict(entries=N, mu=mu, sigma=sigma, width=width, fit=fit)
    A, m, s, a = fit
    total = math.sqrt(sigma ** 2 + width ** 2 / 12)
    ctx.expect(abs(m - mu) < 8 * total / math.sqrt(N), 'box-mean', 'fitted middle of a smeared box', **det)
    ctx.expect(abs(math.sqrt(s ** 2 + a ** 2 / 12) / total - 1) < 10 / math.sqrt(N), 'box-width', 'fitted width of a smeared box', **det)
    if sigma < .25 * width:
        ctx.expect(abs(abs(a) / width - 1) < 16 / math.sqrt(N) and abs(abs(s) / sigma - 1) < 60 / math.sqrt(N), 'box-parameters', 'fitted parameters of a smeared box', **det)
    ctx.ok(3, box=1)
    ctx.interesting(case)


def peak(case, ctx, rng, au):
    """Position and full width at half maximum of a single peak."""
    for _ in range(3):
        mu, sigma = float(rng.normal() * 50), float(10. ** rng.uniform(-1, 2))
        bw = sigma * rng.uniform(.05, .6)
        x = mu + rng.uniform(-1, 1) * 3 * sigma + (np.arange(int(24 * sigma / bw)) - int(12 * sigma / bw)) * bw
        kind = int(rng.integers(3))
        if kind == 0:
            y, half = np.exp(-(x - mu) ** 2 / 2 / sigma ** 2), sigma * math.sqrt(2 * math.log(2))
        elif kind == 1:
            y, half = np.maximum(0, 1 - abs(x - mu) / 3 / sigma), 1.5 * sigma
        else:
            y, half = 1 / np.cosh((x - mu) / sigma) ** 2, sigma * math.acosh(math.sqrt(2))
        base = float(rng.choice([0, 0, .1, .3]))       # the half of the maximum, also above a constant background
        if base:
            level = (.5 * (1 + base) - base)
            half = {0: sigma * math.sqrt(2 * math.log(1 / level)), 1: 3 * sigma * (1 - level), 2: sigma * math.acosh(math.sqrt(1 / level))}[kind]
        y = (y + base) * 10. ** rng.uniform(0, 5)
        top = y.max()
        det = dict(kind=kind, mu=mu, half=half, bin_width=bw)
        with ctx.sut('simple_peak_detect'):
            pos, center, full, (l, r) = au.simple_peak_detect(x, y)
        ctx.expect(pos == x[np.argmax(y)] and abs(center - (l + r) / 2) < 1e-9 * (abs(mu) + sigma) and abs(full - (r - l)) < 1e-9 * (abs(mu) + sigma), 'peak-simple', 'values of the simple peak search do not fit together', got=[pos, center, full, l, r], **det)
        ctx.expect(abs(center - mu) < 1.5 * bw and abs(full - 2 * half) < 2.5 * bw, 'peak-simple', 'simple peak search', got=[pos, center, full], **det)
        try:
            got = au.peak_detect(x, y)
        except RuntimeError:    # the spline may oscillate at the foot of a triangle
            ctx.expect(kind == 1, 'peak-missing', 'no peak found in a single smooth peak', **det)
        else:
            pos, center, full, (l, r) = got
            tol = (.02 if kind != 1 else .5) * bw + 2e-3 * sigma + (sigma * .3 * (bw / sigma) ** 4)
            ctx.expect(pos == x[np.argmax(y)], 'peak', 'position of the maximum', got=pos, **det)
            # half of the largest value, which is near the maximum of the curve
            lower = {0: lambda t: sigma * math.sqrt(2 * math.log(1 / t)), 1: lambda t: 3 * sigma * (1 - t), 2: lambda t: sigma * math.acosh(math.sqrt(1 / t))}[kind](.5 * ({0: math.exp(-(pos - mu) ** 2 / 2 / sigma ** 2), 1: 1 - abs(pos - mu) / 3 / sigma, 2: 1 / math.cosh((pos - mu) / sigma) ** 2}[kind] + base) - base)
            ctx.expect(abs(center - mu) < tol and abs(full - 2 * lower) < 2 * tol, 'peak', 'width or middle of the peak', got=[center, full], want=[mu, 2 * lower], **det)
            ctx.count(peaks=1)
        ctx.count(simple_peaks=1)
        # a distribution that does not fall below the half at a border has no width
        edge = np.where(np.arange(len(y)) < 3, top * rng.uniform(.6, 1), y) if rng.random() < .5 else np.where(np.arange(len(y)) >= len(y) - 3, top * rng.uniform(.6, 1), y)
        for f, bad in ((au.peak_detect, np.concatenate((y, y))), (au.simple_peak_detect, np.zeros(len(x))), (au.peak_detect, np.zeros(len(x))), (au.simple_peak_detect, edge)):
            try:
                f(np.arange(len(bad)) * bw, bad)
            except RuntimeError:
                ctx.count(no_peak=1)
            except ValueError:
                ctx.count(no_peak=1)
            else:
                ctx.violate('no-peak', 'a peak was found where there is none, or more than one', function=f.__name__)
    ctx.ok(9)
    ctx.interesting(case)


def hough(case, ctx, rng, au):
    """Number of pixels along each line."""
    if case['i'] % 3:
        return
    shape = [int(v) for v in rng.integers(3, 40, 2)]
    img = (rng.random(shape) < rng.choice([.02, .2])).astype(int)
    line = rng.random() < .6
    if line:
        th = rng.uniform(-np.pi / 2, np.pi / 2)
        yy, xx = np.indices(shape)
        r0 = np.cos(th) * (shape[1] - 1) / 2 + np.sin(th) * (shape[0] - 1) / 2
        img = (abs(xx * np.cos(th) + yy * np.sin(th) - r0) < .5).astype(int)
    tr, rr = float(rng.choice([1, .5, 3, 7.])), float(rng.choice([1, .5, 2]))
    with ctx.sut('hough_transform'):
        acc, thetas, rhos, te, re_ = au.hough_transform(img, theta_res=tr, rho_res=rr, return_edges=True)
        acc2, th2, rh2 = au.hough_transform(img, theta_res=tr, rho_res=rr)
    ctx.expect(np.array_equal(acc, acc2) and np.array_equal(thetas, th2) and np.array_equal(rhos, rh2), 'hough', 'transform depends on whether edges are returned')
    ctx.expect(abs(thetas[0] + np.pi / 2) < 1e-9 and abs(thetas[-1] - np.pi / 2) < 1e-9 and np.all(np.diff(thetas) > 0) and np.all(np.diff(thetas) <= np.deg2rad(tr) * 1.0001), 'hough', 'angles of the transform', thetas=thetas)
    ctx.expect(np.allclose(np.diff(rhos), rr) and rhos[-1] >= math.hypot(shape[0] - 1, shape[1] - 1) - 1e-9 and abs(rhos[0] + rhos[-1]) < 1e-9, 'hough', 'distances of the transform', rhos=rhos)
    for c, e in ((thetas, te), (rhos, re_)):
        ctx.expect(len(e) == len(c) + 1 and np.allclose((e[1:] + e[:-1]) / 2, c), 'hough', 'edges of the transform')
    pix = [(x, y) for y in range(shape[0]) for x in range(shape[1]) if img[y, x]]
    ctx.expect(acc.shape == (len(rhos), len(thetas)) and np.all(acc.sum(axis=0) == len(pix)), 'hough', 'not every pixel is counted once for every angle')
    for k in rng.integers(0, len(thetas), 12):
        lo, hi = np.zeros(len(rhos), int), np.zeros(len(rhos), int)
        for x, y in pix:
            d = (x * math.cos(thetas[k]) + y * math.sin(thetas[k])) / rr + (len(rhos) - 1) / 2
            j, f = int(math.floor(d + .5)), abs(d - math.floor(d) - .5)
            if f > 1e-6:
                lo[j] += 1
                hi[j] += 1
            else:      # in the middle between two
                for q in {int(math.floor(d)), int(math.ceil(d)), j}:
                    hi[min(q, len(rhos) - 1)] += 1
        ctx.expect(np.all(acc[:, k] >= lo) and np.all(acc[:, k] <= hi), 'hough', 'number of pixels on a line', theta=thetas[k], got=acc[:, k], want=lo)
        ctx.ok()
    if line and len(pix) > 8:
        i, j = np.unravel_index(acc.argmax(), acc.shape)
        on = abs(np.array([x * math.cos(thetas[j]) + y * math.sin(thetas[j]) for x, y in pix]) - rhos[i]) <= rr / 2 + 1e-6
        off = abs(np.array([x * math.cos(thetas[j]) + y * math.sin(thetas[j]) for x, y in pix]) - rhos[i]) < rr / 2 - 1e-6
        ctx.expect(off.sum() <= acc[i, j] <= on.sum(), 'hough', 'the line with most pixels', got=acc[i, j], want=on.sum())
        ctx.count(lines=1)
    ctx.count(hough=1)
    ctx.interesting(case)


def groups(case, ctx, rng, au):
    """Function of the values of each bin."""
    n, N = int(rng.choice([1, 2, 10, 100])), int(rng.choice([1, 5, 100, 2000]))
    lo = float(rng.normal() * 100)
    hi = lo + float(10 ** rng.uniform(-1, 3))
    x = rng.uniform(lo, hi, N)
    x[(x < lo) | (x >= hi)] = lo
    v = rng.choice([-3., 0., 1.5, 7.], N) if rng.random() < .3 else rng.normal(size=N)
    with ctx.sut('binned_statistic'):
        got = au.binned_statistic(x, v, lambda g: sorted(g), n, (lo, hi))
    want = [[] for _ in range(n)]
    clear = True
    for a, b in zip(x, v):
        p = (a - lo) / (hi - lo) * n
        clear = clear and (abs(p - round(p)) > 1e-9 or p == 0)
        want[int(p)].append(b)
    if clear:
        ctx.expect(len(got) == n and all(g == sorted(w) for g, w in zip(got, want)), 'groups', 'values of a bin', bins=n, got=got[:5], want=[sorted(w) for w in want[:5]])
        ctx.ok(n, groups=1)
        ctx.interesting(case)


def polygon(case, ctx, rng, au):
    """Areas of polygons: regular ones and sums of triangles."""
    for _ in range(5):
        n = int(rng.integers(3, 15))
        t = np.sort(rng.uniform(0, 2 * np.pi, n)) if rng.random() < .7 else np.arange(n) * 2 * np.pi / n
        r = rng.uniform(.2, 1, n) * 10. ** rng.uniform(-1, 3)
        if np.diff(np.append(t, t[0] + 2 * np.pi)).max() > np.pi - .01:
            continue
        want = math.fsum(.5 * r[i] * r[(i + 1) % n] * math.sin(t[(i + 1) % n] - t[i]) for i in range(n))
        c = rng.normal(size=2) * 100
        x, y = c[0] + r * np.cos(t), c[1] + r * np.sin(t)
        k = int(rng.integers(n))
        x, y = np.roll(x, k), np.roll(y, k)
        if rng.random() < .5:
            x, y = x[::-1], y[::-1]
        tol = 1e-9 * (want + (abs(c).max() + r.max()) ** 2)
        with ctx.sut('polygon_area'):
            one = au.polygon_area(x, y)
            more = au.polygon_area_multi(np.array([x, 2 * x, y]), np.array([y, y, x]))
        ctx.expect(abs(one - want) < tol, 'area', 'area of a polygon', got=one, want=want)
        ctx.expect(np.all(abs(more - [want, 2 * want, want]) < 2 * tol), 'area', 'areas of several polygons', got=more, want=want)
        ctx.count(polygons=1)
    ctx.ok(10)
    ctx.interesting(case)


def voronoi(case, ctx, rng, au):
    """Cells around points share out the whole area, and each belongs to its nearest point."""
    w = 10. ** rng.uniform(1, 4, 2)
    c = rng.normal(size=2) * 1000 * (rng.random() < .5)
    extent = [c[0] - w[0] / 2, c[0] + w[0] / 2, c[1] - w[1] / 2, c[1] + w[1] / 2]
    if rng.random() < .5:      # pixel matrix
        nx, ny = [int(v) for v in rng.integers(2, 25, 2)]
        gx, gy = (np.arange(nx) + .5) / nx, (np.arange(ny) + .5) / ny
        P = np.array([(a, b) for a in gx for b in gy])
        if rng.random() < .4:      # every second column shifted (bricked)
            odd = (np.round(P[:, 0] * nx - .5) % 2).astype(bool)
            P[odd, 1] = np.clip(P[odd, 1] + .3 / ny * rng.choice([-1, 1]), .001, .999)
    else:
        P = rng.uniform(.02, .98, (int(rng.integers(4, 120)), 2))
        d = abs(P[:, None] - P[None]).max(axis=2) + np.eye(len(P))
        P = P[~np.any(np.triu(d < .001, 1), axis=0)]
    P = P * w + c - w / 2
    if rng.random() < .5:
        extent = [extent[1], extent[0], extent[2], extent[3]] if rng.random() < .5 else [extent[0], extent[1], extent[3], extent[2]]
    from scipy.spatial import QhullError
    with ctx.sut('voronoi_finite_polygons_2d'):
        try:
            points, regions, ridges, vertices = au.voronoi_finite_polygons_2d(points=P.copy(), dut_extent=extent)
        except QhullError:      # the library gives up on some exactly cocircular points (internal error QH6272)
            ctx.count(given_up=1)
            return
    det = dict(extent=extent, n=len(P))
    ctx.expect(len(regions) == len(P) and np.array_equal(points[:len(P)], P), 'cells', 'not one cell for each point', cells=len(regions), **det)
    total = 0.
    tol = 3e-5 * max(abs(np.array(extent))) + 1e-6 * max(w)      # corners this near to the border count as on it
    for p, reg in zip(P, regions):
        ctx.expect(len(reg) >= 3 and -1 not in reg, 'cells', 'a cell is not closed', region=reg, **det)
        v = vertices[reg]
        ctx.expect(np.all(v >= c - w / 2 - tol) and np.all(v <= c + w / 2 + tol), 'cells', 'a cell exceeds the extent', vertices=v, **det)
        s = (v - p)
        area = abs(math.fsum(s[i][0] * s[(i + 1) % len(s)][1] - s[i][1] * s[(i + 1) % len(s)][0] for i in range(len(s)))) / 2
        total += area
        # every corner is as near to its point as to any other one
        for q in v[:3]:
            d = np.hypot(*(P - q).T)
            ctx.expect(np.hypot(*(p - q)) <= d.min() + tol, 'nearest', 'a cell has a corner that is nearer to another point', **det)
            ctx.count(nearest=1)
        ctx.count(cells=1)
    ctx.expect(abs(total / np.prod(w) - 1) < 1e-6 + 4 * tol / min(w), 'cells', 'the areas of the cells do not add up to the area', got=total, want=np.prod(w), **det)
    for a, b in ridges:
        ctx.expect(min(a, b) >= 0 and max(a, b) < len(vertices), 'cells', 'an edge of the cells has no end')
        ctx.expect(np.all(vertices[[a, b]] >= c - w / 2 - tol) and np.all(vertices[[a, b]] <= c + w / 2 + tol), 'cells', 'an edge of the cells is outside', **det)
    # each point within the area has the same nearest point with and without the mirrored points
    Q = c + (rng.random((200, 2)) - .5) * w
    near = np.argmin(((Q[:, None] - points[None]) ** 2).sum(axis=2), axis=1)
    ctx.expect(np.all(near < len(P)), 'mirror', 'a mirrored point is nearer than the points themselves', **det)
    ctx.ok(len(P))
    ctx.interesting(case)


def bits(case, ctx, rng, au):
    """Number of hits of a track from its hit flags."""
    v = rng.integers(0, 2 ** 32, 60) >> rng.integers(0, 32, 60)
    v[:3] = 0, 2 ** 32 - 1, 1 << 31
    want = [bin(int(q)).count('1') for q in v]
    for kind in (np.int64, np.uint32):
        with ctx.sut('number_of_set_bits'):
            got = au.number_of_set_bits(v.astype(kind))
        ctx.expect(np.array_equal(np.asarray(got).astype(int), want), 'bits', 'number of set bits', kind=kind.__name__, values=v, got=got)
    w = (v & 0xffff).astype(np.uint16)
    with ctx.sut('number_of_set_bits'):
        one = [au.number_of_set_bits(int(q)) for q in v]
    ctx.expect(one == want, 'bits', 'number of set bits of a number', values=v, got=one)
    ctx.ok(180, bits=len(v))
    ctx.interesting(case)


def quantiles(case, ctx, rng, au):
    """Cutting off the outer parts of a histogram never cuts off more than asked for."""
    for _ in range(4):
        n = int(rng.choice([1, 2, 10, 200]))
        h = rng.integers(0, int(rng.choice([2, 20])), n) * (rng.random(n) < rng.choice([1, .2]))
        lo, hi = sorted(rng.choice([0, .05, .25, .5, .9, .95, 1.], 2, replace=False))
        with ctx.sut('hist_quantiles'):
            m, idx = au.hist_quantiles(h, prob=(lo, hi), return_indices=True)
            m2 = au.hist_quantiles(h, prob=(lo, hi))
        ctx.expect(np.array_equal(np.ma.getmaskarray(m), np.ma.getmaskarray(m2)) and np.array_equal(m.data, h), 'quantiles', 'cut histogram depends on whether indices are returned, or has other values')
        keep = ~np.ma.getmaskarray(m)
        ctx.expect(list(np.flatnonzero(keep)) == [i for i in idx if i < n], 'quantiles', 'indices of the cut histogram', indices=idx, kept=np.flatnonzero(keep))
        k = np.flatnonzero(keep)
        ctx.expect(len(k) > 0 and len(k) == k[-1] - k[0] + 1, 'quantiles', 'the histogram is cut in the middle', kept=k)
        total = h.sum()
        ctx.expect(h[:k[0]].sum() <= lo * total + 1e-9 and h[k[-1] + 1:].sum() <= (1 - hi) * total + 1e-9, 'quantiles', 'more is cut off than asked for', prob=(lo, hi), hist=h, kept=k)
        ctx.count(quantiles=1)
    ctx.ok(12)
    ctx.interesting(case)


def functions(case, ctx, rng, au):
    """Curves used in the fits."""
    A, mu, sigma, off, slope, width = float(rng.uniform(1, 100)), float(rng.normal()), float(rng.uniform(.2, 3)), float(rng.normal()), float(rng.normal()), float(rng.uniform(.5, 6))
    A2, mu2, s2 = float(rng.uniform(1, 100)), float(rng.normal()), float(rng.uniform(.2, 3))
    x = mu + rng.normal(size=7) * 3

    def g(t, A, m, s):
        return A * math.exp(-.5 * ((t - m) / s) ** 2)
    with ctx.sut('functions'):
        pairs = [('gauss', au.gauss(x, A, mu, sigma), [g(t, A, mu, sigma) for t in x]),
                 ('gauss_offset', au.gauss_offset(x, A, mu, sigma, off), [g(t, A, mu, sigma) + off for t in x]),
                 ('gauss_offset_slope', au.gauss_offset_slope(x, A, mu, sigma, off, slope), [g(t, A, mu, sigma) + off + slope * t for t in x]),
                 ('double_gauss', au.double_gauss(x, A, mu, sigma, A2, mu2, s2), [g(t, A, mu, sigma) + g(t, A2, mu2, s2) for t in x]),
                 ('double_gauss_offset', au.double_gauss_offset(x, A, mu, sigma, A2, mu2, s2, off), [g(t, A, mu, sigma) + g(t, A2, mu2, s2) + off for t in x]),
                 ('gauss2', au.gauss2(x, mu, sigma), [g(t, 1 / (sigma * math.sqrt(2 * math.pi)), mu, sigma) for t in x]),
                 ('linear', au.linear(x, off, slope), [off + slope * t for t in x])]
        q = (np.arange(20000) + .5) / 20000 * width - width / 2
        conv = [A / (math.sqrt(2 * math.pi) * sigma) * width / 20000 * np.exp(-.5 * ((t - q - mu) / sigma) ** 2).sum() for t in x]
        pairs += [('gauss_box_erf', au.gauss_box_erf(x, A, mu, sigma, width), conv), ('gauss_box', au.gauss_box(x, A, mu, sigma, width), conv)]
    for name, got, want in pairs:
        ctx.expect(np.all(abs(np.asarray(got) - want) < 1e-6 * (A + A2)), 'function', 'values of the curve', function=name, got=got, want=want)
    ctx.ok(len(pairs), functions=len(pairs))
    ctx.interesting(case)


def index(case, ctx, rng, au):
    """Positions of common values, neighbours and gaps of an array, against direct search."""
    n1, n2 = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    top = int(rng.choice([3, 30, 1000]))
    b = rng.choice(np.arange(-top, 2 * n2 + top), n2, replace=False)     # values of the second are unique
    a = rng.integers(-top - 2, 2 * n2 + top + 2, n1)
    ordered = bool(rng.random() < .4)
    if ordered:
        b = np.sort(b)
    pos = {int(v): k for k, v in enumerate(b)}
    det = dict(a=a, b=b, ordered=ordered)
    with ctx.sut('in1d_index'):
        one, two = au.in1d_index(a, b, assume_sorted=ordered)
        one_f, two_f = au.in1d_index(a, b, fill_invalid=-7, assume_sorted=ordered)
    want = [k for k, v in enumerate(a) if int(v) in pos]
    ctx.expect(list(one) == want and list(two) == [pos[int(a[k])] for k in want], 'index', 'positions of common values', got=[one, two], **det)
    ctx.expect(list(one_f) == want and list(two_f) == [pos.get(int(v), -7) for v in a], 'index', 'positions of common values with filled gaps', got=[one_f, two_f], **det)
    ctx.count(index=1)
    shape = [int(v) for v in rng.integers(3, 12, 2)]
    arr = rng.integers(0, int(rng.choice([1, 3, 9, 500])), shape)
    S = np.ones((3, 3), bool)
    if rng.random() < .6:
        k = int(rng.choice([1, 3, 5]))
        S = rng.random((k, k)) < .6
        S[k // 2, k // 2] = True
    e = len(S) // 2
    with ctx.sut('count_unique_neighbors'):
        got = au.count_unique_neighbors(arr.copy(), structure=None if S.shape == (3, 3) and S.all() else S)

    def mirror(k, n):
        k = abs(k)
        return k if k < n else 2 * (n - 1) - k
    want = [[len({int(arr[mirror(i + q - e, shape[0]), mirror(j + r - e, shape[1])]) for q in range(len(S)) for r in range(len(S)) if S[q, r]}) for j in range(shape[1])] for i in range(shape[0])]
    ctx.expect(np.array_equal(got, want), 'neighbours', 'number of different neighbours', got=got, want=want, array=arr, structure=S)
    hole = rng.random(shape) < .4
    hole.flat[int(rng.integers(hole.size))] = False
    f = arr.astype(float)
    f[hole] = np.nan
    with ctx.sut('fill'):
        full = [au.fill(f.copy()), au.fill(arr.astype(float), invalid=hole)]
    good = np.argwhere(~hole)
    for i, j in np.ndindex(*shape):
        d = ((good - [i, j]) ** 2).sum(axis=1)
        near = {float(arr[tuple(g)]) for g in good[d == d.min()]}
        ctx.expect(all(q[i, j] in near for q in full), 'fill', 'a gap is not filled with the nearest value', got=[q[i, j] for q in full], want=near)
    ctx.ok(4, neighbours=1, gaps=int(hole.sum()))
    ctx.interesting(case)


def slope(case, ctx, rng, au):
    """Slope of residuals against the position."""
    n, m = int(rng.integers(5, 60)), int(rng.integers(30, 120))
    length = 10. ** rng.uniform(2, 4)
    x = np.linspace(-length / 2, length / 2, n + 1) + rng.normal() * length * .2
    sigma = 10. ** rng.uniform(0, 2)
    off, k = float(rng.normal() * sigma), float(rng.uniform(-2, 2) * sigma / length)
    half = 6 * sigma + abs(off) + abs(k) * abs(x).max()
    y = np.linspace(-half, half, m + 1)
    if y[1] - y[0] > sigma:
        return
    xc = (x[1:] + x[:-1]) / 2
    N = rng.integers(300, 4000, n)
    N[rng.random(n) < .15] = 0
    if (N > 0).sum() < 4:
        return
    h, cut = np.zeros((n, m)), None
    for i in range(n):
        h[i] = np.histogram(rng.normal(off + k * xc[i], sigma, N[i]), y)[0]
    limit = None
    if rng.random() < .5:
        lo, hi = np.sort(rng.choice(x, 2, replace=False))
        limit = [float(lo) if rng.random() < .7 else -np.inf, float(hi) if rng.random() < .7 else np.inf]
    count = h.sum(axis=1)
    with ctx.sut('fit_residuals_vs_position'):
        fit, cov, select, mean = au.fit_residuals_vs_position(h, x, y, h @ ((y[1:] + y[:-1]) / 2) / np.maximum(count, 1), count, limit=limit)
    det = dict(off=off, slope=k, fit=fit, limit=limit)
    want = count > 0
    if limit is None:
        want &= count > np.percentile(count[want], 32.)
    else:
        want &= (xc >= limit[0]) & (xc <= limit[1])
    if limit is not None and not ((xc >= limit[0]).any() and (xc <= limit[1]).any()):
        return
    ctx.expect(np.array_equal(select, want), 'slope-selection', 'positions used for the slope', got=select, want=want, **det)
    mm = np.ma.filled(np.ma.asarray(mean), np.nan)
    ctx.expect(np.array_equal(np.isfinite(mm), count > 0), 'slope-mean', 'means of positions with entries', got=mm, **det)
    dev = abs(mm - off - k * xc)[count > 0] / (sigma / np.sqrt(count[count > 0]))
    ctx.expect(dev.max() < 9, 'slope-mean', 'fitted mean at a position', deviation=dev.max(), **det)
    if select.sum() < 2:
        ctx.expect(np.all(np.isnan(fit)), 'slope', 'slope without two positions', **det)
        return
    A = np.column_stack((np.ones(n), xc))[select]
    w = (count[select] / count[select].sum())[:, None]
    own = np.linalg.lstsq(A * w, mm[select] * w[:, 0], rcond=None)[0]
    ctx.expect(abs(fit[0] + fit[1] * x.mean() - own[0] - own[1] * x.mean()) < 1e-3 * sigma and abs(fit[1] - own[1]) * length < 1e-3 * sigma, 'slope', 'line through the means', want=own, **det)
    ctx.ok(5, slopes=1)
    ctx.interesting(case)
