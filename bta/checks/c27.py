"""Track angle histograms, recomputed from the slopes of the track tables."""
import numpy as np
import tables as tb

from bta import gen

ID = 'C27'
RULE = 'a case is one set of track tables, one selection of sensors, one binning and chunk size; non-trivial when sensors are rotated and several chunks are read'
MIN = {'angles': 200000, 'histograms': 500, 'rotated': 60, 'flipped': 10, 'several_chunks': 40, 'reordered': 20, 'fits': 200, 'no_fit': 500, 'auto': 15, 'few': 10}


def cases(seed, tier):
    return [dict(seed=seed * 7919 + i, few=i % 8 == 7) for i in range(100 if tier == 'quick' else 3000)]


def angles(sx, sy, sz):
    """Angle to the normal and its projections: alpha around the x axis, beta around the y axis."""
    return dict(total=np.arctan2(np.hypot(sx, sy), sz), alpha=np.arctan2(sy, sz), beta=np.arctan2(-sx, sz))


def run(case, ctx):
    from beam_telescope_analysis import result_analysis as ra
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    specs, flipped = [], 0
    for i in range(n):
        k = int(rng.integers(6))
        s = dict(rotation_alpha=0., rotation_beta=0., rotation_gamma=0.)
        if k in (1, 2):
            s = dict(rotation_alpha=float(rng.normal(0, .02)), rotation_beta=float(rng.normal(0, .02)), rotation_gamma=float(rng.uniform(-np.pi, np.pi)))
        if k == 3:
            s = dict(rotation_alpha=float(rng.uniform(-1, 1)), rotation_beta=float(rng.uniform(-1, 1)), rotation_gamma=float(rng.choice([0, np.pi / 2, -np.pi / 2])))
        if k == 4:
            s = dict(rotation_alpha=float(np.pi + rng.normal(0, .01)), rotation_beta=float(rng.normal(0, .01)), rotation_gamma=float(rng.normal(0, .01)))
        if k == 5:
            s = dict(rotation_alpha=0., rotation_beta=float(np.pi), rotation_gamma=float(rng.choice([0., np.pi / 2])))
        flipped += k in (4, 5)
        s.update(translation_x=float(rng.normal(0, 500)), translation_y=float(rng.normal(0, 500)))
        specs.append(s)
    z = np.arange(n) * 10000.
    if rng.random() < .4:       # the sensor with index 0 need not be the first in the beam
        z = rng.permutation(z)
    for s, v in zip(specs, z):
        s['translation_z'] = float(v)
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
    rows = int(rng.integers(1, 12)) if case['few'] else int(rng.choice([400, 1500, 4000]))
    ev = gen.event_numbers(rng, rows)
    ev = np.sort(rng.choice(ev, size=rows)) if rng.random() < .5 else ev
    duts = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    reordered = list(np.argsort(z[duts])) != list(range(len(duts)))
    mean, width = rng.normal(0, .02, 2) * (rng.random() < .7), 10 ** rng.uniform(-4, -1.5, 2)
    local, glob, nofit = {}, {}, 0
    with tb.open_file(ctx.path('tracks.h5'), 'w') as f:
        for i in range(n):
            t = gen.random_tracks(rng, ev, n)
            k = len(t)
            # scattering: the slopes differ from sensor to sensor
            g = np.array([rng.normal(mean[0], width[0], k), rng.normal(mean[1], width[1], k), np.ones(k)])
            if rng.random() < .5:
                g /= np.sqrt((g ** 2).sum(axis=0))
            R, _ = gen.pose(tel[i])
            l = R.T @ g
            l *= np.where(l[2] < 0, -1, 1)      # as stored by the track fit, also for flipped sensors
            bad = rng.random(k) < rng.choice([0., .1])
            if bad.all():
                bad[0] = False
            if rng.random() < .1:       # first rows without fit
                bad[:k // 20] = True
            for c, v in zip('xyz', l):
                t['slope_' + c] = np.where(bad, np.nan, v)
            local[i], glob[i] = angles(*l[:, ~bad]), angles(*g[:, ~bad])
            local[i]['first'] = glob[i]['first'] = ~bad
            nofit += bad.sum()
            table = f.create_table(f.root, 'Tracks_DUT%d' % i, description=t.dtype)
            table.append(t)
    top = int(np.unique(ev, return_counts=True)[1].max())
    chunk = int(rng.choice([10 ** 6, rows, max(rows // 2, top) + 1, max(rows // 6, 200, top + 1)]))
    bins = 'auto' if rng.random() < .25 else int(rng.choice([100, 40, 173, 10]))
    det = dict(n=n, rows=rows, chunk_size=chunk, n_bins=bins, duts=duts, z=z, specs=specs)
    arg = list(duts)
    with ctx.sut('histogram_track_angle'):
        r = ra.histogram_track_angle(ctx.path('t.yaml'), ctx.path('tracks.h5'), select_duts=arg, output_track_angle_file=ctx.path('angles.h5'), n_bins=bins, plot=False, chunk_size=chunk)
    ctx.expect(r == ctx.path('angles.h5') and arg == duts, 'return', 'wrong return value or changed argument', got=r)
    H, A = {}, {}
    with tb.open_file(ctx.path('angles.h5')) as f:
        for nd in f.walk_nodes('/', 'Array'):
            H[nd._v_name] = nd[:]
            A[nd._v_name] = {k: float(nd.attrs[k]) for k in ('amplitude', 'mean', 'sigma') if k in nd.attrs}
    first = duts[int(np.argmin(z[duts]))]
    want = [('Global', '', glob[first])] + [(w, '_DUT%d' % d, q[d]) for d in duts for w, q in (('Global', glob), ('Local', local))]
    names = {'%s_%s_track_angle_%s%s' % (w, k, h, s) for w, s, _ in want for k in ('total', 'alpha', 'beta') for h in ('hist', 'edges')}
    ctx.expect(names == set(H), 'arrays', 'set of histograms is wrong', missing=sorted(names - set(H)), additional=sorted(set(H) - names), **det)
    for w, s, q in want:
        for k in ('total', 'alpha', 'beta'):
            v = q[k]
            h, e = H['%s_%s_track_angle_hist%s' % (w, k, s)], H['%s_%s_track_angle_edges%s' % (w, k, s)]
            a = A['%s_%s_track_angle_hist%s' % (w, k, s)]
            d = dict(hist='%s %s%s' % (w, k, s), edges=[e[0], e[-1]], **det)
            ctx.expect(h.ndim == 1 and len(e) == len(h) + 1 and np.all(np.diff(e) > 0), 'edges', 'edges do not belong to the histogram', **d)
            if bins != 'auto':
                ctx.expect(len(h) == bins, 'bins', 'number of bins is wrong', got=len(h), **d)
            # arccos close to 1 is not precise
            tol = max(1e-7, 4e-8 / (np.abs(e).max() + e[-1] - e[0])) if k == 'total' else 1e-7
            lo, hi, _ = gen.hist_bounds([v], [e], eps=tol)
            ctx.expect(np.all(h >= lo) and np.all(h <= hi), 'counts', 'histogram does not count every track at its angle', got=h.sum(), want=((v >= e[0]) & (v <= e[-1])).sum(), mean=v.mean(), **d)
            m, sd = v.mean(), v.std()
            inside = ((v >= e[0]) & (v <= e[-1])).sum()
            if len(v) >= 300:
                ctx.expect(inside >= .97 * len(v), 'range', 'histogram does not cover the tracks', inside=inside, of=len(v), **d)
            ctx.ok(angles=inside, histograms=1)
            ctx.expect(set(a) == {'amplitude', 'mean', 'sigma'}, 'attributes', 'fit results are missing', got=a, **d)
            # projections of a Gaussian beam are Gaussian
            if k != 'total' and inside >= 1000 and bins != 'auto' and bins >= 40 and np.isfinite(a['mean']):
                ctx.expect(abs(a['mean'] - m) < .25 * sd and .7 < abs(a['sigma']) / sd < 1.4, 'fit', 'stored mean and width do not describe the distribution', got=a, mean_true=m, std=sd, **d)
                ctx.expect(.6 < a['amplitude'] / h.max() < 1.6, 'fit', 'stored amplitude does not describe the distribution', got=a, **d)
                ctx.ok(fits=1)
            elif k != 'total' and inside >= 1000 and bins != 'auto' and bins >= 40:
                ctx.count(fit_failed=1)
    several = chunk < rows
    ctx.count(several_chunks=several, flipped=flipped > 0, rotated=any(q['rotation_alpha'] or q['rotation_beta'] for q in specs), reordered=reordered, auto=bins == 'auto', few=case['few'], no_fit=nofit)
    if several and flipped:
        ctx.interesting(case)
    ctx.sample = dict(duts=duts, n_bins=bins, rows=rows, chunk_size=chunk)


def warm():
    from beam_telescope_analysis import result_analysis  # noqa: F401
