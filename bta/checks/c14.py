"""Hit, quality and isolation flags of fitted tracks, evaluated from the definitions pair by pair."""
import os

import numpy as np
import tables as tb

from bta import gen
from bta.checks import fitdata
from bta.checks import c12

ID = 'C14'
RULE = 'a case is one set of track candidates on one telescope with own distances and limits per sensor, fitted with all candidates kept; non-trivial when flags of some tracks are set and of others are not'
MIN = {'quality_set': 2000, 'quality_cleared': 2000, 'track_not_isolated': 800, 'hit_not_isolated': 500, 'isolated': 3000, 'ellipse': 60, 'rectangle': 40, 'outside_limits': 200, 'no_distance': 15, 'kalman': 12, 'more_than_sixteen': 3}
EPS = 1e-6


def warm():
    from bta import pykalman
    pykalman.load()
    c12.warm()


def cases(seed, tier):
    return [dict(seed=seed * 8191 + i, method='kalman' if i % 6 == 5 else 'fit') for i in range(130 if tier == 'quick' else 4000)]


def inside(dx, dy, lx, ly, ellipse):
    """-> certainly inside, certainly outside."""
    if ellipse:
        q = np.sqrt((dx / lx) ** 2 + (dy / ly) ** 2)
        return q < 1 - EPS, q > 1 + EPS
    a, b = np.abs(dx), np.abs(dy)
    i = ((a < lx - EPS) | (dx == 0)) & ((b < ly - EPS) | (dy == 0))
    return i, (a > lx + EPS) | (b > ly + EPS)


def pairwise(ev, x, y, use, lx, ly, ellipse):
    """-> certainly not isolated, certainly isolated."""
    n = len(ev)
    near, poss = np.zeros(n, bool), np.zeros(n, bool)
    for e in np.unique(ev):
        r = np.flatnonzero((ev == e) & use)
        if len(r) > 1:
            a, b = inside(x[r][:, None] - x[r], y[r][:, None] - y[r], lx, ly, ellipse)
            np.fill_diagonal(a, False)
            np.fill_diagonal(b, True)
            near[r], poss[r] = a.any(axis=1), (~b).any(axis=1)
    return near, ~poss


def run(case, ctx):
    from beam_telescope_analysis import track_analysis as ta
    rng = ctx.rng
    os.cpu_count = lambda: 2
    method = case['method']
    kalman = method == 'kalman'
    n = int(rng.choice([3, 4, 6, 18], p=[.36, .36, .2, .08])) if not kalman else int(rng.choice([3, 4, 6], p=[.4, .4, .2]))
    kw, per = fitdata.settings(rng, n, method)
    tel, lims = fitdata.telescope(rng, ctx.path('t.yaml'), n, kalman=kalman)
    m = fitdata.candidates(rng, tel, n, int(rng.choice([1, 6, 25] if not kalman else [1, 6])), int(rng.choice([1, 3, 8])), noise=float(rng.choice([0, 5., 40.])))
    ux = bool(rng.random() < .7)

    def distances(pick, default):
        f = rng.choice(['default', 'none', 'tuple', 'list'], p=[.1, .1, .3, .5])
        p = lambda i: tuple(float(v) for v in pick(i))
        if f == 'default':
            return {}, [default] * n
        if f == 'none':
            return None, [None] * n
        if f == 'tuple':
            v = p(0)
            return v, [v] * n
        v = [p(i) if rng.random() < .85 else None for i in range(n)]
        return v, v
    px = [(d.column_size, d.row_size) for d in tel]
    q, qd = distances(lambda i: np.array(px[i]) * rng.choice([.2, 1, 2.4, 2.5, 3, 8], 2), (250., 250.))
    s, sd = distances(lambda i: rng.choice([0., 50., 200., 500., 2000.], 2) if rng.random() < .5 else rng.uniform(1, 1000, 2), (500., 500.))
    args = dict(kw)
    if q != {}:
        args['quality_distances'] = q
    if s != {}:
        args['isolation_distances'] = s
    if ux is False or rng.random() < .5:
        args['use_limits'] = ux
    if kalman:
        args.update(method='kalman', beam_energy=2500., particle_mass=.511)
    cs = gen.chunk_sizes(rng, len(m), gen.max_per_event(m))[0]
    det = dict(n=n, rows=len(m), chunk_size=cs, **args)
    gen.write_table(ctx.path('in.h5'), 'TrackCandidates', m)
    out = ctx.path('out.h5')
    with ctx.sut('fit_tracks'):
        ta.fit_tracks(ctx.path('t.yaml'), ctx.path('in.h5'), output_tracks_file=out, keep_data=True, full_track_info=True, plot=False, chunk_size=cs, **args)
    plain = None
    if rng.random() < .4:
        with ctx.sut('fit_tracks'):
            ta.fit_tracks(ctx.path('t.yaml'), ctx.path('in.h5'), output_tracks_file=ctx.path('out2.h5'), keep_data=False, full_track_info=False, plot=False, chunk_size=cs, **args)
        plain = tb.open_file(ctx.path('out2.h5'))
    with tb.open_file(out) as f:
        tabs = {nd._v_name: nd[:] for nd in f.root if isinstance(nd, tb.Table) and nd._v_name.startswith('Tracks_DUT')}
    mixed = set()
    for d, st in per.items():
        fitted, stored = fitdata.select(m, st, method)
        t = tabs.get('Tracks_DUT%d' % d)
        if t is None:
            ctx.expect(not stored.any(), 'missing-table', 'no tracks table, but there are %d tracks' % stored.sum(), dut=d, **det)
            continue
        rows = np.flatnonzero(np.isin(m['event_number'], np.unique(t['event_number'])))
        ctx.expect(len(rows) == len(t) and gen.same_array(t['hit_flag'], m['hit_flag'][rows]), 'hit-flag', 'hit flags are changed or candidates are lost', stop=True, dut=d, **det)
        fit = fitted[rows]
        for i in range(n):
            dd = dict(dut=d, at=i, quality=qd[i], isolation=sd[i], limits=lims[i], **{k: v for k, v in det.items() if k not in ('quality_distances', 'isolation_distances')})
            hx, hy = t['x_dut_%d' % i], t['y_dut_%d' % i]
            hit = np.isfinite(hx)
            ctx.expect(np.array_equal((t['hit_flag'] >> np.uint32(i)) & 1, hit), 'hit-flag', 'hit flag is not set exactly for the tracks with a hit', **dd)
            ox, oy = t['offset_x_dut_%d' % i], t['offset_y_dut_%d' % i]
            rx, ry = hx - ox, hy - oy
            lx, ly = qd[i] or (np.inf, np.inf)
            ellipse = lx >= 2.5 * px[i][0] and ly >= 2.5 * px[i][1]
            ctx.count(ellipse=bool(ellipse and qd[i]), rectangle=not ellipse, no_distance=qd[i] is None)
            a, b = inside(rx, ry, lx, ly, ellipse) if qd[i] else (hit & fit, ~(hit & fit))
            a, b = a & hit & fit, b | ~hit | ~fit
            if ux and lims[i][0] is not None:
                inl = (hx >= lims[i][0][0]) & (hx <= lims[i][0][1]) & (hy >= lims[i][1][0]) & (hy <= lims[i][1][1])
                ctx.count(outside_limits=int((hit & fit & ~inl).sum()))
                a, b = a & inl, b | ~inl
            g = ((t['quality_flag'] >> np.uint32(i)) & 1).astype(bool)
            bad = (a & ~g) | (b & g)
            k = int(np.flatnonzero(bad)[0]) if bad.any() else 0
            ctx.expect(not bad.any(), 'quality-flag', 'quality flag is not set exactly for hits within the distance of the track', row=k, residual=(float(rx[k]), float(ry[k])), hit=(float(hx[k]), float(hy[k])), flag=bool(g[k]), **dd)
            lx, ly = sd[i] or (0., 0.)
            near, free = pairwise(t['event_number'], ox, oy, fit & np.isfinite(ox), lx, ly, lx > 0 and ly > 0)
            gt = ((t['isolated_track_flag'] >> np.uint32(i)) & 1).astype(bool)
            bad = fit & ((near & gt) | (free & ~gt))
            k = int(np.flatnonzero(bad)[0]) if bad.any() else 0
            ctx.expect(not bad.any(), 'isolated-track-flag', 'isolated track flag is not set exactly for tracks without another track in the distance', row=k, event=t['event_number'][k], flag=bool(gt[k]), **dd)
            hn, hf = pairwise(m['event_number'], m['x_dut_%d' % i], m['y_dut_%d' % i], np.isfinite(m['x_dut_%d' % i]), lx, ly, ellipse and lx > 0 and ly > 0)
            gh = ((t['isolated_hit_flag'] >> np.uint32(i)) & 1).astype(bool)
            bad = fit & ((hn[rows] & gh) | (hf[rows] & ~gh))
            k = int(np.flatnonzero(bad)[0]) if bad.any() else 0
            ctx.expect(not bad.any(), 'isolated-hit-flag', 'isolated hit flag is not set exactly for hits without another hit in the distance', row=k, event=t['event_number'][k], flag=bool(gh[k]), **dd)
            no = ~fit
            ctx.expect(not (g | gt | gh)[no].any(), 'not-fitted', 'flags are set for a candidate that is not fitted', **dd)
            ctx.ok(quality_set=int(a.sum()), quality_cleared=int((b & hit & fit).sum()), track_not_isolated=int((near & fit).sum()), hit_not_isolated=int((hn[rows] & fit).sum()), isolated=int((free & fit).sum()),
                   undecided=int((~(a | b)).sum()))
            if a.any() and (b & hit & fit).any() and near.any():
                mixed.add(i)
        if plain is not None and '/Tracks_DUT%d' % d in plain:
            p = plain.get_node('/Tracks_DUT%d' % d)[:]
            full = t[stored[rows]]
            for c in ('event_number', 'hit_flag', 'quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
                ctx.expect(gen.same_array(p[c], full[c]), 'keep-data', 'column %s of the tracks depends on whether all candidates are kept' % c, dut=d, **det)
    if plain is not None:
        plain.close()
    ctx.count(more_than_sixteen=n > 16, kalman=kalman, fit=not kalman)
    if mixed:
        ctx.interesting(method, n, len(m), tuple(sorted(mixed)))
    ctx.sample = det
