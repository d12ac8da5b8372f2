"""Kalman track fit: stored states and chi2 against an independent generalised least-squares fit of the broken line."""
import os

import numpy as np
import tables as tb

from bta import gen, gls
from bta.checks import fitdata

ID = 'C13'
RULE = 'a case is one set of scattered tracks on one telescope with one choice of fitted and fit sensors, beam energy and scattering planes; non-trivial when the fit has missing hits and different hit errors'
MIN = {'states': 3000, 'missing_hits': 300, 'scattering_planes': 15, 'intrinsic_resolution': 15, 'sensor_order': 10, 'not_in_fit': 800, 'own_hit': 200, 'chunked': 8}
WORKERS = 8


def cases(seed, tier):
    # the first case is the same in every run
    return [dict(seed=1, fixed=True)] + [dict(seed=seed * 9001 + i) for i in range(64 if tier == 'quick' else 2500)]


def warm():
    from bta.checks import c12
    c12.warm()


def tracks(rng, planes, tel, n_ev, top, energy, mass, missing):
    """Scattered tracks through the planes (telescope first, then scattering planes), with noise of the size of the hit errors."""
    n = len(tel)
    o = gls.order(planes)
    ev = np.repeat(gen.event_numbers(rng, n_ev), rng.integers(1, top + 1, n_ev))
    k = len(ev)
    m = gen.merged(rng, ev, n)
    par = np.zeros((k, 4 + 2 * (len(o) - 1)))
    f = planes[o[0]]
    g = np.column_stack([rng.normal(0, 2e-3, (k, 2)), np.ones(k)])
    start = np.column_stack([rng.normal(0, 1500, (k, 2)), np.full(k, -1e4)])
    _, par[:, :2] = gls.step(f, start, g)
    l = g @ f.R
    par[:, 2:4] = l[:, :2] / l[:, 2:]
    _, _, d = gls.propagate(planes, o, par)
    for j, i in enumerate(o[:-1]):
        par[:, 4 + 2 * j:6 + 2 * j] = rng.normal(size=(k, 2)) * gls.theta(planes[i], d[:, i], energy, mass)[:, None]
    pos, _, _ = gls.propagate(planes, o, par)
    for i in range(n):
        rows = np.flatnonzero(rng.random(k) >= missing * rng.choice([0, 1, 2]))
        xe, ye = rng.choice([4., 10., 25.], len(rows)), rng.choice([4., 10.], len(rows))
        sx, sy = (xe, ye) if tel[i].intrinsic_resolution is None else tel[i].intrinsic_resolution
        gen.put_hits(rng, m, i, rows, pos[rows, i, 0] + rng.normal(size=len(rows)) * sx, pos[rows, i, 1] + rng.normal(size=len(rows)) * sy, xerr=xe, yerr=ye)
    gen.set_hit_flag(m, n)
    return m


def run(case, ctx):
    from beam_telescope_analysis import track_analysis as ta
    from beam_telescope_analysis.telescope.dut import ScatteringPlane
    rng = ctx.rng
    ncpu = int(rng.integers(1, 4))
    os.cpu_count = lambda: ncpu
    n = 5 if case.get('fixed') else int(rng.choice([4, 5, 6, 8], p=[.3, .3, .25, .15]))
    if case.get('fixed'):
        kw, per = dict(select_duts=[0, 2], exclude_dut_hit=False), {d: dict(fit=list(range(n)), hit=[], least=n) for d in (0, 2)}
    else:
        kw, per = fitdata.settings(rng, n, 'kalman')
        while len(per) > 3:
            kw, per = fitdata.settings(rng, n, 'kalman')
        if rng.random() < .6:
            kw['min_track_hits'] = 3
            for s in per.values():
                s['least'] = 3
    tel, _ = fitdata.telescope(rng, ctx.path('t.yaml'), n, kalman=case.get('fixed', False))
    nres = 0
    for d in tel:
        if rng.random() < .25:
            d.intrinsic_resolution = (float(rng.choice([3., 8., 20.])), float(rng.choice([3., 8.])))
            nres += 1
    tel.save_configuration(ctx.path('t.yaml'))
    energy, mass = [(120000., .511), (5000., .511), (2500., .511), (4000., 938.3), (180000., 139.6)][int(rng.integers(5))]
    zs = sorted(float(d.translation_z) for d in tel)
    scat = []
    for j in range(int(rng.choice([0, 0, 1, 2])) if not case.get('fixed') else 0):
        z = float(rng.uniform(zs[0] - 2e4, zs[-1] + 2e4))
        if min(abs(z - q) for q in zs) < 1500:
            continue
        zs.append(z)
        scat.append(dict(name='S%d' % j, translation_x=float(rng.normal(0, 100)), translation_y=0., translation_z=z, rotation_alpha=float(rng.normal(0, .1)), rotation_beta=float(rng.normal(0, .2)), rotation_gamma=float(rng.normal()), material_budget=float(rng.choice([1e-3, 1e-2, .05]))))
    splanes = [ScatteringPlane(**s) for s in scat]
    planes = [gls.plane(d) for d in tel] + [gls.plane(s) for s in splanes]
    order = gls.order(planes)
    m = tracks(rng, planes, tel, int(rng.choice([1, 8, 25])), int(rng.choice([1, 3])), energy, mass, 0. if case.get('fixed') else .2)
    cs = gen.chunk_sizes(rng, len(m), gen.max_per_event(m))[0]
    det = dict(n=n, rows=len(m), chunk_size=cs, cpus=ncpu, order=[int(i) for i in order], energy=energy, mass=mass, scattering=[(s['translation_z'], s['material_budget']) for s in scat], **kw)
    gen.write_table(ctx.path('in.h5'), 'TrackCandidates', m)
    out = ctx.path('out.h5')
    with ctx.sut('fit_tracks'):
        ta.fit_tracks(ctx.path('t.yaml'), ctx.path('in.h5'), output_tracks_file=out, method='kalman', beam_energy=energy, particle_mass=mass, scattering_planes=splanes or None,
                      plot=False, chunk_size=cs, quality_distances=None, isolation_distances=None, full_track_info=True, **kw)
    with tb.open_file(out) as f:
        tabs = {nd._v_name: nd[:] for nd in f.root if isinstance(nd, tb.Table)}
    hits = np.stack([np.column_stack([m['%s_dut_%d' % (c, i)] for c in 'xy']) for i in range(n)] + [np.full((len(m), 2), np.nan)] * len(scat), axis=1)
    errs = np.stack([np.column_stack([m['%s_err_dut_%d' % (c, i)] for c in 'xy']).astype(float) if tel[i].intrinsic_resolution is None else np.tile(np.array(tel[i].intrinsic_resolution, float), (len(m), 1))
                     for i in range(n)] + [np.ones((len(m), 2))] * len(scat), axis=1)
    from scipy.stats import chi2 as chi2_dist
    ctx.expect(set(tabs) <= {'Tracks_DUT%d' % d for d in per} and set(k for k in tabs if k.startswith('Tracks')) <= {'Tracks_DUT%d' % d for d in per}, 'tables', 'tracks of sensors that are not selected', got=sorted(tabs), **det)
    double = []
    for d, s in per.items():
        fitted, stored = fitdata.select(m, s, 'kalman')
        t = tabs.get('Tracks_DUT%d' % d)
        dd = dict(dut=d, setting=s, **det)
        rows = np.flatnonzero(stored)
        if t is None:
            ctx.expect(not len(rows), 'missing-table', 'no tracks table, but there are %d tracks' % len(rows), **dd)
            continue
        ctx.expect(len(t) == len(rows) and np.array_equal(t['event_number'], m['event_number'][rows]), 'stored', 'stored tracks are wrong', stop=True, got=len(t), want=len(rows), **dd)
        if not len(rows):
            continue
        off, slo, _ = fitdata.lines(m, tel, s['fit'], rows)
        first = planes[order[0]]
        _, xy = gls.step(first, off, slo)
        l = slo @ first.R
        seed = np.column_stack([xy, l[:, :2] / l[:, 2:]])
        H, E = hits[rows], errs[rows]
        models = [gls.kalman(planes, H, E, s['fit'], energy, mass, seed), None, None]
        twice = False
        used = [None] * n
        for i in range(n):
            suf = '_dut_%d' % i
            got = np.column_stack([t['offset_%s%s' % (c, suf)] for c in 'xy'])
            gs = np.column_stack([t['slope_%s%s' % (c, suf)] / t['slope_z%s' % suf] for c in 'xy'])
            ctx.expect(np.all(t['offset_z%s' % suf] == 0), 'offset-z', 'state is not on the sensor', **dd)
            if i == d:
                ctx.expect(gen.same_array(got, np.column_stack([t['offset_x'], t['offset_y']])) and gen.same_array(gs, np.column_stack([t['slope_x'] / t['slope_z'], t['slope_y'] / t['slope_z']])),
                           'columns', 'state of the sensor differs between the columns of the table', **dd)

            def agree(k):
                if models[k] is None:
                    # without start covariance, or with the own hit counted twice
                    models[k] = gls.kalman(planes, H, E, s['fit'], energy, mass, seed, sigma=(1e9, 1e9, 1e3, 1e3)) if k == 1 else gls.kalman(planes, H, E, s['fit'], energy, mass, seed, own=2.)
                P, S, C = models[k]
                sig = np.sqrt(np.einsum('naa->na', C[:, i]))
                bad = ~(np.abs(got - P[:, i]) < 2e-2 * sig + 1e-3).all(axis=1) | ~(np.abs(gs - S[:, i]) < 3e-6).all(axis=1)
                return bad, P[:, i], S[:, i]
            bad, P, S = agree(0)
            k = 0
            if bad.any():
                if not agree(1)[0].any():
                    k = 1
                elif i in s['fit'] and i not in (order[0], order[-1]) and not agree(2)[0].any():
                    twice, k = True, 2
                else:
                    b = np.flatnonzero(bad)[0]
                    ctx.violate('state', 'track state is not the least-squares fit', at=i, row=int(rows[b]), got=np.r_[got[b], gs[b]], want=np.r_[P[b], S[b]], errors=E[b, i], number=int(bad.sum()), **dd)
                    return
            used[i] = k
            ctx.count(states=len(rows), **({'not_in_fit': len(rows)} if i not in s['fit'] else {'own_hit': len(rows)}))
        chi, k = np.zeros(len(rows)), np.zeros(len(rows), int)
        for i in s['fit']:
            P, S, C = models[used[i]]
            r = H[:, i] - P[:, i]
            has = np.isfinite(r).all(axis=1)
            V = np.zeros((len(rows), 2, 2))
            V[:, 0, 0], V[:, 1, 1] = E[:, i, 0] ** 2, E[:, i, 1] ** 2
            V[~has] = np.eye(2)
            C = np.where(has[:, None, None], C[:, i], 0)
            chi += np.where(has, np.einsum('na,nab,nb->n', np.where(has[:, None], r, 0), np.linalg.inv(V - C), np.where(has[:, None], r, 0)), 0)
            k += has
        got = t['track_chi2'].astype(float)
        # (V - C) is nearly singular when a hit alone determines the state
        bad = ~(np.abs(got - chi) <= 1e-2 + 3e-2 * chi)
        ctx.expect(bad.mean() < .1, 'chi2', 'chi2 does not belong to hits and states of the fit sensors', got=got[bad][:3], want=chi[bad][:3], **dd)
        ndof = 2 * k - 4
        ctx.expect(np.all(np.isfinite(got)) and np.all(got >= 0), 'chi2-range', 'chi2 is negative or not a number', got=got, **dd)
        ctx.expect(np.allclose(t['track_chi_red'], got / ndof, rtol=1e-5, atol=1e-6), 'chi2-red', 'reduced chi2 is not chi2 per degree of freedom', got=t['track_chi_red'][:3], chi2=got[:3], ndof=ndof[:3], **dd)
        if 'track_chi_prob' in t.dtype.names:
            ctx.expect(np.allclose(t['track_chi_prob'], chi2_dist.sf(got, ndof), rtol=1e-3, atol=1e-5), 'chi2-prob', 'probability does not belong to the chi2', got=t['track_chi_prob'][:3], want=chi2_dist.sf(got, ndof)[:3], **dd)
        miss = int((~np.isfinite(H[:, s['fit'], 0])).sum())
        ctx.ok(tracks=len(rows), missing_hits=miss, chi2_differs=int(bad.sum()))
        double += [d] if twice else []
        if miss:
            ctx.interesting(n, len(rows), energy, d)
    ctx.count(chunked=cs < len(m), scattering_planes=bool(scat), intrinsic_resolution=bool(nres), sensor_order=list(order) != list(range(len(planes))))
    ctx.sample = dict(det, stored={k: len(v) for k, v in tabs.items()})
    if double:
        ctx.violate('own-hit-twice', 'the hit of a fit sensor between the first and the last plane is counted twice in the state at this sensor', duts=double, **det)
