"""Residual histograms, recomputed from the track table."""
import os

import numpy as np
import tables as tb

from bta import gen

ID = 'C17'
RULE = 'a case is one track table, one choice of binning, limits and chunk size; non-trivial when tracks are excluded by limits and tracks have no hit or no valid fit'
MIN = {'residuals': 20000, 'no_hit': 2000, 'no_fit': 500, 'outside_limits': 2000, 'several_chunks': 30, 'auto_binning': 15, 'fixed_binning': 15, 'position_binning': 15, 'maps': 40, 'occupancy_maps': 40, 'means': 40}


def cases(seed, tier):
    return [dict(seed=seed * 7919 + i) for i in range(110 if tier == 'quick' else 4000)]


SENSORS = [(50., 50., 80, 60), (250., 50., 20, 60), (18.4, 18.4, 120, 90), (50., 250., 60, 20), (100., 150., 40, 30)]


def run(case, ctx):
    from beam_telescope_analysis import result_analysis as ra
    from beam_telescope_analysis.tools import analysis_utils, plot_utils
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    specs = []
    for i in range(n):
        cs, rs, nc, nr = SENSORS[int(rng.integers(len(SENSORS)))]
        specs.append(dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr))
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
    for d in tel:
        if rng.random() < .7:
            w, h = d.column_size * d.n_columns, d.row_size * d.n_rows
            lim = lambda s: (float(-rng.uniform(.2, .5) * s) if rng.random() < .8 else -np.inf, float(rng.uniform(.2, .5) * s) if rng.random() < .8 else np.inf)
            d.x_limit, d.y_limit = lim(w), lim(h)
            if rng.random() < .3:
                d.x_limit = None
    tel.save_configuration(ctx.path('t.yaml'))
    ev = np.repeat(gen.event_numbers(rng, int(rng.choice([300, 900, 2500]))), 1)
    ev = np.repeat(ev, rng.integers(1, 1 + int(rng.choice([1, 3])), len(ev)))
    duts = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    if rng.random() < .3:
        duts = duts[::-1]
    tabs = {}
    with tb.open_file(ctx.path('tracks.h5'), 'w') as f:
        for d in duts:
            t = gen.random_tracks(rng, ev, n)
            k = len(t)
            s = tel[d]
            w, h = s.column_size * s.n_columns, s.row_size * s.n_rows
            t['offset_x'], t['offset_y'] = rng.uniform(-.55 * w, .55 * w, k), rng.uniform(-.55 * h, .55 * h, k)
            far = rng.random() < .35     # shifted by much more than the width
            sh = rng.choice([-1, 1], 2) * .1 * min(w, h) if far else rng.normal(0, 10, 2)
            kind = rng.integers(2 if far else 3)
            rx, ry = [(rng.normal(0, 8, k), rng.normal(0, 8, k)), (rng.uniform(-.5, .5, k) * s.column_size, rng.uniform(-.5, .5, k) * s.row_size), (rng.normal(0, 20, k), rng.standard_cauchy(k) * 5)][int(kind)]
            tilt = rng.normal(0, 2e-3, 2)
            hit = rng.random(k) < rng.choice([.5, .9, 1.])
            x, y = t['offset_x'] + rx + sh[0] + tilt[0] * t['offset_y'], t['offset_y'] + ry + sh[1] + tilt[1] * t['offset_x']
            if rng.random() < .3:       # hits exactly on a limit
                if s.x_limit is not None and np.isfinite(s.x_limit[1]):
                    x[::17] = s.x_limit[1]
                if s.y_limit is not None and np.isfinite(s.y_limit[0]):
                    y[::19] = s.y_limit[0]
            t['x_dut_%d' % d], t['y_dut_%d' % d], t['z_dut_%d' % d] = [np.where(hit, v, np.nan) for v in (x, y, np.zeros(k))]
            bad = rng.random(k) < .05
            t['track_chi2'] = np.where(bad, np.nan, np.abs(t['track_chi2']))
            tabs[d] = t
            gen_table(f, 'Tracks_DUT%d' % d, t)
    top = gen.max_per_event(tabs[duts[0]])
    # the first chunk defines the range of the histograms
    cs = int(rng.choice([10 ** 6, len(ev) // 2 + top + 1, max(150, top + 1), len(ev), max(len(ev) // 5, 120)]))
    nbins = None if rng.random() < .4 else int(rng.integers(1, 21))
    npix = None if rng.random() < .5 else int(rng.integers(1, 6))
    use_limits = bool(rng.random() < .7)
    det = dict(n=n, rows=len(ev), chunk_size=cs, nbins_per_pixel=nbins, npixels_per_bin=npix, use_limits=use_limits, duts=duts)
    out = ctx.path('res.h5')
    seen = []
    keep = analysis_utils.fit_residuals_vs_position, plot_utils.plot_2d_map

    def watch_fit(*a, **k):
        if not a:
            seen.append(('fit', {q: np.array(v, copy=True) for q, v in k.items() if q in ('hist', 'xedges', 'yedges', 'mean', 'count')}))
        return keep[0](*a, **k)

    def watch_map(*a, **k):
        if 'hist2d' in k and 'title' in k:
            seen.append(('map', k['title'], np.ma.filled(np.ma.array(k['hist2d'], dtype=float), 0.)))
        return keep[1](*a, **k)
    analysis_utils.fit_residuals_vs_position, plot_utils.plot_2d_map = watch_fit, watch_map
    try:
        with ctx.sut('calculate_residuals'):
            r = ra.calculate_residuals(ctx.path('t.yaml'), ctx.path('tracks.h5'), select_duts=duts, output_residuals_file=out, nbins_per_pixel=nbins, npixels_per_bin=npix, use_limits=use_limits, plot=False, chunk_size=cs)
    finally:
        analysis_utils.fit_residuals_vs_position, plot_utils.plot_2d_map = keep
    ctx.expect(r == out, 'return', 'returned file name is wrong', got=r)
    H, A = {}, {}
    with tb.open_file(out) as f:
        for nd in f.walk_nodes('/', 'Array'):
            H[nd._v_name] = nd[:]
            A[nd._v_name] = {k: np.array(nd.attrs[k]) for k in ('xedges', 'yedges') if k in nd.attrs}
    want = {k % d for d in duts for k in ('local_x_residuals_DUT%d', 'local_y_residuals_DUT%d', 'local_x_residuals_x_pos_DUT%d', 'local_y_residuals_y_pos_DUT%d', 'local_y_residuals_x_pos_DUT%d', 'local_x_residuals_y_pos_DUT%d')}
    ctx.expect(want <= set(H), 'arrays', 'histograms are missing', missing=sorted(want - set(H)), **det)
    fits = [s[1] for s in seen if s[0] == 'fit']
    for d in duts:
        t, s = tabs[d], tel[d]
        dd = dict(dut=d, x_limit=s.x_limit, y_limit=s.y_limit, **det)
        x, y = t['x_dut_%d' % d], t['y_dut_%d' % d]
        sel = np.isfinite(x) & np.isfinite(t['track_chi2'])
        inx, iny = np.ones(len(t), bool), np.ones(len(t), bool)
        if use_limits:
            if s.x_limit is not None:
                inx = (x >= s.x_limit[0]) & (x <= s.x_limit[1])
            if s.y_limit is not None:
                iny = (y >= s.y_limit[0]) & (y <= s.y_limit[1])
        res = {'x': x - t['offset_x'], 'y': y - t['offset_y']}
        for c, size in (('x', s.column_size), ('y', s.row_size)):
            name = 'local_%s_residuals_DUT%d' % (c, d)
            e = A[name]['%sedges' % c]
            good = sel & inx & iny
            r = res[c][good]
            ctx.expect(e.ndim == 1 and len(e) == len(H[name]) + 1 and np.all(np.diff(e) > 0), 'edges', 'edges do not belong to the histogram', name=name, edges=len(e), bins=len(H[name]), **dd)
            ctx.expect(gen.hist_ok(H[name], [r], [e]), 'counts', 'histogram does not count the residuals in its bins', name=name, got=H[name].sum(), want=((r >= e[0]) & (r <= e[-1])).sum(), **dd)
            if nbins is not None:
                ctx.expect(np.allclose(np.diff(e), size / nbins, rtol=1e-6), 'bin-width', 'bin width is not pixel size over bins per pixel', name=name, got=np.diff(e)[:2], want=size / nbins, **dd)
            ctx.expect(np.allclose(np.diff(e), e[1] - e[0], rtol=1e-6), 'bin-width', 'bins have different width', name=name, **dd)
            if len(r) > 100 and len(r) >= .2 * len(t):
                mid = np.median(r)
                ctx.expect(e[0] < mid < e[-1], 'range', 'histogram does not cover the residuals', name=name, edges=[e[0], e[-1]], median=mid, **dd)
            ctx.ok(residuals=len(r))
        for c in 'xy':
            for p in 'xy':
                name = 'local_%s_residuals_%s_pos_DUT%d' % (c, p, d)
                pe, re = A[name]['xedges'], A[name]['yedges']
                good = sel & (iny if p == 'x' else inx)
                pos = t['offset_%s' % p][good]
                ctx.expect(H[name].shape == (len(pe) - 1, len(re) - 1) and np.all(np.diff(pe) > 0), 'edges-2d', 'edges do not belong to the histogram', name=name, **dd)
                ctx.expect(np.array_equal(re, A['local_%s_residuals_DUT%d' % (c, d)]['%sedges' % c]), 'edges-2d', 'residual edges differ between the histograms', name=name, **dd)
                ctx.expect(gen.hist_ok(H[name], [pos, res[c][good]], [pe, re]), 'counts-2d', 'histogram does not count the residuals against position', name=name, got=H[name].sum(), want=len(pos), **dd)
                if npix is not None:
                    ctx.expect(np.allclose(np.diff(pe), npix * (s.column_size if p == 'x' else s.row_size), rtol=1e-6), 'bin-width', 'width of the position bins is wrong', name=name, got=np.diff(pe)[:2], **dd)
                ctx.ok(pos=0)
                # mean residual per position handed to the line fit
                for q in fits:
                    if set(q) == {'hist', 'xedges', 'yedges', 'mean', 'count'} and np.array_equal(q['hist'], H[name]) and np.array_equal(q['xedges'], pe) and np.array_equal(q['yedges'], re):
                        lo, hi, amb = gen.hist_bounds([pos], [pe])
                        ctx.expect(q['count'].shape == lo.shape and np.all(q['count'] >= lo) and np.all(q['count'] <= hi), 'mean-count', 'number of tracks per position bin is wrong', name=name, **dd)
                        if not amb:
                            b = np.searchsorted(pe, pos, 'right') - 1
                            ok = (b >= 0) & (b < len(lo))
                            m = np.bincount(b[ok], res[c][good][ok], len(lo)) / np.maximum(lo, 1)
                            bad = (lo > 0) & ~(np.abs(q['mean'] - m) < 1e-6 * (1 + np.abs(m)))
                            ctx.expect(not bad.any(), 'mean', 'mean residual per position bin is wrong', name=name, got=q['mean'][bad][:3], want=m[bad][:3], **dd)
                        ctx.count(means=1)
                        break
        # maps of hits and mean residuals
        X, Y = np.linspace(*s.x_extent(), s.n_columns + 1), np.linspace(*s.y_extent(), s.n_rows + 1)
        maps = [q for q in seen if q[0] == 'map' and q[1].endswith(s.name)]
        lo, hi, amb = gen.hist_bounds([t['offset_x'][sel], t['offset_y'][sel]], [X, Y])
        for _, title, h in maps:
            if h.T.shape != lo.shape:
                continue
            if title.lower().startswith('2d occ'):
                ctx.expect(np.all(h.T >= lo) and np.all(h.T <= hi), 'map', 'map of track intersections is wrong', title=title, **dd)
                ctx.count(occupancy_maps=1)
            elif title.startswith('2D average residuals') and not amb:
                bx, by = np.searchsorted(X, t['offset_x'][sel], 'right') - 1, np.searchsorted(Y, t['offset_y'][sel], 'right') - 1
                ok = (bx >= 0) & (bx < s.n_columns) & (by >= 0) & (by < s.n_rows)
                v = np.zeros(lo.shape)
                np.add.at(v, (bx[ok], by[ok]), np.hypot(res['x'], res['y'])[sel][ok])
                v = v / np.maximum(lo, 1)
                ctx.expect(np.allclose(h.T, v, rtol=1e-6, atol=1e-6), 'map', 'map of average residuals is wrong', title=title, **dd)
                ctx.count(maps=1)
        ctx.count(no_hit=int((~np.isfinite(x)).sum()), no_fit=int((~np.isfinite(t['track_chi2'])).sum()), outside_limits=int((sel & ~(inx & iny)).sum()))
        if (sel & ~(inx & iny)).any() and (~sel).any():
            ctx.interesting(d, len(t), nbins, npix, cs)
    ctx.count(several_chunks=cs < len(ev), auto_binning=nbins is None, fixed_binning=nbins is not None, position_binning=npix is not None)
    ctx.sample = dict(det, sums={k: int(v.sum()) for k, v in H.items()})


def gen_table(f, name, arr):
    t = f.create_table(f.root, name, description=arr.dtype, title=name)
    t.append(arr)
    t.flush()
