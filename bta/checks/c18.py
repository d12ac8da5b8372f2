"""Efficiency maps, pixel and region efficiencies, recomputed track by track."""
import math

import numpy as np
import tables as tb

from bta import gen

ID = 'C18'
RULE = 'a case is one track table with binning, cut distances, regions, masks and chunk size (or one set of counts for the error interval); non-trivial when hits fail the cut, tracks miss the sensor or pixels are masked'
MIN = {'tracks': 30000, 'valid': 12000, 'no_hit': 4000, 'cut': 1500, 'outside_map': 500, 'masked': 1000, 'several_chunks': 30, 'regions': 40, 'in_region': 4000, 'cluster_hits': 4000, 'ellipse': 30, 'square': 30,
       'low_density': 500, 'extended': 20, 'intervals': 8, 'first_chunk_empty': 3}

SENSORS = [(50., 50., 24, 18), (250., 50., 8, 30), (18.4, 18.4, 30, 24), (50., 250., 24, 8), (100., 150., 15, 9), (33.125, 30., 17, 21)]
SHAPES = [1, 3, 5, 13, 14, 7, 11, 15]


def cases(seed, tier):
    n = 130 if tier == 'quick' else 4000
    return [dict(kind='interval', seed=seed * 7919 + i, first=i) for i in range(10 if tier == 'quick' else 100)] + [dict(kind='table', seed=seed * 7919 + i) for i in range(n)]


def warm():
    from beam_telescope_analysis import result_analysis


def interval(case, ctx):
    from scipy import stats
    from beam_telescope_analysis.tools import analysis_utils
    rng = ctx.rng
    shape = tuple(int(i) for i in rng.integers(1, 9, 2))
    total = rng.integers(0, int(rng.choice([3, 20, 300])), shape).astype(float)
    total.flat[0] += 2
    p = float(rng.choice([0, .3, .9, .995, 1.]))
    passed = rng.binomial(total.astype(int), p).astype(float)
    k, n = passed.sum(), total.sum()
    with ctx.sut('get_mean_efficiency'):
        level = float(rng.choice([.68, .68, .5, .9, .95]))
        if level == .68:
            eff, lo, hi = analysis_utils.get_mean_efficiency(passed, total)
        else:
            eff, lo, hi = analysis_utils.get_mean_efficiency(passed, total, interval=level)
    det = dict(passed=k, total=n, got=[eff, lo, hi])
    ctx.expect(abs(eff - k / n) < 1e-12, 'mean', 'mean efficiency is not passed over total', **det)
    ctx.expect(lo <= 1e-9 and hi >= -1e-9 and eff + lo >= -1e-9 and eff + hi <= 1 + 1e-9, 'interval', 'interval does not contain the efficiency, or leaves [0, 1]', **det)
    b = stats.beta(k + 1, n - k + 1)
    ctx.expect(abs(b.cdf(eff + hi) - b.cdf(eff + lo) - level) < .01, 'interval', 'interval does not hold the requested probability', level=level, prob=b.cdf(eff + hi) - b.cdf(eff + lo), **det)
    if 0 < k < n:
        a, c, m = b.pdf(eff + lo), b.pdf(eff + hi), b.pdf(k / n)
        ctx.expect(abs(a - c) < .05 * m or eff + hi > 1 - 1e-6 or eff + lo < 1e-6, 'interval', 'interval is not the shortest one', pdf=[a, c, m], **det)
    ctx.ok(intervals=1)
    ctx.interesting('interval', int(k), int(n))


def mean_map(values, pos, edges, counts):
    i = [np.searchsorted(e, p, 'right') - 1 for e, p in zip(edges, pos)]
    ok = np.ones(len(values), bool)
    for a, e in zip(i, edges):
        ok &= (a >= 0) & (a < len(e) - 1)
    s = np.zeros(counts.shape)
    np.add.at(s, tuple(a[ok] for a in i), values[ok])
    return s / np.maximum(counts, 1)


def run(case, ctx):
    if case['kind'] == 'interval':
        return interval(case, ctx)
    from beam_telescope_analysis import result_analysis as ra
    from beam_telescope_analysis.tools import analysis_utils, plot_utils
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    specs = []
    for i in range(n):
        cs, rs, nc, nr = SENSORS[int(rng.integers(len(SENSORS)))]
        specs.append(dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr))
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
    ev = gen.event_numbers(rng, int(rng.choice([60, 400, 1500])))
    ev = np.repeat(ev, rng.integers(1, 1 + int(rng.choice([1, 3])), len(ev)))
    duts = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    if rng.random() < .3:
        duts = duts[::-1]
    tabs, par, clus = {}, {}, {}
    off = dict(local_offset_x=float(rng.normal(0, 30)), local_offset_y=float(rng.normal(0, 30))) if rng.random() < .2 else {}
    first_empty = rng.random() < .15
    k = len(ev)
    with tb.open_file(ctx.path('tracks.h5'), 'w') as f:
        for d in duts:
            s = tel[d]
            t = gen.random_tracks(rng, ev, n)
            w, h = s.column_size * s.n_columns, s.row_size * s.n_rows
            t['offset_x'], t['offset_y'] = rng.uniform(-.56 * w, .56 * w, k), rng.uniform(-.56 * h, .56 * h, k)
            t['slope_x'], t['slope_y'], t['slope_z'] = rng.normal(rng.normal(0, .1), .01, k), rng.normal(0, .02, k), 1.      # the track fit stores directions along the beam
            x, y = t['offset_x'] + rng.normal(0, .7 * s.column_size, k), t['offset_y'] + rng.normal(0, .7 * s.row_size, k)
            far = rng.random(k) < .1
            x[far] += rng.normal(0, 4 * s.column_size, far.sum())
            hit = rng.random(k) < rng.choice([.5, .9, 1.])
            if first_empty:
                hit[:k // 4] = False
            hit[-8:] = True          # a sensor or region without any hit has no efficiency
            x[-8:], y[-8:], t['offset_x'][-8:], t['offset_y'][-8:] = .2, .3, .1 - off.get('local_offset_x', 0), .1 - off.get('local_offset_y', 0)
            for c, v in (('x', x), ('y', y), ('z', np.zeros(k))):
                t['%s_dut_%d' % (c, d)] = np.where(hit, v, np.nan)
            t['charge_dut_%d' % d] = np.where(hit, rng.integers(0, 60, k) / 2., np.nan)
            t['frame_dut_%d' % d] = np.where(hit, rng.integers(0, 6, k), 0)
            t['n_hits_dut_%d' % d] = np.where(hit, rng.integers(1, 6, k), 0)
            t['cluster_shape_dut_%d' % d] = np.where(hit, rng.choice(SHAPES + [0, 2, 6, 9, 4369, 65534], k), 0)
            # an identity for every hit of an event
            first = np.r_[True, ev[1:] != ev[:-1]]
            start = np.maximum.accumulate(np.where(first, np.arange(k), 0))
            t['cluster_ID_dut_%d' % d] = np.where(hit, np.arange(k) - start, -1)
            tabs[d] = t
            nd = f.create_table(f.root, 'Tracks_DUT%d' % d, description=t.dtype)
            nd.append(t)
            p = par[d] = {}
            r = rng.choice(3)
            p['resolutions'] = None if r == 0 else (float(s.column_size / rng.choice([1, 2, 3])), float(s.row_size / rng.choice([1, 2]))) if r == 1 else (float(rng.uniform(.3, 3) * s.column_size), float(rng.uniform(.3, 3) * s.row_size))
            p['extend_areas'] = None if rng.random() < .6 else (float(rng.uniform(0, 3) * s.column_size), float(rng.uniform(0, 3) * s.row_size))
            p['cut_distances'] = [None, (float(rng.uniform(.5, 2) * s.column_size), float(rng.uniform(.5, 4) * s.row_size)), (float(rng.uniform(2.5, 4) * s.column_size), float(rng.uniform(2.5, 4) * s.row_size))][int(rng.choice(3, p=[.1, .45, .45]))]
            p['disabled_pixel_masks'] = None if rng.random() < .6 else rng.random((s.n_columns, s.n_rows)) < .2
            if p['disabled_pixel_masks'] is not None:
                p['disabled_pixel_masks'][s.n_columns // 2 - 1:s.n_columns // 2 + 1, s.n_rows // 2 - 1:s.n_rows // 2 + 1] = False
            p['efficiency_regions'] = None
            if rng.random() < .5:
                p['efficiency_regions'] = []
                for _ in range(int(rng.integers(1, 3))):
                    a, b = rng.uniform(.01, .55, (2, 2)) * [-1, 1] * [[w], [h]] if rng.random() < .9 else rng.uniform(.3, 2, (2, 2)) * [-1, 1] * [[s.column_size], [s.row_size]]
                    if rng.random() < .3:
                        a = a[::-1]
                    if rng.random() < .3:
                        b = b[::-1]
                    p['efficiency_regions'].append((tuple(map(float, a)), tuple(map(float, b))))
            p['in_pixel_resolutions'] = None if rng.random() < .5 else (float(s.column_size / rng.integers(1, 8)), float(s.row_size / rng.integers(1, 8)))
            p['input_cluster_files'] = None
            if rng.random() < .5:
                rows = np.flatnonzero(hit)
                m = np.zeros(int(t['n_hits_dut_%d' % d][rows].sum()), gen.CLUSTER_HIT)
                i = np.repeat(rows, t['n_hits_dut_%d' % d][rows])
                m['event_number'], m['cluster_ID'] = ev[i], t['cluster_ID_dut_%d' % d][i]
                m['column'] = np.clip(np.floor((x[i] + w / 2) / s.column_size) + 1 + rng.integers(-1, 2, len(i)), 1, s.n_columns)
                m['row'] = np.clip(np.floor((y[i] + h / 2) / s.row_size) + 1 + rng.integers(-1, 2, len(i)), 1, s.n_rows)
                m['is_seed'] = 1
                o = rng.permutation(len(m))
                m = m[o][np.argsort(m['event_number'][o], kind='stable')]
                clus[d] = m
                p['input_cluster_files'] = ctx.path('clus%d.h5' % d)
                gen.write_table(p['input_cluster_files'], 'ClusterHits', m)
    top = gen.max_per_event(tabs[duts[0]])
    top = max([top] + [gen.max_per_event(m) for m in clus.values()])
    cs = int(rng.choice([10 ** 6, k // 2 + top + 1, max(k // 8, top + 5), k, max(k // 5, top + 1)]))
    density = int(rng.choice([1, 1, 2, 5]))
    nang = int(rng.choice([100, 17]))
    kw = {q: [par[d][q] for d in duts] for q in ('resolutions', 'extend_areas', 'cut_distances', 'disabled_pixel_masks', 'efficiency_regions', 'in_pixel_resolutions', 'input_cluster_files')}
    det = dict(n=n, rows=k, chunk_size=cs, minimum_track_density=density, duts=duts, **off)
    out = ctx.path('eff.h5')
    seen = {}
    keep = plot_utils.efficiency_plots, analysis_utils.get_mean_efficiency

    def watch(*a, **q):
        seen[q['actual_dut_index']] = {z: q[z] for z in ('efficiency', 'efficiency_chunks', 'stat_2d_efficiency_hist', 'stat_pixel_efficiency_hist')}

    def quick(array_pass, array_total, interval=.68):
        return array_pass.sum() / max(array_total.sum(), 1), 0., 0.
    plot_utils.efficiency_plots, analysis_utils.get_mean_efficiency = watch, quick
    try:
        # a region without any track has no efficiency at all
        with ctx.sut('calculate_efficiency'):
            ra.calculate_efficiency(ctx.path('t.yaml'), ctx.path('tracks.h5'), select_duts=duts, output_efficiency_file=out, minimum_track_density=density, n_bins_track_angle=nang, plot=False, chunk_size=cs, **dict(kw, **off))
    finally:
        plot_utils.efficiency_plots, analysis_utils.get_mean_efficiency = keep
    chunked = cs < k
    f = tb.open_file(out)
    try:
        for d in duts:
            one(ctx, d, tabs[d], tel[d], par[d], clus.get(d), f, seen.get(d, {}), density, nang, off, chunked, det)
    finally:
        f.close()
    ctx.count(several_chunks=chunked, first_chunk_empty=first_empty and cs < k // 4)
    ctx.sample = det


def one(ctx, d, t, s, p, clusters, f, seen, density, nang, off, chunked, det):
    g = f.get_node('/DUT%d' % d)
    R = {nd._v_name: nd[:] for nd in g._f_iter_nodes('Array')}
    dd = dict(dut=d, sensor=[s.column_size, s.row_size, s.n_columns, s.n_rows], resolution=p['resolutions'], cut=p['cut_distances'], extend=p['extend_areas'], mask=p['disabled_pixel_masks'] is not None, **det)
    w, h = s.column_size * s.n_columns, s.row_size * s.n_rows
    ix, iy = t['offset_x'] + off.get('local_offset_x', 0), t['offset_y'] + off.get('local_offset_y', 0)
    hx, hy = t['x_dut_%d' % d], t['y_dut_%d' % d]
    col, row = np.floor((ix + w / 2) / s.column_size).astype(int), np.floor((iy + h / 2) / s.row_size).astype(int)
    on = (col >= 0) & (col < s.n_columns) & (row >= 0) & (row < s.n_rows)
    sel = np.ones(len(t), bool)
    if p['disabled_pixel_masks'] is not None:
        sel = on.copy()
        sel[on] = ~p['disabled_pixel_masks'][col[on], row[on]]
    rx, ry = hx - ix, hy - iy
    has = np.isfinite(hx) & np.isfinite(hy)
    cut = p['cut_distances']
    with np.errstate(invalid='ignore'):
        if cut is None:
            ok = has
        elif cut[0] >= 2.5 * s.column_size and cut[1] >= 2.5 * s.row_size:
            ok = has & ((rx / cut[0]) ** 2 + (ry / cut[1]) ** 2 <= 1)
            ctx.count(ellipse=1)
        else:
            ok = has & (np.abs(rx) <= cut[0]) & (np.abs(ry) <= cut[1])
            ctx.count(square=1)
    ok &= sel
    # binning
    X, Y = R['hist_2d_x_edges'], R['hist_2d_y_edges']
    res = p['resolutions'] or (s.column_size, s.row_size)
    for e, r, size, ext, c in ((X, res[0], w, (p['extend_areas'] or (0, 0))[0], 'x'), (Y, res[1], h, (p['extend_areas'] or (0, 0))[1], 'y')):
        ctx.expect(np.allclose(np.diff(e), r, rtol=1e-6), 'edges', 'bin width is not the resolution', axis=c, got=np.diff(e)[:2], want=r, **dd)
        lo, hi = size + 2 * ext, size + 2 * ext + r + 2 * r * (ext > 0)
        ctx.expect(abs(e[0] + e[-1]) < 1e-6 * size and lo - 1e-6 * size <= e[-1] - e[0] <= hi + 1e-6 * size, 'edges', 'map does not cover the sensor', axis=c, got=[e[0], e[-1]], want=[lo, hi], **dd)
    E = [X, Y]
    vx, vy = ix[ok], iy[ok]
    total, passed = R['count_tracks_2d_hist'], R['count_tracks_with_hit_2d_hist']
    ctx.expect(gen.hist_ok(total, [ix[sel], iy[sel]], E), 'tracks', 'tracks are not counted once in the bin of their intersection', got=total.sum(), want=sel.sum(), **dd)
    ctx.expect(gen.hist_ok(passed, [vx, vy], E), 'detected', 'tracks with a hit within the cut distance are not counted as detected', got=passed.sum(), want=ok.sum(), **dd)
    ctx.expect(gen.hist_ok(R['count_hits_2d_hist'], [hx[ok], hy[ok]], E), 'hits', 'map of hits is wrong', **dd)
    ctx.expect(np.all(passed <= total), 'bounds', 'more detected than all tracks in a bin', **dd)
    eff = R['stat_2d_efficiency_hist'] / 100
    used = total > 0
    ctx.expect(np.allclose(eff[used], passed[used] / total[used]), 'efficiency', 'efficiency of a bin is not detected over total', **dd)
    ctx.expect(np.array_equal(R['stat_2d_efficiency_hist_mask'], total < density), 'density', 'bins with too few tracks are not those excluded', got=R['stat_2d_efficiency_hist_mask'].sum(), want=(total < density).sum(), **dd)
    ctx.expect(np.all((eff[used] >= 0) & (eff[used] <= 1)), 'bounds', 'efficiency is not between 0 and 1', **dd)
    # pixels
    pt, pp = np.zeros((s.n_columns, s.n_rows), int), np.zeros((s.n_columns, s.n_rows), int)
    np.add.at(pt, (col[sel & on], row[sel & on]), 1)
    np.add.at(pp, (col[ok & on], row[ok & on]), 1)
    pe = R['stat_pixel_efficiency_hist'] / 100
    pe = pe.reshape(s.n_columns, s.n_rows)
    u = pt > 0
    ctx.expect(np.allclose(pe[u], pp[u] / pt[u]), 'pixel', 'efficiency of a pixel is not detected over total', bad=int((~np.isclose(pe[u], pp[u] / pt[u])).sum()), pixels=int(u.sum()), **dd)
    if seen:
        m = np.ma.getmaskarray(seen['stat_pixel_efficiency_hist']).reshape(pt.shape)
        ctx.expect(np.array_equal(m, pt < density), 'density', 'pixels with too few tracks are not those excluded', **dd)
        ctx.expect(abs(seen['efficiency'][0] - passed.sum() / total.sum()) < 1e-9, 'mean', 'mean efficiency is wrong', got=seen['efficiency'], **dd)
        ec = seen['efficiency_chunks']
        ctx.expect(len(ec) >= 1 and all(0 <= float(e) <= 1 for e in ec), 'chunks', 'efficiencies of the chunks are not between 0 and 1', got=ec[:5], **dd)
    # means
    angles = track_angles(t)
    lo, hi, amb = gen.hist_bounds([vx, vy], E)
    vals = {'x_residuals': rx, 'y_residuals': ry, 'residuals': np.hypot(rx, ry), 'charge': t['charge_dut_%d' % d], 'frame': t['frame_dut_%d' % d], 'cluster_size': t['n_hits_dut_%d' % d],
            'total_angle': angles[0], 'alpha_angle': angles[1], 'beta_angle': angles[2]}
    if not amb:
        for q, v in vals.items():
            want = mean_map(v[ok].astype(float), [vx, vy], E, lo)
            got = R['stat_2d_%s_hist' % q]
            scale = 1e-6 * (np.abs(want).max() + 1e-3)
            bad = (lo > 0) & ~(np.abs(got - want) < scale)
            ctx.expect(not bad.any(), 'means', 'mean of %s per bin is wrong' % q, got=got[bad][:3], want=want[bad][:3], counts=lo[bad][:3], **dd)
    for q, v in (('charge', t['charge_dut_%d' % d][ok].astype(int)), ('frame', t['frame_dut_%d' % d][ok])):
        b = np.bincount(v)
        ctx.expect(np.array_equal(np.trim_zeros(R['count_1d_%s_hist' % q], 'b'), np.trim_zeros(b, 'b')), '1d', 'distribution of %s is wrong' % q, **dd)
    for q, v in zip(('total', 'alpha', 'beta'), angles):
        e = R['count_1d_%s_angle_hist_edges' % q]
        ctx.expect(len(e) == nang + 1 and gen.hist_ok(R['count_1d_%s_angle_hist' % q], [v[ok]], [e]), 'angles', 'distribution of the %s angle is wrong' % q, **dd)
    # relative position of the hit pixels
    if clusters is not None:
        H = R['count_pixel_hits_2d_hist']
        sx, sy = H.shape[2], H.shape[3]
        want = np.zeros(H.shape, int)
        bx, by = np.searchsorted(X, ix, 'right') - 1, np.searchsorted(Y, iy, 'right') - 1
        inside = ok & (bx >= 0) & (bx < len(X) - 1) & (by >= 0) & (by < len(Y) - 1)
        key = {(int(t['event_number'][i]), int(t['cluster_ID_dut_%d' % d][i])): i for i in np.flatnonzero(inside)}
        tie = False
        n = 0
        cx, cy = (X[1:] + X[:-1]) / 2, (Y[1:] + Y[:-1]) / 2
        def nearest(c, size, n):
            u = (c + size * n / 2) / size
            return np.clip(np.floor(u), 0, n - 1).astype(int), bool(np.any(np.abs(u - np.round(u)) < 1e-6))
        (px, t1), (py, t2) = nearest(cx, s.column_size, s.n_columns), nearest(cy, s.row_size, s.n_rows)
        tie = t1 or t2
        for c in clusters:
            i = key.get((int(c['event_number']), int(c['cluster_ID'])))
            if i is None:
                continue
            a, b = int(c['column']) - 1 - px[bx[i]] + sx // 2, int(c['row']) - 1 - py[by[i]] + sy // 2
            n += 1
            if 0 <= a < sx and 0 <= b < sy:
                want[bx[i], by[i], a, b] += 1
        if not tie and not amb:
            ctx.expect(np.array_equal(H, want), 'pixel-hits', 'hit pixels around the track are not counted once at their relative position', got=int(H.sum()), want=int(want.sum()), **dd)
            ctx.count(cluster_hits=n)
    # regions
    for r, reg in enumerate(p['efficiency_regions'] or []):
        G = f.get_node('/DUT%d/Region_%d' % (d, r))
        Q = {nd._v_name: nd[:] for nd in G._f_iter_nodes('Array')}
        inr = sel & (ix > min(reg[0])) & (ix < max(reg[0])) & (iy > min(reg[1])) & (iy < max(reg[1]))
        okr = inr & ok
        got = G._v_attrs.efficiency_regions_efficiencies
        dr = dict(region=reg, tracks=int(inr.sum()), detected=int(okr.sum()), **dd)
        if not inr.any():
            continue
        ctx.expect(abs(got - okr.sum() / inr.sum()) < 1e-9, 'region', 'efficiency of the region is not the ratio of its tracks', got=got, want=okr.sum() / inr.sum(), **dr)
        for q, v in (('charge', t['charge_dut_%d' % d][okr].astype(int)), ('frame', t['frame_dut_%d' % d][okr]), ('cluster_size', t['n_hits_dut_%d' % d][okr])):
            ctx.expect(np.array_equal(np.trim_zeros(Q['efficiency_regions_count_1d_%s_hist' % q], 'b'), np.trim_zeros(np.bincount(v), 'b')), 'region-1d', 'distribution of %s in the region is wrong' % q, **dr)
        b = np.bincount(t['cluster_shape_dut_%d' % d][okr].astype(int), minlength=2 ** 16)[:2 ** 16 - 1]
        ctx.expect(np.array_equal(Q['efficiency_regions_count_1d_cluster_shape_hist'][:-1], b[:-1]), 'region-1d', 'distribution of cluster shapes in the region is wrong', **dr)
        for q, v in zip(('total', 'alpha', 'beta'), angles):
            e = Q['efficiency_regions_count_1d_%s_angle_hist_edges' % q]
            ctx.expect(gen.hist_ok(Q['efficiency_regions_count_1d_%s_angle_hist' % q], [v[okr]], [e]), 'angles', 'distribution of the %s angle in the region is wrong' % q, **dr)
        pt, pp = np.zeros((s.n_columns, s.n_rows), int), np.zeros((s.n_columns, s.n_rows), int)
        np.add.at(pt, (col[inr & on], row[inr & on]), 1)
        np.add.at(pp, (col[okr & on], row[okr & on]), 1)
        u = pt > 0
        pe = Q['efficiency_regions_stat_pixel_efficiency_hist'] / 100
        pe = pe.reshape(pt.shape)
        ctx.expect(np.allclose(pe[u], pp[u] / pt[u]), 'region-pixel', 'efficiency of a pixel in the region is wrong', **dr)
        # position inside the pixel
        tot, pas = Q['count_in_pixel_tracks_2d_hists'], Q['count_in_pixel_tracks_with_hit_2d_hists']
        ext = G._v_attrs.efficiency_regions_in_pixel_hist_extent
        ex, ey = np.linspace(ext[0], ext[1], tot.shape[0] + 1), np.linspace(ext[2], ext[3], tot.shape[1] + 1)
        ir = p['in_pixel_resolutions'] or (min(res[0], s.column_size / 10), min(res[1], s.row_size / 10))
        ctx.expect(np.allclose(np.diff(ex), ir[0], rtol=1e-6) and np.allclose(np.diff(ey), ir[1], rtol=1e-6), 'in-pixel', 'width of the in-pixel bins is not the resolution', got=[np.diff(ex)[0], np.diff(ey)[0]], want=ir, **dr)
        qx, qy = np.mod(ix + w / 2, s.column_size), np.mod(iy + h / 2, s.row_size)
        ctx.expect(gen.hist_ok(tot, [qx[inr], qy[inr]], [ex, ey]), 'in-pixel', 'tracks are not counted once at their position inside the pixel', got=tot.sum(), want=inr.sum(), **dr)
        ctx.expect(gen.hist_ok(pas, [qx[okr], qy[okr]], [ex, ey]), 'in-pixel', 'detected tracks are not counted once at their position inside the pixel', got=pas.sum(), want=okr.sum(), **dr)
        ctx.expect(tot.sum() == inr.sum() and pas.sum() == okr.sum(), 'in-pixel', 'tracks are missing in the in-pixel histogram', **dr)
        e = Q['efficiency_regions_stat_in_pixel_efficiency_2d_hist'] / 100
        u = tot > 0
        ctx.expect(np.allclose(e[u], pas[u] / tot[u]), 'in-pixel', 'in-pixel efficiency is not detected over total', **dr)
        lo, hi, amb = gen.hist_bounds([qx[okr], qy[okr]], [ex, ey])
        if not amb and not np.array_equal(lo, pas):
            amb = 1
        if not amb:
            for q in ('x_residuals', 'y_residuals', 'residuals', 'charge', 'frame', 'cluster_size'):
                want = mean_map(vals[q][okr].astype(float), [qx[okr], qy[okr]], [ex, ey], lo)
                gotm = Q['stat_in_pixel_%s_2d_hists' % q]
                bad = (lo > 0) & ~(np.abs(gotm - want) < 1e-6 * (np.abs(want).max() + 1e-3))
                ctx.expect(not bad.any(), 'in-pixel-means', 'mean of %s per in-pixel bin is wrong' % q, got=gotm[bad][:3], want=want[bad][:3], **dr)
            sh = t['cluster_shape_dut_%d' % d]
            C = Q['count_in_pixel_cluster_shape_2d_hists']
            for i, v in enumerate(SHAPES):
                m = okr & (sh == v)
                ctx.expect(gen.hist_ok(C[:, :, i], [qx[m], qy[m]], [ex, ey]), 'in-pixel-shape', 'cluster shapes are not counted at the position inside the pixel', shape=v, got=C[:, :, i].sum(), want=m.sum(), **dr)
        ctx.count(regions=1, in_region=int(inr.sum()))
    ctx.ok(tracks=len(t))
    outside = sel & ((ix < X[0]) | (ix > X[-1]) | (iy < Y[0]) | (iy > Y[-1]))
    ctx.count(valid=int(ok.sum()), no_hit=int((~has).sum()), cut=int((sel & has & ~ok).sum()), outside_map=int(outside.sum()), masked=int((on & ~sel).sum()), low_density=int((used & (total < density)).sum()), extended=p['extend_areas'] is not None)
    if (sel & has & ~ok).any() or outside.any() or (on & ~sel).any():
        ctx.interesting(d, len(t), det['chunk_size'], int(ok.sum()))


def track_angles(t):
    sx, sy, sz = t['slope_x'], t['slope_y'], t['slope_z']
    return np.arctan2(np.hypot(sx, sy), sz), np.arctan2(sy, sz), np.arctan2(-sx, sz)
