"""Correlation histograms: every pair of hits of the same event is counted exactly once, in the bin of the two positions."""
import math
import os

import numpy as np
import tables as tb

from bta import gen

ID = 'C09'
RULE = 'a case is one set of hit or cluster tables (2 to 4 sensors, own event lists) with one choice of reference sensors, resolution and chunk size; non-trivial when the sensors have different events and several chunks are read'
MIN = {'pairs': 50000, 'histograms': 150, 'chunked': 30, 'rotated': 30, 'positions': 20, 'hits_tables': 20, 'edge_hits': 10}


def cases(seed, tier):
    return [dict(seed=seed * 8191 + i) for i in range(110 if tier == 'quick' else 2500)]


def warm():
    from beam_telescope_analysis import hit_analysis  # noqa
    from beam_telescope_analysis.tools import analysis_utils as au
    try:
        for d in (gen.HIT,):
            for k in (np.zeros(1, np.int64), np.zeros(2, d)['event_number']):
                for j in (np.zeros(1, np.int64), np.zeros(2, d)['event_number']):
                    ix = np.zeros(len(k), np.uint32), np.zeros(len(k), np.uint32), np.zeros(len(j), np.uint32), np.zeros(len(j), np.uint32)
                    au.correlate_position_on_event_number(ref_event_numbers=k, dut_event_numbers=j, ref_x_indices=ix[0], ref_y_indices=ix[1], dut_x_indices=ix[2], dut_y_indices=ix[3],
                                                          x_corr_hist=np.zeros((1, 1), np.int32), y_corr_hist=np.zeros((1, 1), np.int32))
    except Exception:
        pass


def random_table(rng, ev, geo, top):
    """Hits or clusters, as indices or local positions -> table name, table, column, row."""
    kind = str(rng.choice(['clusters', 'lclusters', 'hits', 'lhits']))
    cl = gen.random_clusters(rng, ev, rng.integers(1, top + 1, len(ev)), geo, positions=kind in ('lclusters', 'lhits'))
    cs, rs, nc, nr = geo
    if kind == 'clusters':
        return kind, 'Clusters', cl, cl['mean_column'].astype(float), cl['mean_row'].astype(float)
    if kind == 'hits':
        a = np.zeros(len(cl), gen.HIT)
        a['event_number'], a['column'], a['row'] = cl['event_number'], cl['seed_column'], cl['seed_row']
        return kind, 'Hits', a, a['column'].astype(float), a['row'].astype(float)
    col, row = cl['mean_x'] / cs + .5 + nc / 2., cl['mean_y'] / rs + .5 + nr / 2.
    if kind == 'lclusters':
        return kind, 'Clusters', cl, col, row
    a = np.zeros(len(cl), gen.LHIT)
    a['event_number'], a['x'], a['y'] = cl['event_number'], cl['mean_x'], cl['mean_y']
    return kind, 'Hits', a, col, row


def n_bins(size, res):
    """Number of bins, or None if it depends on rounding."""
    q = size / res
    if abs(q - round(q)) < 1e-9 * max(1., q):
        return {max(1, int(round(q)) + d) for d in (0, 1)}
    return {int(math.ceil(q))}


def run(case, ctx):
    from beam_telescope_analysis import hit_analysis as ha
    os.cpu_count = lambda: 2
    rng = ctx.rng
    n = int(rng.choice([2, 3, 4], p=[.5, .3, .2]))
    geos = [gen.random_geo(rng) for _ in range(n)]
    rotated = bool(rng.random() < .6)
    tel = gen.telescope(ctx.path('t.yaml'), rng, n_duts=n, sizes=geos, offsets=bool(rng.random() < .8), rotations=rotated)
    n_ev = int(rng.choice([1, 5, 40, 200]))
    allev = gen.event_numbers(rng, n_ev)
    style = rng.choice(['common', 'gaps', 'ends'])
    order = [int(i) for i in (rng.permutation(n) if rng.random() < .4 else np.arange(n))]
    sel = order[:n - 1] if n > 2 and rng.random() < .3 else order
    tabs, files, glob = {}, [], {}
    edge = False
    for i in sel:
        keep = np.ones(n_ev, bool)
        if style != 'common':
            keep = rng.random(n_ev) < rng.choice([1., .7, .3])
        if style == 'ends':
            a, b = sorted(rng.integers(0, n_ev + 1, 2))
            keep[:a] &= rng.random() < .4
            keep[b:] &= rng.random() < .4
        if rng.random() < .05:
            keep[:] = False
        kind, name, t, col, row = random_table(rng, allev[keep], geos[i], int(rng.choice([1, 4, 9])))
        cs, rs, nc, nr = geos[i]
        if kind in ('lclusters', 'lhits') and len(t) and rng.random() < .4:      # on the edge of the sensor
            edge = True
            xy = ('mean_x', 'mean_y') if kind == 'lclusters' else ('x', 'y')
            k = rng.integers(len(t), size=3)
            t[xy[0]][k], t[xy[1]][k] = rng.choice([-.5, .5], 3) * cs * nc, rng.choice([-.5, .5], 3) * rs * nr
            col, row = t[xy[0]] / cs + .5 + nc / 2., t[xy[1]] / rs + .5 + nr / 2.
            ctx.count(edge_hits=3)
        ctx.count(positions=kind[0] == 'l', hits_tables='hits' in kind)
        glob[i] = gen.to_global(tel[i], cs * (col - .5 - nc / 2.), rs * (row - .5 - nr / 2.))
        tabs[i] = t
        files.append(gen.write_table(ctx.path('in%d.h5' % i), name, t))
    base = [float(rng.choice([100., 250., 18.4, float(rng.uniform(20, 700))])) for _ in range(2)]
    ext = [[(getattr(tel[i], e)(global_position=True)) for e in ('x_extent', 'y_extent')] for i in range(n)]
    # own calculation of the global size of the sensors
    size = []
    for i in range(n):
        cs, rs, nc, nr = geos[i]
        c = gen.to_global(tel[i], np.array([-.5, -.5, .5, .5]) * cs * nc, np.array([-.5, .5, -.5, .5]) * rs * nr)
        size.append((c[0].max() - c[0].min(), c[1].max() - c[1].min()))
    big = max(max(s) for s in size)
    res = tuple(max(r, big / 300.) for r in base)
    if rng.random() < .3:
        res = tuple(float(s) / int(rng.integers(3, 200)) for s in (size[sel[0]][0], size[sel[0]][1]))
        res = tuple(max(r, big / 300.) for r in res)
    refs = rng.choice(['none', 'one', 'list'])
    ref_arg = {'none': None, 'one': int(rng.choice(sel)), 'list': [int(x) for x in rng.permutation(sel)[:int(rng.integers(1, len(sel) + 1))]]}[refs]
    ref_list = sel if ref_arg is None else (ref_arg if isinstance(ref_arg, list) else [ref_arg])
    top = gen.max_per_event(*tabs.values())
    cs_ = gen.chunk_sizes(rng, max(1, max(len(t) for t in tabs.values())), top)[0]
    out = ctx.path('Correlated.h5')
    det = dict(select=sel, refs=ref_arg, resolution=res, chunk_size=cs_, sizes={str(i): len(t) for i, t in tabs.items()}, geos=geos)
    kw = {} if sel == list(range(n)) and rng.random() < .5 else dict(select_duts=list(sel))
    with ctx.sut('correlate'):
        r = ha.correlate(ctx.path('t.yaml'), files, output_correlation_file=out, resolution=res, select_reference_duts=ref_arg, plot=False, chunk_size=cs_, **kw)
    ctx.expect(r == out, 'return', 'returned file name is wrong', **det)
    got = gen.nodes(out)
    want = {'/Correlation_%s_%d_%d%s' % (a, p, d, s) for p in ref_list for d in sel if d != p for a in 'xy' for s in ('', '_reduced_background')}
    got = {(k if k.startswith('/') else '/' + k): v for k, v in got.items()}
    hist = {k for k in got if k.startswith('/Correlation_')}
    ctx.expect(hist == want, 'pairs-of-sensors', 'wrong set of correlation histograms', stop=True, got=sorted(hist), want=sorted(want), **det)
    with tb.open_file(out) as f:
        for p in ref_list:
            for d in sel:
                if d == p:
                    continue
                ep, ed = tabs[p]['event_number'], tabs[d]['event_number']
                lo, hi = np.searchsorted(ed, ep, 'left'), np.searchsorted(ed, ep, 'right')
                cnt = hi - lo
                ip = np.repeat(np.arange(len(ep)), cnt)
                idd = np.concatenate([np.arange(a, b) for a, b in zip(lo, hi)]).astype(int) if len(ep) else np.zeros(0, int)
                for ax, a in enumerate('xy'):
                    nd = f.get_node('/Correlation_%s_%d_%d' % (a, p, d))
                    h = nd[:]
                    dd = dict(axis=a, ref=p, dut=d, **det)
                    ctx.expect(h.shape[0] in n_bins(size[d][ax], res[ax]) and h.shape[1] in n_bins(size[p][ax], res[ax]), 'shape', 'histogram does not cover the sensors', shape=h.shape, size=(size[d][ax], size[p][ax]), **dd)
                    tr = [getattr(tel[k], 'translation_' + a) for k in (p, d)]
                    for k, nb, key, t in ((p, h.shape[1], 'ref_hist_extent', tr[0]), (d, h.shape[0], 'dut_hist_extent', tr[1])):
                        e = nd._v_attrs[key]
                        ctx.expect(np.allclose(e, [t - nb * res[ax] / 2., t + nb * res[ax] / 2.], atol=1e-6, rtol=1e-9), 'extent', 'stored %s is wrong' % key, got=list(e), translation=t, bins=nb, **dd)
                    ctx.expect(float(nd._v_attrs['resolution']) == res[ax], 'resolution', 'stored resolution is wrong', **dd)
                    ctx.expect(int(h.sum()) == len(ip), 'pairs', 'number of correlated pairs is wrong', got=int(h.sum()), want=len(ip), **dd)
                    up = (glob[p][ax] - tr[0]) / res[ax] + h.shape[1] / 2.
                    ud = (glob[d][ax] - tr[1]) / res[ax] + h.shape[0] / 2.
                    clear_p = np.abs(up - np.rint(up)) > 1e-6
                    clear_d = np.abs(ud - np.rint(ud)) > 1e-6
                    edge_p, edge_d = np.clip(np.floor(up).astype(int), 0, h.shape[1] - 1), np.clip(np.floor(ud).astype(int), 0, h.shape[0] - 1)
                    w = np.zeros(h.shape, np.int64)
                    np.add.at(w, (edge_d[idd], edge_p[ip]), 1)
                    ok = clear_p[ip] & clear_d[idd]
                    if ok.all():
                        ctx.expect(np.array_equal(w, h), 'bins', 'pairs are in wrong bins', differing=np.argwhere(w != h)[:5].tolist(), **dd)
                    else:       # positions at a border of bins may be in either one
                        lo_h = np.zeros(h.shape, np.int64)
                        np.add.at(lo_h, (edge_d[idd[ok]], edge_p[ip[ok]]), 1)
                        may = np.zeros(h.shape, bool)
                        for s in (-1, 0, 1):
                            for t in (-1, 0, 1):
                                may[np.clip(edge_d[idd[~ok]] + s, 0, h.shape[0] - 1), np.clip(edge_p[ip[~ok]] + t, 0, h.shape[1] - 1)] = True
                        bad = (h < lo_h) | ((h > lo_h) & ~may)
                        ctx.expect(not bad.any(), 'bins', 'pairs are in wrong bins', differing=np.argwhere(bad)[:5].tolist(), **dd)
                    red = f.get_node('/Correlation_%s_%d_%d_reduced_background' % (a, p, d))[:]
                    ctx.expect(red.shape == h.shape and red.min() == 0, 'reduced', 'histogram without background is not normalized to zero', **dd)
                    u, s, v = np.linalg.svd(h.astype(float))
                    if len(s) == 1 or s[0] > 1.01 * s[1]:
                        b = h - (u[:, :1] * s[0] * v[:1]).astype(np.int64)
                        b = b - b.min()
                        ctx.expect(np.abs(b - red).max() <= 2, 'reduced', 'background is not reduced correctly', **dd)
                        ctx.count(backgrounds=1)
                    ctx.ok(histograms=1, pairs=len(ip), ambiguous_pairs=int((~ok).sum()))
    ctx.count(chunked=cs_ < max(len(t) for t in tabs.values()), rotated=rotated, several_refs=len(ref_list) > 1)
    if style != 'common' and cs_ < max(len(t) for t in tabs.values()):
        ctx.interesting(n, n_ev, cs_, refs, style)
    ctx.sample = dict(pairs=len(ip), **{k: det[k] for k in ('select', 'refs', 'resolution', 'chunk_size', 'sizes')})
