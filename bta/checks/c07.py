"""Clustering: output tables of the real clustering against a plain breadth-first clustering of every event."""
import os

import numpy as np
import tables as tb

from bta import gen
from bta.checks import c24

ID = 'C07'
RULE = ('a case is one hit table (random density, sensor size, frames, duplicates, masks, charge window, distances, index or position mode) clustered with random chunk size '
        'and number of cores, sometimes with a slow writer; non-trivial when clusters with several hits and rejected hits or several chunks occur')
MIN = {'hits': 5000, 'clusters': 2000, 'multi_hit_clusters': 300, 'rejected_hits': 300, 'position_mode': 5, 'blocks': 6, 'wrapper_clusters': 500}
CASE_TIMEOUT = 120.


def cases(seed, tier):
    n = 105 if tier == 'quick' else 1500
    return [dict(seed=seed * 6151 + i, mode=['index', 'index', 'index', 'convert', 'xy', 'xyi', 'wrapper'][i % 7]) for i in range(n)]


def warm():
    """Compiles the clustering functions in the parent, so that the forked workers inherit them."""
    from beam_telescope_analysis import hit_analysis as ha
    import logging
    logging.disable(logging.CRITICAL)
    d = os.environ['BTAV_SCRATCH']
    old, cpu = os.getcwd(), os.cpu_count
    os.chdir(d)
    os.cpu_count = lambda: 1
    try:
        rng = np.random.default_rng(0)
        tel = gen.telescope('warm.yaml', n_duts=1)
        gen.write_table('warm.h5', 'Hits', gen.random_hits(rng, 3, (80, 64)))
        for w in (False, True):
            for k in (dict(), dict(min_hit_charge=1., max_hit_charge=9.)):
                for p in (False, True):
                    try:
                        ha.cluster_hits(tel[0], 'warm.h5', 'warm_c.h5', plot=False, use_positions=p, charge_weighted_clustering=w, charge_correction=1,
                                        **dict(k, **(dict(column_cluster_distance=55., row_cluster_distance=55.) if p else {})))
                    except Exception:
                        pass        # the cases will tell
    finally:
        os.chdir(old)
        os.cpu_count = cpu


def reference(hits, col, row, lo, hi, dc, dr, df, disabled, noisy):
    """Breadth-first clustering of the hits of one event in file order. Returns (id of every hit, list of clusters as lists of hit numbers)."""
    n = len(hits)
    ids = np.full(n, -9)
    ok = np.ones(n, bool)
    if lo is not None:
        ok &= ~(hits['charge'] < np.float32(lo) if False else hits['charge'].astype(float) < lo)
    if hi is not None:
        ok &= ~(hits['charge'].astype(float) > hi)
    if disabled is not None:
        ok &= ~disabled[col.astype(int) - 1, row.astype(int) - 1]
    ids[~ok] = -1
    out = []
    fr = hits['frame'].astype(int)
    for i in range(n):
        if ids[i] != -9:
            continue
        members = [i]
        ids[i] = -8
        for j in members:
            for k in range(i + 1, n):
                if ids[k] == -9 and abs(col[j] - col[k]) <= dc and abs(row[j] - row[k]) <= dr and abs(fr[j] - fr[k]) <= df:
                    if col[j] == col[k] and row[j] == row[k]:
                        ids[k] = -2
                    else:
                        ids[k] = -8
                        members.append(k)
        if len(members) == 1 and noisy is not None and noisy[int(col[i]) - 1, int(row[i]) - 1]:
            ids[i] = -1
        else:
            ids[members] = len(out)
            out.append(members)
    return ids, out


def components(col, row, fr, dc, dr, df):
    """Connected components, another way."""
    n = len(col)
    a = (np.abs(np.subtract.outer(col, col)) <= dc) & (np.abs(np.subtract.outer(row, row)) <= dr) & (np.abs(np.subtract.outer(fr, fr)) <= df)
    from scipy.sparse.csgraph import connected_components
    return connected_components(a)[1] if n else np.zeros(0, int)


def wrapper(case, ctx):
    """cluster() of several sensors: the files of each sensor are those of its own settings."""
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, sizes=[(50., 50., 20, 16), (25., 100., 30, 8), (50., 25., 12, 12), (100., 50., 16, 20)][:n])
    sel = sorted(rng.choice(n, int(rng.integers(1, n + 1)), replace=False).tolist())
    if rng.random() < .3:
        sel = sel[::-1]
    sizes = [(20, 16), (30, 8), (12, 12), (16, 20)]
    files, masks = [], []
    for i in sel:
        files.append(ctx.path('h%d.h5' % i))
        gen.write_table(files[-1], 'Hits', gen.random_hits(rng, 25, sizes[i], max_hits=12, frames=3))
        masks.append(ctx.path('m%d.h5' % i))
        with tb.open_file(masks[-1], 'w') as f:
            f.create_carray(f.root, 'DisabledPixelMask', obj=rng.random(sizes[i]) < .1)
            f.create_carray(f.root, 'NoisyPixelMask', obj=rng.random(sizes[i]) < .3)
    per = dict(      # name for cluster(), name for cluster_hits(), values
        min_hit_charges=('min_hit_charge', [None, 1., 3., 5.]), max_hit_charges=('max_hit_charge', [None, 12., 8., 6.]),
        charge_corrections=('charge_correction', [1, 2, 5]), charge_weighted_clustering=('charge_weighted_clustering', [True, False]),
        column_cluster_distances=('column_cluster_distance', [1, 2, 3]), row_cluster_distances=('row_cluster_distance', [1, 2, 3]), frame_cluster_distances=('frame_cluster_distance', [0, 1, 2]))
    kw, single = {}, [dict() for _ in sel]
    for k, (name, values) in per.items():
        if rng.random() < .7:
            v = [values[int(rng.integers(len(values)))] for _ in sel]
            kw[k] = v
        else:
            kw[k] = values[int(rng.integers(len(values)))]
            v = [kw[k]] * len(sel)
        for d, x in zip(single, v):
            d[name] = x
    use = [False] * len(sel) if rng.random() < .5 else None
    if rng.random() < .3:       # positions exclude masks
        use, masks = [bool(rng.random() < .6) for _ in sel], None
    out = [ctx.path('o%d.h5' % i) for i in sel] if rng.random() < .8 else None
    det = dict(sel=sel, masks=masks is not None, use=use, out=out is not None, **kw)
    with ctx.sut('cluster'):
        got = ha.cluster(telescope_configuration=ctx.path('t.yaml'), input_hit_files=files, input_mask_files=masks, output_cluster_files=out, select_duts=sel, use_positions=use, plot=False, chunk_size=100, **kw)
    ctx.expect(len(got) == len(sel) and (out is None or list(got) == out), 'wrapper-return', 'returned file names are not those of the sensors', got=got, **det)
    rows = 0
    for j, i in enumerate(sel):
        one = ctx.path('s%d.h5' % i)
        ha.cluster_hits(dut=tel[i], input_hit_file=files[j], output_cluster_file=one, input_mask_file=None if masks is None else masks[j], use_positions=None if use is None else use[j], plot=False, chunk_size=100, **single[j])
        with tb.open_file(one) as f, tb.open_file(got[j]) as g:
            for name in ('ClusterHits', 'Clusters', 'HistClusterSize', 'HistClusterShape'):
                a, b = f.get_node(f.root, name)[:], g.get_node(g.root, name)[:]
                ctx.expect(a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes() if a.dtype.names is None else len(a) == len(b) and a.dtype.names == b.dtype.names and all(np.array_equal(a[c], b[c]) for c in a.dtype.names),
                           'wrapper', '%s of sensor %d is not the result of the settings of that sensor' % (name, i), settings=single[j], **det)
                rows += len(a) if name == 'Clusters' else 0
    ctx.count(wrapper_sensors=len(sel), wrapper_clusters=rows)
    ctx.ok(len(sel))


def run(case, ctx):
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    mode = case['mode']
    if mode == 'wrapper':
        return wrapper(case, ctx)
    nc, nr = [(80, 64), (6, 5), (1, 30), (300, 200), (12, 12)][int(rng.integers(5))]
    cs_, rs_ = float(rng.choice([50., 25., 250.])), float(rng.choice([50., 100.]))
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=1, sizes=[(cs_, rs_, nc, nr)])
    n_ev = int(rng.choice([0, 1, 5, 40, 120], p=[.03, .07, .2, .35, .35]))
    dup = rng.random() < .3
    frames = int(rng.choice([1, 1, 3, 16]))
    h = gen.random_hits(rng, n_ev, (nc, nr), max_hits=int(rng.choice([1, 4, 12, 40])), duplicates=dup, frames=frames)
    if len(h) and case['seed'] % 5 == 0:       # a block of pixels (large clusters, full shapes) at a random place
        bw, bh = [(8, 8), (1, 8), (8, 1), (7, 8), (20, 16), (9, 9), (1, 300), (150, 2)][int(rng.integers(8))]
        bw, bh = min(bw, nc), min(bh, nr)
        c0, r0 = int(rng.integers(1, nc - bw + 2)), int(rng.integers(1, nr - bh + 2))
        block = np.zeros(bw * bh, h.dtype)
        order = rng.permutation(bw * bh)
        if rng.random() < .5:
            order = order[order != int(rng.integers(len(order)))] if len(order) > 1 else order      # one pixel is missing
            block = block[:len(order)]
        block['event_number'] = h['event_number'][-1] + 1
        block['column'], block['row'] = c0 + order // bh, r0 + order % bh
        block['charge'], block['frame'] = rng.integers(0, 14, len(order)), h['frame'][-1]
        h = np.concatenate([h, block])
        ctx.count(blocks=1)
    window = rng.random() < .5
    lo, hi = (float(rng.choice([-1., 0., 2., 5.])), float(rng.choice([9., 12., 99.]))) if window else (None, None)
    dc, dr, df = int(rng.choice([1, 1, 2, 3, 0])), int(rng.choice([1, 1, 2, 0])), int(rng.choice([0, 0, 1, 20]))
    weighted = bool(rng.random() < .5)
    corr = int(rng.choice([1, 2]))      # hits without charge need a correction
    masks = {}
    if mode == 'index' and rng.random() < .5:
        for name in ('DisabledPixelMask', 'NoisyPixelMask'):
            if rng.random() < .7:
                masks[name] = rng.random((nc, nr)) < rng.choice([0., .02, .2])
        if len(h) and masks:
            # masks hitting something
            for m in masks.values():
                for i in rng.integers(0, len(h), 3):
                    m[h['column'][i] - 1, h['row'][i] - 1] = True
    kw = dict(min_hit_charge=lo, max_hit_charge=hi, charge_correction=corr if rng.random() < .9 or weighted else None, frame_cluster_distance=df, charge_weighted_clustering=weighted, plot=bool(rng.random() < .1))
    if kw['charge_correction'] is None:
        corr = 0
    x, y = cs_ * (h['column'] - .5 - nc / 2.), rs_ * (h['row'] - .5 - nr / 2.)
    if mode == 'index':
        kw.update(column_cluster_distance=dc, row_cluster_distance=dr)
        inp = h
        if rng.random() < .2:
            inp = np.zeros(len(h), h.dtype.descr + [('tdc', '<u2')])
            for n in h.dtype.names:
                inp[n] = h[n]
        if rng.random() < .5:
            kw['use_positions'] = False
        C, Rw, D, E = h['column'].astype(float), h['row'].astype(float), dc, dr
        names = ('column', 'row')
    else:
        kw.update(column_cluster_distance=(dc + .1) * cs_, row_cluster_distance=(dr + .1) * rs_)
        inp = np.zeros(len(h), gen.LHIT.descr + ([('column', '<u2'), ('row', '<u2')] if mode == 'xyi' else []))
        for n in inp.dtype.names:
            inp[n] = x if n == 'x' else y if n == 'y' else h[n]
        if mode == 'convert':
            inp = h
            kw['use_positions'] = True
        C, Rw, D, E = x, y, (dc + .1) * cs_, (dr + .1) * rs_
        names = ('x', 'y')
        ctx.count(position_mode=1)
    gen.write_table(ctx.path('h.h5'), 'Hits', inp)
    if masks:
        with tb.open_file(ctx.path('m.h5'), 'w') as f:
            for n, m in masks.items():
                f.create_carray(f.root, n, obj=m)
        kw['input_mask_file'] = ctx.path('m.h5')
    top = gen.max_per_event(h)
    kw['chunk_size'] = gen.chunk_sizes(rng, len(h), top)[0]
    if len(h) / kw['chunk_size'] > 40:
        kw['chunk_size'] = max(top + 1, len(h) // 20)
    cores = int(rng.choice([1, 1, 2, 4]))
    os.cpu_count = lambda: cores
    slow = rng.random() < .2
    det = dict(mode=mode, shape=(nc, nr), cores=cores, slow_writer=slow, **{k: v for k, v in kw.items()})
    append = tb.Table.append
    if slow:
        import time

        def delayed(self, *a):
            time.sleep(.03)
            return append(self, *a)
        tb.Table.append = delayed
    out = ctx.path('out.h5')
    try:
        with ctx.sut('cluster_hits(%s%s)' % (mode, ', empty' if not len(h) else '')):
            got_name = ha.cluster_hits(tel[0], ctx.path('h.h5'), out, **kw)
    finally:
        tb.Table.append = append
    ctx.expect(got_name == out, 'return-value', 'wrong file name returned', **det)
    with tb.open_file(out, 'r') as f:
        ch, cl = f.root.ClusterHits[:], f.root.Clusters[:]
        hs, hsh = f.root.HistClusterSize[:], f.root.HistClusterShape[:]
        stored = {n: f.get_node(f.root, n)[:] for n in ('DisabledPixelMask', 'NoisyPixelMask') if n in f.root}
    ctx.expect(set(stored) == set(masks) and all(np.array_equal(stored[n], masks[n]) for n in masks), 'masks', 'masks in the output are not the masks of the input', **det)
    # every hit once, in order, unchanged
    ctx.expect(len(ch) == len(h), 'hit-count', '%d hits in, %d out' % (len(h), len(ch)), **det)
    cols = ['event_number', 'charge', 'frame'] + (['column', 'row'] if mode in ('index', 'xyi') else [])
    for n in cols:
        ctx.expect(np.array_equal(ch[n], h[n]), 'hit-content:' + n, 'column %s of the hits changed' % n, **det)
    if mode != 'index':
        ctx.expect(np.allclose(ch['x'], x, rtol=0, atol=1e-6) and np.allclose(ch['y'], y, rtol=0, atol=1e-6), 'hit-content:xy', 'position of the hits changed', **det)
    pos = 0
    multi = rejected = 0
    bounds = np.flatnonzero(np.r_[True, np.diff(h['event_number']) != 0, True]) if len(h) else [0]
    for a, b in zip(bounds[:-1], bounds[1:]):
        ev = h[a:b]
        ids, want = reference(ev, C[a:b], Rw[a:b], lo, hi, D, E, df, masks.get('DisabledPixelMask'), masks.get('NoisyPixelMask'))
        e = dict(event=int(ev['event_number'][0]), hits=ev[['column', 'row', 'frame', 'charge']].tolist()[:40], **det)
        if not dup and 'NoisyPixelMask' not in masks:
            ok = ids >= 0
            lab = components(C[a:b][ok], Rw[a:b][ok], ev['frame'][ok].astype(float), D, E, df)
            assert len(set(zip(ids[ok].tolist(), lab.tolist()))) == len(set(lab.tolist())) == len(want)
        g = ch[a:b]
        ctx.expect(np.array_equal(g['cluster_ID'], ids), 'cluster-assignment', 'hits are assigned to other clusters', got=g['cluster_ID'], want=ids, **e)
        size = np.array([len(want[i]) if i >= 0 else 0 for i in ids])
        ctx.expect(np.array_equal(g['cluster_size'], size) and np.all(g['n_cluster'] == len(want)), 'cluster-hit-info', 'cluster size or number of clusters of the hits is wrong', got=[g['cluster_size'], g['n_cluster']], want=[size, len(want)], **e)
        ctx.expect(np.all(g['is_seed'][ids < 0] == 0), 'seed-of-rejected', 'a rejected hit is a seed', **e)
        rejected += int(np.count_nonzero(ids < 0))
        cs = cl[pos:pos + len(want)]
        ctx.expect(len(cs) == len(want) and np.all(cs['event_number'] == ev['event_number'][0]) and (pos + len(want) == len(cl) or cl['event_number'][pos + len(want)] != ev['event_number'][0]),
                   'cluster-count', 'event has other number of clusters than %d' % len(want), **e)
        pos += len(want)
        for i, m in enumerate(want):
            q, c, r, t = ev['charge'][m].astype(float), C[a:b][m], Rw[a:b][m], cs[i]
            w = q + corr if weighted else np.ones(len(m))
            ctx.expect(t['cluster_ID'] == i and t['n_hits'] == len(m) and t['n_cluster'] == len(want) and t['frame'] == ev['frame'][m].min(), 'cluster-info', 'cluster ID, size, number of clusters or frame is wrong', got=t.tolist(), members=m, **e)
            ctx.expect(abs(t['charge'] - q.sum()) <= 1e-4 * (1 + abs(q.sum())), 'cluster-charge', 'cluster charge %s, expected %s' % (t['charge'], q.sum()), **e)
            seed = [k for k in m if g['is_seed'][k]]
            ctx.expect(len(seed) == 1 and ev['charge'][seed[0]] == q.max(), 'seed', 'the seed is not one hit with the highest charge', members=m, seeds=seed, **e)
            ctx.expect(abs(t['seed_' + names[0]] - C[a:b][seed[0]]) < 1e-6 and abs(t['seed_' + names[1]] - Rw[a:b][seed[0]]) < 1e-6, 'seed-position', 'seed position is not the position of the seed hit',
                       got=[t['seed_' + names[0]], t['seed_' + names[1]]], want=[C[a:b][seed[0]], Rw[a:b][seed[0]]], **e)
            mc, mr = (c * w).sum() / w.sum(), (r * w).sum() / w.sum()
            tol = 1e-5 * (np.abs(c).max() + np.abs(r).max() + 1)
            ctx.expect(abs(t['mean_' + names[0]] - mc) < tol and abs(t['mean_' + names[1]] - mr) < tol, 'cluster-position', 'cluster position is not the %s centre' % ('charge-weighted' if weighted else 'geometric'),
                       got=[t['mean_' + names[0]], t['mean_' + names[1]]], want=[mc, mr], members=m, **e)
            s12 = np.sqrt(12.)
            ex, ey = (1 / s12, 1 / s12) if mode == 'index' else (cs_ / s12, rs_ / s12)
            ctx.expect(abs(t['err_' + names[0]] - ex) < 1e-5 * ex and abs(t['err_' + names[1]] - ey) < 1e-5 * ey, 'cluster-error', 'position error is not pitch/sqrt(12)', got=t.tolist(), **e)
            shape = c24.encode(zip(ev['column'][m].astype(int), ev['row'][m].astype(int))) if mode == 'index' else -1
            ctx.expect(t['cluster_shape'] == shape, 'cluster-shape', 'cluster shape %d, expected %d' % (t['cluster_shape'], shape), members=m, **e)
            multi += len(m) > 1
        ctx.ok(len(ev))
    ctx.expect(pos == len(cl), 'cluster-count', '%d clusters, expected %d' % (len(cl), pos), **det)
    ctx.expect(np.array_equal(hs, np.bincount(cl['n_hits'], minlength=1)), 'size-histogram', 'cluster size histogram does not count the clusters', got=hs[:10], **det)
    ctx.expect(np.array_equal(hsh, np.histogram(cl['cluster_shape'], bins=np.arange(2 ** 16))[0]), 'shape-histogram', 'cluster shape histogram does not count the clusters', **det)
    ctx.count(hits=len(h), clusters=len(cl), multi_hit_clusters=multi, rejected_hits=rejected, chunks=len(h) // kw['chunk_size'] + 1, slow_writer=slow)
    if multi and (rejected or len(h) > kw['chunk_size']):
        ctx.interesting(case, len(h), len(cl))
    if ctx.index < 3:
        ctx.sample = dict(det, hits=len(h), clusters=len(cl), multi=multi, rejected=rejected)
