"""Hit purity: maps, sums and averages, recomputed hit by hit."""
import numpy as np
import tables as tb

from bta import gen

ID = 'C31'
RULE = 'a case is one track table with binning, cut distance, ranges and chunk size; non-trivial when hits fail the cut and several chunks are read'
MIN = {'hits': 100000, 'pure': 30000, 'not_pure': 60000, 'no_track': 5000, 'masked_bins': 3000, 'several_chunks': 35, 'ranges': 35, 'plots': 5, 'empty_chunk': 5, 'no_pure': 30, 'several_duts': 25}
CASE_TIMEOUT = 100.

SENSORS = [(50., 50., 24, 18), (250., 50., 8, 30), (18.4, 18.4, 30, 24), (50., 250., 24, 8), (100., 150., 15, 9), (33.125, 30., 17, 21)]
SUFFIX = ('Purity', 'Purity_mask', 'Pure_hits', 'Total_hits')


def cases(seed, tier):
    return [dict(seed=seed * 7919 + i, plot=i % 16 == 5, none=i % 12 == 7) for i in range(420 if tier == 'quick' else 3000)]


def warm():
    from beam_telescope_analysis import result_analysis  # noqa: F401


def run(case, ctx):
    from beam_telescope_analysis import result_analysis as ra
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    specs = []
    for i in range(n):
        cs, rs, nc, nr = SENSORS[int(rng.integers(len(SENSORS)))]
        specs.append(dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr))
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
    ev = gen.event_numbers(rng, int(rng.choice([60, 400, 1500])))
    ev = np.repeat(ev, rng.integers(1, 1 + int(rng.choice([1, 3])), len(ev)))
    k = len(ev)
    duts = [int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)]
    if case['none']:
        duts = duts[:1]
    cut = float(rng.uniform(10, 150))
    empty = rng.random() < .2      # no hit belongs to a track in the first part
    tabs = {}
    with tb.open_file(ctx.path('tracks.h5'), 'w') as f:
        for d in duts:
            s = tel[d]
            t = gen.random_tracks(rng, ev, n)
            w, h = s.column_size * s.n_columns, s.row_size * s.n_rows
            x, y = rng.uniform(-.55 * w, .55 * w, k), rng.uniform(-.55 * h, .55 * h, k)
            phi = rng.uniform(0, 2 * np.pi, k)
            pure = rng.random(k) < rng.choice([.3, .6, .9])
            if empty:
                pure[:k // 3] = False
            if case['none']:
                pure[:] = False
            r = cut * np.where(pure, rng.uniform(0, .999, k), rng.uniform(1.001, 5, k))
            hit = rng.random(k) < rng.choice([.5, .9, 1.])
            hit[-4:] = True
            x[-4:], y[-4:] = .2, .3
            if not case['none']:
                r[-4:] = cut / 3
            t['offset_x'], t['offset_y'] = x + r * np.cos(phi), y + r * np.sin(phi)
            t['track_chi2'][-4:] = 1.
            for c, v in (('x', x), ('y', y), ('z', np.zeros(k))):
                t['%s_dut_%d' % (c, d)] = np.where(hit, v, np.nan)
            t['offset_x'][np.isnan(t['track_chi2'])] = np.nan
            t['offset_y'][np.isnan(t['track_chi2'])] = np.nan
            tabs[d] = t
            table = f.create_table(f.root, 'Tracks_DUT%d' % d, description=t.dtype)
            table.append(t)
    text = open(ctx.path('tracks.h5'), 'rb').read()

    def size(d):
        s = tel[d]
        b = [float(v * m) for v, m in zip((s.column_size, s.row_size), rng.choice([1, 2, 3, 2.5], 2))]
        return tuple(b)
    sizes = [size(d) for d in duts]
    if len(set(duts)) == 1 or rng.random() < .4:
        sizes = sizes[:1]
        s = max(duts, key=lambda d: tel[d].column_size)
        sizes = [size(s)]
        if any(tel[d].column_size * tel[d].n_columns < sizes[0][0] or tel[d].row_size * tel[d].n_rows < sizes[0][1] for d in duts):
            sizes = [(50., 50.)]
    ranges = [None, None]
    if rng.random() < .4:
        ranges = [[tuple(sorted(float(v) for v in rng.uniform(-.5, .5, 2) * (tel[d].column_size * tel[d].n_columns, tel[d].row_size * tel[d].n_rows)[j])) for d in duts] for j in (0, 1)]
        for r2 in ranges:
            for i, (a, b) in enumerate(r2):
                r2[i] = (min(a, -30.), max(b, 30.))     # the middle is inside
        if rng.random() < .3:
            ranges[int(rng.integers(2))] = None
        for j in (0, 1):
            if ranges[j] is not None and rng.random() < .3:
                ranges[j] = ranges[j][:1]
    density = int(rng.choice([10, 1, 2, 30]))
    top = int(np.unique(ev, return_counts=True)[1].max())
    chunk = int(rng.choice([10 ** 6, k, max(k // 2, top) + 1, max(k // 5, top + 1, 20)]))
    det = dict(duts=duts, rows=k, chunk_size=chunk, bin_size=sizes, cut=cut, ranges=ranges, density=density)
    # what is expected
    want, possible = {}, True
    for i, d in enumerate(duts):
        t, s = tabs[d], tel[d]
        b = sizes[i] if len(sizes) > 1 else sizes[0]
        ext = [np.array([-.5, .5]) * s.column_size * s.n_columns, np.array([-.5, .5]) * s.row_size * s.n_rows]
        bins = [int((e[1] - e[0]) / v + 1e-9) for e, v in zip(ext, b)]
        if min(bins) < 1 or any(abs((e[1] - e[0]) / v - round((e[1] - e[0]) / v)) < 1e-6 for e, v in zip(ext, b)) and any(np.abs(np.diff(q))[0] / v != round(np.abs(np.diff(q))[0] / v, 6) for q, v in zip((s.x_extent(), s.y_extent()), b)):
            return
        edges = [np.linspace(e[0], e[1], m + 1) for e, m in zip(ext, bins)]
        x, y = t['x_dut_%d' % d], t['y_dut_%d' % d]
        has = ~np.isnan(x)
        dist = np.hypot(x - t['offset_x'], y - t['offset_y'])
        with np.errstate(invalid='ignore'):
            good = has & ~np.isnan(t['track_chi2']) & (dist < cut)
            for q, c in zip(ranges, ('x', 'y')):
                if q is not None:
                    a = q[i] if len(q) > 1 else q[0]
                    good &= (t['offset_' + c] >= a[0]) & (t['offset_' + c] <= a[1])
        total, pure = [gen.hist_bounds([x[m], y[m]], edges) for m in (has, good)]
        want[d] = (total, pure, bins, edges)
        ctx.count(hits=has.sum(), pure=good.sum(), not_pure=(has & ~good).sum(), no_track=(has & np.isnan(t['track_chi2'])).sum())
        if pure[0].sum() == 0 or not np.any((total[0] >= density) & (pure[0] > 0)):
            possible = False
            break
    args = dict(select_duts=list(duts), bin_size=list(sizes), minimum_hit_density=density, cut_distance=cut, local_x_range=ranges[0], local_y_range=ranges[1], plot=case['plot'], chunk_size=chunk)
    out = ctx.path('p.h5')
    if rng.random() < .7:
        args['output_purity_file'] = out
    else:
        out = ctx.path('tracks_purity.h5')
    if not possible:
        if any(int(v[0][2]) or int(v[1][2]) for v in want.values()):
            return
        # nothing that a purity could be calculated of
        try:
            ra.calculate_purity(ctx.path('t.yaml'), ctx.path('tracks.h5'), **args)
        except RuntimeError:
            ctx.ok(1, no_pure=1)
        else:
            ctx.violate('no-pure', 'a purity is reported without any hit that belongs to a track', **det)
        return
    with ctx.sut('calculate_purity'):
        res = ra.calculate_purity(ctx.path('t.yaml'), ctx.path('tracks.h5'), **args)
    ctx.expect(args['select_duts'] == duts and args['bin_size'] == sizes and open(ctx.path('tracks.h5'), 'rb').read() == text, 'input', 'arguments or input file were changed', **det)
    ctx.expect(len(res) == 4 and all(len(v) == len(duts) for v in res), 'return', 'one value per sensor is expected', got=[len(v) for v in res], **det)
    with tb.open_file(out) as f:
        ctx.expect({nd._v_name for nd in f.root._f_iter_nodes()} == {'DUT%d' % d for d in duts}, 'groups', 'groups of the output file', got=[nd._v_name for nd in f.root], **det)
        got = {d: {q: f.get_node('/DUT%d' % d, q)[:].T for q in SUFFIX} for d in duts}
        average = {d: float(f.get_node('/DUT%d' % d, 'Purity').attrs.purity_average) for d in duts}
    for i, d in enumerate(duts):
        total, pure, bins, edges = want[d]
        g = got[d]
        q = dict(dut=d, **det)
        ctx.expect(all(v.shape == tuple(bins) for v in g.values()), 'shape', 'number of bins', got=[v.shape for v in g.values()], want=bins, **q)
        for name, (lo, hi, _) in (('Total_hits', total), ('Pure_hits', pure)):
            v = g[name]
            bad = np.argwhere((v < lo) | (v > hi))
            ctx.expect(len(bad) == 0, name, 'number of hits in a bin', first=bad[:2].tolist(), got=[v[tuple(j)] for j in bad[:2]], want=[lo[tuple(j)] for j in bad[:2]], sums=[v.sum(), lo.sum(), hi.sum()], **q)
        T, P = g['Total_hits'].astype(float), g['Pure_hits'].astype(float)
        ctx.expect(np.all(P <= T), 'more-pure', 'more pure hits than hits', **q)
        mask = T < density
        ctx.expect(np.array_equal(g['Purity_mask'].astype(bool), mask), 'mask', 'bins with few hits are not masked, or others are', **q)
        p = np.where(T > 0, P / np.maximum(T, 1), 0) * 100
        ctx.expect(np.all(np.abs(g['Purity'] - p)[~mask] < 1e-6), 'purity', 'purity of a bin is not pure hits over hits', got=g['Purity'][~mask][:5], want=p[~mask][:5], **q)
        ctx.expect(abs(average[d] - P.sum() / T.sum() * 100) < 1e-6, 'average', 'average purity', got=average[d], want=P.sum() / T.sum() * 100, **q)
        means = [p[~mask].mean(), P.sum(), T.sum(), P[~mask].sum() / T[~mask].sum() * 100]
        ctx.expect(all(abs(float(r[i]) - m) < 1e-6 * max(1, m) for r, m in zip(res, means)), 'result', 'returned purity or numbers of hits', got=[float(r[i]) for r in res], want=means, **q)
        ctx.ok(7, masked_bins=mask.sum())
    several = chunk < k
    ctx.count(several_chunks=several, ranges=ranges != [None, None], plots=case['plot'], empty_chunk=empty and several, several_duts=len(duts) > 1)
    if several:
        ctx.interesting(case['seed'])
    ctx.sample = dict(duts=duts, rows=k, chunk_size=chunk, bins=[want[d][2] for d in duts], purity=[float(v) for v in res[0]])
