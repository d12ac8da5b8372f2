"""Merging of cluster files: the merged table against the input files by exact accounting per event and sensor."""
import numpy as np

from bta import gen

ID = 'C10'
RULE = 'a case is one set of cluster tables (1 to 12 sensors, own event lists with gaps, own begin and end, empty tables) and one chunk size; non-trivial when the sensors have different events and several chunks are read'
MIN = {'clusters': 5000, 'events': 2000, 'chunked': 40, 'sensor_ends_first': 15}
FROM = {'charge': 'charge', 'frame': 'frame', 'n_hits': 'n_hits', 'cluster_ID': 'cluster_ID', 'cluster_shape': 'cluster_shape', 'n_cluster': 'n_cluster'}


def cases(seed, tier):
    return [dict(seed=seed * 8191 + i) for i in range(160 if tier == 'quick' else 4000)]


def warm():
    from beam_telescope_analysis import hit_analysis  # noqa
    from beam_telescope_analysis.tools import analysis_utils as au
    for d in (gen.CLUSTER, gen.LCLUSTER):
        try:
            # as called by the code under test: compiled once, for all workers
            for ev in (np.zeros(1, np.int64), np.zeros(2, d)['event_number'], np.zeros(1, d)['event_number']):
                au.map_cluster(event_numbers=ev, clusters=np.zeros(1, d), mapped_clusters=np.zeros(1, d))
        except Exception:
            pass


def run(case, ctx):
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    n_duts = int(rng.choice([1, 2, 3, 4, 7, 12], p=[.05, .25, .25, .25, .1, .1]))
    geos = [gen.random_geo(rng) for _ in range(n_duts)]
    gen.telescope(ctx.path('t.yaml'), rng, n_duts=n_duts, sizes=geos, offsets=True, rotations=True)
    n_ev = int(rng.choice([1, 4, 30, 150]))
    allev = gen.event_numbers(rng, n_ev)
    if rng.random() < .1:
        allev = allev - allev[-1] // 2        # negative event numbers
    tabs, files = [], []
    style = rng.choice(['common', 'gaps', 'ends'], p=[.2, .4, .4])
    for i in range(n_duts):
        keep = np.ones(n_ev, bool)
        if style != 'common':
            keep = rng.random(n_ev) < rng.choice([1., .8, .3])
        if style == 'ends':
            a, b = sorted(rng.integers(0, n_ev + 1, 2))
            if rng.random() < .6:
                keep[:a] = False
            if rng.random() < .6:
                keep[b:] = False
        if rng.random() < .06:
            keep[:] = False
        ev = allev[keep]
        top = int(rng.choice([1, 3, 8]))
        t = gen.random_clusters(rng, ev, rng.integers(1, top + 1, len(ev)), geos[i], positions=bool(rng.random() < .4))
        if rng.random() < .5:       # full range of the columns
            big = rng.random(len(t)) < .2
            for c, m in (('n_hits', 2 ** 31), ('frame', 2 ** 16), ('n_cluster', 2 ** 31)):
                t[c][big] = rng.integers(1, m, int(big.sum()))
            t['cluster_ID'] *= 4000
        tabs.append(t)
        files.append(gen.write_table(ctx.path('c%d.h5' % i), 'Clusters', t))
    top = gen.max_per_event(*tabs)
    cs = gen.chunk_sizes(rng, max(len(t) for t in tabs), top)[0]
    out = ctx.path('Merged.h5')
    det = dict(n_duts=n_duts, sizes=[len(t) for t in tabs], chunk_size=cs, last=[int(t['event_number'][-1]) if len(t) else None for t in tabs], first=[int(t['event_number'][0]) if len(t) else None for t in tabs])
    with ctx.sut('merge_cluster_data'):
        if rng.random() < .3:
            got = ha.merge_cluster_data(ctx.path('t.yaml'), files, chunk_size=cs)
        else:
            got = ha.merge_cluster_data(ctx.path('t.yaml'), files, output_merged_file=out, chunk_size=cs)
    ctx.expect(got == out, 'return-value', 'returned file name', got=got, **det)
    m = gen.read(out, 'MergedClusters')
    e = m['event_number']
    ctx.expect(np.all(np.diff(e) >= 0), 'order', 'event numbers of the merged table are not ascending', **det)
    # rows per event
    want = {}
    for t in tabs:
        for ev, c in zip(*np.unique(t['event_number'], return_counts=True)):
            want[int(ev)] = max(want.get(int(ev), 0), int(c))
    have = dict(zip(*[a.tolist() for a in np.unique(e, return_counts=True)]))
    missing = [k for k in want if k not in have]
    ctx.expect(not missing, 'events-lost', '%d events are missing in the merged table' % len(missing), missing=missing[:5], **det)
    ctx.expect(have == want, 'rows-per-event', 'rows per event', differ=[(k, have.get(k), want.get(k)) for k in set(have) | set(want) if have.get(k) != want.get(k)][:5], **det)
    flag = np.zeros(len(m), np.int64)
    for i, t in enumerate(tabs):
        csz, rsz, nc, nr = geos[i]
        x = m['x_dut_%d' % i]
        hit = np.isfinite(x)
        flag |= hit.astype(np.int64) << i
        for c in ('x', 'y', 'z', 'charge', 'x_err', 'y_err', 'z_err'):
            ctx.expect(np.array_equal(np.isfinite(m['%s_dut_%d' % (c, i)]), hit), 'partly-filled', '%s of a missing cluster is not NaN or of a cluster is NaN' % c, dut=i, **det)
        for c in ('frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster'):
            ctx.expect(not np.any(m['%s_dut_%d' % (c, i)][~hit]), 'partly-filled', '%s of a missing cluster is not zero' % c, dut=i, **det)
        # every cluster once: (event, ID) identifies it
        key = np.stack([e[hit], m['cluster_ID_dut_%d' % i][hit].astype(np.int64)])
        o = np.lexsort(key[::-1])
        key, r = key[:, o], m[hit][o]
        ref = np.stack([t['event_number'], t['cluster_ID'].astype(np.int64)])
        ctx.expect(key.shape == ref.shape and np.array_equal(key, ref), 'clusters', 'clusters of the sensor are lost, doubled or in another event: %d in the merged table, %d in the file' % (key.shape[1], len(t)), dut=i, **det)
        if 'mean_x' in t.dtype.names:
            px, py, ex, ey = t['mean_x'], t['mean_y'], t['err_x'], t['err_y']
        else:
            px, py = csz * (t['mean_column'] - .5 - nc / 2.), rsz * (t['mean_row'] - .5 - nr / 2.)
            ex, ey = t['err_column'] * np.float32(csz), t['err_row'] * np.float32(rsz)
        for c, v in (('x', px), ('y', py), ('x_err', ex), ('y_err', ey), ('z', 0 * px), ('z_err', 0 * px)):
            ctx.expect(np.allclose(r['%s_dut_%d' % (c, i)], v, rtol=1e-6 if 'err' in c else 1e-12, atol=1e-9), 'position', '%s of a cluster changed' % c, dut=i, **det)
        for c, s in FROM.items():
            ctx.expect(np.array_equal(r['%s_dut_%d' % (c, i)], t[s]), 'column', '%s of a cluster changed' % c, dut=i, **det)
    ctx.expect(np.array_equal(m['hit_flag'], flag), 'hit-flag', 'hit flag does not tell which sensors have a cluster', **det)
    ctx.expect(not len(m) or np.all(flag > 0), 'empty-row', 'row without any cluster', **det)
    chunked = cs <= max(len(t) for t in tabs)
    ctx.count(clusters=sum(len(t) for t in tabs), events=len(want), chunked=chunked, sensor_ends_first=len(set(det['last'])) > 1 and (det['last'][0] is None or any(l is not None and l > det['last'][0] for l in det['last'])))
    if chunked and n_duts > 1 and style != 'common':
        ctx.interesting(case, len(m))
    if ctx.index < 2:
        ctx.sample = dict(det, rows=len(m))
