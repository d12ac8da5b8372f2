"""Every step with different chunk sizes, numbers of workers and completion orders gives the same data."""
import os
import time

import numpy as np
import tables

from bta import gen, steps

ID = 'C02'
RULE = 'a case is one set of inputs for one analysis step, processed with several chunk sizes, numbers of workers and delays; non-trivial when the data is processed in several chunks'
MIN = {'comparisons': 120, 'chunked': 90, 'more_workers_than_chunks': 5, 'delayed': 45, 'slow_output': 40, 'smallest_chunks': 50, 'rows': 10000, 'histograms': 200}
ASSUMPTIONS = ['Tracks repeat in every event where the range of a histogram is taken from the first chunk.', 'Floating point results may differ by 1e-9 (relative, or in um): sums are built in another order; results of fits (attributes) by 1e-5, and parameters of the fits to the track angle histograms are left out.']


def cases(seed, tier):
    k = 5 if tier == 'quick' else 150
    c = [dict(step=s, i=i, seed=seed) for i in range(k) for s in sorted(steps.ALL) if s != 'reduce_events' and (s != 'calculate_efficiency' or tier != 'quick' or i < 2)]
    c += [dict(step='fit_tracks_kalman', i=i, seed=seed) for i in range(2 if tier == 'quick' else 30)]
    return sorted(c, key=lambda q: q['step'] not in ('fit_tracks_kalman', 'calculate_efficiency'))


def warm():
    steps.warm()


def differ(a, b, what, tol=1e-9):
    """None, or how the arrays differ: floating point numbers nearly, everything else exactly equal."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return '%s: %s %s and %s %s' % (what, a.dtype, a.shape, b.dtype, b.shape)
    if a.dtype.names:
        for n in a.dtype.names:
            d = differ(a[n], b[n], what + ' column ' + n, tol)
            if d:
                return d
        return None
    if a.dtype.kind == 'f' and a.size:
        big = np.nanmax(np.abs(a)) if np.isfinite(a).any() else 0.
        same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.abs(a) + 1e-12 * big + 1e-9)
    else:
        same = a == b
    if not np.all(same):
        w = np.argwhere(~np.atleast_1d(same))[0]
        return '%s: %d of %d values, first at %s: %s and %s' % (what, np.count_nonzero(~same), np.size(same), w.tolist(), np.atleast_1d(a)[tuple(w)], np.atleast_1d(b)[tuple(w)])
    return None


def compare(x, y):
    if sorted(x) != sorted(y):
        return 'nodes %s' % sorted(set(x) ^ set(y))
    for k in sorted(x):
        d = differ(x[k][0], y[k][0], k)
        if d:
            return d
        if sorted(x[k][1]) != sorted(y[k][1]):
            return '%s: attributes %s' % (k, sorted(set(x[k][1]) ^ set(y[k][1])))
        for n in x[k][1]:
            if n in ('amplitude', 'mean', 'sigma'):     # of the fit to the histogram that was just compared
                continue
            d = differ(x[k][1][n], y[k][1][n], '%s attribute %s' % (k, n), 1e-5)  # results of fits
            if d:
                return d
    return None


def run(case, ctx):
    rng = ctx.rng
    s = steps.make(case['step'], rng, ctx.path)
    pid, real, delays = os.getpid(), tables.open_file, dict(d=None)

    def slow(*a, **k):     # workers read and write late, in another order
        if os.getpid() != pid and delays['d']:
            time.sleep(delays['d'][os.getpid() % len(delays['d'])])
        return real(*a, **k)

    create = tables.File.create_table

    def slow_create(self, *a, **k):     # the first result is written late, while the next ones are computed
        if delays['d']:
            time.sleep(4 * delays['d'][-1])
        return create(self, *a, **k)

    from pixel_clusterizer import cluster_functions
    clustering = cluster_functions._cluster_hits

    def slow_clustering(*a, **k):
        if delays['d']:
            time.sleep(3 * delays['d'][0])
        return clustering(*a, **k)

    tables.open_file, tables.File.create_table, cluster_functions._cluster_hits = slow, slow_create, slow_clustering
    first = None
    n_runs = 2 if case['step'] in ('fit_tracks_kalman', 'calculate_efficiency') else 4
    sizes = [10 ** 6] + s.chunk_sizes(rng, n_runs - 1)
    if n_runs == 4 or rng.random() < .5:
        sizes[1] = max(s.top + 1, s.least)
    try:
        for j, size in enumerate(sizes):
            cpus = 1 if j == 0 else int(rng.choice([1, 1, 2, 3, 5, 8]))
            os.cpu_count = lambda: cpus
            delays['d'] = list(rng.uniform(0, .03, 5)) if j and rng.random() < .6 else None
            if j == 2 and s.name.startswith('cluster'):     # the writer at work while the buffers of the clusterizer are used again
                cpus, delays['d'] = 1, list(rng.uniform(.01, .03, 5))
            with ctx.sut('%s chunk_size %d, %d workers' % (s.name, size, cpus)):
                s.func(**dict(s.kw, chunk_size=size))
            got = [gen.nodes(o) for o in s.outputs]
            chunks = -(-s.rows // size)
            det = dict(step=s.name, chunk_size=size, workers=cpus, rows=s.rows, largest_event=s.top, delays=delays['d'])
            if first is None:
                first = got
                tabs = [v[0] for g in got for v in g.values() if v[0].dtype.names]
                ctx.count(rows=sum(map(len, tabs)), histograms=sum(len(g) for g in got) - len(tabs))
                continue
            for o, a, b in zip(s.outputs, first, got):
                d = compare(a, b)
                ctx.expect(d is None, 'differs', 'result depends on chunk size or number of workers', what=d, file=os.path.basename(o), reference='chunk_size 1000000, 1 worker', **det)
            ctx.ok(comparisons=1, chunked=chunks > 1, more_workers_than_chunks=cpus > chunks > 1, delayed=bool(delays['d']) and cpus > 1, slow_output=bool(delays['d']) and chunks > 1, smallest_chunks=size <= s.top + 2)
            if chunks > 1:
                ctx.interesting((case['step'], case['i'], size))
    finally:
        tables.open_file, tables.File.create_table, cluster_functions._cluster_hits = real, create, clustering
    ctx.sample = dict(step=s.name, sizes=sizes, rows=s.rows)
