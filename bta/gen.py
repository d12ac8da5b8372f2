"""Shared input generators and file helpers. Only numpy, pytables and the sensor/telescope classes are used."""
import os

import numpy as np
import tables as tb

HIT = np.dtype([('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')])
LHIT = np.dtype([('event_number', '<i8'), ('frame', '<u2'), ('x', '<f8'), ('y', '<f8'), ('charge', '<f4')])
CLUSTER_HIT = np.dtype(HIT.descr + [('cluster_ID', '<i2'), ('is_seed', '<u1'), ('cluster_size', '<u4'), ('n_cluster', '<u4')])


def event_numbers(rng, n_events, style=None):
    """Ascending distinct event numbers with or without gaps, small or 64 bit, also zero and negative."""
    if style is None:
        style = int(rng.integers(5))
    gaps = np.ones(n_events, np.int64) if style in (0, 1) else rng.integers(1, 5, n_events) if style in (2, 3) else rng.integers(1, 1000, n_events)
    start = {0: 0, 1: 1, 2: 0, 3: 7, 4: 2 ** 40}[style]
    return start + np.cumsum(gaps) - gaps[0] if n_events else np.zeros(0, np.int64)


def write_table(path, name, a, mode='w', title='', csi=None):
    with tb.open_file(path, mode) as f:
        t = f.create_table(f.root, name, description=a.dtype, title=title, filters=tb.Filters(complib='blosc', complevel=1))
        t.append(a)
        t.flush()
    return path


def read(path, name):
    with tb.open_file(path, 'r') as f:
        return f.get_node(f.root, name)[:] if name.startswith('/') is False else f.get_node(name)[:]


def nodes(path):
    """All leaves of a file as {path: (array, title, attributes)}; the recorded arguments are left out."""
    out = {}
    with tb.open_file(path, 'r') as f:
        for n in f.walk_nodes('/', 'Leaf'):
            if n._v_pathname.startswith(('/arguments', '/configuration')):
                continue
            at = {k: np.array(n._v_attrs[k]) for k in n._v_attrs._v_attrnamesuser}
            out[n._v_pathname] = (n[:] if n.shape is not None and n.ndim else n.read(), at)
    return out


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names:
        return all(same_array(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind == 'f':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff_nodes(x, y):
    """First difference of two results of nodes(), None if there is none."""
    if sorted(x) != sorted(y):
        return 'nodes differ: %s' % (set(x) ^ set(y))
    for k in x:
        if not same_array(x[k][0], y[k][0]):
            a, b = np.asarray(x[k][0]), np.asarray(y[k][0])
            d = 'dtype %s/%s shape %s/%s' % (a.dtype, b.dtype, a.shape, b.shape)
            if a.dtype == b.dtype and a.shape == b.shape:
                if a.dtype.names:
                    d += ' columns %s' % [n for n in a.dtype.names if not same_array(a[n], b[n])]
                else:
                    d += ' %d elements' % np.count_nonzero(a != b)
            return '%s: %s' % (k, d)
        if sorted(x[k][1]) != sorted(y[k][1]) or not all(same_array(x[k][1][n], y[k][1][n]) for n in x[k][1]):
            return '%s: attributes differ' % k
    return None


def max_per_event(*arrays):
    m = 1
    for a in arrays:
        if len(a):
            m = max(m, int(np.unique(a['event_number'], return_counts=True)[1].max()))
    return m


def chunk_sizes(rng, n, top, k=1):
    """Chunk sizes larger than the largest event: smallest allowed, a few rows, a few chunks, everything at once."""
    pool = [top + 1, top + 2, top + int(rng.integers(1, 9)), max(top + 1, n // 3 + 1), max(top + 1, n // 7 + 1), max(n, top + 1), n + 1 + top, 10 ** 6]
    return [int(pool[i]) for i in rng.integers(len(pool), size=k)]


def random_hits(rng, n_events, shape, max_hits=12, clustered=True, duplicates=False, frames=1, dtype=HIT, style=None, charge='mixed'):
    """Hit table: for each event a number of seeds with some neighbours."""
    nc, nr = shape
    ev = event_numbers(rng, n_events, style)
    rows = []
    for e in ev:
        n = int(rng.integers(1, max_hits + 1))
        c, r = rng.integers(1, nc + 1, n), rng.integers(1, nr + 1, n)
        if clustered and rng.random() < .8:
            k = min(n, int(rng.integers(1, 4)))
            base = rng.integers(0, k, n)
            c = np.clip(c[base] + rng.integers(-2, 3, n), 1, nc)
            r = np.clip(r[base] + rng.integers(-2, 3, n), 1, nr)
        if rng.random() < .1:
            c, r = rng.choice([1, nc], n), rng.choice([1, nr], n)
        f = rng.integers(0, frames, n)
        pix = list(zip(c.tolist(), r.tolist(), f.tolist()))
        if not duplicates:
            seen, keep = set(), []
            for p in pix:
                if p[:2] not in seen:
                    seen.add(p[:2])
                    keep.append(p)
            pix = keep
        rows += [(e,) + p for p in pix]
    a = np.zeros(len(rows), dtype)
    if rows:
        m = np.array(rows, dtype=np.int64)
        a['event_number'], a['column'], a['row'], a['frame'] = m[:, 0], m[:, 1], m[:, 2], m[:, 3]
        if charge == 'mixed':
            a['charge'] = rng.integers(0, 15, len(a)) + (rng.random(len(a)) if rng.random() < .3 else 0)
        else:
            a['charge'] = 1.
    return a


def telescope(path, rng=None, n_duts=3, specs=None, dz=10000., offsets=False, rotations=False, sizes=None, types=None):
    """Telescope configuration file of rectangular pixel sensors; returns the Telescope object.
    specs: list of dicts with any of the sensor parameters."""
    from beam_telescope_analysis.telescope.telescope import Telescope
    tel = Telescope()
    for i in range(n_duts):
        p = dict(name='D%d' % i, translation_x=0., translation_y=0., translation_z=i * dz, rotation_alpha=0., rotation_beta=0., rotation_gamma=0.,
                 column_size=50., row_size=50., n_columns=80, n_rows=64, material_budget=1e-3)
        if offsets:
            p.update(translation_x=float(rng.normal(0, 100)), translation_y=float(rng.normal(0, 100)))
        if rotations:
            p.update(rotation_alpha=float(rng.normal(0, .05)), rotation_beta=float(rng.normal(0, .05)), rotation_gamma=float(rng.choice([0., np.pi / 2, rng.normal(0, .1)])))
        if sizes:
            cs, rs, nc, nr = sizes[i % len(sizes)]
            p.update(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr)
        if specs and specs[i]:
            p.update(specs[i])
        tel.add_dut('RectangularPixelDut', i, **p)
    tel.save_configuration(path)
    return tel


def rotation(a, b, g):
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    rx = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    ry = np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
    rz = np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]])
    return rz @ ry @ rx


def pose(dut, **kw):
    """Rotation and translation of a sensor."""
    g = lambda k: kw.get(k, getattr(dut, k))
    return rotation(g('rotation_alpha'), g('rotation_beta'), g('rotation_gamma')), np.array([g('translation_x'), g('translation_y'), g('translation_z')])


def to_global(dut, x, y):
    R, T = pose(dut)
    return (R @ np.array([x, y, np.zeros_like(x)])) + T[:, None]


def to_local(dut, x, y, z):
    R, T = pose(dut)
    return R.T @ (np.array([x, y, z]) - T[:, None])


CLUSTER = np.dtype([('event_number', '<i8'), ('cluster_ID', '<u2'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_column', '<u2'), ('seed_row', '<u2'),
                    ('mean_column', '<f8'), ('mean_row', '<f8'), ('err_column', '<f4'), ('err_row', '<f4'), ('n_cluster', '<u4'), ('cluster_shape', '<i8')])
LCLUSTER = np.dtype([('event_number', '<i8'), ('cluster_ID', '<u2'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_x', '<f8'), ('seed_y', '<f8'),
                     ('mean_x', '<f8'), ('mean_y', '<f8'), ('err_x', '<f4'), ('err_y', '<f4'), ('n_cluster', '<u4'), ('cluster_shape', '<i8')])


def random_clusters(rng, events, counts, geo, positions=False):
    """Cluster table with counts[i] clusters in events[i]; the values need not stem from hits. geo = (column size, row size, columns, rows)."""
    cs, rs, nc, nr = geo
    counts = np.asarray(counts, int)
    n = int(counts.sum())
    a = np.zeros(n, LCLUSTER if positions else CLUSTER)
    a['event_number'] = np.repeat(np.asarray(events, np.int64), counts)
    a['n_cluster'] = np.repeat(counts, counts)
    a['cluster_ID'] = np.concatenate([np.arange(k) for k in counts]) if n else 0
    a['n_hits'] = rng.integers(1, 9, n)
    a['charge'] = rng.random(n) * 30
    a['frame'] = rng.integers(0, 3, n)
    a['cluster_shape'] = rng.choice([-1, 1, 3, 5, 15, 2 ** 40 + 1], n)
    col, row = .5 + rng.random(n) * nc, .5 + rng.random(n) * nr
    whole = rng.random(n) < .5
    col[whole], row[whole] = rng.integers(1, nc + 1, n)[whole], rng.integers(1, nr + 1, n)[whole]
    if positions:
        a['mean_x'], a['mean_y'] = cs * (col - .5 - nc / 2.), rs * (row - .5 - nr / 2.)
        a['seed_x'], a['seed_y'] = a['mean_x'], a['mean_y']
        a['err_x'], a['err_y'] = rng.random(n) * cs, rng.random(n) * rs
    else:
        a['mean_column'], a['mean_row'] = col, row
        a['seed_column'], a['seed_row'] = np.clip(np.rint(col), 1, nc), np.clip(np.rint(row), 1, nr)
        a['err_column'], a['err_row'] = rng.random(n), rng.random(n)
    return a


def random_geo(rng):
    return (float(rng.choice([50., 18.4, 250.])), float(rng.choice([50., 18.4, 100.])), int(rng.choice([80, 1, 1152, 20])), int(rng.choice([336, 2, 576, 64])))


def merged_dtype(n):
    d = [('event_number', '<i8')] + [('%s_dut_%d' % (c, i), '<f8') for c in 'xyz' for i in range(n)]
    for c, t in (('charge', '<f4'), ('frame', '<u2'), ('n_hits', '<u4'), ('cluster_ID', '<i2'), ('cluster_shape', '<i8'), ('n_cluster', '<u4')):
        d += [('%s_dut_%d' % (c, i), t) for i in range(n)]
    return np.dtype(d + [('hit_flag', '<u4')] + [('%s_err_dut_%d' % (c, i), '<f4') for c in 'xyz' for i in range(n)])


def merged(rng, events, n, err=10.):
    """Merged table without hits in given rows."""
    m = np.zeros(len(events), merged_dtype(n))
    m['event_number'] = events
    for i in range(n):
        for c in ('x', 'y', 'z', 'charge', 'x_err', 'y_err', 'z_err'):
            m['%s_dut_%d' % (c, i)] = np.nan
    return m


def put_hits(rng, m, i, rows, x, y, xerr=10., yerr=10., first_id=0):
    """Hits of sensor i in the given rows; every hit has an identity: cluster ID counts up within the event."""
    rows = np.asarray(rows)
    n = len(rows)
    m['x_dut_%d' % i][rows], m['y_dut_%d' % i][rows], m['z_dut_%d' % i][rows] = x, y, 0.
    m['x_err_dut_%d' % i][rows], m['y_err_dut_%d' % i][rows], m['z_err_dut_%d' % i][rows] = xerr, yerr, 0.
    m['charge_dut_%d' % i][rows] = rng.random(n) * 20 + 1
    m['frame_dut_%d' % i][rows] = rng.integers(0, 5, n)
    m['n_hits_dut_%d' % i][rows] = rng.integers(1, 6, n)
    m['cluster_shape_dut_%d' % i][rows] = rng.integers(-1, 2 ** 20, n)
    m['n_cluster_dut_%d' % i][rows] = rng.integers(1, 6, n)
    ev = m['event_number'][rows]
    ids = np.zeros(n, int)
    for e in np.unique(ev):
        w = ev == e
        ids[w] = rng.permutation(np.count_nonzero(w))
    m['cluster_ID_dut_%d' % i][rows] = ids


def set_hit_flag(m, n):
    m['hit_flag'] = sum(np.isfinite(m['x_dut_%d' % i]).astype(np.uint32) << np.uint32(i) for i in range(n))


def line_hits(dut, offset, slope):
    """Local intersection of lines with the sensor."""
    R, T = pose(dut)
    nrm = R[:, 2]
    t = ((T - offset) @ nrm) / (slope @ nrm)
    p = offset + t[:, None] * slope
    return to_local(dut, p[:, 0], p[:, 1], p[:, 2])[:2]


def tracks_dtype(n, full=False):
    d = list(merged_dtype(n).descr)
    d += [(c, '<f8') for c in ('offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z')]
    d += [('%s_%s_dut_%d' % (w, c, i), '<f8') for i in range(n) for w in ('offset', 'slope') for c in 'xyz'] if full else []
    d += [(c, '<f8') for c in ('track_chi2', 'track_chi_red', 'track_chi_prob')]
    return np.dtype(d + [(c, '<u4') for c in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag')])


def random_tracks(rng, events, n, scale=1000.):
    """Track table with arbitrary contents."""
    t = np.zeros(len(events), tracks_dtype(n))
    t['event_number'] = events
    k = len(t)
    for c in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag', 'hit_flag'):
        p = rng.choice([.2, .6, .95])
        for i in range(n):
            t[c] |= (rng.random(k) < p).astype(np.uint32) << np.uint32(i)
    for i in range(n):
        h = (t['hit_flag'] >> np.uint32(i) & 1).astype(bool)
        for c in ('x', 'y', 'z', 'x_err', 'y_err', 'z_err', 'charge'):
            t['%s_dut_%d' % (c, i)] = np.where(h, 0 if c in ('z', 'z_err') else rng.normal(0, scale, k) if c in 'xy' else rng.integers(1, 40, k) / 2., np.nan)
        t['n_hits_dut_%d' % i] = np.where(h, rng.integers(1, 6, k), 0)
        t['cluster_ID_dut_%d' % i] = np.where(h, rng.integers(0, 9, k), 0)
        t['frame_dut_%d' % i] = np.where(h, rng.integers(0, 4, k), 0)
        t['cluster_shape_dut_%d' % i] = np.where(h, rng.choice([-1, 1, 3, 5, 15], k), 0)
        t['n_cluster_dut_%d' % i] = np.where(h, rng.integers(1, 6, k), 0)
    t['offset_x'], t['offset_y'] = rng.normal(0, scale, (2, k))
    t['slope_x'], t['slope_y'] = rng.normal(0, 1e-3, (2, k))
    t['slope_z'] = 1
    t['track_chi2'] = rng.integers(0, 40, k) / 2.
    t['track_chi_red'] = t['track_chi2'] / 4
    t['track_chi2'][rng.random(k) < .05] = np.nan
    return t


def hist_bounds(values, edges, eps=1e-7):
    """Lowest and highest allowed counts of a histogram (numpy convention, last bin closed) for values that may be on an edge within rounding.
    values: list of arrays, edges: list of arrays of edges."""
    keep = np.ones(len(values[0]), bool)
    for v in values:
        keep &= np.isfinite(v)
    lo_i, hi_i, amb = [], [], np.zeros(int(keep.sum()), bool)
    shape = tuple(len(e) - 1 for e in edges)
    for v, e in zip(values, edges):
        v, e = np.asarray(v, float)[keep], np.asarray(e, float)
        d = eps * (np.abs(e).max() + (e[-1] - e[0]))
        a, b = np.searchsorted(e, v - d, 'right') - 1, np.searchsorted(e, v + d, 'right') - 1
        n = len(e) - 1
        amb |= a != b
        lo_i.append(a)
        hi_i.append(b)
    def fill(idx, sel):
        h = np.zeros(shape, int)
        ok = sel.copy()
        for i, n in zip(idx, shape):
            ok &= (i >= 0) & (i < n)
        np.add.at(h, tuple(i[ok] for i in idx), 1)
        return h
    lo = fill(lo_i, ~amb)
    hi = lo.copy()
    # every combination of neighbouring bins is possible for ambiguous values
    import itertools
    for comb in set(itertools.product((0, 1), repeat=len(values))):
        hi = hi + fill([(lo_i, hi_i)[c][k] for k, c in enumerate(comb)], amb)
    return lo, hi, int(amb.sum())


def hist_ok(h, values, edges):
    """Whether h can be the histogram of the values."""
    h = np.asarray(h)
    if h.shape != tuple(len(e) - 1 for e in edges):
        return False
    lo, hi, _ = hist_bounds(values, edges)
    return bool(np.all(h >= lo) and np.all(h <= hi))


FLIP = {0: np.eye(3), 1: np.diag([-1., 1., -1.]), 2: np.diag([1., -1., -1.]), 3: np.diag([-1., -1., 1.])}    # none, x, y, both: changes of the handedness seen in the global frame
