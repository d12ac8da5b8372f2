"""Events of a telescope in a particle beam: straight tracks through sensors at known places, hits in the pixels they cross."""
import numpy as np

from bta import gen


def tracks(rng, n_events, half, per_event=(1, 2), slope=1e-4, z0=0., mean_slope=(0., 0.)):
    """Event numbers, points at z0 and directions of tracks that illuminate a rectangle evenly."""
    ev = np.repeat(np.cumsum(rng.integers(1, 3, n_events)).astype(np.int64), rng.integers(per_event[0], per_event[1] + 1, n_events))
    o = np.column_stack([rng.uniform(-half[0], half[0], len(ev)), rng.uniform(-half[1], half[1], len(ev)), np.full(len(ev), z0)])
    s = np.column_stack([rng.normal(mean_slope[0], slope, len(ev)), rng.normal(mean_slope[1], slope, len(ev)), np.ones(len(ev))])
    return ev, o, s


def pixels(dut, x, y):
    """Column and row of local positions, and whether they are on the sensor."""
    c, r = np.floor(x / dut.column_size + dut.n_columns / 2.).astype(int) + 1, np.floor(y / dut.row_size + dut.n_rows / 2.).astype(int) + 1
    return c, r, (c >= 1) & (c <= dut.n_columns) & (r >= 1) & (r <= dut.n_rows)


def clusters(rng, dut, ev, o, s, efficiency=1., noise=0., events=None, sigma=None):
    """Cluster table of one sensor; every cluster is a single pixel, or has a position with the error sigma. Returns the table and the track number of every cluster (-1: noise)."""
    x, y = gen.line_hits(dut, o, s)
    if sigma is not None:
        x, y = x + rng.normal(0, sigma, len(x)), y + rng.normal(0, sigma, len(y))
    c, r, on = pixels(dut, x, y)
    on &= rng.random(len(ev)) < efficiency
    n = rng.poisson(noise, len(events)) if noise else np.zeros(0, int)
    e = np.concatenate([ev[on], np.repeat(events, n) if noise else np.zeros(0, np.int64)])
    mc, mr = x / dut.column_size + dut.n_columns / 2. + .5, y / dut.row_size + dut.n_rows / 2. + .5
    mc, mr = np.concatenate([mc[on], np.zeros(n.sum())]), np.concatenate([mr[on], np.zeros(n.sum())])
    c = np.concatenate([c[on], rng.integers(1, dut.n_columns + 1, n.sum())])
    r = np.concatenate([r[on], rng.integers(1, dut.n_rows + 1, n.sum())])
    no = np.concatenate([np.flatnonzero(on), np.full(n.sum(), -1)])
    # order of the clusters of an event is random
    order = np.lexsort((rng.random(len(e)), e))
    e, c, r, no, mc, mr = e[order], c[order], r[order], no[order], mc[order], mr[order]
    t = np.zeros(len(e), gen.CLUSTER)
    u, inv, cnt = np.unique(e, return_inverse=True, return_counts=True)
    t['event_number'], t['n_cluster'] = e, cnt[inv]
    t['cluster_ID'] = np.arange(len(e)) - np.searchsorted(e, e)
    t['n_hits'], t['charge'], t['cluster_shape'] = 1, rng.integers(1, 15, len(e)), 1
    t['seed_column'], t['seed_row'] = c, r
    t['mean_column'], t['mean_row'] = c, r
    t['err_column'], t['err_row'] = 1 / 12. ** .5, 1 / 12. ** .5
    if sigma is not None:
        t['mean_column'], t['mean_row'] = np.where(no >= 0, mc, c), np.where(no >= 0, mr, r)
        t['err_column'], t['err_row'] = sigma / dut.column_size, sigma / dut.row_size
    return t, no
