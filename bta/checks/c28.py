"""Consistency check of hit files: stored event statistics, correlation of neighbouring events, and refusal of bad data."""
import math

import numpy as np
import tables as tb

from bta import gen
from bta.checks.c09 import random_table, n_bins

ID = 'C28'
RULE = 'a case is one hit or cluster table with one event range, resolution and chunk size, either proper or with one defect; non-trivial when neighbouring events are in different chunks or a defect is present'
MIN = {'tables': 100, 'events': 3000, 'chunked': 40, 'neighbour_pairs': 20000, 'refused': 60, 'defect_decreasing': 10, 'defect_outside': 10, 'defect_zero': 5, 'wrapper_sensors': 8, 'negative_numbers': 3}


def cases(seed, tier):
    n = 700 if tier == 'quick' else 8000
    return [dict(seed=seed * 8191 + i, mode='wrapper' if i % 40 == 6 else 'defect' if i % 2 else 'proper') for i in range(n)]


def warm():
    from beam_telescope_analysis import hit_analysis  # noqa
    from beam_telescope_analysis.tools import analysis_utils as au
    try:
        for ev in (np.zeros(1, np.int64), np.zeros(2, gen.HIT)['event_number'], np.zeros(1, gen.HIT)['event_number']):
            ix = np.zeros(len(ev), np.uint32)
            h = np.zeros((1, 1), np.int32)
            for kw in ({}, {'start_index': 0}):
                try:
                    au.correlate_hits_on_event_range(event_numbers=ev, x_indices=ix, y_indices=ix, x_corr_hist=h, y_corr_hist=h, event_range=1, **kw)
                except TypeError:
                    pass
    except Exception:
        pass


def wrapper(case, ctx):
    """check() of several sensors gives for each sensor the file of its own settings."""
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    geos = [gen.random_geo(rng) for _ in range(n)]
    tel = gen.telescope(ctx.path('t.yaml'), rng, n_duts=n, sizes=geos, offsets=True, rotations=True)
    sel = rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist()
    files = []
    for i in sel:
        _, name, t, _, _ = random_table(rng, np.cumsum(rng.integers(1, 4, 25)), geos[i], 4)
        for c, m in (('mean_column', geos[i][2]), ('mean_row', geos[i][3])):
            if c in t.dtype.names:
                t[c] = np.clip(t[c], 1, m)
        files.append(gen.write_table(ctx.path('w%d.h5' % i), name, t))
    ranges = [int(rng.integers(0, 5)) for _ in sel]
    res = [tuple(float(max(rng.uniform(20, 900), s / 200.)) for s in (geos[i][0] * geos[i][2], geos[i][1] * geos[i][3])) for i in sel]
    out = [ctx.path('o%d.h5' % i) for i in sel] if rng.random() < .7 else None
    det = dict(sel=sel, ranges=ranges, resolutions=res)
    with ctx.sut('check'):
        got = ha.check(ctx.path('t.yaml'), files, output_check_files=out, select_duts=sel, event_ranges=ranges, resolutions=res, plot=False, chunk_size=1000)
    ctx.expect(len(got) == len(sel) and (out is None or list(got) == out), 'return', 'wrong file names returned', got=got, **det)
    for j, i in enumerate(sel):
        one = ctx.path('s%d.h5' % i)
        ha.check_file(tel[i], files[j], output_check_file=one, event_range=ranges[j], resolution=res[j], plot=False, chunk_size=1000)
        a, b = gen.nodes(one), gen.nodes(got[j])
        ctx.expect(sorted(a) == sorted(b) and all(gen.same_array(a[k][0], b[k][0]) for k in a), 'wrapper', 'file of sensor %d is not the result of its own settings' % i, **det)
    ctx.ok(wrapper_sensors=len(sel))


def run(case, ctx):
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    geo = gen.random_geo(rng)
    cs, rs, nc, nr = geo
    if case['mode'] == 'wrapper':
        return wrapper(case, ctx)
    tel = gen.telescope(ctx.path('t.yaml'), rng, n_duts=1, sizes=[geo], offsets=True, rotations=True)
    n_ev = int(rng.choice([1, 3, 30, 120]))
    start = int(rng.choice([0, 0, 1, 7, 10 ** 9]))
    step = int(rng.choice([1, 2, 5]))
    ev = start + np.cumsum(np.r_[0, rng.integers(1, step + 1, n_ev - 1)])
    top = int(rng.choice([1, 4, 9]))
    kind, name, t, col, row = random_table(rng, ev, geo, top)
    pre = 'mean_' if 'cluster' in kind else ''
    if kind == 'clusters':      # a weighted mean of the indices of pixels
        t['mean_column'], t['mean_row'] = np.clip(t['mean_column'], 1, nc), np.clip(t['mean_row'], 1, nr)
        col, row = t['mean_column'].astype(float), t['mean_row'].astype(float)
    res = (cs, rs)
    if rng.random() < .7 or max(nc, nr) > 300:
        res = tuple(float(max(rng.choice([20., 100., 333.3, rng.uniform(20, 900)]), s / 300.)) for s in (cs * nc, rs * nr))
    given = res != (cs, rs)
    rang = int(rng.choice([1, 1, 0, 2, 3, 7]))
    chunk = gen.chunk_sizes(rng, len(t), gen.max_per_event(t))[0]
    det = dict(kind=kind, rows=len(t), chunk_size=chunk, event_range=rang, resolution=res, geo=geo, start=start, mode=case['mode'])
    if start < 5 and rng.random() < .15 and case['mode'] == 'proper':     # negative event numbers: refused, or stored as they are
        t['event_number'] -= 5 + int(rng.integers(5))
        gen.write_table(ctx.path('in.h5'), name, t)
        ctx.ok(negative_numbers=1)
        try:
            ha.check_file(tel[0], ctx.path('in.h5'), output_check_file=ctx.path('out.h5'), event_range=rang, plot=False, chunk_size=chunk)
        except RuntimeError:
            return
        E = gen.read(ctx.path('out.h5'), 'EventNumber')
        ctx.expect(np.array_equal(E.astype(float), np.unique(t['event_number'])), 'negative', 'negative event numbers are stored as other numbers', got=E[:5], events=t['event_number'][:5].tolist(), **det)
        return
    defect = None
    if case['mode'] == 'defect':
        k = int(rng.integers(len(t)))
        c = ['decreasing'] if len(np.unique(t['event_number'])) > 1 else []
        c += (['outside', 'outside'] if kind[0] == 'l' else ['zero', 'outside'])
        defect = str(rng.choice(c))
        if defect == 'decreasing':
            k = int(rng.integers(np.searchsorted(t['event_number'], ev[0], 'right'), len(t)))     # some hit of a later event
            t['event_number'][k:] -= t['event_number'][k] - t['event_number'][k - 1] + int(rng.integers(1, 3))
            if start < 3:
                t['event_number'] += 5 + int(max(0, -t['event_number'].min()))
        elif kind[0] == 'l':
            f, h = [(pre + 'x', cs * nc / 2.), (pre + 'y', rs * nr / 2.)][int(rng.integers(2))]
            t[f][k] = rng.choice([-1, 1]) * (h + rng.choice([1e-3, 1., 5000., abs(cs * nc - rs * nr) / 4 + 1e-3]))
        else:
            f, m = [(pre + 'column', nc), (pre + 'row', nr)][int(rng.integers(2))]
            t[f][k] = (0 if rng.random() < .5 or not pre else .4) if defect == 'zero' else m + (1 if not pre or rng.random() < .5 else .6)
    f = gen.write_table(ctx.path('in.h5'), name, t)
    out = ctx.path('out.h5')
    kw = dict(event_range=rang, resolution=res if given else None, plot=False, chunk_size=chunk)

    def call():
        if rng.random() < .3:
            kw2 = dict(kw)
            kw2['event_ranges'], kw2['resolutions'] = [kw2.pop('event_range')], [kw2.pop('resolution')]
            return ha.check(ctx.path('t.yaml'), [f], output_check_files=[out], **kw2)[0]
        return ha.check_file(tel[0], f, output_check_file=out, **kw)
    if defect:
        try:
            call()
        except Exception as e:
            ctx.ok(refused=1, **{'defect_' + defect: 1})
            ctx.expect(not isinstance(e, (TypeError, NameError, AttributeError, KeyError)), 'refusal', 'refusal of bad data fails itself: %r' % e, defect=defect, **det)
        else:
            ctx.violate('accepted', 'file with bad data passed the check', defect=defect, row=k, events=t['event_number'][:40].tolist(), **det)
        ctx.interesting('defect', defect, kind, chunk < len(t))
        return
    with ctx.sut('check_file'):
        r = call()
    ctx.expect(r == out, 'return', 'returned file name is wrong', **det)
    with tb.open_file(out) as o:
        E, D, H = o.root.EventNumber[:], o.root.EventDelta[:], [o.root.CorrelationColumns[:], o.root.CorrelationRows[:]]
    u = np.unique(t['event_number'])
    ctx.expect(np.array_equal(E.astype(np.int64), u), 'event-numbers', 'stored event numbers are not the numbers of the events with hits', got=E[:20], want=u[:20], **det)
    ctx.expect(np.array_equal(D.astype(np.int64), np.diff(u)), 'event-deltas', 'stored distances of consecutive events are wrong', got=D[:20], want=np.diff(u)[:20], n=(len(D), len(u) - 1), **det)
    e = t['event_number']
    lo, hi = np.searchsorted(e, e - rang, 'left'), np.searchsorted(e, e, 'left')
    cur = np.repeat(np.arange(len(e)), hi - lo)
    prev = np.concatenate([np.arange(a, b) for a, b in zip(lo, hi)]).astype(int)
    for ax, h in enumerate(H):
        s, p = ((cs, nc), (rs, nr))[ax]
        dd = dict(axis='xy'[ax], **det)
        ctx.expect(h.shape[0] == h.shape[1] and h.shape[0] in n_bins(s * p, res[ax]), 'shape', 'histogram does not cover the sensor', shape=h.shape, **dd)
        ctx.expect(int(h.sum()) == len(cur), 'pairs', 'number of correlated pairs of neighbouring events is wrong', got=int(h.sum()), want=len(cur), **dd)
        loc = s * ((col, row)[ax] - .5 - p / 2.)
        v = loc / res[ax] + h.shape[0] / 2.
        clear = np.abs(v - np.rint(v)) > 1e-6
        b = np.clip(np.floor(v).astype(int), 0, h.shape[0] - 1)
        ok = clear[cur] & clear[prev]
        w = np.zeros(h.shape, np.int64)
        np.add.at(w, (b[prev[ok]], b[cur[ok]]), 1)
        may = np.zeros(h.shape, bool)
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                may[np.clip(b[prev[~ok]] + i, 0, h.shape[0] - 1), np.clip(b[cur[~ok]] + j, 0, h.shape[0] - 1)] = True
        bad = (h < w) | ((h > w) & ~may)
        ctx.expect(not bad.any(), 'bins', 'pairs of neighbouring events are in wrong bins', differing=np.argwhere(bad)[:5].tolist(), **dd)
    ctx.ok(tables=1, events=len(u), neighbour_pairs=len(cur), chunked=chunk < len(t), positions=kind[0] == 'l')
    if chunk < len(t) and len(cur):
        ctx.interesting(kind, rang, chunk, len(t))
    ctx.sample = dict(pairs=len(cur), events=len(u), **det)
