"""Straight-line track fit: stored tracks, fit parameters and chi2 against an independent orthogonal least-squares fit."""
import os

import numpy as np
import tables as tb

from bta import gen
from bta.checks import fitdata

ID = 'C12'
RULE = 'a case is one set of track candidates on one telescope with one choice of fitted sensors, fit sensors, required hits and minimum number of hits; non-trivial when some candidates are not to be stored and sensors are fitted with different settings'
MIN = {'tracks': 5000, 'not_stored': 1000, 'excluded_sensor_tracks': 1000, 'two_hit_tracks': 100, 'keep_data': 8, 'max_events': 8, 'at_the_limit': 30, 'full_info': 15, 'chunked': 20}


def cases(seed, tier):
    k = 150 if tier == 'quick' else 4000
    return [dict(seed=seed * 8191 + i, mode=('plain', 'plain', 'keep', 'limit', 'plain')[i % 5]) for i in range(k)] + [dict(seed=seed * 8191 + k + i, mode='cap') for i in range(k // 3)]


def warm():
    from bta import pykalman
    pykalman.load()
    from beam_telescope_analysis import track_analysis as ta
    rng = np.random.default_rng(0)
    os_cpu, os.cpu_count = os.cpu_count, lambda: 1
    for ev in ([0, 0, 1], [0]):
        gen.telescope('warm.yaml', n_duts=3)
        m = gen.merged(rng, ev, 3)
        for i in range(3):
            gen.put_hits(rng, m, i, np.arange(len(ev)), 0., 0.)
        gen.set_hit_flag(m, 3)
        gen.write_table('warm.h5', 'TrackCandidates', m)
        try:
            ta.fit_tracks('warm.yaml', 'warm.h5', output_tracks_file='warm_o.h5', plot=False)
        except Exception:
            pass
    os.cpu_count = os_cpu


def run(case, ctx):
    from beam_telescope_analysis import track_analysis as ta
    rng = ctx.rng
    ncpu = int(rng.integers(1, 4))
    os.cpu_count = lambda: ncpu
    cap = case['mode'] == 'cap'     # few of many events of very different sizes, in small chunks
    n = int(rng.choice([2, 3, 4, 6, 8], p=[.1, .25, .3, .2, .15])) if not cap else 3
    if n == 2:
        kw, per = dict(exclude_dut_hit=False, select_fit_duts=[0, 1]), {d: dict(fit=[0, 1], hit=[], least=2) for d in (0, 1)}
    else:
        kw, per = fitdata.settings(rng, n)
    tel, _ = fitdata.telescope(rng, ctx.path('t.yaml'), n)
    sizes, small = fitdata.uneven(rng) if cap else (None, None)
    m = fitdata.candidates(rng, tel, n, len(sizes) if cap else int(rng.choice([1, 6, 40])), int(rng.choice([1, 2, 5])), sizes=sizes, missing=0. if cap and rng.random() < .5 else .15, noise=float(rng.choice([0, 5., 40.])))
    keep, full = case['mode'] == 'keep', bool(rng.random() < .3)
    limit = int(rng.choice([1, 3, 20, 1000])) if case['mode'] == 'limit' else int(rng.integers(1, 7)) if cap else None
    cs = gen.chunk_sizes(rng, len(m), gen.max_per_event(m))[0]
    if cap:
        cs = small
    det = dict(n=n, rows=len(m), chunk_size=cs, cpus=ncpu, mode=case['mode'], limit=limit, **{k: v for k, v in kw.items()})
    gen.write_table(ctx.path('in.h5'), 'TrackCandidates', m)
    out = ctx.path('out.h5')
    with ctx.sut('fit_tracks'):
        ta.fit_tracks(ctx.path('t.yaml'), ctx.path('in.h5'), output_tracks_file=out, max_events=limit, keep_data=keep, full_track_info=full, plot=False, chunk_size=cs, quality_distances=None, isolation_distances=None, method=str(rng.choice(['fit', 'Fit'])), **kw)
    with tb.open_file(out) as f:
        tabs = {nd._v_name: nd[:] for nd in f.root if isinstance(nd, tb.Table)}
    tabs = {k: v for k, v in tabs.items() if k.startswith('Tracks_DUT')}
    ctx.expect(set(tabs) <= {'Tracks_DUT%d' % d for d in per}, 'tables', 'tracks of sensors that are not selected', got=sorted(tabs), **det)
    for d, s in per.items():
        fitted, stored = fitdata.select(m, s)
        t = tabs.get('Tracks_DUT%d' % d)
        dd = dict(dut=d, setting=s, **det)
        if t is None:       # no table is created for no tracks
            ctx.expect(not stored.any(), 'missing-table', 'no tracks table, but there are %d tracks' % stored.sum(), **dd)
            continue
        if keep:
            # candidates of a chunk without any track may be left out
            if cs > len(m):
                rows = np.arange(len(m))
            else:
                left = np.unique(t['event_number'])
                ctx.expect(np.isin(m['event_number'][stored], left).all(), 'kept', 'candidates of events with tracks are not kept', **dd)
                rows = np.flatnonzero(np.isin(m['event_number'], left))
        elif limit:
            good = np.unique(m['event_number'][stored])
            left = np.unique(t['event_number'])
            ctx.expect(np.isin(left, good).all(), 'events', 'tracks in events without tracks', **dd)
            ctx.expect(len(left) <= limit and (cs <= len(m) or len(left) == min(limit, len(good))), 'max-events', 'wrong number of events with tracks', got=len(left), available=len(good), **dd)
            rows = np.flatnonzero(stored & np.isin(m['event_number'], left))
            ctx.count(max_events=1, at_the_limit=len(left) == limit)
        else:
            rows = np.flatnonzero(stored)
        ctx.expect(len(t) == len(rows), 'stored', 'number of stored tracks is wrong', stop=True, got=len(t), want=len(rows), **dd)
        for c in m.dtype.names:
            ctx.expect(gen.same_array(t[c], m[c][rows]), 'columns', 'column %s of the candidates is changed' % c, **dd)
        has = fitted[rows]
        off, slo, good = fitdata.lines(m, tel, s['fit'], rows[has])
        R = np.flatnonzero(has)
        frames = [(d, '')] + ([(i, '_dut_%d' % i) for i in range(n)] if full else [])
        for i, suf in frames:
            x, y, sl = fitdata.intersect(tel[i], off, slo)
            got = np.column_stack([t['offset_%s%s' % (c, suf)][R] for c in 'xyz'])
            want = np.column_stack([x, y, np.zeros_like(x)])
            near = good & (np.abs(want).max(axis=1) < 1e6)
            bad = near & ~(np.abs(got - want) < 1e-4 * (1 + 1e-5 * np.abs(want))).all(axis=1)
            ctx.expect(not bad.any(), 'offset', 'offset is not the intersection of the least-squares line with the sensor', at=i, row=int(rows[R[bad][0]]) if bad.any() else None, got=got[bad][:1], want=want[bad][:1], **dd)
            got = np.column_stack([t['slope_%s%s' % (c, suf)][R] for c in 'xyz'])
            bad = good & ~(np.abs(got - sl) < 1e-7).all(axis=1)
            ctx.expect(not bad.any(), 'slope', 'slope is not the direction of the least-squares line', at=i, got=got[bad][:1], want=sl[bad][:1], **dd)
        nohit = np.flatnonzero(~has)
        for c in ('offset_x', 'offset_y', 'slope_x', 'slope_z', 'track_chi2', 'track_chi_red'):
            ctx.expect(np.isnan(t[c][nohit]).all(), 'not-fitted', 'candidate that is not fitted has track information in column %s' % c, **dd)
        chi, k, same = np.zeros(len(R)), np.zeros(len(R), int), np.zeros(len(R))
        for i in s['fit']:
            x, y, _ = fitdata.intersect(tel[i], off, slo)
            hx, hy = m['x_dut_%d' % i][rows[R]], m['y_dut_%d' % i][rows[R]]
            ok = np.isfinite(hx)
            c = ((hx - x) / m['x_err_dut_%d' % i][rows[R]].astype(float)) ** 2 + ((hy - y) / m['y_err_dut_%d' % i][rows[R]].astype(float)) ** 2
            chi += np.where(ok, c, 0)
            k += ok
        got, red = t['track_chi2'][R], t['track_chi_red'][R]
        bad = good & ~(np.abs(got - chi) <= 1e-5 + 1e-4 * chi)
        ctx.expect(not bad.any(), 'chi2', 'chi2 is not derived from the hits of the fit sensors', got=got[bad][:2], want=chi[bad][:2], **dd)
        more = good & (k > 2)
        bad = more & ~(np.abs(red - chi / np.where(k > 2, 2. * (k - 2), 1)) <= 1e-5 + 1e-4 * chi)
        ctx.expect(not bad.any(), 'chi2-red', 'reduced chi2 is not chi2 per degree of freedom', got=red[bad][:2], want=(chi / np.maximum(2 * (k - 2), 1))[bad][:2], **dd)
        bad = good & (k == 2) & ~(np.abs(red) < 1e-3)
        ctx.expect(not bad.any(), 'chi2-red', 'reduced chi2 of tracks with two hits is not zero', got=red[bad][:2], **dd)
        ctx.ok(tracks=len(R), ill_conditioned=int((~good).sum()), two_hit_tracks=int((k == 2).sum()), not_stored=int(len(m) - len(rows)), keep_data=keep, full_info=full,
               excluded_sensor_tracks=0 if d in s['fit'] else int((popd(m, d)[rows]).sum()))
    ctx.count(chunked=cs < len(m))
    if len({str(s) for s in per.values()}) > 1:
        ctx.interesting(n, len(m), case['mode'], len(per))
    ctx.sample = dict(det, stored={k: len(v) for k, v in tabs.items()})


def popd(m, d):
    return (m['hit_flag'] >> np.uint32(d)) & 1
