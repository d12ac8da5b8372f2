"""Track finding: exact accounting of the hits per event and sensor (regrouping only), and reassembly of simulated separated tracks
(parallel ones, and ones with large angles that cross between the sensors and need the extrapolation)."""
import numpy as np

from bta import gen
from bta.checks import fitdata

ID = 'C11'
RULE = 'a case is one merged table (random hits, or simulated tracks with shuffled hits) on one telescope with one setting; non-trivial when an event has several rows whose hits were regrouped'
MIN = {'events': 1500, 'hits': 10000, 'rows_regrouped': 500, 'tracks_reassembled': 3000, 'with_more_than_ten_sensors': 5, 'unordered_sensors': 20, 'tilted_beam': 10, 'crossing_tracks': 2500, 'at_the_limit': 20, 'coarse_sensor': 6, 'with_more_than_sixteen_sensors': 3}


def cases(seed, tier):
    n = 200 if tier == 'quick' else 6000
    return [dict(seed=seed * 8191 + i, mode=('random', 'tracks', 'fan', 'tracks')[i % 4]) for i in range(n)] + [dict(seed=seed * 8191 + n + i, mode='cap') for i in range(n // 5)]


def fan(rng, ctx):
    """Tracks with large and different angles: any two of them are separated in every sensor, but in different directions.
    -> arguments of find_tracks, telescope, table, identity of the track of every hit"""
    n = int(rng.choice([4, 5, 7, 10, 14, 18], p=[.2, .2, .2, .1, .1, .2]))
    order = rng.permutation(n) if rng.random() < .5 else np.arange(n)
    sep, slope = 400., float(rng.choice([.02, .1, .3]))
    gap = rng.choice([1000., 2e4, 4e4], n)
    lean = float(rng.choice([8e-3, .1, .2]))       # of the frame
    gap[0] = min(1000., .12 * sep / (slope + 2 * lean))      # the second sensor is close to the first one: no extrapolation is possible there
    coarse = int(rng.integers(2, n - 1)) if rng.random() < .5 and n > 4 else None
    if coarse is not None:
        gap[coarse], gap[coarse + 1:coarse + 2] = 1000., 4e4
    z = np.r_[0., np.cumsum(gap)[:-1]]
    specs = []
    for i in range(n):
        s = dict(translation_x=float(rng.normal(0, 500)), translation_y=float(rng.normal(0, 500)), translation_z=float(z[order[i]]), n_columns=1152, n_rows=576, column_size=18.4, row_size=18.4)
        if rng.random() < .5:
            tilt = .05 if order[i] > 1 and gap[order[i]] > 1e4 and gap[order[i] - 1] > 1e4 else 0
            s.update(rotation_alpha=float(rng.choice([0, np.pi]) + rng.normal(0, tilt)), rotation_beta=float(rng.normal(0, tilt)), rotation_gamma=float(rng.uniform(-3, 3)))
        specs.append(s)
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
    align = bool(rng.random() < .65)
    if rng.random() < .7:
        a, b = rng.uniform(-1, 1, 2) * lean
        tel.rotation_alpha, tel.rotation_beta = float(a), float(b)
        tel.translation_z = float(rng.choice([0., -.5 * z[-1]]))
        tel.save_configuration(ctx.path('t.yaml'))
    good = [i for i in range(n) if order[i] != coarse]
    sel = dict(all=good, default=None, some=sorted({i for i in good if order[i] < 2 or rng.random() < .5}), shuffled=rng.permutation(good).tolist())[str(rng.choice(['all', 'some', 'shuffled'] + ['default'] * (coarse is None)))]
    ev = gen.event_numbers(rng, int(rng.choice([1, 10, 30])))
    k = int(rng.choice([2, 4, 9]))
    ev_t, off, slo = [], [], []
    for e in ev:
        have = []
        for _ in range(3 * k):
            o, s = np.r_[rng.uniform(-4000, 4000, 2), 0.], np.r_[rng.uniform(-slope, slope, 2), 1.]
            pos = o[:2] + z[:, None] * s[:2]
            if len(have) < k and all((np.hypot(*(pos - q).T) > 2.5 * sep).all() for q in have):
                have.append(pos)
                ev_t.append(e), off.append(o), slo.append(s)
    ev_t, off, slo = np.array(ev_t), np.array(off), np.array(slo)
    m, truth = gen.merged(rng, ev_t, n), {}
    miss = float(rng.choice([0., .1, .4]))
    for i in range(n):
        lx, ly = gen.line_hits(tel[i], off, slo)
        r, phi = .45 * sep * np.sqrt(rng.random(len(lx))), rng.uniform(0, 2 * np.pi, len(lx))
        lx, ly = (lx + r * np.cos(phi), ly + r * np.sin(phi)) if order[i] == coarse else (lx + rng.normal(0, .01, len(lx)), ly + rng.normal(0, .01, len(ly)))
        rows = np.arange(len(ev_t))
        have = (rng.random(len(ev_t)) >= miss) | (order[i] < 2)
        target = rows.copy()
        for e in ev:
            w = np.flatnonzero(ev_t == e)
            target[w] = rng.permutation(w)
        gen.put_hits(rng, m, i, target[have], lx[have], ly[have])
        for t, r in zip(rows[have], target[have]):
            truth[(int(ev_t[t]), i, int(m['cluster_ID_dut_%d' % i][r]))] = int(t)
    ctx.count(coarse_sensor=coarse is not None, with_more_than_sixteen_sensors=n > 16)
    return dict(n=n, order=order, align=align, sel=sel, tel=tel, m=m, truth=truth, miss=miss, ev=ev)


def warm():
    from beam_telescope_analysis import track_analysis as ta
    rng = np.random.default_rng(0)
    for n, ev in ((2, [0, 0, 1]), (2, [0])):        # an array of one row is compiled for separately
        gen.telescope('warm.yaml', n_duts=n)
        m = gen.merged(rng, ev, n)
        for i in range(n):
            gen.put_hits(rng, m, i, np.arange(len(ev)), 0., 0.)
        gen.set_hit_flag(m, n)
        gen.write_table('warm.h5', 'MergedClusters', m)
        for o in (None, []):
            try:
                ta.find_tracks('warm.yaml', 'warm.h5', output_track_candidates_file='warm_o.h5', select_extrapolation_duts=o)
            except Exception:
                pass


def run(case, ctx):
    from beam_telescope_analysis import track_analysis as ta
    rng = ctx.rng
    small, late, miss, bx = None, False, 0., 0.
    if case['mode'] == 'fan':
        n, order, align, sel, tel, m, truth, miss, ev = fan(rng, ctx).values()
        n_ev = len(ev)
    else:
        n = int(rng.choice([1, 2, 3, 4, 6, 8, 12, 19], p=[.03, .12, .2, .2, .17, .13, .1, .05]))
        order = rng.permutation(n) if rng.random() < .5 else np.arange(n)      # position of the sensors along the beam
        dz = float(rng.choice([1e4, 4e4]))
        specs = []
        for i in range(n):
            s = dict(translation_x=float(rng.normal(0, 500)), translation_y=float(rng.normal(0, 500)), translation_z=float(dz * (order[i] + .2 * rng.random())), n_columns=1152, n_rows=576, column_size=18.4, row_size=18.4)
            if rng.random() < .5:
                s.update(rotation_alpha=float(rng.choice([0, np.pi]) + rng.normal(0, .05)), rotation_beta=float(rng.normal(0, .05)), rotation_gamma=float(rng.uniform(-3, 3)))
            specs.append(s)
        tel = gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
        tracks = case['mode'] == 'tracks'
        align = bool(rng.random() < .5)
        bx = by = 0.
        if tracks and align and rng.random() < .7:
            bx, by = rng.normal(0, 8e-3, 2)
            tel.rotation_alpha, tel.rotation_beta = float(np.arctan2(by, 1.)), float(np.arctan2(-bx, 1.))
            tel.save_configuration(ctx.path('t.yaml'))
        extra = rng.choice(['default', 'all', 'some', 'none', 'one'])
        sel = dict(default=None, all=list(range(n)), some=sorted(rng.choice(n, size=min(n, max(2, n // 2)), replace=False).tolist()), none=[], one=[int(rng.integers(n))])[str(extra)]
        n_ev = int(rng.choice([1, 10, 40]))
        ev = gen.event_numbers(rng, n_ev)
        truth = None
        if tracks:
            ev_t, off, slo, k = [], [], [], int(rng.choice([1, 2, 4, 9, 25]))
            sep = 1500.
            length = dz * 1.2 * n
            spread = min(1e-3, .1 * sep / length)       # displacement over the telescope small compared to the separation
            for e in ev:
                m_ = int(rng.integers(1, k + 1))
                cell = rng.permutation(36)[:m_]
                for c in cell:
                    ev_t.append(e)
                    off.append([(c % 6 - 2.5) * sep + rng.uniform(-150, 150), (c // 6 - 2.5) * sep + rng.uniform(-150, 150), 0.])
                    slo.append([bx + rng.uniform(-1, 1) * spread, by + rng.uniform(-1, 1) * spread, 1.])
            ev_t, off, slo = np.array(ev_t), np.array(off), np.array(slo)
            m = gen.merged(rng, ev_t, n)
            truth = {}
            first = int(np.argmin([tel[i].translation_z for i in range(n)]))
            miss = float(rng.choice([0., .1, .4]))
            late = rng.random() < .25       # instead of single missing hits: tracks that start late
            begin = rng.integers(0, max(1, n - 1), len(ev_t)) if late else np.zeros(len(ev_t), int)
            rank = np.argsort(np.argsort([tel[i].translation_z for i in range(n)]))
            for i in range(n):
                have = rank[i] >= begin if late else (rng.random(len(ev_t)) >= miss) | (i == first)
                lx, ly = gen.line_hits(tel[i], off, slo)
                lx, ly = lx + rng.normal(0, 4., len(lx)), ly + rng.normal(0, 4., len(ly))
                rows = np.arange(len(ev_t))
                target = rows.copy()
                for e in ev:
                    w = np.flatnonzero(ev_t == e)
                    target[w] = rng.permutation(w)
                gen.put_hits(rng, m, i, target[have], lx[have], ly[have])
                for t, r in zip(rows[have], target[have]):
                    truth[(int(ev_t[t]), i, int(m['cluster_ID_dut_%d' % i][r]))] = int(t)
        else:
            ev_t = np.repeat(ev, rng.integers(1, int(rng.choice([2, 4, 12])), n_ev) if rng.random() < .7 else np.where(rng.random(n_ev) < .5, 12, 1))
            if case['mode'] == 'cap':     # few of many events of very different sizes, in small chunks
                sizes, small = fitdata.uneven(rng)
                n_ev = len(sizes)
                ev_t = np.repeat(gen.event_numbers(rng, n_ev), sizes)
            m = gen.merged(rng, ev_t, n)
            for i in range(n):
                rows = np.flatnonzero(rng.random(len(ev_t)) < (rng.choice([0., .5, .9, 1.]) if i or not small else 1.))
                grid = rng.random() < .3      # many equal distances
                x, y = rng.uniform(-9000, 9000, (2, len(rows)))
                if grid:
                    x, y = np.round(x / 6000) * 6000, np.round(y / 3000) * 3000
                gen.put_hits(rng, m, i, rows, x, y)
            m = m[np.any([np.isfinite(m['x_dut_%d' % i]) for i in range(n)], axis=0)]
    gen.set_hit_flag(m, n)
    gen.write_table(ctx.path('m.h5'), 'MergedClusters', m)
    top = gen.max_per_event(m)
    cs = gen.chunk_sizes(rng, len(m), top)[0]
    me = int(rng.integers(1, n_ev + 3)) if rng.random() < .25 else None
    if small:
        cs, me = small, int(rng.integers(1, 7))
    det = dict(n=n, rows=len(m), chunk_size=cs, max_events=me, align_to_beam=align, select_extrapolation_duts=sel, order=order.tolist())
    kw = {} if sel is None and rng.random() < .5 else dict(select_extrapolation_duts=sel)
    with ctx.sut('find_tracks'):
        got = ta.find_tracks(ctx.path('t.yaml'), ctx.path('m.h5'), output_track_candidates_file=ctx.path('tc.h5'), align_to_beam=align, max_events=me, chunk_size=cs, **kw)
    ctx.expect(got == ctx.path('tc.h5'), 'return-value', 'returned file name', got=got)
    t = gen.read(got, 'TrackCandidates')
    ctx.expect(t.dtype == m.dtype, 'columns', 'columns of the track candidates', **det)
    src = m
    if me:
        have = np.unique(t['event_number'])
        ctx.expect(len(have) <= me, 'max-events', '%d events, at most %d requested' % (len(have), me), **det)
        if cs > len(m):
            ctx.expect(len(have) == min(me, len(np.unique(m['event_number']))), 'max-events', '%d events of %d, %d requested' % (len(have), n_ev, me), **det)
        src = m[np.isin(m['event_number'], have)]
        ctx.count(at_the_limit=len(have) == me, max_events=1)
    ctx.expect(np.array_equal(t['event_number'], src['event_number']), 'event-numbers', 'event numbers of the rows changed', **det)
    flag = np.zeros(len(t), np.int64)
    for i in range(n):
        cols = [c for c in m.dtype.names if c.endswith('_dut_%d' % i)]
        a, b = [np.lexsort((z['cluster_ID_dut_%d' % i], np.isnan(z['x_dut_%d' % i]), z['event_number'])) for z in (src, t)]
        for c in cols:
            ctx.expect(gen.same_array(src[c][a], t[c][b]), 'hits', 'hits of a sensor are not the hits given (column %s)' % c, dut=i, **det)
        flag |= np.isfinite(t['x_dut_%d' % i]).astype(np.int64) << i
    ctx.expect(np.array_equal(t['hit_flag'], flag), 'hit-flag', 'hit flag does not tell which sensors have a hit', **det)
    re = ~np.all([np.isclose(t['x_dut_%d' % i], src['x_dut_%d' % i], equal_nan=True) for i in range(n)], axis=0)
    good = 0
    if truth is not None:
        for r in range(len(t)):
            tr = {truth[(int(t['event_number'][r]), i, int(t['cluster_ID_dut_%d' % i][r]))] for i in range(n) if flag[r] >> i & 1}
            ctx.expect(len(tr) <= 1, 'tracks-mixed', 'separated tracks were not reassembled: hits of tracks %s in one candidate' % sorted(tr), row=r, event=int(t['event_number'][r]), late=late, miss=miss, **det)
            good += len(tr)
        want = len({truth[k] for k in truth if k[0] in set(t['event_number'].tolist())})
        ctx.expect(good == want, 'tracks-split', '%d track candidates for %d tracks' % (good, want), **det)
        ctx.count(crossing_tracks=good if case['mode'] == 'fan' else 0)
    ctx.count(events=len(np.unique(t['event_number'])), hits=sum(bin(f).count('1') for f in flag), rows_regrouped=int(re.sum()), tracks_reassembled=good,
              with_more_than_ten_sensors=n > 10, unordered_sensors=not np.array_equal(order, np.arange(n)), tilted_beam=bx != 0)
    if re.any():
        ctx.interesting(case, int(re.sum()))
    if ctx.index < 3:
        ctx.sample = dict(det, mode=case['mode'], regrouped=int(re.sum()))
