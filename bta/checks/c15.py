"""Track selection: the stored rows against a row by row evaluation of all criteria (an own expression tree for the query)."""
import json
import operator

import numpy as np
import tables as tb

from bta import gen
from bta.checks import fitdata

ID = 'C15'
RULE = 'a case is one tracks file with tables for several sensors and one selection (flags per sensor in all forms, query, event limit, chunk size); non-trivial when some but not all tracks are selected'
MIN = {'tables': 250, 'selected': 2000, 'rejected': 5000, 'queries': 60, 'query_functions': 10, 'empty_results': 10, 'event_limits': 20}


def cases(seed, tier):
    return [dict(seed=seed * 8191 + i) for i in range(220 if tier == 'quick' else 6000)]


def warm():
    from beam_telescope_analysis.tools import data_selection  # noqa


def number(rng):
    v = rng.choice([0., 1., 2.5, 5., -3., 10., 1e3, 250., 0.01])
    return float(v), str(rng.choice([repr(float(v)), '%g' % v, '%e' % v]))


def term(rng, names):
    """(string, function of the table, uses a function)"""
    k = rng.integers(6)
    c = str(rng.choice(names))
    if k == 0:
        return 'abs(%s)' % c, lambda a: np.abs(a[c].astype(float)), True
    if k == 1:
        return 'sqrt(%s**2 + 1)' % c, lambda a: np.sqrt(a[c].astype(float) ** 2 + 1), True
    if k == 2:
        d = str(rng.choice(names))
        return '(%s - %s)' % (c, d), lambda a: a[c].astype(float) - a[d].astype(float), False
    return c, lambda a: a[c].astype(float), False


def query(rng, names, depth=0):
    k = rng.random()
    if depth < 2 and k < .4:
        a, f, u = query(rng, names, depth + 1)
        b, g, v = query(rng, names, depth + 1)
        if rng.random() < .5:
            return '(%s) & (%s)' % (a, b), lambda t: f(t) & g(t), u or v
        return '(%s) | (%s)' % (a, b), lambda t: f(t) | g(t), u or v
    if depth < 2 and k < .5:
        a, f, u = query(rng, names, depth + 1)
        return '~(%s)' % a, lambda t: ~f(t), u
    s, f, u = term(rng, names)
    v, vs = number(rng)
    op = str(rng.choice(['<', '<=', '>', '>=', '==', '!=']))
    fn = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[op]
    return '%s %s %s' % (s, op, vs), lambda t: fn(f(t), v), u


def run(case, ctx):
    from beam_telescope_analysis.tools import data_selection as ds
    rng = ctx.rng
    n = int(rng.choice([1, 2, 4, 7, 12, 20, 31], p=[.12, .2, .22, .2, .12, .1, .04]))
    gen.telescope(ctx.path('t.yaml'), n_duts=n)
    duts = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, min(n, 4) + 1))]]
    n_ev = int(rng.choice([0, 1, 5, 50, 120], p=[.05, .1, .15, .4, .3]))
    data, csi = {}, 1
    uneven = fitdata.uneven(rng) if rng.random() < .12 else None      # with an event limit: most events in the second chunk
    if uneven:
        n_ev = len(uneven[0])
    for d in duts:
        ev = gen.event_numbers(rng, n_ev)
        ev = np.repeat(ev, uneven[0] if uneven else rng.integers(1, int(rng.choice([2, 4, 9])), n_ev))
        data[d] = gen.random_tracks(rng, ev, n)
        gen.write_table(ctx.path('tracks.h5'), 'Tracks_DUT%d' % d, data[d], mode='w' if d == duts[0] else 'a', title='Fit tracks for DUT%d' % d)
        csi = max(csi, gen.max_per_event(data[d]))
    cs = gen.chunk_sizes(rng, max(len(t) for t in data.values()), csi)[0]
    if uneven:
        cs = uneven[1]
    crit, kw = {}, {}
    plain = rng.random() < (.7 if uneven else .1)
    for name, p in (('hit', .5), ('no_hit', .25), ('quality', .4), ('isolated_track', .3), ('isolated_hit', .3)):
        crit[name] = [[] for _ in duts]
        if plain or rng.random() > p:
            if rng.random() < .3:
                kw['select_%s_duts' % name] = None
            continue
        pick = lambda: sorted(int(i) for i in rng.permutation(n)[:int(rng.integers(1, min(n, 3) + 1))])
        if rng.random() < .5:       # one list for all
            one = pick()
            per = [list(one) for _ in duts]
            arg = one
        else:
            per = [pick() if rng.random() < .7 else [] for _ in duts]
            arg = [q if q or rng.random() < .5 else None for q in per]
        if name == 'no_hit':
            per = [[x for x in q if x not in crit['hit'][i]] for i, q in enumerate(per)]
            arg = per
        crit[name], kw['select_%s_duts' % name] = per, arg
    q = [('', None, False)] * len(duts)
    if not plain and rng.random() < .5:
        # columns of the same beginning exist with more than ten sensors
        names = ['track_chi2', 'track_chi_red', 'offset_x', 'offset_y', 'slope_x', 'event_number', 'hit_flag', 'x_dut_%d' % (n - 1), 'y_dut_0', 'charge_dut_%d' % int(rng.integers(n)), 'n_hits_dut_0', 'frame_dut_%d' % (n - 1), 'cluster_shape_dut_0', 'x_err_dut_%d' % min(1, n - 1)]
        if rng.random() < .4:
            q = [query(rng, names)] * len(duts)
            kw['query'] = q[0][0]
        else:
            q = [query(rng, names) if rng.random() < .7 else ('', None, False) for _ in duts]
            kw['query'] = [x[0] for x in q]
    me = int(rng.integers(1, n_ev + 10)) if rng.random() < (1 if uneven else .2) else None
    if me:
        kw['max_events'] = me
    out = ctx.path('out.h5') if rng.random() < .7 else ctx.path('tracks_selected.h5')
    if out.endswith('out.h5'):
        kw['output_tracks_file'] = out
    det = dict(n=n, select_duts=duts, rows=[len(data[d]) for d in duts], chunk_size=cs, kw={k: v for k, v in kw.items() if k != 'output_tracks_file'})
    before = json.dumps(kw, sort_keys=True)
    with ctx.sut('select_tracks'):
        got = ds.select_tracks(ctx.path('t.yaml'), ctx.path('tracks.h5'), duts, chunk_size=cs, **kw)
    ctx.expect(got == out, 'return-value', 'returned file name', got=got, **det)
    ctx.expect(json.dumps(kw, sort_keys=True) == before, 'arguments-changed', 'arguments were modified', **det)
    with tb.open_file(out, 'r') as f:
        have = {x.name: (x[:], x.title) for x in f.root if isinstance(x, tb.Table)}
    ctx.expect(set(have) == {'Tracks_DUT%d' % d for d in duts}, 'tables', 'tables of the output', have=sorted(have), **det)
    for i, d in enumerate(duts):
        t = data[d]
        h = t['hit_flag'].astype(np.int64)
        keep = np.ones(len(t), bool)
        for j in crit['hit'][i]:
            keep &= (h >> j & 1) == 1
        for j in crit['no_hit'][i]:
            keep &= (h >> j & 1) == 0
        for j in crit['quality'][i]:
            keep &= ((t['quality_flag'].astype(np.int64) >> j & 1) == 1) | ((h >> j & 1) == 0)
        for j in crit['isolated_track'][i]:
            keep &= (t['isolated_track_flag'].astype(np.int64) >> j & 1) == 1
        for j in crit['isolated_hit'][i]:
            keep &= ((t['isolated_hit_flag'].astype(np.int64) >> j & 1) == 1) | ((h >> j & 1) == 0)
        if q[i][1] is not None:
            with np.errstate(all='ignore'):
                keep &= q[i][1](t)
        want = t[keep]
        r = have['Tracks_DUT%d' % d][0]
        ctx.expect(r.dtype == t.dtype, 'columns', 'columns of the selected tracks', dut=d, **det)
        if me:
            e = np.unique(r['event_number'])
            ctx.expect(len(e) <= me, 'max-events', '%d events, at most %d requested' % (len(e), me), dut=d, **det)
            if cs > len(t):
                ctx.expect(len(e) == min(me, len(np.unique(want['event_number']))), 'max-events', '%d events of %d, %d requested' % (len(e), len(np.unique(want['event_number'])), me), dut=d, **det)
            want = want[np.isin(want['event_number'], e)]
            ctx.count(event_limits=1)
        ctx.expect(gen.same_array(r, want), 'selection', '%d tracks selected, %d of %d satisfy the criteria' % (len(r), len(want), len(t)), dut=d, query=q[i][0], **det)
        ctx.expect(have['Tracks_DUT%d' % d][1] == 'Fit tracks for DUT%d' % d, 'title', 'title of the table', dut=d)
        ctx.count(tables=1, selected=len(want), rejected=len(t) - len(want), queries=bool(q[i][0]), query_functions=q[i][2], empty_results=len(t) > 0 and not len(want), several_chunks=cs < len(t), many_sensors=n > 16)
        if 0 < len(want) < len(t):
            ctx.interesting(case, d, len(want))
    if ctx.index < 3:
        ctx.sample = dict(det, selected=[len(have['Tracks_DUT%d' % d][0]) for d in duts])
