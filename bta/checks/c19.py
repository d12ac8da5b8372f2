"""Pre-alignment: sensors displaced and flipped by known amounts, hits of a beam, correlations, and what ends up in the configuration."""
import os

import numpy as np
import yaml

from bta import beam, gen

ID = 'C19'
RULE = 'a case is one telescope (2 to 4 sensors) with hits of a beam, correlated and pre-aligned; non-trivial when a sensor is displaced by more than three bins, flipped, or there are uncorrelated hits'
MIN = {'sensors': 50, 'displaced': 40, 'flipped_x': 12, 'flipped_y': 12, 'background': 30, 'raw': 20, 'tilted': 20, 'quarter_turn': 8, 'partly_selected': 6, 'other_reference': 7, 'reference_displaced': 10, 'limits': 50, 'limits_needed': 10, 'had_limits': 10, 'matched_hits': 30000}
ASSUMPTIONS = ['Sensors are illuminated evenly; there are at least 25 correlated hits in every bin row, and bins are not smaller than the pixels.']


def cases(seed, tier):
    return [dict(seed=seed * 8191 + i) for i in range(100 if tier == 'quick' else 900)]


def warm():
    from beam_telescope_analysis import dut_alignment, hit_analysis  # noqa: F401
    from bta.checks import c09, c10
    c09.warm(), c10.warm()


def conf(path):
    return yaml.safe_load(open(path))['TELESCOPE']





def setup(rng, path, truth_path):
    """Configuration as known before, and the truth: displacements and flips come on top."""
    n = int(rng.integers(2, 5))
    geos = [(50., 50., 160, 128), (50., 50., 80, 160), (18.4, 18.4, 400, 300), (250., 50., 32, 160), (100., 150., 70, 50), (25., 25., 200, 256)]
    ref = int(rng.integers(n)) if rng.random() < .4 else 0
    specs, truth, flips = [], [], []
    for i in range(n):
        cs, rs, nc, nr = geos[int(rng.integers(len(geos)))]
        tilt = rng.random() < .5
        a, b = (float(rng.uniform(-.3, .3)), float(rng.uniform(-.3, .3))) if tilt else (0., 0.)
        g = float(rng.choice([0., np.pi / 2, np.pi, -np.pi / 2, rng.normal(0, .002)]))
        p = dict(translation_x=float(rng.choice([0., rng.normal(0, 800)])), translation_y=float(rng.choice([0., rng.normal(0, 800)])), translation_z=float(i * 20000 + rng.normal(0, 100)),
                 rotation_alpha=a, rotation_beta=b, rotation_gamma=g, column_size=cs, row_size=rs, n_columns=nc, n_rows=nr, material_budget=float(rng.uniform(0, .01)))
        if rng.random() < .3:
            p.update(x_limit=[-.48 * cs * nc, .45 * cs * nc], y_limit=[-.47 * rs * nr, .49 * rs * nr])
        t = dict(p)
        t.pop('x_limit', None), t.pop('y_limit', None)
        f = 0
        if i != ref:
            R = gen.rotation(a, b, g)
            w = np.abs(R[:, 0]) * cs * nc, np.abs(R[:, 1]) * rs * nr
            f = int(rng.choice([0, 0, 1, 2, 3]))
            half = .5 * (w[0] + w[1])
            rp = truth[ref] if ref < i else None
            t['shift'] = rng.uniform(-.2, .2, 2) * half[:2] * (0 if rng.random() < .15 else 1)
            t['R'] = gen.FLIP[f] @ R
        specs.append(p), truth.append(t), flips.append(f)
    tel = gen.telescope(path, specs=specs, n_duts=n)
    for i in range(n):
        if i != ref:
            s, R = truth[i].pop('shift'), truth[i].pop('R')
            truth[i]['translation_x'], truth[i]['translation_y'] = specs[ref]['translation_x'] + float(s[0]), specs[ref]['translation_y'] + float(s[1])
            a, b, g = angles(R)
            truth[i].update(rotation_alpha=a, rotation_beta=b, rotation_gamma=g)
    return tel, gen.telescope(truth_path, specs=truth, n_duts=n), ref, flips


def angles(R):
    return float(np.arctan2(R[2, 1], R[2, 2])), float(np.arcsin(-R[2, 0])), float(np.arctan2(R[1, 0], R[0, 0]))


def run(case, ctx):
    from beam_telescope_analysis import dut_alignment as da, hit_analysis as ha
    from beam_telescope_analysis.telescope.telescope import Telescope
    rng = ctx.rng
    tel, truth, ref, flips = setup(rng, ctx.path('t.yaml'), ctx.path('truth.yaml'))
    n = len(tel)
    os.cpu_count = lambda: 2
    size = lambda d: np.abs(gen.pose(d)[0][:2, 0]) * d.column_size * d.n_columns + np.abs(gen.pose(d)[0][:2, 1]) * d.row_size * d.n_rows
    pitch = np.max([np.abs(gen.pose(d)[0][:2, 0]) * d.column_size + np.abs(gen.pose(d)[0][:2, 1]) * d.row_size for d in tel], axis=0)
    res = np.round(pitch * rng.uniform(1.05, 1.8, 2), 2)
    cover = np.max([size(d) for d in tel], axis=0) / 2 * .8
    bins = float(np.max(np.max([size(d) for d in tel], axis=0) / res))
    noise = float(rng.choice([0., .3, 1.5]))
    ev, o, s = beam.tracks(rng, int(bins * rng.uniform(60, 90)), np.max([size(d) for d in truth], axis=0) / 2, per_event=(1, 2))
    o[:, 0] += truth[ref].translation_x
    o[:, 1] += truth[ref].translation_y
    tabs, files = [], []
    for i in range(n):
        t, no = beam.clusters(rng, truth[i], ev, o, s, efficiency=float(rng.uniform(.85, 1)), noise=noise, events=np.unique(ev))
        tabs.append((t, no))
        files.append(gen.write_table(ctx.path('c%d.h5' % i), 'Clusters', t))
    ha.correlate(ctx.path('t.yaml'), files, ctx.path('corr.h5'), resolution=(float(res[0]), float(res[1])), select_reference_duts=ref, plot=False)
    sel = sorted(int(k) for k in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)) if rng.random() < .35 else None
    reduce = bool(rng.random() < .6)
    before = conf(ctx.path('t.yaml'))
    det = dict(reference=ref, reduce_background=reduce, noise=noise, resolution=res.tolist(), select_duts=sel)
    with ctx.sut('prealign'):
        out = da.prealign(ctx.path('t.yaml'), ctx.path('corr.h5'), output_telescope_configuration=ctx.path('o.yaml') if rng.random() < .7 else None, select_duts=sel, select_reference_dut=ref, reduce_background=reduce, plot=bool(rng.random() < .05))
    new, after = Telescope(out), conf(out)
    ctx.expect(conf(ctx.path('t.yaml')) == before, 'input-configuration', 'the input configuration was changed', **det)
    ctx.expect({k: v for k, v in before.items() if k != 'DUT'} == {k: v for k, v in after.items() if k != 'DUT'} and sorted(before['DUT']) == sorted(after['DUT']), 'others', 'telescope parameters or sensors changed', before=before, after=after, **det)
    for i in range(n):
        b, a, d = before['DUT'][i], after['DUT'][i], tel[i]
        if i == ref or sel is not None and i not in sel:
            ctx.expect(a == b, 'untouched', 'a sensor that is reference or not selected was changed', sensor=i, before=b, after=a, **det)
            continue
        free = {'translation_x', 'translation_y', 'rotation_alpha', 'rotation_beta', 'rotation_gamma', 'x_limit', 'y_limit'}
        ctx.expect({k: v for k, v in a.items() if k not in free} == {k: v for k, v in b.items() if k not in free} and set(a) == set(b), 'parameters', 'other parameters were changed', sensor=i, before=b, after=a, **det)
        q = dict(det, sensor=i, flip=flips[i], config={k: b[k] for k in sorted(free)}, got={k: a[k] for k in sorted(free)}, true=[truth[i].translation_x, truth[i].translation_y])
        R, T = gen.pose(new[i])
        R0 = gen.pose(truth[i])[0]
        ctx.expect(np.abs(R - R0).max() < 1e-6, 'orientation', 'orientation of the sensor is not the true one', **q)
        off = T[:2] - np.array(q['true'])
        lim = 2 * res
        ctx.expect(np.all(np.abs(off) <= lim), 'offset', 'position is off by more than a few bins', off=off.tolist(), bins=(off / res).tolist(), **q)
        for axis, w in (('x_limit', d.column_size * d.n_columns), ('y_limit', d.row_size * d.n_rows)):
            l, old = a[axis], b[axis]
            lo, hi = (-w / 2, w / 2) if old is None else old
            ctx.expect(l is not None and lo - 1e-6 <= l[0] < l[1] <= hi + 1e-6, 'limits', 'limits are not narrower than before', axis=axis, **q)
        # hits of tracks that are seen in the reference, within the limits
        t, no = tabs[i]
        x, y = (t['mean_column'] - .5 - d.n_columns / 2.) * d.column_size, (t['mean_row'] - .5 - d.n_rows / 2.) * d.row_size
        m = np.isin(no, tabs[ref][1][tabs[ref][1] >= 0])
        for k in (0, 1):
            if before['DUT'][i][('x_limit', 'y_limit')[k]] is not None:
                lo, hi = before['DUT'][i][('x_limit', 'y_limit')[k]]
                m &= ((x, y)[k] >= lo) & ((x, y)[k] <= hi)
        inside = (x[m] >= a['x_limit'][0]) & (x[m] <= a['x_limit'][1]) & (y[m] >= a['y_limit'][0]) & (y[m] <= a['y_limit'][1])
        for k, axis in enumerate(('x_limit', 'y_limit')):
            lo, hi = np.percentile((x, y)[k][m], [1, 99])
            tol = .25 * (hi - lo) + 3 * max(res)
            ctx.expect(a[axis][0] >= lo - tol and a[axis][1] <= hi + tol, 'limits-region', 'the limits include a region without correlated hits', axis=axis, hits=[float(lo), float(hi)], **q)
            size_k = (d.column_size * d.n_columns, d.row_size * d.n_rows)[k]
            ctx.count(limits_needed=hi + tol < size_k / 2 or lo - tol > -size_k / 2)
        ctx.expect(inside.mean() > .6, 'limits-hits', 'the limits exclude the region of the correlated hits', inside=float(inside.mean()), **q)
        far = np.abs(np.array(q['true']) - [b['translation_x'], b['translation_y']]) > 3 * res
        ctx.ok(sensors=1, displaced=bool(far.any()), flipped_x=flips[i] & 1, flipped_y=flips[i] >> 1, background=noise > 0, raw=not reduce, tilted=abs(b['rotation_beta']) > 0, quarter_turn=abs(abs(b['rotation_gamma']) - np.pi / 2) < .01,
               limits=1, had_limits=b['x_limit'] is not None, matched_hits=int(m.sum()), reference_displaced=abs(tel[ref].translation_x) > res[0])
        if far.any() or flips[i] or noise:
            ctx.interesting((case['seed'], i))
    ctx.count(partly_selected=sel is not None, other_reference=ref != 0)
    ctx.sample = det
