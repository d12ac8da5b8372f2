"""Alignment of sensors that are displaced and rotated by known amounts: what ends up in the configuration."""
import os

import numpy as np
import yaml

from bta import beam, gen

ID = 'C20'
RULE = 'a case is one alignment; non-trivial when sensors were displaced or rotated'
MIN = {'sensors': 90, 'subset_of_parameters': 35, 'single_angle': 10, 'several_chunks': 35, 'with_limits': 15, 'tilted': 40, 'alignments': 12, 'telescopes': 4, 'several_groups': 4, 'kalman': 2, 'beams': 5, 'repeated': 1, 'beam_frames': 15, 'uneven_chunks': 20}
ASSUMPTIONS = ['Tracks illuminate the sensors evenly, directions differ enough to determine the selected angles, and displacements are small compared to the distance of tracks.', 'Kalman alignment: the outer telescope planes are at their true position, as they define the frame.']
NAMES = ('rotation_alpha', 'rotation_beta', 'rotation_gamma', 'translation_x', 'translation_y', 'translation_z')


def cases(seed, tier):
    k = 1 if tier == 'quick' else 10
    return [dict(kind='kalman', seed=seed * 8191 + i) for i in range(3 * k)] + [dict(kind='align', seed=seed * 8191 + i) for i in range(20 * k)] + [dict(kind='transformation', seed=seed * 8191 + i) for i in range(120 * k)] + [dict(kind='frame', seed=seed * 8191 + i) for i in range(40 * k)]


def warm():
    from bta.checks import c10, c11, c12
    c12.warm(), c11.warm(), c10.warm()
    from beam_telescope_analysis import dut_alignment, hit_analysis, result_analysis  # noqa: F401


def run(case, ctx):
    globals()[case['kind']](case, ctx)


def conf(path):
    return yaml.safe_load(open(path))['TELESCOPE']


def small_rotation(w):
    a = np.linalg.norm(w)
    k = np.cross(np.eye(3), w) * -1
    return np.eye(3) + k * np.sinc(a / np.pi) + k @ k * ((1 - np.cos(a)) / a**2 if a > 1e-9 else .5)


def angles(R):
    return dict(rotation_alpha=float(np.arctan2(R[2, 1], R[2, 2])), rotation_beta=float(np.arcsin(-R[2, 0])), rotation_gamma=float(np.arctan2(R[1, 0], R[0, 0])))


def transformation(case, ctx):
    """Tracks without errors: the position is found within the stop criterion."""
    from beam_telescope_analysis import dut_alignment as da
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    specs, truth = [], []
    spread = rng.choice([1e-2, 3e-2], size=n)      # of the directions; determines the angles of sensors that are perpendicular to the beam
    for i in range(n):
        tilt = rng.random() < .6
        p = dict(translation_x=float(rng.normal(0, 500)), translation_y=float(rng.normal(0, 500)), translation_z=float(i * 20000 + rng.normal(0, 100)),
                 **angles(gen.FLIP[int(rng.integers(4))] @ gen.rotation(*(rng.uniform(-.4, .4, 2) if tilt else (0., 0.)), float(rng.choice([0., np.pi / 2, -np.pi / 2, rng.normal(0, .05)])))),
                 column_size=50., row_size=50., n_columns=160, n_rows=160)
        specs.append(p)
    sel = sorted(int(k) for k in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    if rng.random() < .3:
        rng.shuffle(sel)
    pars = {}
    pollute = rng.random() < .25        # a few hits at a different place, and most tracks without hit, in one half of the table
    half = rng.random() < .5
    for i in range(n):
        s, k = specs[i], None
        if pollute:
            k = ['translation_x', 'translation_y', 'rotation_gamma'][:int(rng.integers(2, 4))]
        elif rng.random() < .7:
            k = [q for q in NAMES if rng.random() < rng.choice([.2, .5, .9])]
            rng.shuffle(k)
        pars[i] = k
        free = NAMES if k is None else k
        t = dict(s)
        size = spread[i] * rng.choice([.01, .1, .25])
        w = np.array([rng.normal(0, size) if q in free else 0. for q in NAMES[:3]])
        R = gen.rotation(s['rotation_alpha'], s['rotation_beta'], s['rotation_gamma'])
        if w.any():
            t.update(angles(small_rotation(w) @ R))
        for q in NAMES[3:]:
            if q in free:
                t[q] += float(rng.normal(0, rng.choice([.1, 20., 200.])))
        if rng.random() < .4:
            s.update(x_limit=[float(rng.uniform(-4000, -1500)), float(rng.uniform(1500, 4000))], y_limit=[float(rng.uniform(-4000, -1500)), float(rng.uniform(1500, 4000))])
        truth.append(t)
    tel = gen.telescope(ctx.path('t.yaml'), specs=specs, n_duts=n)
    true = gen.telescope(ctx.path('truth.yaml'), specs=truth, n_duts=n)
    use_limits = bool(rng.random() < .7)
    with_rows = {}
    share = {}
    for i in sel:
        m = int(rng.integers(60, 500)) + (800 if pollute else 0)
        ev, o, s = beam.tracks(rng, m, (3500, 3500), slope=spread[i], z0=specs[i]['translation_z'], mean_slope=rng.normal(0, .02, 2))
        o[:, :2] += [specs[i]['translation_x'], specs[i]['translation_y']]
        s /= np.linalg.norm(s, axis=1)[:, None]
        x, y = gen.line_hits(true[i], o, s)
        t = gen.random_tracks(rng, ev, n)
        R, T = gen.pose(tel[i])
        # where the track crosses the sensor as it was known before
        o = o + s * (((T - o) @ R[:, 2]) / (s @ R[:, 2]))[:, None]
        lo, ls = (o - T) @ R, s @ R
        ls *= np.where(ls[:, 2:] < 0, -1, 1)
        for k, c in enumerate('xyz'):
            t['offset_' + c], t['slope_' + c] = lo[:, k], ls[:, k]
        t['x_dut_%d' % i], t['y_dut_%d' % i], t['z_dut_%d' % i] = x, y, 0.
        t['track_chi2'] = rng.uniform(0, 10, len(t))
        # not to be used: without hit, failed fit, outside of the limits
        bad = rng.random(len(t)) < .1
        for c in 'xyz':
            t['%s_dut_%d' % (c, i)][bad] = np.nan
        bad2 = rng.random(len(t)) < .05
        t['track_chi2'][bad2] = np.nan
        t['x_dut_%d' % i][bad2] += rng.normal(0, 500, bad2.sum())
        if use_limits and 'x_limit' in specs[i]:
            for c in 'xy':
                lo, hi = specs[i][c + '_limit']
                v = t['%s_dut_%d' % (c, i)]
                out = (v < lo - 30) | (v > hi + 30)
                v[out] += np.sign(v[out]) * rng.uniform(0, 200, out.sum())
        if pollute:
            a = np.arange(len(t)) >= len(t) // 2
            a = np.flatnonzero(a if half else ~a)
            good = a[np.isfinite(t['x_dut_%d' % i][a]) & ~bad2[a]]
            few = rng.permutation(good)[:int(rng.choice([0, 1, 2, 3, 12, 12, 12, 12, 12, 12]))]
            t2 = dict(truth[i])
            free = set(NAMES if pars[i] is None else pars[i])
            w = np.array([.01 * rng.choice([-1, 1]) if q in free else 0. for q in NAMES[:3]])
            t2.update(angles(small_rotation(w) @ gen.pose(true[i])[0]))
            for q in NAMES[3:]:
                if q in free:
                    t2[q] += 100. * float(rng.choice([-1, 1]))
            os.path.exists(ctx.path('p.yaml')) and os.remove(ctx.path('p.yaml'))
            x, y = gen.line_hits(gen.telescope(ctx.path('p.yaml'), specs=[t2], n_duts=1)[0], o[few], s[few])
            for c in 'xyz':
                t['%s_dut_%d' % (c, i)][a] = np.nan
            t['x_dut_%d' % i][few], t['y_dut_%d' % i][few], t['z_dut_%d' % i][few] = x, y, 0.
            share[i] = len(few) / max(1, np.isfinite(t['x_dut_%d' % i]).sum()), float(np.abs(w).sum())
        gen.write_table(ctx.path('tracks.h5'), 'Tracks_DUT%d' % i, t, mode='a')
        with_rows[i] = len(t)
    chunk = int(rng.choice([1000000, max(with_rows.values()), max(with_rows.values()) // 3 + 1, 60]))
    if pollute:
        chunk = max(with_rows.values()) // 2 + 1
    given = None if all(pars[i] is None for i in sel) else [pars[i] for i in sel]
    keep = repr(given)
    before = conf(ctx.path('t.yaml'))
    det = dict(select_duts=sel, chunk_size=chunk, use_limits=use_limits, parameters=given)
    with ctx.sut('calculate_transformation'):
        da.calculate_transformation(ctx.path('t.yaml'), ctx.path('tracks.h5'), select_duts=sel, select_alignment_parameters=given, use_limits=use_limits, chunk_size=chunk)
    ctx.expect(repr(given) == keep, 'arguments', 'given parameters are changed', **det)
    after = conf(ctx.path('t.yaml'))
    ctx.expect({k: v for k, v in before.items() if k != 'DUT'} == {k: v for k, v in after.items() if k != 'DUT'} and sorted(before['DUT']) == sorted(after['DUT']), 'others', 'telescope parameters or sensors changed', **det)
    for i in range(n):
        b, a = before['DUT'][i], after['DUT'][i]
        if i not in sel:
            ctx.expect(a == b, 'untouched', 'a sensor that is not selected was changed', sensor=i, before=b, after=a, **det)
            continue
        ctx.expect({k: v for k, v in a.items() if k not in NAMES} == {k: v for k, v in b.items() if k not in NAMES}, 'parameters', 'other parameters were changed', sensor=i, before=b, after=a, **det)
        free = NAMES if pars[i] is None else pars[i]
        want = {q: truth[i][q] for q in NAMES}
        q = dict(det, sensor=i, before={k: b[k] for k in NAMES}, got={k: a[k] for k in NAMES}, want=want, free=list(free))
        R, T = gen.rotation(*[a[k] for k in NAMES[:3]]), np.array([a[k] for k in NAMES[3:]])
        R0, T0 = gen.rotation(*[want[k] for k in NAMES[:3]]), np.array([want[k] for k in NAMES[3:]])
        for k in NAMES[3:]:
            if k not in free:
                ctx.expect(abs(a[k] - b[k]) <= 1e-9 * max(1, abs(b[k])), 'fixed', 'a parameter that is not selected was changed', parameter=k, **q)
        if not set(free) & set(NAMES[:3]):
            ctx.expect(np.abs(R - R0).max() < 1e-9, 'fixed', 'angles are changed without being selected', **q)
        dr, dt = float(np.abs(R - R0).max()), float(np.abs(T - T0).max())
        f, size = share.get(i, (0, 0))
        ctx.expect(dr < 5e-4 + .15 * size and dt < .05 + (15 if pollute else 0), 'recovered', 'true position is not found', rotation=dr, translation=dt, **q)
        ctx.ok(sensors=1, subset_of_parameters=0 < len(free) < 6, single_angle=len(set(free) & set(NAMES[:3])) == 1, no_parameters=not len(free), several_chunks=with_rows[i] > chunk, with_limits=use_limits and b['x_limit'] is not None, tilted=abs(b['rotation_beta']) > .05, uneven_chunks=pollute, changed=truth[i] != specs[i])
    ctx.interesting(('transformation', case['seed']))
    ctx.sample = det


def frame(case, ctx):
    """The telescope is moved along its beam: tracks stay tracks."""
    from beam_telescope_analysis import dut_alignment as da
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    upright = rng.random() < .7
    slope = rng.normal(0, .01, 2) * rng.choice([0, 1, 1, 1])
    specs = []
    for i in range(n):
        z = i * float(rng.choice([10000., 20000., 50000.])) + float(rng.normal(0, 100))
        tilt = (0., 0.) if upright or rng.random() < .5 else rng.uniform(-.4, .4, 2)
        p = dict(translation_x=float(slope[0] * z + rng.normal(0, 200)), translation_y=float(slope[1] * z + rng.normal(0, 200)), translation_z=z,
                 **angles(gen.FLIP[int(rng.integers(4))] @ gen.rotation(*tilt, float(rng.choice([0., np.pi / 2, rng.normal(0, .05)])))), column_size=50., row_size=50., n_columns=160, n_rows=160)
        if rng.random() < .3:
            p.update(x_limit=[-1000., 2000.])
        specs.append(p)
    order = rng.permutation(n) if rng.random() < .3 else np.arange(n)
    specs = [specs[k] for k in order]
    tel = gen.telescope(ctx.path('t.yaml'), specs=specs, n_duts=n)
    c = yaml.safe_load(open(ctx.path('t.yaml')))
    c['TELESCOPE'].update(rotation_alpha=float(rng.normal(0, .01)), rotation_beta=float(rng.normal(0, .01)))
    yaml.safe_dump(c, open(ctx.path('t.yaml'), 'w'))
    planes = [int(k) for k in rng.permutation(n)[:int(rng.integers(2, n + 1))]]
    ref = int(rng.integers(n)) if rng.random() < .4 else None
    before = conf(ctx.path('t.yaml'))
    det = dict(planes=planes, reference=ref, before={k: [d['translation_' + q] for q in 'xyz'] for k, d in before['DUT'].items()}, telescope=[before['rotation_alpha'], before['rotation_beta']])
    with ctx.sut('align_telescope'):
        da.align_telescope(ctx.path('t.yaml'), planes, **(dict(reference_dut=ref) if ref is not None else {}))
    after = conf(ctx.path('t.yaml'))
    first = ref if ref is not None else min(planes, key=lambda k: before['DUT'][k]['translation_z'])
    moved = ('translation_x', 'translation_y')
    for i in range(n):
        b, a = before['DUT'][i], after['DUT'][i]
        ctx.expect({k: v for k, v in a.items() if k not in moved} == {k: v for k, v in b.items() if k not in moved}, 'parameters', 'other parameters were changed', sensor=i, after=a, **det)
    ctx.expect({k: v for k, v in before.items() if k not in ('DUT', 'rotation_alpha', 'rotation_beta')} == {k: v for k, v in after.items() if k not in ('DUT', 'rotation_alpha', 'rotation_beta')}, 'others', 'other parameters of the telescope were changed', **det)
    pos = lambda cf: np.array([[cf['DUT'][i]['translation_' + q] for q in 'xyz'] for i in range(n)])
    p0, p1 = pos(before), pos(after)
    ctx.expect(np.abs(p1[first, :2]).max() < 1e-6, 'reference', 'the reference sensor is not at x = y = 0', got=p1[first].tolist(), **det)
    c0, c1 = p0[planes] - p0[planes].mean(axis=0), p1[planes] - p1[planes].mean(axis=0)
    d = np.linalg.svd(c0)[2][0]         # direction of the line through the planes
    d = d / d[2]
    # positions relative to the line
    r0, r1 = p0 - p0[first] - np.outer(p0[:, 2] - p0[first, 2], d), p1 - p1[first]
    # a sensor that is off the line and inclined is moved by the distance at the place where the line crosses it
    tol = 1e-5 if upright else 2e-2 * np.abs(r0[:, :2]).max() + 1e-5
    ctx.expect(np.abs(r1[:, :2] - r0[:, :2]).max() < tol, 'moved', 'sensors are not moved along the line through the planes', diff=(r1 - r0).tolist(), **det)
    # the beam stays the beam: the direction relative to the sensors does not change
    old, new = [np.array([-np.tan(cf['rotation_beta']), np.tan(cf['rotation_alpha'])]) for cf in (before, after)]
    ctx.expect(np.abs(new - (old - d[:2])).max() < 1e-5 + (np.abs(d[:2]).max() + np.abs(old).max()) ** 3, 'direction', 'the beam has a different direction relative to the sensors', old=old.tolist(), new=new.tolist(), line=d.tolist(), **det)
    ctx.ok(beam_frames=1)
    ctx.interesting(('frame', case['seed']))


def residuals(tel, tabs, n_tracks, fit):
    """Mean and width of the distances between hits and the line through the hits in other sensors; number of tracks."""
    n = len(tel)
    P = np.full((n, n_tracks, 3), np.nan)
    for i, (t, no) in enumerate(tabs):
        d, m = tel[i], no >= 0
        P[i, no[m]] = gen.to_global(d, (t['mean_column'][m] - .5 - d.n_columns / 2.) * d.column_size, (t['mean_row'][m] - .5 - d.n_rows / 2.) * d.row_size).T
    mean, std, k = np.zeros((n, 2)), np.zeros((n, 2)), np.zeros(n, int)
    for i in range(n):
        q = [f for f in fit if f != i]
        ok = ~np.isnan(P[q + [i]]).any(axis=(0, 2))
        p = P[q][:, ok]
        w = p[..., 2] - p[..., 2].mean(axis=0)
        o, s = p.mean(axis=0), (p * w[..., None]).sum(axis=0) / (w**2).sum(axis=0)[:, None]
        r = gen.to_local(tel[i], *P[i, ok].T)[:2] - np.array(gen.line_hits(tel[i], o, s))
        mean[i], std[i], k[i] = r.mean(axis=1), r.std(axis=1), ok.sum()
    return mean, std, k


def beam_angles(tel, tabs, n_tracks, fit):
    """Mean slopes of the lines through the hits."""
    P = np.full((len(fit), n_tracks, 3), np.nan)
    for k, i in enumerate(fit):
        (t, no), d = tabs[i], tel[i]
        m = no >= 0
        P[k, no[m]] = gen.to_global(d, (t['mean_column'][m] - .5 - d.n_columns / 2.) * d.column_size, (t['mean_row'][m] - .5 - d.n_rows / 2.) * d.row_size).T
    p = P[:, ~np.isnan(P).any(axis=(0, 2))]
    w = p[..., 2] - p[..., 2].mean(axis=0)
    return ((p * w[..., None]).sum(axis=0) / (w**2).sum(axis=0)[:, None]).mean(axis=0)


def kalman(case, ctx):
    """All sensors are aligned at once, track by track; the outer planes of the telescope define the frame."""
    from beam_telescope_analysis import dut_alignment as da, hit_analysis as ha
    from beam_telescope_analysis.telescope.telescope import Telescope
    from beam_telescope_analysis.tools import plot_utils
    rng = ctx.rng
    os.cpu_count = lambda: 2
    plot_utils.plot_kf_alignment = lambda *a, **k: None     # takes longer than everything else
    n = int(rng.integers(4, 6))
    fixed = sorted(int(k) for k in rng.choice(np.arange(1, n - 1), size=int(rng.choice([0, 0, 1])), replace=False))     # not aligned
    some = ['translation_x', 'translation_y', 'rotation_gamma']
    specs, truth, sigma, pars = [], [], [], []
    for i in range(n):
        p = dict(translation_x=float(rng.normal(0, 100)), translation_y=float(rng.normal(0, 100)), translation_z=float(i * 20000 + rng.normal(0, 500)), rotation_alpha=0., rotation_beta=0., rotation_gamma=float(rng.choice([0., rng.normal(0, .02)])),
                 column_size=18.4, row_size=18.4, n_columns=600, n_rows=500, material_budget=1e-4)
        tilt = 0 < i < n - 1 and rng.random() < .4
        if tilt:
            p.update(rotation_alpha=float(rng.uniform(-.5, .5)), rotation_beta=float(rng.uniform(-.5, .5)))
        t = dict(p)
        free = some + ['rotation_alpha', 'rotation_beta', 'translation_z'] if tilt or rng.random() < .2 else some
        pars.append([str(q) for q in rng.permutation(free)])
        if i not in fixed:
            w = np.array([rng.normal(0, .003) if tilt else 0., rng.normal(0, .003) if tilt else 0., rng.normal(0, 2e-3)])
            t.update(angles(small_rotation(w) @ gen.rotation(p['rotation_alpha'], p['rotation_beta'], p['rotation_gamma'])))
            if 0 < i < n - 1:
                t['translation_x'] += float(rng.normal(0, 25))
                t['translation_y'] += float(rng.normal(0, 25))
                if tilt:
                    t['translation_z'] += float(rng.normal(0, 50))
        specs.append(p), truth.append(t), sigma.append(float(rng.uniform(4, 8)))
    gen.telescope(ctx.path('t.yaml'), specs=specs, n_duts=n)
    true = gen.telescope(ctx.path('truth.yaml'), specs=truth, n_duts=n)
    ev, o, s = beam.tracks(rng, 1500, (4000, 3500), per_event=(1, 1), slope=1e-3, mean_slope=rng.normal(0, 5e-4, 2), z0=n * 10000.)
    tabs, files = [], []
    for i in range(n):
        tabs.append(beam.clusters(rng, true[i], ev, o, s, efficiency=.98, noise=float(rng.choice([0., .05])), events=np.unique(ev), sigma=sigma[i]))
        files.append(gen.write_table(ctx.path('c%d.h5' % i), 'Clusters', tabs[-1][0]))
    ha.merge_cluster_data(ctx.path('t.yaml'), files, ctx.path('m.h5'))
    sel = [i for i in range(n) if i not in fixed]
    given = [pars[i] for i in sel]
    det = dict(select_duts=sel, parameters=given)
    before = conf(ctx.path('t.yaml'))
    chi2 = float(rng.choice([10., 15.]))
    limit = int(rng.choice([10000, 800])) if not fixed else 10000
    with ctx.sut('align_kalman'):
        out = da.align_kalman(ctx.path('t.yaml'), ctx.path('m.h5'), output_telescope_configuration=ctx.path('o.yaml'), output_alignment_file=ctx.path('al.h5'), select_duts=[list(sel)] if rng.random() < .6 else list(sel), select_telescope_duts=[0, n - 1],
                              select_fit_duts=list(range(n)), select_hit_duts=list(range(n)), alignment_parameters=[given], alignment_parameters_errors=[200, 200, 2000, 50e-3, 50e-3, 50e-3], track_chi2=chi2 if rng.random() < .5 else [chi2],
                              beam_energy=5000., particle_mass=.511, annealing_factor=10000, annealing_tracks=250, max_tracks=limit, plot=False)
    ctx.expect(out == ctx.path('o.yaml') and conf(ctx.path('t.yaml')) == before, 'input-configuration', 'the input configuration was changed', **det)
    after = conf(out)
    for i in range(n):
        b, a = before['DUT'][i], after['DUT'][i]
        free = {'rotation_gamma'} if i in (0, n - 1) else set(pars[i])      # by design
        if i in fixed:
            free = set()
        elif free & set(NAMES[:2]):
            free |= set(NAMES[:3])
        ctx.expect(set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * max(1, abs(b[k])) if k in NAMES else a[k] == b[k] for k in b if k not in free), 'fixed', 'a parameter that is not selected was changed', sensor=i, before=b, after=a, **det)
    new, old = Telescope(out), Telescope(ctx.path('t.yaml'))
    every = list(range(n))
    m0, s0, k0 = residuals(old, tabs, len(ev), every)
    m1, s1, k1 = residuals(new, tabs, len(ev), every)
    m2, s2, k2 = residuals(true, tabs, len(ev), every)
    q = dict(det, mean=m1.tolist(), width=s1.tolist(), true_width=s2.tolist(), initial_mean=m0.tolist(), initial_width=s0.tolist(), tracks=k1.tolist())
    ctx.expect(np.all(np.abs(m1) < 1.5 * s2 + .15 * np.abs(m0).max()), 'mean', 'hits are off the tracks after the alignment', **q)
    ctx.expect(np.all(s1 < 1.15 * s2 + .1), 'width', 'residuals are wider than for the true positions', **q)
    ctx.ok(kalman=1, kalman_partly=bool(fixed))
    ctx.interesting(('kalman', case['seed']))
    ctx.sample = det


def align(case, ctx):
    """Telescope and devices under test with hits of a beam."""
    from beam_telescope_analysis import dut_alignment as da, hit_analysis as ha
    from beam_telescope_analysis.telescope.telescope import Telescope
    rng = ctx.rng
    os.cpu_count = lambda: 2
    n = int(rng.integers(4, 7))
    duts = sorted(int(k) for k in rng.choice(np.arange(1, n - 1), size=int(rng.integers(1, n - 2)) if n > 4 else 1, replace=False))
    if len(duts) > 2:
        duts = duts[:2]
    planes = [i for i in range(n) if i not in duts]
    known = rng.random() < .35      # the planes of the telescope are at their true place
    still = known or rng.random() < .15
    spread = float(rng.choice([1e-3, 5e-3]))
    specs, truth, sigma, pars = [], [], [], {}
    for i in range(n):
        g = float(rng.choice([0., rng.normal(0, .02), np.pi / 2]))
        p = dict(translation_x=float(rng.normal(0, 200)), translation_y=float(rng.normal(0, 200)), translation_z=float(i * 20000 + rng.normal(0, 500)), rotation_alpha=0., rotation_beta=0., rotation_gamma=g,
                 column_size=18.4, row_size=18.4, n_columns=600, n_rows=500, material_budget=1e-4)
        tilt = i in duts and rng.random() < .5
        if tilt:
            p.update(rotation_alpha=float(rng.uniform(-.5, .5)), rotation_beta=float(rng.uniform(-.5, .5)))
        if i in duts:
            cs, rs, nc, nr = [(50., 50., 160, 160), (250., 50., 40, 200), (18.4, 18.4, 500, 400)][int(rng.integers(3))]
            p.update(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr)
        if rng.random() < .3:
            w, h = p['column_size'] * p['n_columns'], p['row_size'] * p['n_rows']
            p.update(x_limit=[-.45 * w, .46 * w], y_limit=[-.47 * h, .44 * h])
        t = dict(p)
        if i in planes:
            pars[i] = None if rng.random() < .25 and spread > 2e-3 else ['translation_x', 'translation_y', 'rotation_gamma']
            free = ['translation_x', 'translation_y', 'rotation_gamma']     # what is changed; the other angles hardly matter for planes perpendicular to the beam
        else:
            pars[i] = None if rng.random() < .4 else ['translation_x', 'translation_y', 'rotation_gamma'] + [q for q in ('translation_z', 'rotation_alpha', 'rotation_beta') if rng.random() < .4]
            if tilt and not known and pars[i] is not None:      # directions of the global frame are chosen by the alignment of the telescope
                pars[i] = ['rotation_beta', 'translation_y', 'rotation_gamma', 'translation_x', 'rotation_alpha'] + [q for q in pars[i] if q == 'translation_z']
            free = NAMES if pars[i] is None else pars[i]
        if not still or i in duts and rng.random() < .9:
            R = gen.rotation(p['rotation_alpha'], p['rotation_beta'], p['rotation_gamma'])
            w = np.array([rng.normal(0, 3e-3 if q == 'rotation_gamma' else .01 if tilt else 2e-3) if q in free else 0. for q in NAMES[:3]])
            t.update(angles(small_rotation(w) @ R))
            for q in NAMES[3:]:
                if q in free:
                    t[q] += float(rng.normal(0, 150. if q == 'translation_z' else 25.))
        specs.append(p), truth.append(t), sigma.append(float(rng.uniform(3, 8)) if i in planes else min(p['column_size'], p['row_size']) / 12**.5)
    gen.telescope(ctx.path('t.yaml'), specs=specs, n_duts=n)
    true = gen.telescope(ctx.path('truth.yaml'), specs=truth, n_duts=n)
    method = 'kalman' if known and rng.random() < .4 else 'fit'
    ev, o, s = beam.tracks(rng, 120 if method == 'kalman' else int(rng.integers(900, 2000)), (4000, 3500), per_event=(1, 2), slope=spread, mean_slope=rng.normal(0, 1e-3, 2), z0=n * 10000.)
    tabs, files = [], []
    for i in range(n):
        tabs.append(beam.clusters(rng, true[i], ev, o, s, efficiency=float(rng.uniform(.93, 1)), noise=float(rng.choice([0., .1])), events=np.unique(ev), sigma=sigma[i]))
        files.append(gen.write_table(ctx.path('c%d.h5' % i), 'Clusters', tabs[-1][0]))
    ha.merge_cluster_data(ctx.path('t.yaml'), files, ctx.path('m.h5'))
    groups = [[d] for d in duts] if rng.random() < .7 else [list(duts)]
    if not known:
        groups.insert(0, list(planes))
    kw = dict(select_telescope_duts=list(planes), max_iterations=int(rng.choice([4, 5])), fit_method=method, quality_distances=(300., 300.), track_chi2=float(rng.choice([10., 20.])),
              use_limits=bool(rng.random() < .5), chunk_size=int(rng.choice([1000000, 1500])), plot=False)
    if method == 'kalman':
        kw.update(beam_energy=5000., particle_mass=.511, max_iterations=int(rng.choice([2, 3])))
    if rng.random() < .3:
        kw['cluster_shapes'] = [[1] for _ in groups]
    split = rng.random() < .4 and len(groups) > 1
    before = conf(ctx.path('t.yaml'))
    det = dict(groups=groups, telescope=planes, known=bool(known), parameters={str(k): v for k, v in pars.items()}, **{k: v for k, v in kw.items() if k != 'cluster_shapes'})
    for c in ([[g] for g in groups] if split else [groups]):
        a = dict(kw)
        if 'cluster_shapes' in a:
            a['cluster_shapes'] = a['cluster_shapes'][:len(c)]
        with ctx.sut('align'):
            out = da.align(ctx.path('t.yaml'), ctx.path('m.h5'), output_telescope_configuration=ctx.path('o.yaml'), select_duts=c, alignment_parameters=[[pars[i] for i in g] for g in c],
                           select_fit_duts=[list(planes) for g in c], select_hit_duts=[list(planes) for g in c], **a)
    ctx.expect(out == ctx.path('o.yaml') and conf(ctx.path('t.yaml')) == before, 'input-configuration', 'the input configuration was changed', **det)
    after = conf(out)
    new, old = Telescope(out), Telescope(ctx.path('t.yaml'))
    moved = set(sum(groups, []))
    for i in range(n):
        b, a = before['DUT'][i], after['DUT'][i]
        if known and i not in moved:
            ctx.expect(a == b, 'untouched', 'a sensor that is not selected was changed', sensor=i, before=b, after=a, **det)
        free = set(NAMES if pars[i] is None else pars[i]) - ({'translation_z'} if pars[i] is None and i in planes else set())
        if not known:
            free |= {'translation_x', 'translation_y'}
        if free & set(NAMES[:2]):
            free |= set(NAMES[:3])
        fixed = {k for k in b if k not in free}
        ctx.expect(set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * max(1, abs(b[k])) if k in NAMES else a[k] == b[k] for k in fixed), 'fixed', 'a parameter that is not selected was changed', sensor=i, before=b, after=a, **det)
    m0, s0, k0 = residuals(old, tabs, len(ev), planes)
    m1, s1, k1 = residuals(new, tabs, len(ev), planes)
    m2, s2, k2 = residuals(true, tabs, len(ev), planes)
    q = dict(det, mean=m1.tolist(), width=s1.tolist(), true_width=s2.tolist(), initial_mean=m0.tolist(), initial_width=s0.tolist(), tracks=k1.tolist())
    ctx.expect(np.all(np.abs(m1) < 6 * s2 / np.sqrt(k2)[:, None] + .2), 'mean', 'hits are off the tracks after the alignment', **q)
    ctx.expect(np.all(s1 < 1.04 * s2 + .1), 'width', 'residuals are wider than for the true positions', **q)
    if not known:
        slope = beam_angles(new, tabs, len(ev), planes)
        tilt = [after['rotation_alpha'] - slope[1], after['rotation_beta'] + slope[0]]
        ctx.expect(np.all(np.abs(tilt) < 1e-4 + 6 * spread / np.sqrt(k1.min())), 'beam', 'the direction of the beam in the configuration is not the direction of the tracks', slope=slope.tolist(), stored=[after['rotation_alpha'], after['rotation_beta']], **det)
        ctx.count(beams=1)
    elif not split:
        with ctx.sut('align'):
            da.align(ctx.path('t.yaml'), ctx.path('m.h5'), output_telescope_configuration=ctx.path('o.yaml'), select_duts=groups, alignment_parameters=[[pars[i] for i in g] for g in groups],
                     select_fit_duts=[list(planes) for g in groups], select_hit_duts=[list(planes) for g in groups], **kw)
        again = conf(out)
        ctx.expect(again == after, 'repeated', 'repeating the alignment gives a different configuration', before=before, once=after, twice=again, **det)
        ctx.count(repeated=1)
    ctx.ok(alignments=1, telescopes=not known, kalman_fits=method == 'kalman', separate_calls=split, already_aligned=bool(still and not known), several_groups=len(groups) > 1, partly_selected=bool(known), limits=kw['use_limits'])
    if not still:
        ctx.interesting(('align', case['seed']))
    ctx.sample = det
