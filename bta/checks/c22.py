"""Simulated hits, compared with the configured beam and geometry: pixel by pixel for a beam of known tracks, within statistics otherwise."""
import logging
from math import erf

import numpy as np
import tables as tb

ID = 'C22'
RULE = 'a case is one simulated telescope, beam and seed; non-trivial when the sensors are rotated, charge is shared, or the beam has a width'
MIN = {'exact': 60, 'pixels': 20000, 'shared': 3000, 'last_pixel': 20, 'off_matrix': 40, 'rotated': 100, 'several_chunks': 30, 'more_duts': 3, 'repeated': 60, 'shuffled': 15,
       'beams': 8, 'wide': 4, 'straight': 50000, 'sectors': 3, 'rates': 12, 'inefficient': 15, 'noise': 4, 'thresholds': 4, 'scattering': 6, 'standard': 6, 'mixed_differently': 2, 'no_particle': 200}
ASSUMPTIONS = ['Charge clouds are smaller than a fifth of a pixel, as the simulation allows five pixels per particle.', 'Particles travel forward and cross every sensor plane, but for the beam in all directions (there, a particle is a straight line in both directions).',
               'Multiple scattering: the width of a projected angle is the Highland value, or smaller by the square root of two (the simulation draws the polar angle with this width).']
BOLTZMANN = 8.6173324e-5
CASE_TIMEOUT = 200.


def cases(seed, tier):
    k = 1 if tier == 'quick' else 15
    return ([dict(kind='wide', seed=seed * 8191 + i) for i in range(8 * k)] + [dict(kind='beam', seed=seed * 8191 + i) for i in range(16 * k)] + [dict(kind='scatter', seed=seed * 8191 + i) for i in range(12 * k)]
            + [dict(kind='rates', seed=seed * 8191 + i) for i in range(24 * k)] + [dict(kind='standard', seed=seed * 8191 + i) for i in range(12 * k)] + [dict(kind='exact', seed=seed * 8191 + i) for i in range(120 * k)])


def rotation(a, b, g):
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    return np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]]) @ np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]]) @ np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])


def warm():
    from beam_telescope_analysis.tools.simulate_data import SimulateData
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        s = SimulateData(1)
        s.create_data_and_store(d + '/w', n_events=20)


def run(case, ctx):
    logging.disable(logging.WARNING)
    globals()[case['kind']](case, ctx)


def simulate(ctx, name, seed, n_duts, settings, n_events, chunk_size=None):
    from beam_telescope_analysis.tools.simulate_data import SimulateData
    np.random.seed(ctx.rng.integers(2**31))     # whatever was done before must not matter
    with ctx.sut('simulator'):
        s = SimulateData(random_seed=seed)
        s.n_duts = n_duts
        for k, v in settings.items():
            assert hasattr(s, k), k
            setattr(s, k, v)
        if chunk_size is None:
            s.create_data_and_store(ctx.path(name), n_events=n_events)
        else:
            s.create_data_and_store(ctx.path(name), n_events=n_events, chunk_size=chunk_size)
    res = []
    for i in range(n_duts):
        with tb.open_file(ctx.path(name + '_DUT%d.h5' % i)) as f:
            res.append(f.root.Hits[:])
    for i, h in enumerate(res):
        e = h['event_number']
        ctx.expect(len(h) == 0 or (np.all(np.diff(e) >= 0) and e[0] >= 0), 'event-order', 'event numbers of simulated hits are not ascending', dut=i)
        ctx.expect(len(h) == 0 or e[-1] < n_events, 'too-many-events', 'more events than requested were simulated', dut=i, requested=n_events, last=int(e[-1]) if len(h) else None)
        nx, ny = settings['dut_n_pixel'][i]
        ctx.expect(np.all((h['column'] >= 1) & (h['column'] <= nx) & (h['row'] >= 1) & (h['row'] <= ny)), 'off-matrix', 'simulated hits are not on the pixel matrix', dut=i)
        ctx.expect(np.all(np.isfinite(h['charge'])), 'charge-nan', 'charge is not a number', dut=i)
    return res


def direction(theta, phi):
    return np.array([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta)])


def share(pos, pitch, columns, rows, sigma):
    """Part of a Gaussian charge cloud at pos (from the corner of the matrix) in every pixel."""
    def part(edges, mu):
        c = np.array([erf((e - mu) / (np.sqrt(2) * sigma)) for e in edges])
        return np.diff(c) / 2
    lo = max(columns[0] - 1, 0), max(rows[0] - 1, 0)
    return np.outer(part(pitch[0] * np.arange(lo[0], columns[1] + 1), pos[0]), part(pitch[1] * np.arange(lo[1], rows[1] + 1), pos[1])), lo


def exact(case, ctx):
    """All particles on one known line."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 6, 6, 7, 8]))
    k = int(rng.choice([1, 1, 2, 3]))
    n_events = int(rng.integers(1, 120))
    chunk = [None, int(rng.integers(1, n_events + 5))][int(rng.integers(2))]
    theta, phi = float(rng.choice([0, rng.uniform(0, 100), rng.uniform(0, 500)])), float(rng.uniform(0, 2 * np.pi))
    x0 = rng.uniform(-2000, 2000, 2)
    d = direction(theta / 1000, phi)
    z, rots, offs, pitches, npix, hitpos, thick, bias = [], [], [], [], [], [], [], []
    cc, temp = float(rng.choice([1., 1.35, 1.35, 2., rng.uniform(.5, 2)])), float(rng.uniform(200, 350))
    zz = float(rng.choice([0, 0, 5000, -20000]))
    for i in range(n):
        z.append(zz)
        zz += float(rng.uniform(5000, 100000))
        r = [(0., 0., 0.), (0., 0., float(rng.uniform(-np.pi, np.pi))), tuple(float(v) for v in (rng.uniform(-.7, .7), rng.uniform(-.7, .7), rng.uniform(-np.pi, np.pi))),
             (float(np.pi), 0., 0.), (0., float(np.pi), 0.)][int(rng.integers(5))]
        rots.append(r)
        thick.append(float(rng.uniform(50, 300)))
        bias.append(float(rng.uniform(30, 150)))
        sigma = thick[-1] / 2 * np.sqrt(2 * temp / bias[-1] * BOLTZMANN) * cc
        p = np.round(np.maximum(rng.choice([10, 18.4, 50, 100, 250, 400], size=2), 5 * sigma), 3)
        m = rng.integers(2, 60, 2)
        pix = np.array([int(rng.choice([1, int(v), rng.integers(1, v + 1)])) for v in m])
        if rng.random() < .2:
            pix = pix + rng.choice([-1, 1, 0, 3], size=2) * (m + 5)
        inside = rng.uniform(.03, .97, 2)
        if rng.random() < .6:       # near a border of the pixel, so that charge is shared
            a = int(rng.integers(2))
            inside[a] = np.clip(rng.choice([0, 1]) + rng.normal(0, 1.5 * sigma / p[a]), .0002, .9998)
        u = (pix - 1 + inside) * p
        w = rotation(*r) @ np.array([u[0], u[1], 0])
        t = (zz * 0 + z[-1] + w[2]) / d[2]
        o = np.append(x0, 0) + t * d - w
        offs.append((float(o[0]), float(o[1])))
        pitches.append((float(p[0]), float(p[1])))
        npix.append((int(m[0]), int(m[1])))
        hitpos.append((u, pix, sigma))
    s = dict(z_positions=z, offsets=offs, rotations=rots, temperature=temp, beam_position=tuple(float(v) for v in x0), beam_position_sigma=(0, 0), beam_angle=theta, beam_angle_sigma=0,
             beam_direction=(phi, phi), tracks_per_event=k, tracks_per_event_sigma=0, dut_bias=bias, dut_thickness=thick, dut_threshold=[0] * n, dut_noise=[0] * n, dut_pixel_size=pitches,
             dut_n_pixel=npix, dut_efficiencies=[1.] * n, dut_material_budget=[0] * n, digitization_charge_sharing=False, digitization_shuffle_hits=bool(rng.random() < .5),
             digitization_sigma_cc=cc, digitization_pixel_discretization=True)
    seed = int(rng.integers(2**31))
    plain = simulate(ctx, 'plain', seed, n, s, n_events, chunk)
    ctx.count(exact=1, several_chunks=chunk is not None and chunk < n_events, more_duts=n > 6, rotated=sum(any(r) for r in rots))
    deposit = []
    for i, h in enumerate(plain):
        u, pix, sigma = hitpos[i]
        on = np.all(pix >= 1) and np.all(pix <= npix[i])
        events = np.repeat(np.arange(n_events), k) if on else np.zeros(0, int)
        ctx.expect(np.array_equal(h['event_number'], events), 'events', 'a particle that crosses the sensor has no hit in its event, or there are hits without particle', dut=i, expected=len(events), found=len(h))
        ctx.expect(np.all(h['column'] == pix[0]) and np.all(h['row'] == pix[1]), 'pixel', 'hits are not in the pixel that is crossed by the particles', dut=i, expected=[int(v) for v in pix],
                   found=[int(h['column'][0]), int(h['row'][0])] if len(h) else None, rotation=rots[i])
        ctx.expect(np.all(h['charge'] >= 0), 'charge-negative', 'negative charge without noise', dut=i)
        ctx.count(pixels=len(h), off_matrix=not on, last_pixel=bool(on and np.any(pix == np.array(npix[i]))))
        deposit.append(np.bincount(h['event_number'], weights=h['charge'].astype(float), minlength=n_events) if on else None)
    again = simulate(ctx, 'again', seed, n, s, n_events, chunk)
    ctx.expect(all(np.array_equal(a, b) for a, b in zip(plain, again)), 'seed', 'the same seed and settings gave different data')
    ctx.count(repeated=1)
    if n_events * k > 20 and deposit[0] is not None:
        other = simulate(ctx, 'other', seed ^ (1 << int(rng.integers(31))), n, s, n_events, chunk)
        ctx.expect(not np.array_equal(plain[0], other[0]), 'seed-ignored', 'another seed gave the same data')
    shared = simulate(ctx, 'shared', seed, n, dict(s, digitization_charge_sharing=True), n_events, chunk)
    shows = False
    for i, h in enumerate(shared):
        u, pix, sigma = hitpos[i]
        if deposit[i] is None:      # charge of unseen particles is not known, but it reaches the neighbours of its pixel only
            ctx.expect(np.all(np.maximum(abs(h['column'].astype(int) - pix[0]), abs(h['row'].astype(int) - pix[1])) <= 1), 'shared-far', 'charge far away from the particle', dut=i)
            continue
        f, lo = share(u, pitches[i], (pix[0] - 2, min(pix[0] + 2, npix[i][0])), (pix[1] - 2, min(pix[1] + 2, npix[i][1])), sigma)
        total = np.bincount(h['event_number'], weights=h['charge'].astype(float), minlength=n_events)
        ctx.expect(np.all(total <= deposit[i] * (1 + 1e-4) + 1e-6), 'charge-sum', 'charge sharing created charge', dut=i, ratio=float(np.max(total / np.maximum(deposit[i], 1e-9))))
        charge = np.zeros((n_events,) + f.shape)
        count = np.zeros((n_events,) + f.shape, int)
        c, r = h['column'].astype(int) - 1 - lo[0], h['row'].astype(int) - 1 - lo[1]
        ok = (c >= 0) & (c < f.shape[0]) & (r >= 0) & (r < f.shape[1])
        ctx.expect(np.all(ok), 'shared-far', 'charge far away from the particle', dut=i)
        np.add.at(charge, (h['event_number'], c, r), h['charge'])
        np.add.at(count, (h['event_number'], c, r), 1)
        seen = count > 0
        want = deposit[i][:, None, None] * f[None]
        ctx.expect(np.all(abs(charge - want)[seen] <= 1e-4 * want[seen] + 1e-4), 'shared-charge', 'charge of a pixel is not its part of the charge cloud', dut=i, seen=charge[seen][:6], expected=want[seen][:6], sigma=sigma)
        ctx.expect(np.all(seen[:, f > .0101]), 'shared-missing', 'pixels with more than one percent of the charge have no hit', dut=i, fractions=f[f > .0101], position=u, matrix=npix[i], pitch=pitches[i])
        ctx.expect(np.all((count == k) | (count == 0)), 'shared-count', 'not one hit per particle and pixel', dut=i)
        ctx.count(shared=int((count.sum(axis=0) > 0).sum() > 1) * len(h))
        shows = shows or (f > .0101).sum() > 1
        ctx.ok(len(h))
    if n_events * k > 10:
        # part of the hits of each sensor is lost
        eff = [float(rng.choice([.9, .5, .2])) for i in range(n)]
        part = simulate(ctx, 'part', seed, n, dict(s, digitization_charge_sharing=True, dut_efficiencies=eff), n_events, chunk)
        chunks = 1 if chunk is None else -(-n_events // chunk)
        for i, h in enumerate(part):
            want = len(shared[i]) * eff[i]
            ctx.expect(abs(len(h) - want) <= 6 * np.sqrt(want * (1 - eff[i])) + chunks, 'efficiency', 'efficiency with several hits per particle', dut=i, expected=want, found=len(h))
        ctx.count(inefficient=n)
    if shows or any(any(r) for r in rots):
        ctx.interesting(case['seed'])
    ctx.sample = dict(duts=n, tracks_per_event=k, events=n_events, chunk_size=chunk, theta=theta, rotations=rots[:2], hits=[len(h) for h in shared])


def standard(case, ctx):
    """Another number of sensors, all with the standard settings."""
    from beam_telescope_analysis.tools.simulate_data import SimulateData
    rng = ctx.rng
    seed, N = int(rng.integers(2**31)), 300
    numbers = [int(v) for v in rng.integers(2, 11, int(rng.integers(1, 4)))]
    with ctx.sut('simulator'):
        s = SimulateData(random_seed=seed)
        for n in numbers:
            s.n_duts = n
        s.digitization_shuffle_hits, s.digitization_charge_sharing = False, False
        s.tracks_per_event, s.tracks_per_event_sigma = 1, 0
        s.create_data_and_store(ctx.path('std'), n_events=N)
        hits = []
        for i in range(n):
            with tb.open_file(ctx.path('std_DUT%d.h5' % i)) as f:
                hits.append(f.root.Hits[:])
    for i, h in enumerate(hits):
        # the beam of the standard settings covers about 80 percent of the sensor; neighbouring sensors are 1 cm apart
        ctx.expect(.6 * N < len(h) <= N and np.all(np.diff(h['event_number']) > 0), 'standard', 'number of hits with standard settings', dut=i, hits=len(h), numbers=numbers)
        if i:
            e, a, b = np.intersect1d(h['event_number'], hits[i - 1]['event_number'], return_indices=True)
            d = max(np.abs(h[c][a].astype(int) - hits[i - 1][c][b]).max() for c in ('column', 'row'))
            ctx.expect(len(e) > .5 * N and d < 5, 'standard', 'particles of the standard beam are not on a line', dut=i, distance=int(d), numbers=numbers)
    ctx.ok(sum(len(h) for h in hits), standard=1)
    ctx.interesting(case['seed'])


def planes(rng, n, rotated=True):
    s = dict(z_positions=[], rotations=[], offsets=[], dut_pixel_size=[], dut_n_pixel=[])
    z = 0.
    for i in range(n):
        r = tuple(float(v) for v in (rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(-np.pi, np.pi))) if rotated and rng.random() < .6 else (0., 0., 0.)
        p, m = (float(rng.uniform(3, 8)), float(rng.uniform(3, 8))), (65000, 65000)
        half = np.array([m[0] * p[0], m[1] * p[1], 0]) / 2
        w = rotation(*r) @ half       # the middle of the sensor is on the axis
        s['z_positions'].append(z - float(w[2]))
        s['offsets'].append((-float(w[0]), -float(w[1])))
        s['rotations'].append(r)
        s['dut_pixel_size'].append(p)
        s['dut_n_pixel'].append(m)
        z += float(rng.uniform(100000, 200000))
    s.update(temperature=300., dut_bias=[50] * n, dut_thickness=[100] * n, dut_threshold=[0] * n, dut_noise=[0] * n, dut_efficiencies=[1.] * n, dut_material_budget=[0] * n,
             digitization_charge_sharing=False, digitization_shuffle_hits=False, tracks_per_event=1, tracks_per_event_sigma=0, beam_momentum=3200)
    return s


def points(s, i, h):
    """Middle of the hit pixels in global coordinates."""
    p = s['dut_pixel_size'][i]
    local = np.array([(h['column'] - .5) * p[0], (h['row'] - .5) * p[1], np.zeros(len(h))])
    return (rotation(*s['rotations'][i]) @ local).T + np.array([s['offsets'][i][0], s['offsets'][i][1], s['z_positions'][i]])


def beam(case, ctx):
    """A wide beam: straight lines through all sensors; position and direction as configured."""
    rng = ctx.rng
    n, N = int(rng.integers(3, 6)), 8000
    s = planes(rng, n)
    pos, width = rng.uniform(-1000, 1000, 2), 10 ** rng.uniform(1.5, 3.6, 2)
    m, a = float(rng.choice([0, 0, rng.uniform(5, 60)])), float(10 ** rng.uniform(0, 1.2))
    sector = (0, 2 * np.pi)
    if rng.random() < .5:
        q = float(rng.uniform(0, 4))
        sector = (q, q + float(rng.uniform(.5, 2.2)))
    s.update(beam_position=tuple(float(v) for v in pos), beam_position_sigma=tuple(float(v) for v in width), beam_angle=m, beam_angle_sigma=a, beam_direction=sector)
    hits = simulate(ctx, 'b', int(rng.integers(2**31)), n, s, N, int(rng.integers(1000, N)))
    for i, h in enumerate(hits):
        ctx.expect(np.array_equal(h['event_number'], np.arange(N)), 'beam-hits', 'particles without hit', dut=i, hits=len(h), rotation=s['rotations'][i])
    P = [points(s, i, h) for i, h in enumerate(hits)]
    pixel = max(max(p) for p in s['dut_pixel_size'])
    for i in range(1, n - 1):
        t = ((P[i][:, 2] - P[0][:, 2]) / (P[-1][:, 2] - P[0][:, 2]))[:, None]
        off = abs(P[0] + t * (P[-1] - P[0]) - P[i])[:, :2].max()
        ctx.expect(off < 3.5 * pixel, 'not-straight', 'particles without scattering do not follow a straight line', dut=i, distance=float(off), pixel=pixel)
        ctx.count(straight=N)
    d = (P[-1] - P[0]) / (P[-1] - P[0])[:, 2:]
    at0 = P[0] - d * P[0][:, 2:]
    for j in (0, 1):
        v = at0[:, j]
        ctx.expect(abs(v.mean() - pos[j]) < 6 * width[j] / np.sqrt(N) + pixel, 'beam-position', 'mean position of the beam', axis=j, expected=pos[j], found=v.mean())
        ctx.expect(abs(v.std() / np.hypot(width[j], pixel / 3) - 1) < .06 + .03 * pixel / width[j], 'beam-width', 'width of the beam', axis=j, expected=width[j], found=v.std())
    theta = np.arctan(np.hypot(d[:, 0], d[:, 1])) * 1000
    rms, want = np.sqrt((theta ** 2).mean()), np.hypot(m, a)
    ctx.expect(abs(rms / want - 1) < .06, 'beam-angle', 'polar angle of the beam (rms)', expected=want, found=rms)
    from math import exp, pi, sqrt
    mean = a * sqrt(2 / pi) * exp(-m * m / (2 * a * a)) + m * erf(m / (a * sqrt(2)))
    ctx.expect(abs(theta.mean() - mean) < 6 * a / np.sqrt(N) + .02, 'beam-angle', 'polar angle of the beam (mean)', expected=mean, found=theta.mean())
    big = theta > .5
    span = sector[1] - sector[0]
    margin = .15 if span < 6 else 0.
    phi = np.sort((np.arctan2(d[big, 1], d[big, 0]) - sector[0] + margin) % (2 * np.pi) - margin)
    if span < 6:
        ctx.expect(phi[0] > -.15 and phi[-1] < span + .15, 'beam-direction', 'particles outside of the range of directions', range=sector, found=(phi[0] + sector[0], phi[-1] + sector[0]))
        ctx.count(sectors=1)
    u = np.clip(phi / span, 0, 1)
    D = abs(u - (np.arange(len(u)) + .5) / len(u)).max() * np.sqrt(len(u))
    ctx.expect(D < 3.5, 'beam-direction', 'directions are not evenly distributed', range=sector, distance=D)
    ctx.count(beams=1)
    ctx.interesting(case['seed'])
    ctx.sample = dict(kind='beam', position=pos, width=width, angle=(m, a), sector=sector)


def wide(case, ctx):
    """Particles in all directions from one point: the polar angle is limited to [0, pi]."""
    rng = ctx.rng
    n, N = 2, 8000
    s = planes(rng, n, rotated=False)
    z = float(rng.uniform(3000, 12000))
    s['z_positions'] = [z, z * float(rng.uniform(1.1, 3))]
    a = float(rng.uniform(.9, 2.) if case['seed'] % 4 else rng.uniform(.2, .7))
    s.update(beam_position=(0., 0.), beam_position_sigma=(0, 0), beam_angle=0, beam_angle_sigma=a * 1000, beam_direction=(0, 2 * np.pi))
    hits = simulate(ctx, 'd', int(rng.integers(2**31)), n, s, N, int(rng.choice([N, 3000])))
    for i, h in enumerate(hits):
        ctx.expect(len(np.unique(h['event_number'])) == len(h) and len(h) <= N, 'beam-hits', 'more than one hit of a particle', dut=i)
        r = np.hypot(*points(s, i, h)[:, :2].T)
        for R in np.geomspace(.2, 7, 12) * s['z_positions'][i]:
            t = np.arctan2(R, s['z_positions'][i])
            F = [erf(v / (a * np.sqrt(2))) for v in (t, np.pi - t, np.pi)]
            want = (F[0] + F[2] - F[1]) / F[2]
            if R < 90000:
                got = (r < R).sum() / N
                ctx.expect(abs(got - want) < 3.5 / np.sqrt(N) + .01, 'wide-angles', 'polar angles of a wide beam', dut=i, radius=R, expected=want, found=got, sigma=a)
                ctx.ok(1)
    ctx.count(wide=1)
    ctx.interesting(case['seed'])
    ctx.sample = dict(kind='wide', sigma=a)


def scatter(case, ctx):
    """A pencil beam and one plane with material."""
    rng = ctx.rng
    n, N = 4, 8000
    s = planes(rng, n, rotated=False)
    k = int(rng.integers(1, 3))
    budget, p = float(10 ** rng.uniform(-3, -1.3)), float(rng.choice([500, 1000, 3200, 5000]))
    s['dut_material_budget'] = [budget if i == k else 0 for i in range(n)]
    s.update(beam_momentum=p, beam_position=(0., 0.), beam_position_sigma=(0, 0), beam_angle=float(rng.choice([0, 20])), beam_angle_sigma=0, beam_direction=(1., 1.))
    hits = simulate(ctx, 's', int(rng.integers(2**31)), n, s, N)
    for i, h in enumerate(hits):
        ctx.expect(np.array_equal(h['event_number'], np.arange(N)), 'beam-hits', 'particles without hit', dut=i, hits=len(h))
    P = [points(s, i, h) for i, h in enumerate(hits)]
    for i in range(k + 1):
        ctx.expect(np.all(P[i] == P[i][0]), 'scatter-before', 'particles are scattered before the plane with material', dut=i)
    theta0 = 13.6 / p * np.sqrt(budget) * (1 + .038 * np.log(budget))
    d = direction(s['beam_angle'] / 1000, 1.)
    kink = (P[-1] - P[k])[:, :2] / (P[-1] - P[k])[:, 2:] - d[:2] / d[2]
    for j in (0, 1):
        w = kink[:, j].std()
        # either the projected or the polar angle has the width
        ctx.expect(min(abs(w / theta0 - 1), abs(w / theta0 * np.sqrt(2) - 1)) < .05, 'scatter-width', 'width of the scattering angle', budget=budget, momentum=p, expected=theta0, found=w)
        ctx.expect(abs(kink[:, j].mean()) < 6 * theta0 / np.sqrt(N) + 1e-4, 'scatter-mean', 'scattering is not symmetric', found=kink[:, j].mean(), width=theta0)
    c = np.corrcoef(kink[:, 0], kink[:, 1])[0, 1]
    ctx.expect(abs(c) < .15, 'scatter-correlation', 'scattering in x and y is correlated', correlation=c)
    for i in range(k + 1, n - 1):
        t = ((P[i][:, 2] - P[k][:, 2]) / (P[-1][:, 2] - P[k][:, 2]))[:, None]
        ctx.expect(abs(P[k] + t * (P[-1] - P[k]) - P[i])[:, :2].max() < 20, 'not-straight', 'particles do not follow a straight line behind the plane with material', dut=i)
    ctx.count(scattering=1)
    ctx.interesting(case['seed'])
    ctx.sample = dict(kind='scatter', theta0=theta0, width=kink.std(axis=0))


def rates(case, ctx):
    """Number of particles, efficiency, noise, threshold, order within events."""
    rng = ctx.rng
    n, N = int(rng.integers(2, 7)), 4000
    s = planes(rng, n)
    sigma = float(rng.choice([0, .5, 1, 2]))
    k = int(rng.integers(1, 10))
    eff = [1.] + [float(rng.choice([1, 1, .99, .9, .5, .1, 0.])) for i in range(n - 1)]
    s.update(beam_position=(0., 0.), beam_position_sigma=(500., 300.), beam_angle=0, beam_angle_sigma=1, beam_direction=(0, 2 * np.pi), tracks_per_event=k, tracks_per_event_sigma=sigma,
             dut_efficiencies=eff, dut_thickness=[float(rng.uniform(50, 300)) for i in range(n)])
    seed, chunk = int(rng.integers(2**31)), int(rng.choice([N, N + 1]) if case['seed'] % 3 < 2 else rng.choice([1000, 1500, 700]))
    hits = simulate(ctx, 'r', seed, n, s, N, chunk)
    chunks = -(-N // chunk)
    per_event = np.bincount(hits[0]['event_number'], minlength=N)
    total = per_event.sum()
    if sigma == 0:
        ctx.expect(np.all(per_event == k), 'rate', 'number of particles per event', expected=k, found=per_event.mean())
    else:
        # normal distribution, rounded; nothing instead of negative numbers
        edges = np.arange(0, k + 12) + .5
        cdf = np.array([.5 * (1 + erf((e - k) / (np.sqrt(2) * sigma))) for e in edges])
        frac = np.bincount(per_event, minlength=len(edges))[:len(edges)] / N
        ctx.expect(np.all(abs(np.cumsum(frac) - cdf) < 3.5 / np.sqrt(N)), 'rate', 'number of particles per event is not distributed as configured', mean=k, sigma=sigma, found=frac[:k + 5])
        ctx.count(no_particle=int((per_event == 0).sum()))
    for i, h in enumerate(hits):
        e = eff[i]
        ctx.expect(abs(len(h) - e * total) < 6 * np.sqrt(e * (1 - e) * total) + (chunks + 1 if e not in (0, 1) else .5), 'efficiency', 'efficiency', dut=i, expected=e, found=len(h) / total)
        if e < 1 and e > 0:
            # hits are lost anywhere in the run
            seen = np.bincount(h['event_number'], minlength=N)
            part = [seen[q::4].sum() / per_event[q::4].sum() for q in range(4)] + [q.sum() / r.sum() for q, r in zip(np.array_split(seen, 4), np.array_split(per_event, 4))]
            ctx.expect(np.all(abs(np.array(part) - e) < 6.5 * np.sqrt(e * (1 - e) / total * 4) + 8. / total), 'efficiency-uneven', 'hits are not lost evenly', dut=i, efficiency=e, parts=part)
            ctx.count(inefficient=1)
            ctx.expect(np.all(seen <= per_event), 'efficiency', 'more hits than particles', dut=i)
    for i in range(1, n):
        if len(hits[i]) > 500:
            q = np.median(hits[i]['charge']) / np.median(hits[0]['charge']) * s['dut_thickness'][0] / s['dut_thickness'][i]
            ctx.expect(abs(q - 1) < .15, 'charge-thickness', 'charge is not proportional to the thickness of the sensor', dut=i, ratio=q)
    ctx.count(rates=1, several_chunks=chunks > 1)
    # one feature of the first sensor changed, its other random numbers are the same
    def first(v):
        return [v] + [0] * (n - 1)
    kind = case['seed'] % 3
    h0 = hits[0]
    if kind == 0:
        noise = float(rng.choice([30, 100, 500]))
        h = simulate(ctx, 'n', seed, n, dict(s, dut_noise=first(noise)), N, N)[0] 
        ctx.expect(len(h) == len(h0), 'noise-hits', 'noise changes the number of hits without threshold')
        v = (h['charge'].astype(float) - h0['charge']) * 10
        ctx.expect(abs(v.std() / noise - 1) < .08 and abs(v.mean()) < 6 * noise / np.sqrt(len(v)), 'noise', 'noise of the charge', expected=noise, found=v.std(), mean=v.mean())
        ctx.count(noise=1)
    elif kind == 1:
        thr = float(np.median(h0['charge']) * 10 * rng.uniform(.8, 1.3))
        h = simulate(ctx, 'c', seed, n, dict(s, dut_threshold=first(thr)), N, N)[0] 
        # charges are stored with single precision
        clear = abs(h0['charge'] * 10. / thr - 1) > 1e-5
        want = h0[clear & (h0['charge'] * 10. >= thr)]
        got = h[abs(h['charge'] * 10. / thr - 1) > 1e-5]
        ctx.expect(np.array_equal(want, got), 'threshold', 'hits above the threshold', threshold=thr, expected=len(want), found=len(got))
        ctx.count(thresholds=1)
    if k > 1 or sigma:
        mixed = simulate(ctx, 'm', seed, n, dict(s, digitization_shuffle_hits=True), N, chunk)
        for i in range(n):
            if eff[i] < 1:
                continue
            a, b = (np.sort(x[['event_number', 'column', 'row']], order=('event_number', 'column', 'row')) for x in (hits[i], mixed[i]))
            ctx.expect(np.array_equal(a, b), 'shuffle', 'mixing the hits of an event changes more than their order', dut=i)
            ctx.expect(not np.array_equal(hits[i][['column', 'row']], mixed[i][['column', 'row']]), 'shuffle-none', 'hits are not mixed', dut=i)
            ctx.count(shuffled=1)
            if i and k > 1 and len(mixed[0]) == len(mixed[i]):
                # order of the hits within each event, relative to the particles
                o = [np.lexsort((h['row'], h['column'], h['event_number'])) for h in (hits[0], mixed[0], hits[i], mixed[i])]
                q = [np.empty(len(hits[0]), int) for _ in (0, 1)]
                q[0][o[1]], q[1][o[3]] = o[0], o[2]
                same = np.mean(q[0] == q[1])
                ctx.expect(same < .85, 'shuffle-same', 'the hits of all sensors are mixed in the same way', dut=i, same=same)
                ctx.count(mixed_differently=1)
    ctx.ok(sum(len(h) for h in hits))
    ctx.interesting(case['seed'])
    ctx.sample = dict(kind='rates', tracks=(k, sigma), efficiencies=eff, found=[len(h) / total for h in hits])
