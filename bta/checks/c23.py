"""Converted files against the transformation of each sensor computed here; row order, other columns, and the way back."""
import numpy as np
import tables as tb

from bta import gen

ID = 'C23'
RULE = 'a case is one file and one conversion there and back; non-trivial when sensors are rotated, rows without hits exist and several chunks are read'
MIN = {'positions': 200000, 'hit_files': 20, 'merged_files': 20, 'track_files': 20, 'aligned_to_beam': 10, 'many_sensors': 4, 'missing_hits': 2000, 'several_chunks': 40, 'with_records': 10, 'pixel_edges': 8}


def cases(seed, tier):
    k = 40 if tier == 'quick' else 1200
    return [dict(kind=('hits', 'merged', 'tracks')[i % 3], seed=seed * 7919 + i) for i in range(3 * k)]


EXTRA = np.dtype(gen.HIT.descr + [('cluster_ID', '<i2'), ('trigger', '<u8'), ('weight', '<f8')])


def run(case, ctx):
    (hits if case['kind'] == 'hits' else table)(case, ctx)


def same_columns(ctx, a, b, skip, det):
    ctx.expect(len(a) == len(b), 'rows', 'number of rows changed', got=len(b), want=len(a), **det)
    for c in a.dtype.names:
        if c not in skip:
            ctx.expect(c in b.dtype.names and gen.same_array(a[c], b[c]), 'columns', 'a column is not kept', column=c, **det)


def hits(case, ctx):
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    specs = []
    for i in range(n):
        cs, rs, nc, nr = gen.random_geo(rng)
        specs.append(dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr))
    tel = gen.telescope(ctx.path('t.yaml'), rng=rng, n_duts=n, specs=specs, offsets=True, rotations=True)
    files, tabs = [], []
    for i, s in enumerate(specs):
        a = gen.random_hits(rng, int(rng.choice([30, 200])), (s['n_columns'], s['n_rows']), dtype=EXTRA if rng.random() < .5 else gen.HIT)
        for c in ('cluster_ID', 'trigger', 'weight'):
            if c in a.dtype.names:
                a[c] = rng.integers(0, 1000, len(a))
        a['column'][:2], a['row'][:2] = (1, s['n_columns'])[:len(a)], (1, s['n_rows'])[:len(a)]
        tabs.append(a)
        files.append(gen.write_table(ctx.path('h%d.h5' % i), 'Hits', a, title='hits of %d' % i))
    top = gen.max_per_event(*tabs)
    chunk = gen.chunk_sizes(rng, max(map(len, tabs)), top)[0]
    duts = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    if rng.random() < .4:
        duts = duts[::-1]       # the files belong to the sensors as they are listed
    det = dict(specs=specs, chunk_size=chunk, duts=duts)
    out = [ctx.path('l%d.h5' % i) for i in range(n)]
    single = rng.random() < .5
    for to_local, src in ((True, files), (False, out)):
        dst = out if to_local else [ctx.path('b%d.h5' % i) for i in range(n)]
        with ctx.sut('convert'):
            if single:
                for i in duts:
                    r = ha.convert_coordinates(tel[i], src[i], output_hit_file=dst[i], index_to_local=to_local, chunk_size=chunk)
                    ctx.expect(r == dst[i], 'return', 'wrong file name returned', got=r)
            else:
                default = rng.random() < .4
                sel = [src[i] for i in duts]
                r = ha.convert(ctx.path('t.yaml'), sel, output_hit_files=None if default else [dst[i] for i in duts], select_duts=duts, index_to_local=to_local, chunk_size=chunk)
                ctx.expect(len(r) == len(duts), 'return', 'wrong number of files returned', got=r)
                if default:
                    for i, p in zip(duts, r):
                        dst[i] = p
                else:
                    ctx.expect(list(r) == [dst[i] for i in duts], 'return', 'wrong file names returned', got=r)
        for i in duts:
            a, s = tabs[i], specs[i]
            b = gen.read(dst[i], 'Hits')
            d = dict(dut=i, **det)
            if to_local:
                ctx.expect([c for c in b.dtype.names] == [{'column': 'x', 'row': 'y'}.get(c, c) for c in a.dtype.names], 'layout', 'columns of the output are wrong', got=b.dtype.names, **d)
                same_columns(ctx, a, b, ('column', 'row'), d)
                x, y = s['column_size'] * (a['column'] - .5 - s['n_columns'] / 2.), s['row_size'] * (a['row'] - .5 - s['n_rows'] / 2.)
                ctx.expect(np.allclose(b['x'], x, rtol=1e-12, atol=1e-7) and np.allclose(b['y'], y, rtol=1e-12, atol=1e-7), 'position', 'local position of a pixel is wrong', **d)
                ctx.ok(positions=len(a))
            else:
                ctx.expect(list(b.dtype.names) == list(a.dtype.names), 'layout', 'columns differ after converting there and back', got=b.dtype.names, **d)
                same_columns(ctx, a, b, (), d)
                ctx.ok(positions=len(a))
    # positions that are not pixel centres go to the pixel they are in
    if rng.random() < .6:
        i = duts[0]
        s, a = specs[i], tabs[i]
        l = np.zeros(len(a), gen.LHIT if rng.random() < .5 else np.dtype(gen.LHIT.descr + [('z', '<f8')]))
        for c in ('event_number', 'frame', 'charge'):
            l[c] = a[c]
        l['x'] = s['column_size'] * (a['column'] - .5 - s['n_columns'] / 2. + rng.uniform(-.49, .49, len(a)))
        l['y'] = s['row_size'] * (a['row'] - .5 - s['n_rows'] / 2. + rng.uniform(-.49, .49, len(a)))
        gen.write_table(ctx.path('p.h5'), 'Hits', l)
        with ctx.sut('convert_coordinates'):
            ha.convert_coordinates(tel[i], ctx.path('p.h5'), output_hit_file=ctx.path('q.h5'), index_to_local=False, chunk_size=chunk)
        b = gen.read(ctx.path('q.h5'), 'Hits')
        ctx.expect('z' not in b.dtype.names, 'layout', 'z is kept')
        same_columns(ctx, a[['event_number', 'frame', 'column', 'row', 'charge']], b, (), dict(dut=i, **det))
        ctx.ok(positions=len(a), pixel_edges=1)
    ctx.count(hit_files=1, several_chunks=chunk < max(map(len, tabs)))
    if chunk < max(map(len, tabs)):
        ctx.interesting(case)
    ctx.sample = dict(kind='hits', sensors=n, rows=[len(t) for t in tabs])


def moved(R, T, v):
    return np.array(R @ np.array(v, float)) + T[:, None]


def table(case, ctx):
    from beam_telescope_analysis import dut_alignment as da
    from beam_telescope_analysis.telescope.telescope import Telescope
    rng = ctx.rng
    many = rng.random() < .15
    n = int(rng.integers(11, 15)) if many else int(rng.integers(1, 7))
    specs = []
    right = rng.random() < .3       # only right angles
    for i in range(n):
        if right:
            s = dict(rotation_alpha=float(rng.choice([0., np.pi])), rotation_beta=0., rotation_gamma=float(rng.choice([0., np.pi / 2, -np.pi / 2, np.pi])))
        else:
            s = dict(rotation_alpha=float(rng.choice([0., rng.normal(0, .02), np.pi + rng.normal(0, .01), rng.uniform(-1, 1)])), rotation_beta=float(rng.normal(0, .3)), rotation_gamma=float(rng.uniform(-np.pi, np.pi)))
        s.update(translation_x=float(rng.normal(0, 5000)), translation_y=float(rng.normal(0, 5000)), translation_z=float(rng.choice([i * 2e4, i * 1.5e5])))
        specs.append(s)
    gen.telescope(ctx.path('t.yaml'), n_duts=n, specs=specs)
    tel = Telescope(ctx.path('t.yaml'))
    for a in ('translation_x', 'translation_y', 'translation_z'):
        setattr(tel, a, float(rng.normal(0, 2000)))
    for a in ('rotation_alpha', 'rotation_beta'):
        setattr(tel, a, float(rng.normal(0, .02)))
    if rng.random() < .5:
        tel.rotation_gamma = float(rng.uniform(-3, 3))
    tel.save_configuration(ctx.path('t.yaml'))
    beam = bool(rng.random() < .5)
    Rb, Tb = gen.rotation(tel.rotation_alpha, tel.rotation_beta, tel.rotation_gamma), np.array([tel.translation_x, tel.translation_y, tel.translation_z])
    if not beam:
        Rb, Tb = np.eye(3), np.zeros(3)
    rows = int(rng.choice([120, 600]))
    ev = np.sort(rng.choice(gen.event_numbers(rng, rows), size=rows))
    tabs = {}
    if case['kind'] == 'merged':
        m = gen.merged(rng, ev, n)
        for i in range(n):
            h = np.flatnonzero(rng.random(rows) < rng.choice([.3, .9]))
            gen.put_hits(rng, m, i, h, rng.uniform(-9000, 9000, len(h)), rng.uniform(-9000, 9000, len(h)), xerr=rng.uniform(1, 80), yerr=rng.uniform(1, 80))
        gen.set_hit_flag(m, n)
        tabs[('MergedClusters', 'TrackCandidates')[int(rng.integers(2))]] = m
    else:
        full = bool(rng.random() < .4)
        for i in rng.permutation(n)[:int(rng.integers(1, n + 1))] if rng.random() < .5 else range(n):
            t0 = gen.random_tracks(rng, ev, n)
            t = np.zeros(rows, gen.tracks_dtype(n, full=full))
            for c in t0.dtype.names:
                t[c] = t0[c]
            if full:
                for k in range(n):
                    for c in 'xy':
                        t['offset_%s_dut_%d' % (c, k)], t['slope_%s_dut_%d' % (c, k)] = rng.normal(0, 5000, rows), rng.normal(0, .1, rows)
                    t['slope_z_dut_%d' % k] = 1
            t['offset_x'][rng.random(rows) < .05] = np.nan
            tabs['Tracks_DUT%d' % i] = t
    with tb.open_file(ctx.path('in.h5'), 'w') as f:
        for k, t in tabs.items():
            f.create_table(f.root, k, description=t.dtype, title='title of ' + k).append(t)
        records = bool(rng.random() < .5)
        if records:     # as written by every analysis step
            g = f.create_group(f.root, 'arguments')
            r = f.create_table(g, 'some_step', description=np.dtype([('name', 'S256'), ('value', 'S1024')]))
            r.append(np.array([(b'telescope_configuration', b't.yaml')], r.dtype))
    top = gen.max_per_event(*tabs.values())
    chunk = gen.chunk_sizes(rng, rows, top)[0]
    det = dict(n=n, specs=specs if n < 7 else None, beam=beam, chunk_size=chunk, tables=sorted(tabs), records=records)
    use_default = rng.random() < .2
    with ctx.sut('apply_alignment'):
        g = da.apply_alignment(ctx.path('t.yaml'), ctx.path('in.h5'), output_file=None if use_default else ctx.path('g.h5'), local_to_global=True, align_to_beam=beam, chunk_size=chunk)
        b = da.apply_alignment(ctx.path('t.yaml'), g, output_file=None if use_default else ctx.path('b.h5'), local_to_global=False, align_to_beam=beam, chunk_size=chunk)
    G, B = gen.nodes(g), gen.nodes(b)
    for q, w in ((G, 'global'), (B, 'local')):
        ctx.expect(sorted(q) == sorted('/' + k for k in tabs), 'nodes', 'tables of the output are wrong', got=sorted(q), **det)
    for k, t in tabs.items():
        G1, B1 = G['/' + k][0], B['/' + k][0]
        ctx.expect(G1.dtype == t.dtype and B1.dtype == t.dtype, 'layout', 'columns of the output are wrong', **det)
        triples = [(i, '%s_dut_%d', '', 'pos') for i in range(n)]
        if case['kind'] == 'tracks':
            own = int(k[len('Tracks_DUT'):])
            triples += [(own, 'offset_%s', None, 'pos'), (own, 'slope_%s', None, 'dir')]
            if full:
                triples += [(i, 'offset_%s_dut_%d', '', 'pos') for i in range(n)] + [(i, 'slope_%s_dut_%d', '', 'dir') for i in range(n)]
        skip = {'%s_err_dut_%d' % (c, i) for c in 'xyz' for i in range(n)}
        for i, fmt, idx, what in triples:
            cols = [fmt % c if idx is None else fmt % (c, i) for c in 'xyz']
            skip |= set(cols)
            R, T = gen.pose(tel[i])
            M, V = Rb @ R, (Rb @ T + Tb if what == 'pos' else np.zeros(3))
            old = np.array([t[c] for c in cols])
            want = M @ old + V[:, None]
            got, back = np.array([G1[c] for c in cols]), np.array([B1[c] for c in cols])
            ok = np.isfinite(old).all(axis=0)
            scale = 1e-6 if what == 'pos' else 1e-10
            dd = dict(columns=cols, table=k, **det)
            ctx.expect(np.allclose(got[:, ok], want[:, ok], rtol=1e-9, atol=scale), 'transformed', 'global values are not those of the coordinate transformation of the sensor', got=got[:, ok][:, :2], want=want[:, ok][:, :2], **dd)
            ctx.expect(np.allclose(back[:, ok], old[:, ok], rtol=1e-9, atol=scale), 'back', 'converting there and back does not give the original values', got=back[:, ok][:, :2], want=old[:, ok][:, :2], **dd)
            none = np.isnan(old).any(axis=0)
            ctx.expect(np.isnan(got[:, none]).any(axis=0).all() and np.isnan(back[:, none]).any(axis=0).all(), 'missing', 'a missing hit got a position', **dd)
            ctx.ok(positions=int(ok.sum()), missing_hits=int(none.sum()))
        if right and not beam:      # axes are only exchanged or mirrored, and so are the errors
            for i in range(n):
                R = gen.pose(tel[i])[0]
                cols = ['%s_err_dut_%d' % (c, i) for c in 'xyz']
                old, got = np.array([t[c] for c in cols], float), np.array([G1[c] for c in cols], float)
                ok = np.isfinite(old).all(axis=0)
                unchanged = case['kind'] == 'merged' and np.array_equal(got[:, ok], old[:, ok])
                ctx.expect(unchanged or np.allclose(got[:, ok], np.abs(R @ old[:, ok]), rtol=1e-5, atol=1e-5), 'errors', 'errors are not rotated with the sensor', columns=cols, got=got[:, ok][:, :2], old=old[:, ok][:, :2], R=R, **det)
                ctx.ok(errors=int(ok.sum()))
        same_columns(ctx, t, G1, skip, det)
        same_columns(ctx, t, B1, skip, det)
    ctx.count(**{'merged_files' if case['kind'] == 'merged' else 'track_files': 1})
    ctx.count(aligned_to_beam=beam, many_sensors=many, several_chunks=chunk < rows, with_records=records)
    if chunk < rows and not right:
        ctx.interesting(case)
    ctx.sample = dict(kind=case['kind'], sensors=n, rows=rows, beam=beam)


def warm():
    from beam_telescope_analysis import dut_alignment, hit_analysis  # noqa: F401
