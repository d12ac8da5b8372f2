"""One small legal call of every analysis step, with the files it reads and writes. Used by the checks that hold for all steps."""
import os

import numpy as np
import tables as tb

from bta import gen
from bta.checks import fitdata


class Step(object):
    """func(**kw) reads `inputs` and writes `outputs`; `rows` and `top` (rows of the largest event)
    bound the chunk size from below, and so does `least`; `inner`: step that is called for every sensor."""

    def __init__(self, name, func, kw, inputs, outputs, rows=None, top=None, inner=None, least=1):
        self.name, self.func, self.kw, self.inputs, self.outputs, self.rows, self.top, self.inner, self.least = name, func, kw, inputs, outputs, rows, top, inner, least

    def chunk_sizes(self, rng, k):
        return [max(c, self.least) for c in gen.chunk_sizes(rng, self.rows, self.top, k)]

    def out_key(self):
        return [k for k in self.kw if k.startswith('output_')]


def events(rng, n=None):
    return gen.event_numbers(rng, n or int(rng.choice([20, 90, 200])))


def sensors(rng, p, n, rotations=True):
    geos = [(50., 50., 40, 32), (50., 50., 20, 64), (18.4, 18.4, 60, 40), (250., 50., 20, 30)]
    geos = [geos[int(i)] for i in rng.integers(len(geos), size=n)]
    return geos, gen.telescope(p('t.yaml'), rng, n_duts=n, sizes=geos, offsets=True, rotations=rotations)


def hit_files(rng, p, n, same=False):
    geos, tel = sensors(rng, p, n)
    ev = events(rng)
    files, tabs = [], []
    for i, (cs, rs, nc, nr) in enumerate(geos):
        a = gen.random_hits(rng, len(ev), (nc, nr), max_hits=int(rng.choice([3, 9])))
        u = np.unique(a['event_number'])
        a['event_number'] = ev[np.searchsorted(u, a['event_number'])]
        keep = rng.random(len(ev)) < (1. if same else .9)
        a = a[np.isin(a['event_number'], ev[keep])]
        for k in range(3):      # noisy pixels
            w = rng.integers(len(a), size=len(ev) // 4)
            a['column'][w], a['row'][w] = rng.integers(1, nc + 1), rng.integers(1, nr + 1)
        _, first = np.unique(np.rec.fromarrays([a['event_number'], a['column'], a['row']]), return_index=True)
        a = a[np.sort(first)]
        tabs.append(a)
        files.append(gen.write_table(p('h%d.h5' % i), 'Hits', a, title='hits'))
    return geos, tel, files, tabs


def cluster_files(rng, p, n, positions=None):
    geos, tel = sensors(rng, p, n)
    ev = events(rng)
    files, tabs = [], []
    for i, g in enumerate(geos):
        e = ev[rng.random(len(ev)) < rng.choice([1., .8])]
        t = gen.random_clusters(rng, e, rng.integers(1, int(rng.choice([2, 5])) + 1, len(e)), g, positions=bool(rng.random() < .4) if positions is None else positions)
        tabs.append(t)
        files.append(gen.write_table(p('c%d.h5' % i), 'Clusters', t))
    return geos, tel, files, tabs


def bounds(tabs):
    return max(map(len, tabs)), gen.max_per_event(*tabs)


def convert(rng, p, one=False):
    from beam_telescope_analysis import hit_analysis as ha
    n = int(rng.integers(1, 4))
    geos, tel, files, tabs = hit_files(rng, p, n)
    r, t = bounds(tabs)
    if one:
        return Step('convert_coordinates', ha.convert_coordinates, dict(dut=tel[0], input_hit_file=files[0], output_hit_file=p('o0.h5'), index_to_local=True), files[:1], [p('o0.h5')], r, t)
    out = [p('o%d.h5' % i) for i in range(n)]
    return Step('convert', ha.convert, dict(telescope_configuration=p('t.yaml'), input_hit_files=files, output_hit_files=out, select_duts=list(range(n)), index_to_local=True), files + [p('t.yaml')], out, r, t, 'convert_coordinates')


def check(rng, p, one=False):
    from beam_telescope_analysis import hit_analysis as ha
    n = int(rng.integers(1, 4))
    geos, tel, files, tabs = hit_files(rng, p, n)
    r, t = bounds(tabs)
    er = int(rng.choice([1, 2, 5]))
    if one:
        return Step('check_file', ha.check_file, dict(dut=tel[0], input_hit_file=files[0], output_check_file=p('o0.h5'), event_range=er, plot=False), files[:1], [p('o0.h5')], r, t)
    out = [p('o%d.h5' % i) for i in range(n)]
    return Step('check', ha.check, dict(telescope_configuration=p('t.yaml'), input_hit_files=files, output_check_files=out, select_duts=list(range(n)), event_ranges=er, plot=False), files + [p('t.yaml')], out, r, t, 'check_file')


def mask(rng, p, one=False):
    from beam_telescope_analysis import hit_analysis as ha
    n = int(rng.integers(1, 4))
    geos, tel, files, tabs = hit_files(rng, p, n)
    r, t = bounds(tabs)
    th = float(rng.choice([10., 2., 5.5]))
    if one:
        dis = rng.random((geos[0][2], geos[0][3])) < .05 if rng.random() < .5 else None
        return Step('mask_pixels', ha.mask_pixels, dict(dut=tel[0], input_hit_file=files[0], output_mask_file=p('o0.h5'), threshold=th, disable_mask=dis, iterations=2, plot=False), files[:1], [p('o0.h5')], r, t)
    out = [p('o%d.h5' % i) for i in range(n)]
    return Step('mask', ha.mask, dict(telescope_configuration=p('t.yaml'), input_hit_files=files, output_mask_files=out, select_duts=list(range(n)), thresholds=[th] * n, filter_sizes=[3] * n, pixel_mask_names=['NoisyPixelMask', 'DisabledPixelMask', 'NoisyPixelMask'][:n], plot=False),
                files + [p('t.yaml')], out, r, t, 'mask_pixels')


def cluster(rng, p, one=False):
    from beam_telescope_analysis import hit_analysis as ha
    n = 1 if one else int(rng.integers(1, 3))
    geos, tel, files, tabs = hit_files(rng, p, n)
    r, t = bounds(tabs)
    masks = [None] * n
    for i in range(n):
        if rng.random() < .6:
            masks[i] = p('mask%d.h5' % i)
            with tb.open_file(masks[i], 'w') as f:
                f.create_carray(f.root, ('NoisyPixelMask', 'DisabledPixelMask')[int(rng.integers(2))], obj=rng.random((geos[i][2], geos[i][3])) < .05)
    used = [m for m in masks if m]
    lo = float(rng.choice([1, 3])) if rng.random() < .5 else None
    w = bool(rng.random() < .5)
    if one:
        return Step('cluster_hits', ha.cluster_hits, dict(dut=tel[0], input_hit_file=files[0], output_cluster_file=p('o0.h5'), input_mask_file=masks[0], min_hit_charge=lo, charge_correction=1, charge_weighted_clustering=w, column_cluster_distance=2, row_cluster_distance=1, plot=False), files[:1] + used, [p('o0.h5')], r, t, least=r // 15)
    out = [p('o%d.h5' % i) for i in range(n)]
    return Step('cluster', ha.cluster, dict(telescope_configuration=p('t.yaml'), input_hit_files=files, input_mask_files=masks, output_cluster_files=out, select_duts=list(range(n)), min_hit_charges=[lo] * n, charge_corrections=[1] * n, charge_weighted_clustering=[w] * n, column_cluster_distances=[2] * n, row_cluster_distances=[1] * n, frame_cluster_distances=[0] * n, plot=False),
                files + used + [p('t.yaml')], out, r, t, 'cluster_hits', least=r // 15)     # every chunk takes a while


def correlate(rng, p):
    from beam_telescope_analysis import hit_analysis as ha
    n = int(rng.integers(2, 5))
    geos, tel, files, tabs = cluster_files(rng, p, n)
    r, t = bounds(tabs)
    return Step('correlate', ha.correlate, dict(telescope_configuration=p('t.yaml'), input_files=files, output_correlation_file=p('o.h5'), resolution=(float(rng.choice([100., 250.])), 100.), select_reference_duts=0 if rng.random() < .5 else [0, 1], plot=False), files + [p('t.yaml')], [p('o.h5')], r, t, least=r // 15)


def merge(rng, p):
    from beam_telescope_analysis import hit_analysis as ha
    n = int(rng.integers(2, 6))
    geos, tel, files, tabs = cluster_files(rng, p, n)
    r, t = bounds(tabs)
    return Step('merge_cluster_data', ha.merge_cluster_data, dict(telescope_configuration=p('t.yaml'), input_cluster_files=files, output_merged_file=p('o.h5')), files + [p('t.yaml')], [p('o.h5')], r, t)


def find(rng, p):
    from beam_telescope_analysis import track_analysis as ta
    n = int(rng.integers(2, 6))
    tel, _ = fitdata.telescope(rng, p('t.yaml'), n)
    m = fitdata.candidates(rng, tel, n, int(rng.choice([20, 60, 120])), int(rng.choice([2, 5])))
    gen.write_table(p('in.h5'), 'MergedClusters', m)
    return Step('find_tracks', ta.find_tracks, dict(telescope_configuration=p('t.yaml'), input_merged_file=p('in.h5'), output_track_candidates_file=p('o.h5'), align_to_beam=bool(rng.random() < .5)), [p('t.yaml'), p('in.h5')], [p('o.h5')], len(m), gen.max_per_event(m))


def fit(rng, p, method='fit'):
    from beam_telescope_analysis import track_analysis as ta
    n = int(rng.integers(3, 6)) if method == 'fit' else 3
    kw, per = fitdata.settings(rng, n, method)
    tel, _ = fitdata.telescope(rng, p('t.yaml'), n, kalman=method != 'fit')
    m = fitdata.candidates(rng, tel, n, int(rng.choice([30, 80])) if method == 'fit' else 6, int(rng.choice([2, 4])), missing=.05)
    gen.write_table(p('in.h5'), 'TrackCandidates', m)
    if method != 'fit':
        kw.update(beam_energy=2500., particle_mass=.511)
    kw.update(telescope_configuration=p('t.yaml'), input_track_candidates_file=p('in.h5'), output_tracks_file=p('o.h5'), method=method, plot=False, full_track_info=bool(rng.random() < .3),
              quality_distances=(300., 200.), isolation_distances=[(500., 700.)] * n if rng.random() < .5 else (600., 600.))
    return Step('fit_tracks', ta.fit_tracks, kw, [p('t.yaml'), p('in.h5')], [p('o.h5')], len(m), gen.max_per_event(m))


def track_file(rng, p, most=4):
    """Tracks tables. The same tracks in every event: ranges of histograms do not depend on the number of events they are derived from."""
    n = int(rng.integers(2, 5))
    geos, tel = sensors(rng, p, n, rotations=False)
    ev = events(rng, int(rng.choice([30, 100])))
    duts = sorted(int(i) for i in rng.choice(n, size=min(most, int(rng.integers(1, n + 1))), replace=False))
    tabs = []
    with tb.open_file(p('tracks.h5'), 'w') as f:
        for d in duts:
            cs, rs, nc, nr = geos[d]
            t = gen.random_tracks(rng, np.zeros(12, np.int64), n)
            t['offset_x'], t['offset_y'] = rng.uniform(-.49, .49, 12) * cs * nc, rng.uniform(-.49, .49, 12) * rs * nr
            t['hit_flag'] |= np.uint32(1 << d)
            x, y = t['offset_x'] + rng.normal(0, cs / 3, 12), t['offset_y'] + rng.normal(0, rs / 3, 12)
            miss = np.arange(12) > 9
            t['hit_flag'][miss] &= ~np.uint32(1 << d)
            t['x_dut_%d' % d], t['y_dut_%d' % d], t['z_dut_%d' % d] = np.where(miss, np.nan, x), np.where(miss, np.nan, y), np.where(miss, np.nan, 0)
            t['charge_dut_%d' % d] = np.where(miss, np.nan, np.arange(12) + 1)
            t['n_hits_dut_%d' % d], t['cluster_shape_dut_%d' % d] = np.where(miss, 0, 1 + np.arange(12) % 4), np.where(miss, 0, 1)
            t['track_chi2'] = np.abs(rng.normal(1, .3, 12))
            t['slope_x'], t['slope_y'] = rng.normal(1e-3, 1e-3, 12), rng.normal(0, 1e-3, 12)
            full = np.tile(t, len(ev))
            full['event_number'] = np.repeat(ev, 12)
            f.create_table(f.root, 'Tracks_DUT%d' % d, description=full.dtype, title='tracks').append(full)
            tabs.append(full)
    return geos, tel, duts, tabs


def residuals(rng, p):
    from beam_telescope_analysis import result_analysis as ra
    geos, tel, duts, tabs = track_file(rng, p)
    return Step('calculate_residuals', ra.calculate_residuals, dict(telescope_configuration=p('t.yaml'), input_tracks_file=p('tracks.h5'), select_duts=duts, output_residuals_file=p('o.h5'), nbins_per_pixel=int(rng.integers(3, 20)), npixels_per_bin=int(rng.integers(1, 5)), plot=False),
                [p('t.yaml'), p('tracks.h5')], [p('o.h5')], len(tabs[0]), 12)


def efficiency(rng, p):
    from beam_telescope_analysis import result_analysis as ra
    geos, tel, duts, tabs = track_file(rng, p, 2)
    w = [[[-.3 * geos[d][0] * geos[d][2], .4 * geos[d][0] * geos[d][2]], [-.45 * geos[d][1] * geos[d][3], .45 * geos[d][1] * geos[d][3]]] for d in duts]
    kw = dict(telescope_configuration=p('t.yaml'), input_tracks_file=p('tracks.h5'), select_duts=duts, resolutions=[(geos[d][0], geos[d][1]) for d in duts], output_efficiency_file=p('o.h5'), minimum_track_density=int(rng.integers(1, 4)),
              cut_distances=[(float(2 * geos[d][0]), float(2 * geos[d][1])) for d in duts], efficiency_regions=[[q] for q in w] if rng.random() < .5 else None, plot=False)
    if rng.random() < .4:
        kw['disabled_pixel_masks'] = [rng.random((geos[d][2], geos[d][3])) < .1 for d in duts]
    # the mean efficiency of every chunk takes a second
    return Step('calculate_efficiency', ra.calculate_efficiency, kw, [p('t.yaml'), p('tracks.h5')], [p('o.h5')], len(tabs[0]), 12, least=len(tabs[0]) // 3)


def angles(rng, p):
    from beam_telescope_analysis import result_analysis as ra
    geos, tel, duts, tabs = track_file(rng, p)
    return Step('histogram_track_angle', ra.histogram_track_angle, dict(telescope_configuration=p('t.yaml'), input_tracks_file=p('tracks.h5'), select_duts=duts, output_track_angle_file=p('o.h5'), n_bins=int(rng.integers(20, 80)), plot=False), [p('t.yaml'), p('tracks.h5')], [p('o.h5')], len(tabs[0]), 12)


def align_file(rng, p):
    from beam_telescope_analysis import dut_alignment as da
    geos, tel, duts, tabs = track_file(rng, p)
    return Step('apply_alignment', da.apply_alignment, dict(telescope_configuration=p('t.yaml'), input_file=p('tracks.h5'), output_file=p('o.h5'), local_to_global=True, align_to_beam=bool(rng.random() < .5)), [p('t.yaml'), p('tracks.h5')], [p('o.h5')], len(tabs[0]), 12)


def combine(rng, p):
    from beam_telescope_analysis.tools import data_selection as ds
    n = int(rng.integers(2, 4))
    geos, tel, files, tabs = hit_files(rng, p, n)
    r, t = bounds(tabs)
    return Step('combine_files', ds.combine_files, dict(input_files=files, output_file=p('o.h5'), names=None if rng.random() < .5 else 'Hits', event_number_offsets=None if rng.random() < .5 else [0] + [10 ** 6 * 1000 * (i + 1) for i in range(n - 1)]), files, [p('o.h5')], r, t)


def reduce(rng, p):
    from beam_telescope_analysis.tools import data_selection as ds
    geos, tel, files, tabs = hit_files(rng, p, 1)
    r, t = bounds(tabs)
    return Step('reduce_events', ds.reduce_events, dict(input_file=files[0], max_events=int(rng.integers(5, 40)), output_file=p('o.h5')), files, [p('o.h5')], r, t)


def select(rng, p):
    from beam_telescope_analysis.tools import data_selection as ds
    geos, tel, duts, tabs = track_file(rng, p)
    kw = dict(telescope_configuration=p('t.yaml'), input_tracks_file=p('tracks.h5'), select_duts=duts, output_tracks_file=p('o.h5'), query='(track_chi2 < 1.2)' if rng.random() < .7 else None)
    if rng.random() < .6:
        kw['select_hit_duts'] = [[d] for d in duts]
    if rng.random() < .5:
        kw['select_quality_duts'] = [[duts[0]]] * len(duts)
    return Step('select_tracks', ds.select_tracks, kw, [p('t.yaml'), p('tracks.h5')], [p('o.h5')], len(tabs[0]), 12)


def beam_files(rng, p, n, n_events, shift=60.):
    """Cluster tables of straight tracks; the second sensor is displaced in the configuration."""
    from bta import beam
    specs, truth = [], []
    for i in range(n):
        q = dict(translation_x=float(rng.normal(0, 100)), translation_y=float(rng.normal(0, 100)), translation_z=20000. * i, rotation_alpha=0., rotation_beta=0., rotation_gamma=float(rng.normal(0, .01)),
                 column_size=18.4, row_size=18.4, n_columns=500, n_rows=400, material_budget=1e-4)
        specs.append(q)
        truth.append(dict(q, translation_x=q['translation_x'] + float(rng.normal(0, shift)), translation_y=q['translation_y'] + float(rng.normal(0, shift))) if i == 1 else q)
    gen.telescope(p('t.yaml'), specs=specs, n_duts=n)
    os.mkdir(p('sub'))
    true = gen.telescope(p('sub/truth.yaml'), specs=truth, n_duts=n)
    os.remove(p('sub/truth.yaml'))
    os.rmdir(p('sub'))
    ev, o, s = beam.tracks(rng, n_events, (3500, 3000), per_event=(1, 2), slope=1e-3, z0=n * 10000.)
    return [gen.write_table(p('c%d.h5' % i), 'Clusters', beam.clusters(rng, true[i], ev, o, s, events=np.unique(ev), sigma=5.)[0]) for i in range(n)]


def prealign(rng, p):
    from beam_telescope_analysis import dut_alignment as da, hit_analysis as ha
    n = int(rng.integers(2, 4))
    files = beam_files(rng, p, n, 3000, 300.)
    ha.correlate(p('t.yaml'), files, p('corr.h5'), plot=False)
    kw = dict(telescope_configuration=p('t.yaml'), input_correlation_file=p('corr.h5'), output_telescope_configuration=p('o.yaml'), select_duts=None if rng.random() < .5 else [n - 1],
              select_reference_dut=0, reduce_background=bool(rng.random() < .5), plot=False)
    return Step('prealign', da.prealign, kw, [p('t.yaml'), p('corr.h5')], [p('o.yaml')])


def align(rng, p):
    from beam_telescope_analysis import dut_alignment as da, hit_analysis as ha
    files = beam_files(rng, p, 4, 300)
    ha.merge_cluster_data(p('t.yaml'), files, p('m.h5'))
    kw = dict(telescope_configuration=p('t.yaml'), input_merged_file=p('m.h5'), output_telescope_configuration=p('o.yaml'), select_duts=[[1]], alignment_parameters=[[['translation_x', 'translation_y', 'rotation_gamma']]],
              select_telescope_duts=[0, 2, 3], select_fit_duts=[[0, 2, 3]], select_hit_duts=[[0, 2, 3]], max_iterations=2, max_events=None if rng.random() < .6 else 200, quality_distances=[(500., 500.)] * 4 if rng.random() < .5 else (500., 500.), track_chi2=20., use_limits=bool(rng.random() < .5), plot=False)
    return Step('align', da.align, kw, [p('t.yaml'), p('m.h5')], [p('o.yaml')])


ALL = {
    'convert_coordinates': lambda r, p: convert(r, p, True), 'convert': convert, 'check_file': lambda r, p: check(r, p, True), 'check': check, 'mask_pixels': lambda r, p: mask(r, p, True), 'mask': mask,
    'cluster_hits': lambda r, p: cluster(r, p, True), 'cluster': cluster, 'correlate': correlate, 'merge_cluster_data': merge, 'find_tracks': find, 'fit_tracks': fit,
    'calculate_residuals': residuals, 'calculate_efficiency': efficiency, 'histogram_track_angle': angles, 'apply_alignment': align_file, 'combine_files': combine, 'reduce_events': reduce, 'select_tracks': select,
}


def make(name, rng, path):
    if name == 'fit_tracks_kalman':
        return fit(rng, path, 'kalman')
    if name in ('prealign', 'align'):
        return globals()[name](rng, path)
    return ALL[name](rng, path)


def warm():
    """Compile and import everything once in the parent."""
    from bta import pykalman
    pykalman.load()
    from bta.checks import c10
    from beam_telescope_analysis import hit_analysis, track_analysis, result_analysis, dut_alignment  # noqa: F401
    from beam_telescope_analysis.tools import data_selection  # noqa: F401
    c10.warm()
    real, os.cpu_count = os.cpu_count, lambda: 1
    try:
        for name, seeds in (('cluster_hits', 4), ('check_file', 2), ('correlate', 1), ('merge_cluster_data', 1), ('find_tracks', 1), ('fit_tracks', 1), ('fit_tracks_kalman', 1)):
            for seed in range(seeds):
                d = 'warm_%s_%d' % (name, seed)
                os.mkdir(d)
                try:
                    s = make(name, np.random.default_rng(seed), lambda f: os.path.join(d, f))
                    for size in (10 ** 6, s.top + 1)[:2 if name in ('find_tracks', 'check_file') else 1]:      # an array of one row is compiled for separately
                        s.func(**dict(s.kw, chunk_size=size))
                except Exception:
                    pass        # the cases will tell
    finally:
        os.cpu_count = real
