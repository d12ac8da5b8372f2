"""Occupancy and pixel masks: the stored arrays against a direct count and a direct evaluation of the masking criterion with an own median filter."""
import os

import numpy as np
import tables as tb

from bta import gen

ID = 'C08'
RULE = 'a case is one hit table (uniform or beam-like background, planted noisy pixels and clusters, silent pixels) and one setting (threshold, filter size, iterations, masks, chunk size, cores); non-trivial when some but not all pixels are masked'
MIN = {'masks': 60, 'masked_pixels': 100, 'cases_with_second_iteration': 10}


def cases(seed, tier):
    return [dict(seed=seed * 8191 + i) for i in range(110 if tier == 'quick' else 2500)]


def warm():
    from beam_telescope_analysis import hit_analysis  # noqa


def median(a, size):
    """Median of the window around every pixel, zero outside of the matrix."""
    kx, ky = (size, size) if np.isscalar(size) else size
    p = np.zeros((a.shape[0] + 2 * kx, a.shape[1] + 2 * ky))
    p[kx:kx + a.shape[0], ky:ky + a.shape[1]] = a
    stack = [p[kx + i:kx + i + a.shape[0], ky + j:ky + j + a.shape[1]] for i in range(-(kx // 2), kx - kx // 2) for j in range(-(ky // 2), ky - ky // 2)]
    s = np.sort(np.array(stack), axis=0)
    return s[len(stack) // 2]


def reference(occ, threshold, size, iterations):
    """Documented iterative masking. Returns mask, number of iterations, whether a decision was too close to call."""
    occ = occ.astype(float)
    mask = np.zeros(occ.shape, bool)
    i, close = 0, False
    while True:
        i += 1
        m = median(occ, size)
        d = occ - m
        hit = occ > 0
        if not hit.any():
            new = np.zeros_like(mask)
        else:
            n = np.sqrt(occ[hit])
            std = np.std(d[hit] / n)
            new = np.zeros_like(mask)
            new[hit] = d[hit] > threshold * std * n
            close |= bool(np.any(np.abs(d[hit] - threshold * std * n) < 1e-9 * (1 + np.abs(d[hit])))) and std > 0
        fresh = np.count_nonzero(new & ~mask)
        mask |= new
        occ[mask] = m[mask]
        if fresh == 0 or (iterations and i >= iterations):
            return mask, i, close


def run(case, ctx):
    from beam_telescope_analysis import hit_analysis as ha
    rng = ctx.rng
    tel_n = int(rng.integers(1, 4))
    sizes = [(50., 50.) + [(20, 15), (1, 9), (33, 8), (80, 60), (7, 7)][int(rng.integers(5))] for _ in range(tel_n)]
    tel = gen.telescope(ctx.path('t.yaml'), n_duts=tel_n, sizes=sizes)
    files, occs, opts = [], [], []
    for i, (_, _, nc, nr) in enumerate(sizes):
        lam = float(rng.choice([0., .3, 2., 15.]))
        occ = rng.poisson(lam, (nc, nr))
        if rng.random() < .3:
            occ = rng.poisson(lam * 3 * np.exp(-((np.arange(nc)[:, None] - nc / 2.) ** 2) / (nc + 1) - (np.arange(nr)[None, :] - nr / 2.) ** 2 / (nr + 1)))
        for _ in range(int(rng.integers(0, 5))):
            c, r = int(rng.integers(nc)), int(rng.integers(nr))
            w = int(rng.choice([1, 1, 2]))
            occ[c:c + w, r:r + w] = rng.integers(5, 300)
        if rng.random() < .3:
            occ[rng.integers(nc)] = 0
        for c, r in [(0, 0), (nc - 1, nr - 1)]:
            if rng.random() < .5:
                occ[c, r] = 40
        pix = np.repeat(np.argwhere(occ > -1), occ.ravel(), axis=0)
        pix = pix[rng.permutation(len(pix))]
        a = np.zeros(len(pix), gen.HIT)
        per = int(rng.integers(1, 8))
        a['event_number'] = np.arange(len(pix)) // per
        a['column'], a['row'], a['charge'] = pix[:, 0] + 1, pix[:, 1] + 1, 1
        files.append(gen.write_table(ctx.path('h%d.h5' % i), 'Hits', a))
        occs.append(occ)
        opts.append(dict(name=str(rng.choice(['NoisyPixelMask', 'DisabledPixelMask'])), threshold=float(rng.choice([10., 3., 1., .5, 30., 2.3])),
                         size=[3, 1, 2, 5, (3, 1), (2, 4), (5, 3)][int(rng.integers(7))], iterations=[None, 1, 2, 0, 3][int(rng.integers(5))],
                         disable=(rng.random((nc, nr)) < .1) if rng.random() < .3 else None))
        if opts[-1]['name'] == 'DisabledPixelMask':
            opts[-1]['disable'] = None
    os.cpu_count = lambda: int(case['seed'] % 3 + 1)
    cs = int(rng.choice([10, 50, 1000, 10 ** 6]))
    cs = max(cs, 10, max(int(o.sum()) for o in occs) // 15)
    wrapper = rng.random() < .6
    sel = list(range(tel_n))
    det = dict(sizes=sizes, options=[{k: v for k, v in o.items() if k != 'disable'} for o in opts], chunk_size=cs)
    outs = [ctx.path('m%d.h5' % i) for i in sel]
    if wrapper:
        order = [int(i) for i in rng.permutation(tel_n)][:int(rng.integers(1, tel_n + 1))]
        pick = lambda k: [opts[i][k] for i in order]
        sel = order
        plain = rng.random() < .3
        if plain:
            for i in order:
                opts[i].update(threshold=opts[order[0]]['threshold'], iterations=opts[order[0]]['iterations'])
        with ctx.sut('mask'):
            got = ha.mask(ctx.path('t.yaml'), [files[i] for i in order], pixel_mask_names=pick('name'), output_mask_files=[outs[i] for i in order], select_duts=order,
                          iterations=pick('iterations') if not plain else opts[order[0]]['iterations'], thresholds=pick('threshold') if not plain else opts[order[0]]['threshold'],
                          filter_sizes=pick('size'), disable_masks=pick('disable'), plot=bool(rng.random() < .05), chunk_size=cs)
        ctx.expect(got == [outs[i] for i in order], 'return-value', 'returned file names', got=got, **det)
    else:
        for i in sel:
            o = opts[i]
            with ctx.sut('mask_pixels'):
                ha.mask_pixels(tel[i], files[i], pixel_mask_name=o['name'], output_mask_file=outs[i], iterations=o['iterations'], threshold=o['threshold'], filter_size=o['size'],
                               disable_mask=o['disable'], plot=False, chunk_size=cs)
    for i in sel:
        o, occ = opts[i], occs[i]
        with tb.open_file(outs[i], 'r') as f:
            got = {n.name: n[:] for n in f.root if isinstance(n, tb.Array)}
        names = {'HistOcc', o['name']} | ({'DisabledPixelMask'} if o['disable'] is not None else set())
        ctx.expect(set(got) == names, 'arrays', 'stored arrays %s, expected %s' % (sorted(got), sorted(names)), dut=i, **det)
        ctx.expect(got['HistOcc'].shape == occ.shape and np.array_equal(got['HistOcc'], occ), 'occupancy', 'occupancy is not the number of hits per pixel', dut=i,
                   differs=np.argwhere(got['HistOcc'] != occ)[:10] if got['HistOcc'].shape == occ.shape else got['HistOcc'].shape, **det)
        want, n_it, close = reference(occ, o['threshold'], o['size'], o['iterations'])
        if o['disable'] is not None:
            ctx.expect(np.array_equal(got['DisabledPixelMask'], o['disable']), 'disable-mask', 'disabled pixels are not the requested ones', dut=i, **det)
        if close:
            ctx.count(skipped_borderline=1)
        else:
            m = got[o['name']]
            ctx.expect(m.dtype == bool and m.shape == occ.shape, 'mask-type', 'mask array', dut=i, **det)
            ctx.expect(np.array_equal(m, want), 'mask', 'masked pixels differ from the criterion: missing %s, extra %s' % (np.argwhere(want & ~m)[:8].tolist(), np.argwhere(m & ~want)[:8].tolist()), dut=i, iterations=n_it, **det)
        ctx.expect(not np.any(got[o['name']][occ == 0]), 'silent-pixel-masked', 'a pixel without hits is noisy', dut=i, **det)
        ctx.count(masks=1, masked_pixels=int(want.sum()), cases_with_second_iteration=n_it > 1 and want.any())
        if 0 < want.sum() < want.size:
            ctx.interesting(case, i, int(want.sum()))
    if ctx.index < 2:
        ctx.sample = dict(det, masked=[int(reference(occs[i], opts[i]['threshold'], opts[i]['size'], opts[i]['iterations'])[0].sum()) for i in sel])
