"""Oracles for the native and jitted kernels; used in-process, under ASan/UBSan and with numba bounds checking."""
import numpy as np


class Bad(Exception):
    def __init__(self, key, msg, **detail):
        Exception.__init__(self, msg)
        self.key, self.detail = key, detail


def events(rng, empty=True):
    n = int(rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 20, 100] if empty else [1, 1, 2, 3, 5, 8, 20, 100]))
    base = int(rng.choice([0, 0, 0, -1, -1, -7, 2 ** 31 - 4, 2 ** 53, -2 ** 40]))
    dense = rng.random() < .5
    a = np.sort(rng.integers(0, max(2, n if dense else 3 * n), n)) + base
    a = a.astype(np.int64)
    if n and rng.random() < .01:    # a very large event
        a = np.sort(np.concatenate((a, [a[int(rng.integers(n))]] * int(rng.integers(300, 700)))))
        n = len(a)
    style = rng.integers(4)
    if style == 0 and n:  # strided view
        b = np.empty(2 * n, np.int64)
        b[::2] = a
        b[1::2] = -99
        return b[::2]
    if style == 1:  # record column
        r = np.zeros(n, dtype=[('event_number', '<i8'), ('c', '<u2')])
        r['event_number'] = a
        return r['event_number']
    if style == 2 and n:  # view into a larger array
        b = np.concatenate([[a[0]] * 3, a, [a[-1]] * 3]).astype(np.int64)
        return b[3:3 + n]
    return a


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def trial_events(au, rng, stat):
    a, b = events(rng), events(rng)
    if len(a) and len(b) and rng.random() < .7:
        b = np.sort(b - b[0] + a[rng.integers(len(a))])
    ca, cb = a.copy(), b.copy()
    det = dict(a=a.tolist(), b=b.tolist())
    r = au.get_events_in_both_arrays(a, b)
    if not same(r, np.intersect1d(a, b)):
        raise Bad('events-in-both', 'wrong event intersection', got=r.tolist(), **det)
    r = au.get_max_events_in_both_arrays(a, b)
    u = np.union1d(a, b)
    w = np.repeat(u, [max(np.sum(a == e), np.sum(b == e)) for e in u]) if len(u) else u.astype(np.int64)
    if not same(r, w):
        raise Bad('max-events', 'wrong maximum event array', got=r.tolist(), want=w.tolist(), **det)
    r = au.in1d_events(a, b)
    if not same(np.asarray(r).astype(bool), np.isin(a, b)):
        raise Bad('in1d-events', 'wrong membership', got=np.asarray(r).tolist(), **det)
    if not (same(a, ca) and same(b, cb)):
        raise Bad('input-modified', 'kernel changed its input', **det)
    stat['event_kernel_calls'] = stat.get('event_kernel_calls', 0) + 3
    if len(a) == 0 or len(b) == 0:
        stat['empty_event_arrays'] = stat.get('empty_event_arrays', 0) + 1
    return det


def trial_native_guarded(af, rng, stat):
    """Calls of the extension with the result array in the middle of a canary field."""
    a, b = np.ascontiguousarray(events(rng)), np.ascontiguousarray(events(rng))
    pad = 16
    det = dict(a=a.tolist(), b=b.tolist())

    def field(n, dt):
        f = np.full(n + 2 * pad, 77, dt)
        return f, f[pad:pad + n]

    f, r = field(len(a), np.int64)
    n = af.get_events_in_both_arrays(a, b, r)
    if n > len(r) or np.any(f[:pad] != 77) or np.any(f[pad + len(r):] != 77):
        raise Bad('write-outside', 'event intersection wrote outside its result array', **det)
    if not same(r[:n], np.intersect1d(a, b)):
        raise Bad('events-in-both', 'wrong event intersection', got=r[:n].tolist(), **det)
    need = int(sum(max(np.sum(a == e), np.sum(b == e)) for e in np.union1d(a, b)))
    size = int(rng.choice([need, need + 3, max(0, need - 1), 0]))
    f, r = field(size, np.int64)
    try:
        n = af.get_max_events_in_both_arrays(a, b, r)
        if size < need:
            raise Bad('too-small-accepted', 'result array too small but no error', size=size, need=need, **det)
        if n != need:
            raise Bad('max-events', 'wrong number of events', got=int(n), want=need, **det)
    except IndexError:
        if size >= need:
            raise Bad('refused', 'result array large enough but refused', size=size, need=need, **det)
        stat['refused_too_small'] = stat.get('refused_too_small', 0) + 1
    if np.any(f[:pad] != 77) or np.any(f[pad + size:] != 77):
        raise Bad('write-outside', 'event maximum wrote outside its result array', size=size, need=need, **det)
    f, r = field(len(a), np.uint8)
    af.get_in1d_sorted(a, b, r)
    if np.any(f[:pad] != 77) or np.any(f[pad + len(a):] != 77):
        raise Bad('write-outside', 'membership wrote outside its result array', **det)
    stat['guarded_calls'] = stat.get('guarded_calls', 0) + 3


def trial_hist(au, rng, stat):
    dim = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(1, 9, dim))
    if rng.random() < .2:
        shape = tuple(int(x) for x in rng.integers(1, 60, dim))
    n = int(rng.choice([0, 1, 2, 10, 300]))
    dt = rng.choice(['i8', 'i4', 'u2', 'f8', 'i2'])
    idx = [rng.integers(0, s, n).astype(dt) for s in shape]
    if rng.random() < .3:
        idx = [np.repeat(x, 2)[::2] for x in idx]
    bad = n > 0 and rng.random() < .3
    if bad:
        d = int(rng.integers(dim))
        k = int(rng.integers(n))
        v = int(rng.choice([shape[d], shape[d] + 1, 30000])) if dt == 'u2' or rng.random() < .6 else -1
        if rng.random() < .3 and dt == 'i4':
            v = int(rng.choice([2 ** 31 - 1, -2 ** 31, -2]))
        x = idx[d].copy()
        x[k] = v
        idx[d] = x
    func = {1: au.hist_1d_index, 2: au.hist_2d_index, 3: au.hist_3d_index}[dim]
    det = dict(shape=shape, idx=[x.tolist()[:50] for x in idx], dtype=str(dt))
    keep = [x.copy() for x in idx]
    try:
        h = func(*(idx + [shape]))
    except IndexError as e:
        if not bad:
            raise Bad('refused', 'legal histogram input refused: %s' % e, **det)
        stat['refused_out_of_range'] = stat.get('refused_out_of_range', 0) + 1
        return
    if bad:
        raise Bad('out-of-range-accepted', 'histogram index out of range accepted', **det)
    w = np.zeros(shape, np.int64)
    np.add.at(w, tuple(x.astype(int) for x in idx), 1)
    if h.shape != shape or not np.array_equal(h, w):
        raise Bad('histogram', 'wrong histogram', got=h.ravel()[:50].tolist(), **det)
    if not all(same(a, b) for a, b in zip(idx, keep)):
        raise Bad('input-modified', 'histogram changed its input', **det)
    stat['histograms_%dd' % dim] = stat.get('histograms_%dd' % dim, 0) + 1


def trial_saturation(au, rng, stat):
    n = 65535
    z = np.zeros(n, np.int32)
    h = au.hist_3d_index(z, z, z, (1, 2, 1))
    if h[0, 0, 0] != n:
        raise Bad('histogram', 'wrong count in full bin', got=int(h[0, 0, 0]))
    z = np.zeros(n + 1, np.int32)
    try:
        h = au.hist_3d_index(z, z, z, (1, 2, 1))
    except IndexError:
        h = None
    if h is not None and h[0, 0, 0] != n + 1:
        raise Bad('overflow', 'histogram bin overflowed silently', got=int(h[0, 0, 0]))
    h = au.hist_2d_index(np.zeros(200000, int), np.ones(200000, int), (1, 2))
    if h.tolist() != [[0, 200000]]:
        raise Bad('histogram', 'wrong count in full bin', got=h.tolist())
    stat['saturation'] = stat.get('saturation', 0) + 1


REC1 = np.dtype([('event_number', '<i8'), ('id', '<i4')])
REC2 = np.dtype([('event_number', '<i8'), ('q', '<f8'), ('id', '<i4')])


def rec(ev, dt):
    r = np.zeros(len(ev), dt)
    r['event_number'] = ev
    r['id'] = np.arange(len(ev)) + 1
    return r


def pairs(a, b):
    return [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]


def trial_jit(au, rng, stat):
    a, b = np.ascontiguousarray(events(rng)), np.ascontiguousarray(events(rng))
    if len(a) and len(b) and rng.random() < .7:
        b = np.sort(b - b[0] + a[rng.integers(len(a))])
    det = dict(a=a.tolist(), b=b.tolist())
    p = pairs(a, b)
    ra, rb = rec(a, REC1), rec(b, REC2)
    m1, m2 = au.merge_on_event_number(ra, rb)
    w1, w2 = ra[[i for i, _ in p]], rb[[j for _, j in p]]
    if not (same(m1, w1) and same(m2, w2)):
        raise Bad('merge-pairs', 'pairs of the same event are wrong', got=[m1['id'].tolist(), m2['id'].tolist()], **det)
    stat['pairs'] = stat.get('pairs', 0) + len(p)
    # pair histograms
    nx, ny, mx, my = (int(x) for x in rng.integers(1, 8, 4))
    hx, hy = np.zeros((mx, nx), np.uint32), np.zeros((my, ny), np.uint32)
    rx, ry, dx, dy = rng.integers(0, nx, len(a)), rng.integers(0, ny, len(a)), rng.integers(0, mx, len(b)), rng.integers(0, my, len(b))
    wx, wy = hx.copy(), hy.copy()
    for i, j in p:
        wx[dx[j], rx[i]] += 1
        wy[dy[j], ry[i]] += 1
    au.correlate_position_on_event_number(a, b, rx, ry, dx, dy, hx, hy)
    if not (same(hx, wx) and same(hy, wy)):
        raise Bad('pair-histogram', 'correlation histogram of pairs is wrong', **det)
    # neighbouring events
    if len(a) and a[0] >= 0:
        er = int(rng.integers(1, 4))
        hx, hy = np.zeros((nx, nx), np.uint32), np.zeros((ny, ny), np.uint32)
        wx, wy = hx.copy(), hy.copy()
        for i in range(len(a)):
            for j in range(len(a)):
                if a[i] - er <= a[j] < a[i]:
                    wx[rx[j], rx[i]] += 1
                    wy[ry[j], ry[i]] += 1
        au.correlate_hits_on_event_range(a, rx, ry, hx, hy, er)
        if not (same(hx, wx) and same(hy, wy)):
            raise Bad('neighbour-histogram', 'correlation histogram of neighbouring events is wrong', event_range=er, **det)
    # mapping clusters onto a longer event array
    u = au.get_max_events_in_both_arrays(a, b)
    for r, e in ((ra, a), (rb, b)):
        out = np.zeros(len(u), r.dtype)
        au.map_cluster(u, r, out)
        w = np.zeros(len(u), r.dtype)
        for ev in np.unique(e):
            src, dst = np.flatnonzero(e == ev), np.flatnonzero(u == ev)
            w[dst[:len(src)]] = r[src]
        if not same(out, w):
            raise Bad('map-cluster', 'clusters are mapped to wrong rows', got=out['id'].tolist(), want=w['id'].tolist(), **det)
    stat['jit_calls'] = stat.get('jit_calls', 0) + 5


def trial_lookup(au, rng, stat):
    n, m = int(rng.integers(0, 20)), int(rng.integers(1, 20))
    uni = rng.integers(0, 30, m)
    a = rng.integers(0, 30, n)
    b = np.unique(uni)
    srt = bool(rng.random() < .5)
    if not srt:
        b = rng.permutation(b)
    det = dict(ar1=a.tolist(), ar2=b.tolist(), sorted=srt)
    v, i = au.in1d_index(a, b, assume_sorted=srt)
    wv = np.flatnonzero(np.isin(a, b))
    if not (np.array_equal(v, wv) and np.array_equal(b[i], a[wv])):
        raise Bad('lookup', 'index lookup is wrong', got=[np.asarray(v).tolist(), np.asarray(i).tolist()], **det)
    fv = int(rng.choice([-1, 99]))
    v, i = au.in1d_index(a, b, fill_invalid=fv, assume_sorted=srt)
    inv = ~np.isin(a, b)
    if not (np.array_equal(v, wv) and len(i) == n and np.all(i[inv] == fv) and np.array_equal(b[i[~inv]], a[~inv])):
        raise Bad('lookup', 'index lookup with fill value is wrong', got=[np.asarray(v).tolist(), np.asarray(i).tolist()], **det)
    # uniqueness
    arr = rng.integers(0, int(rng.choice([2, 5, 50])), (int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.integers(1, 6))))
    k = arr.copy()
    r = au.unique_in_array(arr)
    w = np.array([[len(set(k[:, y, x])) for x in range(k.shape[2])] for y in range(k.shape[1])])
    if not same(np.asarray(r), w) or not same(arr, k):
        raise Bad('unique', 'number of unique values is wrong', arr=k.tolist(), got=np.asarray(r).tolist())
    img = rng.integers(0, 6, (int(rng.integers(3, 9)), int(rng.integers(3, 9))))
    pad = np.pad(img, 1, mode='reflect')
    cross = rng.random() < .5
    st = [[0, 1, 0], [1, 1, 1], [0, 1, 0]] if cross else None
    r = au.count_unique_neighbors(img.copy(), structure=st)
    offs = [(dy, dx) for dy in (-1, 0, 1) for dx in (-1, 0, 1) if not cross or 0 in (dy, dx)]
    w = np.array([[len({pad[y + 1 + dy, x + 1 + dx] for dy, dx in offs}) for x in range(img.shape[1])] for y in range(img.shape[0])])
    if not same(np.asarray(r), w):
        raise Bad('unique', 'number of unique neighbours is wrong', img=img.tolist(), cross=cross)
    arr = np.sort(rng.normal(size=int(rng.integers(2, 12))))
    val = np.concatenate([rng.normal(size=5) * 2, arr[:2]])
    i = au.find_closest(arr, val)
    d = np.abs(arr[i] - val)
    if not np.allclose(d, np.abs(arr[None, :] - val[:, None]).min(1), rtol=0, atol=1e-12):
        raise Bad('closest', 'closest value is wrong', arr=arr.tolist(), val=val.tolist())
    stat['lookups'] = stat.get('lookups', 0) + 5


TRIALS = {'events': trial_events, 'hist': trial_hist, 'jit': trial_jit, 'lookup': trial_lookup}


def run(what, seed, n, stat, au=None, af=None):
    """Raises Bad on the first wrong result."""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        for w in what:
            if w == 'guard':
                trial_native_guarded(af, rng, stat)
            elif w == 'saturation':
                trial_saturation(au, rng, stat)
            else:
                TRIALS[w](au, rng, stat)


if __name__ == '__main__':
    # subprocess mode: lib, comma separated trials, seed, n
    import json
    import sys
    from bta import env
    env.activate(sys.argv[1])
    from beam_telescope_analysis.tools import analysis_utils as au_
    from beam_telescope_analysis import analysis_functions as af_
    st = {}
    try:
        run(sys.argv[2].split(','), int(sys.argv[3]), int(sys.argv[4]), st, au_, af_)
        print('RESULT ' + json.dumps(dict(ok=True, stat=st)))
    except Bad as e:
        print('RESULT ' + json.dumps(dict(ok=False, key=e.key, msg=str(e), detail=repr(e.detail)[:2000])))
