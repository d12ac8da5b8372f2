"""Cluster shape code: the real encoder and decoder against bit interleaving written down independently, and the shapes stored by the real clustering decoded."""
import os

import numpy as np

from bta import gen

ID = 'C24'
RULE = ('all 2**16 patterns of 4x4 pixels (thorough) or all 2**12 of 3x4 (quick), all single and pairs of pixels of 8x8, random patterns of all densities, and connected patterns '
        'clustered at all corners and random places of sensors; distinct = distinct pattern')
MIN = {'patterns': 5000, 'clustered_patterns': 200, 'oversize': 10}
CASE_TIMEOUT = 240.


def interleave(x, y):
    n = 0
    for b in range(3):
        n |= ((x >> b) & 1) << (2 * b) | ((y >> b) & 1) << (2 * b + 1)
    return n


TABLE = {(x, y): interleave(x, y) for x in range(8) for y in range(8)}


def encode(pixels):
    """Shape number of a set of pixels, -1 if it cannot be encoded (larger than 8x8, or the number exceeds 63 bit)."""
    p = set((int(c), int(r)) for c, r in pixels)
    c0, r0 = min(c for c, _ in p), min(r for _, r in p)
    p = set((c - c0, r - r0) for c, r in p)
    if max(c for c, _ in p) > 7 or max(r for _, r in p) > 7 or (7, 7) in p:
        return -1
    return sum(1 << TABLE[v] for v in p)


def cases(seed, tier):
    big = tier == 'thorough'
    out = [dict(kind='grid', w=4 if big else 3, h=4, part=i, parts=8) for i in range(8)]
    out += [dict(kind='pairs')]
    out += [dict(kind='random', seed=seed * 31 + i, n=300 if not big else 3000) for i in range(6)]
    out += [dict(kind='cluster', seed=seed * 31 + i) for i in range(6 if not big else 60)]
    return out


def warm():
    from bta.checks import c07
    c07.warm()


def check_pattern(ctx, au, a):
    pix = list(zip(*(v.tolist() for v in np.nonzero(a))))
    n = sum(1 << TABLE[p] for p in pix)
    with ctx.sut('calculate_cluster_shape'):
        s = au.calculate_cluster_shape(a)
    ctx.expect(int(s) == n, 'encode', 'shape number %r, expected %d' % (s, n), pixels=pix)
    with ctx.sut('calculate_cluster_array'):
        b = au.calculate_cluster_array(np.uint64(n))
    ctx.expect(b.shape == (8, 8) and np.array_equal(b, a), 'decode', 'decoded pattern differs', pixels=pix, number=n, got=np.argwhere(b))
    ctx.count(patterns=1)
    return int(s)


def run(case, ctx):
    from beam_telescope_analysis.tools import analysis_utils as au
    rng = ctx.rng
    if case['kind'] == 'grid':
        w, h = case['w'], case['h']
        seen = {}
        for i in range(case['part'], 1 << (w * h), case['parts']):
            a = np.zeros((8, 8), bool)
            a[:w, :h] = np.array([(i >> k) & 1 for k in range(w * h)], bool).reshape(w, h)
            s = check_pattern(ctx, au, a)
            ctx.expect(seen.setdefault(s, i) == i, 'not-unique', 'two patterns have the same number', patterns=[seen[s], i])
        ctx.interesting(case)
    elif case['kind'] == 'pairs':
        for i in range(64):
            for j in range(i, 64):
                a = np.zeros((8, 8), bool)
                a[i // 8, i % 8] = a[j // 8, j % 8] = True
                check_pattern(ctx, au, a)
        for x in range(8):
            for y in range(8):
                with ctx.sut('morton'):
                    d = au.xy2d_morton(x, y)
                    back = au.d2xy_morton(d)
                ctx.expect(int(d) == TABLE[x, y] and (int(back[0]), int(back[1])) == (x, y), 'morton', 'position code', x=x, y=y, got=d, back=back)
        for x, y in [(0, 0), (2 ** 32 - 1, 0), (0, 2 ** 32 - 1), (2 ** 31 - 1, 12345), (65535, 65536)] + [tuple(int(v) for v in rng.integers(0, 2 ** 31, 2)) for _ in range(200)]:
            with ctx.sut('morton'):
                d = int(au.xy2d_morton(x, y))
            want = sum(((x >> b) & 1) << (2 * b) | ((y >> b) & 1) << (2 * b + 1) for b in range(32))
            if max(x, y) < 2 ** 31:
                ctx.expect(d == want, 'morton-large', 'position code of large numbers', x=x, y=y, got=d, want=want)
                back = au.d2xy_morton(np.uint64(d))
                ctx.expect((int(back[0]), int(back[1])) == (x, y), 'morton-large', 'decoded position of large numbers', x=x, y=y, got=back)
    elif case['kind'] == 'random':
        for _ in range(case['n']):
            a = rng.random((8, 8)) < rng.choice([.02, .1, .5, .9, 1.])
            check_pattern(ctx, au, a)
            ctx.interesting(np.packbits(a).tolist())
    else:
        from beam_telescope_analysis import hit_analysis as ha
        nc, nr = 40, 30
        events, ev = [], 0
        for _ in range(60):
            # grow a connected pattern
            size = int(rng.choice([1, 2, 3, 4, 6, 10, 20, 40]))
            pix = {(0, 0)}
            box = int(rng.choice([2, 3, 7, 7, 8, 11]))
            for _ in range(size * 8):
                if len(pix) >= size:
                    break
                c, r = list(pix)[int(rng.integers(len(pix)))]
                q = (c + int(rng.integers(-1, 2)), r + int(rng.integers(-1, 2)))
                if 0 <= q[0] <= box and 0 <= q[1] <= box:
                    pix.add(q)
            if rng.random() < .3:
                pix |= {(k, k) for k in range(box + 1)}
            if rng.random() < .1:
                pix |= {(k, 0) for k in range(8)} | {(0, k) for k in range(8)}
            w, h = max(c for c, _ in pix) + 1, max(r for _, r in pix) + 1
            for c0, r0 in [(1, 1), (nc - w + 1, nr - h + 1), (1, nr - h + 1), (int(rng.integers(1, nc - w + 2)), int(rng.integers(1, nr - h + 2)))]:
                ev += 1
                p = sorted(pix)
                rng.shuffle(p)
                events.append((ev, [(c + c0, r + r0) for c, r in p]))
        rows = [(e, 0, c, r, 1.) for e, p in events for c, r in p]
        a = np.array(rows, dtype=gen.HIT)
        tel = gen.telescope(ctx.path('t.yaml'), n_duts=1, sizes=[(50., 50., nc, nr)])
        gen.write_table(ctx.path('h.h5'), 'Hits', a)
        os.cpu_count = lambda: 2
        with ctx.sut('cluster_hits'):
            ha.cluster_hits(tel[0], ctx.path('h.h5'), ctx.path('c.h5'), plot=False, charge_correction=1, chunk_size=int(rng.choice([10 ** 6, len(a) // 4])))
        cl = gen.read(ctx.path('c.h5'), 'Clusters')
        by = {}
        for c in cl:
            by.setdefault(int(c['event_number']), []).append(c)
        for e, p in events:
            ctx.expect(len(by.get(e, [])) == 1, 'one-cluster', 'a connected pattern gave %d clusters' % len(by.get(e, [])), pixels=p)
            s = int(by[e][0]['cluster_shape'])
            want = encode(p)
            ctx.expect(s == want, 'stored-shape', 'stored shape %d, expected %d' % (s, want), pixels=p)
            if s >= 0:
                b = au.calculate_cluster_array(np.uint64(s))
                c0, r0 = min(c for c, _ in p), min(r for _, r in p)
                ctx.expect(set(map(tuple, np.argwhere(b).tolist())) == set((c - c0, r - r0) for c, r in p), 'stored-shape-decodes', 'the stored shape does not decode to the pattern', pixels=p)
            else:
                ctx.count(oversize=1)
            ctx.count(clustered_patterns=1)
            ctx.interesting(sorted(p))
        ctx.sample = dict(events=len(events), first=events[0])
