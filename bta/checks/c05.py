"""Sensor classes: index <-> local <-> global, extents, primitive cell, refusal outside the sensor."""
import numpy as np

ID = 'C05'
RULE = ('a case is one sensor (type, matrix, pitch, placement incl. right angles and zero) and a batch of indices, fractional indices and '
        'positions incl. borders, corners and outside; non-trivial when the sensor is rotated or not square')
MIN = {'sensors': 100, 'round_trips': 1000, 'outside_refused': 200, 'types': 100}
FIXED = dict(FEI4=(250., 50., 80, 336), RD53A=(50., 50., 400, 192), RD53A_8x8=(50., 50., 400, 192), ITkPix=(50., 50., 400, 384),
             ITkPix_8x8=(50., 50., 400, 384), TJMonopix1=(40., 36., 112, 224), TJMonopix1_2x2=(40., 36., 112, 224), PSI46=(150., 100., 52, 80),
             Mimosa26=(18.4, 18.4, 1152, 576), DepfetH5z85=(50., 85., 64, 64), DepfetH5z55=(50., 55., 64, 64), Timepix3=(55., 55., 256, 256))
CELL = dict(RD53A_8x8=(8, 8), ITkPix_8x8=(8, 8), TJMonopix1_2x2=(2, 2), FEI4=(2, 1), PSI46=(2, 1), RectangularPixelDutWithDoubleColumns=(2, 1))


def cases(seed, tier):
    n = 250 if tier == 'quick' else 6000
    return [dict(seed=seed * 7919 + i) for i in range(n)]


def warm():
    from beam_telescope_analysis.telescope import dut  # noqa


def angles(rng):
    return [float(rng.choice([0., 0., np.pi, -np.pi / 2, np.pi / 2, rng.uniform(-.01, .01), rng.uniform(-np.pi, np.pi)])) for _ in range(3)]


def rot(a, b, g):
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    rx = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    ry = np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
    rz = np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]])
    return rz @ ry @ rx


def random_dut(rng, module):
    kind = str(rng.choice(list(FIXED) + ['RectangularPixelDut'] * 8 + ['RectangularPixelDutWithDoubleColumns'] * 2))
    al, be, ga = angles(rng)
    par = dict(name='D', translation_x=float(rng.choice([0., rng.normal(0, 5000.)])), translation_y=float(rng.choice([0., rng.normal(0, 5000.)])),
               translation_z=float(rng.choice([0., rng.uniform(-1e6, 1e6)])), rotation_alpha=al, rotation_beta=be, rotation_gamma=ga)
    if kind in FIXED:
        geo = FIXED[kind]
    else:
        nc, nr = int(rng.choice([1, 2, 3, 17, 80, 1001])), int(rng.choice([1, 2, 5, 64, 337]))
        if kind.endswith('Columns'):
            nc += nc % 2
        geo = (float(rng.choice([1., 18.4, 50., 55.3, 250., rng.uniform(.5, 400)])), float(rng.choice([1., 18.4, 50., 100., rng.uniform(.5, 400)])), nc, nr)
        par.update(column_size=geo[0], row_size=geo[1], n_columns=geo[2], n_rows=geo[3])
    return kind, getattr(module, kind)(**par), par, geo


def refused(ctx, key, f, *a, **detail):
    try:
        r = f(*a)
    except ValueError:
        ctx.ok(1, outside_refused=1)
        return
    ctx.violate(key, 'accepted something outside of the sensor', args=a, result=r, **detail)


def run(case, ctx):
    from beam_telescope_analysis.telescope import dut as module
    rng = ctx.rng
    with ctx.sut('create sensor'):
        kind, d, par, (cs, rs, nc, nr) = random_dut(rng, module)
    det = dict(kind=kind, par=par)
    ctx.count(sensors=1, types=1)
    ctx.expect((d.column_size, d.row_size, d.n_columns, d.n_rows) == (cs, rs, nc, nr) and d.pixel_size == (cs, rs) and d.n_pixel == (nc, nr),
               'geometry-parameters', 'pixel matrix of %s is not the one configured' % kind, **det)
    w, h = cs * nc, rs * nr
    R = rot(par['rotation_alpha'], par['rotation_beta'], par['rotation_gamma'])
    T = np.array([par['translation_x'], par['translation_y'], par['translation_z']])
    tol = 1e-9 * (np.abs(T).max() + w + h) + 1e-9
    # pixel centres: all corners, random pixels
    col = np.r_[1, nc, 1, nc, rng.integers(1, nc + 1, 40)].astype(float)
    row = np.r_[1, 1, nr, nr, rng.integers(1, nr + 1, 40)].astype(float)
    form = int(rng.integers(4))
    if form == 1:
        a, b = col.tolist(), row.tolist()
    elif form == 2:
        a, b = tuple(col.tolist()), row.tolist()
    elif form == 3:
        a, b = col.astype(np.uint16), row.astype(np.uint16)
    else:
        a, b = col, row
    with ctx.sut('index_to_local_position'):
        x, y, z = d.index_to_local_position(a, b)
    ctx.expect(np.allclose(x, (col - .5) * cs - w / 2, rtol=0, atol=1e-9 * w) and np.allclose(y, (row - .5) * rs - h / 2, rtol=0, atol=1e-9 * h)
               and np.all(np.asarray(z) == 0) and np.shape(x) == np.shape(col), 'pixel-centre', 'local position is not the centre of the pixel', x=x, col=col, y=y, row=row, **det)
    with ctx.sut('local_position_to_index'):
        c2, r2 = d.local_position_to_index(x, y, z if rng.random() < .5 else None)
    ctx.expect(np.allclose(c2, col, rtol=0, atol=1e-6) and np.allclose(r2, row, rtol=0, atol=1e-6), 'local-round-trip', 'index differs after local round trip', **det)
    with ctx.sut('index_to_global_position'):
        gx, gy, gz = d.index_to_global_position(a, b)
    want = R @ np.array([x, y, np.zeros_like(x)]) + T[:, None]
    ctx.expect(np.allclose([gx, gy, gz], want, rtol=0, atol=tol), 'global-position', 'global position is not rotation and translation of local position',
               got=[gx[:4], gy[:4], gz[:4]], want=want[:, :4], **det)
    with ctx.sut('global_position_to_index'):
        c3, r3 = d.global_position_to_index(gx, gy, gz)
    ctx.expect(np.allclose(c3, col, rtol=0, atol=1e-6 + tol / min(cs, rs)) and np.allclose(r3, row, rtol=0, atol=1e-6 + tol / min(cs, rs)), 'global-round-trip', 'index differs after global round trip', **det)
    ctx.ok(0, round_trips=len(col))
    # fractional indices and positions within a pixel
    fc = np.clip(col + rng.uniform(-.499, .499, len(col)), .5, nc + .5)
    fr = np.clip(row + rng.uniform(-.499, .499, len(row)), .5, nr + .5)
    px, py = (fc - .5) * cs - w / 2, (fr - .5) * rs - h / 2
    with ctx.sut('local_position_to_index'):
        c4, r4 = d.local_position_to_index(px, py)
    ctx.expect(np.array_equal(np.rint(c4), col) and np.array_equal(np.rint(r4), row) and np.allclose(c4, fc, atol=1e-6, rtol=0) and np.allclose(r4, fr, atol=1e-6, rtol=0), 'position-in-pixel', 'a position inside a pixel maps to another index', **det)
    with ctx.sut('fractional index'):
        x5, y5, _ = d.index_to_local_position(fc, fr)
    ctx.expect(np.allclose(x5, px, atol=1e-9 * w, rtol=0) and np.allclose(y5, py, atol=1e-9 * h, rtol=0), 'fractional-index', 'fractional (cluster) index has wrong position', **det)
    # scalar use
    k = int(rng.integers(len(col)))
    with ctx.sut('scalar index'):
        xs, ys, zs = d.index_to_local_position(col[k], row[k])
    ctx.expect(abs(xs - x[k]) < 1e-9 * w and abs(ys - y[k]) < 1e-9 * h and zs == 0, 'scalar-index', 'scalar and array input differ', **det)
    # points off the plane with explicit alignment: local -> global -> local
    other = dict(translation_x=float(rng.normal(0, 100)), translation_y=0., translation_z=float(rng.uniform(0, 1e5)))
    oa = angles(rng)
    other.update(rotation_alpha=oa[0], rotation_beta=oa[1], rotation_gamma=oa[2])
    if rng.random() < .5:
        for key in list(other)[:int(rng.integers(0, 5))]:
            del other[key]
    full = dict({k: par[k] for k in par if k.startswith(('trans', 'rot'))}, **other)
    pz = rng.normal(0, 1000., len(px))
    with ctx.sut('local_to_global with alignment'):
        g = d.local_to_global_position(px, py, pz, **other)
        back = d.global_to_local_position(*g, **other)
    R2 = rot(full['rotation_alpha'], full['rotation_beta'], full['rotation_gamma'])
    T2 = np.array([full['translation_x'], full['translation_y'], full['translation_z']])
    ctx.expect(np.allclose(g, R2 @ np.array([px, py, pz]) + T2[:, None], rtol=0, atol=2 * tol + 1e-3), 'explicit-alignment', 'explicit alignment not used', other=other, **det)
    ctx.expect(np.allclose(back, [px, py, pz], rtol=0, atol=2 * tol + 1e-6), 'explicit-alignment-round-trip', 'local to global to local changes positions', other=other, **det)
    # extents
    with ctx.sut('extent'):
        le = [d.x_extent(), d.y_extent(), d.z_extent()]
        ge = [d.x_extent(global_position=True), d.y_extent(global_position=True), d.z_extent(global_position=True)]
    ctx.expect(np.allclose(le, [(-w / 2, w / 2), (-h / 2, h / 2), (0, 0)], rtol=1e-12, atol=1e-9), 'local-extent', 'local extent', got=le, **det)
    corners = R @ np.array([[-w, -w, w, w], [-h, h, -h, h], [0, 0, 0, 0]]) / 2 + T[:, None]
    ctx.expect(np.allclose(ge, np.c_[corners.min(axis=1), corners.max(axis=1)], rtol=0, atol=tol), 'global-extent', 'global extent does not enclose the sensor exactly',
               got=ge, want=np.c_[corners.min(axis=1), corners.max(axis=1)], **det)
    # outside
    eps = 1e-3
    for c, r in [(.5 - eps, row[4]), (nc + .5 + eps, row[4]), (col[4], .5 - eps), (col[4], nr + .5 + eps), (0, row[5]), (nc + 1, row[5]), (col[5], 0), (col[5], nr + 1), (-3., 1.), (np.nan, 1.), (1., np.nan)]:
        cc, rr = col.copy(), row.copy()
        i = int(rng.integers(len(cc)))
        cc[i], rr[i] = c, r
        refused(ctx, 'outside-index-accepted', d.index_to_local_position, cc, rr, **det)
    for ex, ey in [(-w / 2 - eps * cs, 0.), (w / 2 + eps * cs, 0.), (0., -h / 2 - eps * rs), (0., h / 2 + eps * rs), (np.nan, 0.), (0., np.nan)]:
        xx, yy = px.copy(), py.copy()
        i = int(rng.integers(len(xx)))
        xx[i], yy[i] = ex, ey
        refused(ctx, 'outside-position-accepted', d.local_position_to_index, xx, yy, **det)
    # a global position off the sensor plane has no index
    n = R @ np.array([0., 0., 1.])
    off = [gx + 5 * n[0], gy + 5 * n[1], gz + 5 * n[2]]
    try:
        r = d.global_position_to_index(*off)
        ctx.violate('off-plane-accepted', 'position 5 um off the sensor plane has an index', got=r, **det)
    except RuntimeError:
        ctx.ok(1)
    # position within the primitive cell
    mx, my = CELL.get(kind, (1, 1))
    with ctx.sut('map_to_primitive_cell'):
        ux, uy = d.map_to_primitive_cell(px, py)
    ctx.expect(np.all((ux >= 0) & (ux <= mx * cs) & (uy >= 0) & (uy <= my * rs)), 'primitive-cell-range', 'outside of primitive cell', **det)
    if nc % mx == 0 and nr % my == 0:
        wx, wy = np.mod((fc - .5) * cs, mx * cs), np.mod((fr - .5) * rs, my * rs)
        dx, dy = np.abs(ux - wx), np.abs(uy - wy)
        dx, dy = np.minimum(dx, mx * cs - dx), np.minimum(dy, my * rs - dy)
        ctx.expect(np.all(dx < 1e-6 * cs + 1e-9 * w) and np.all(dy < 1e-6 * rs + 1e-9 * h), 'primitive-cell', 'wrong position within the primitive cell', **det)
    if any(par[k] for k in ('rotation_alpha', 'rotation_beta', 'rotation_gamma')) or nc != nr:
        ctx.interesting(kind, par)
    if ctx.index == 0:
        ctx.sample = dict(kind=kind, par=par, first_pixels=[x[:3], y[:3], gx[:3]])
