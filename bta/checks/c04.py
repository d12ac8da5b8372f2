"""Geometry: an independent implementation (scipy rotations, plain vector algebra) watches random and singular inputs."""
import numpy as np

ID = 'C04'
RULE = ('random and singular angles (multiples of pi/2, gimbal lock with numerical noise, tiny angles), translations up to 1e7 um and random point sets; '
        'non-trivial: all three angles different from zero')
MIN = {'rotations': 1000, 'gimbal': 50, 'transforms': 500, 'intersections': 1000, 'parallel': 50, 'nearly_parallel': 500, 'spherical': 500}


def cases(seed, tier):
    return [dict(seed=seed * 1000003 + i, n=60) for i in range(40 if tier == 'quick' else 1500)]


def angle(rng):
    s = rng.integers(6)
    if s == 0:
        return float(rng.integers(-4, 5)) * np.pi / 2
    if s == 1:
        return float(rng.normal() * 10. ** -float(rng.integers(1, 16)))
    if s == 2:
        return 0.
    return float(rng.uniform(-2 * np.pi, 2 * np.pi))


def ref_rotation(a, b, c):
    from scipy.spatial.transform import Rotation
    return Rotation.from_euler('xyz', [a, b, c]).as_matrix()


def close(a, b, tol):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol)


def run(case, ctx):
    from beam_telescope_analysis.tools import geometry_utils as gu
    rng = ctx.rng
    for _ in range(case['n']):
        a, b, c = angle(rng), angle(rng), angle(rng)
        if rng.random() < .15:
            b = float(rng.choice([-1, 1])) * np.pi / 2
        det = dict(alpha=a, beta=b, gamma=c)
        with ctx.sut('rotation_matrix'):
            R = gu.rotation_matrix(a, b, c)
            Rx, Ry, Rz = gu.rotation_matrix_x(a), gu.rotation_matrix_y(b), gu.rotation_matrix_z(c)
        W = ref_rotation(a, b, c)
        ctx.expect(R.shape == (3, 3) and close(R, W, 1e-12), 'rotation', 'rotation matrix is not rotation about x, y, z in this order', R=R, want=W, **det)
        ctx.expect(close(Rx, ref_rotation(a, 0, 0), 1e-12) and close(Ry, ref_rotation(0, b, 0), 1e-12) and close(Rz, ref_rotation(0, 0, c), 1e-12),
                   'rotation-axis', 'single axis rotation is wrong', **det)
        # angles of this rotation, and of a rotation carrying numerical noise (product of rotations)
        mats = [R]
        p, q = [float(x) for x in rng.uniform(-3, 3, 2)]
        mats.append(R.dot(ref_rotation(p, q, .3)).dot(ref_rotation(p, q, .3).T))
        if abs(abs(b) - np.pi / 2) < 1e-9:
            ctx.count(gimbal=1)
        for M in mats:
            with ctx.sut('euler_angles'):
                e = gu.euler_angles(M.copy())
            ctx.expect(np.all(np.isfinite(e)) and close(ref_rotation(*e), M, 1e-6), 'euler', 'angles do not reproduce the rotation', angles=e, M=M, **det)
            if abs(np.sin(b)) < .999 and abs(b) < np.pi / 2:
                d = (np.array(e) - [a, b, c] + np.pi) % (2 * np.pi) - np.pi
                ctx.expect(close(d, 0, 1e-6), 'euler-angles', 'angles differ from the given ones', angles=e, **det)
        ctx.ok(0, rotations=1)
        # transformations
        t = rng.uniform(-1, 1, 3) * 10. ** rng.integers(0, 8)
        if rng.random() < .2:
            t = np.round(t)
        n = int(rng.choice([1, 2, 7, 40]))
        pts = rng.uniform(-1, 1, (n, 3)) * 10. ** rng.integers(0, 6)
        if rng.random() < .3:
            pts[rng.integers(n)] = 0
        scale = 1e-12 * (np.abs(t).max() + np.abs(pts).max() + 1) * 10
        with ctx.sut('transformation'):
            L2G = gu.local_to_global_transformation_matrix(t[0], t[1], t[2], a, b, c)
            G2L = gu.global_to_local_transformation_matrix(t[0], t[1], t[2], a, b, c)
            keep = pts.copy()
            g = np.column_stack(gu.apply_transformation_matrix(pts[:, 0], pts[:, 1], pts[:, 2], L2G))
            back = np.column_stack(gu.apply_transformation_matrix(g[:, 0], g[:, 1], g[:, 2], G2L))
            l2 = np.column_stack(gu.apply_transformation_matrix(pts[:, 0], pts[:, 1], pts[:, 2], G2L))
            o = np.column_stack(gu.apply_transformation_matrix(np.zeros(1), np.zeros(1), np.zeros(1), L2G))
            r = np.column_stack(gu.apply_rotation_matrix(pts[:, 0], pts[:, 1], pts[:, 2], R))
        det.update(t=t)
        ctx.expect(np.array_equal(keep, pts), 'input-modified', 'transformation changed its input', **det)
        ctx.expect(g.shape == (n, 3) and close(g, pts.dot(W.T) + t, scale), 'local-to-global', 'wrong local to global transformation', **det)
        ctx.expect(close(l2, (pts - t).dot(W), scale), 'global-to-local', 'wrong global to local transformation', **det)
        ctx.expect(close(back, pts, scale), 'round-trip', 'global and local transformation are not inverse', **det)
        ctx.expect(close(o[0], t, scale), 'origin', 'sensor origin is not at its translation', **det)
        ctx.expect(close(r, pts.dot(W.T), scale), 'apply-rotation', 'wrong rotation of points', **det)
        dg = np.linalg.norm(g[:, None] - g[None], axis=2)
        dl = np.linalg.norm(pts[:, None] - pts[None], axis=2)
        ctx.expect(close(dg, dl, 10 * scale), 'distance', 'distances are not preserved', **det)
        with ctx.sut('translation_matrix'):
            T = gu.translation_matrix(*t)
        ctx.expect(close(T.dot([1., 2., 3., 1.]), np.r_[t + [1, 2, 3], 1], scale), 'translation', 'translation matrix is wrong', **det)
        ctx.ok(0, transforms=1)
        # lines and planes
        d = rng.normal(size=(n, 3))
        if rng.random() < .3:
            d = np.column_stack([rng.normal(0, 1e-3, n), rng.normal(0, 1e-3, n), np.ones(n)])
        par = np.zeros(n, bool)
        nrm = W[:, 2] * float(rng.choice([1., 1., -2.]))
        if rng.random() < .3:
            nrm = np.array([0., 0., float(rng.choice([1., -3.]))])
            par = rng.random(n) < .5
            d[par, 2] = 0.
        if rng.random() < .4:    # nearly parallel to the plane
            un = nrm / np.linalg.norm(nrm)
            near = ~par & (rng.random(n) < .5)
            flat = d - np.outer(d.dot(un), un)
            d[near] = (flat + un * (10. ** -rng.uniform(1, 11, n) * rng.choice([-1, 1], n))[:, None])[near]
            ctx.count(nearly_parallel=int(near.sum()))
        if rng.random() < .3:    # not normalised
            d *= 10. ** rng.uniform(-9, 4)
        with ctx.sut('line-plane'):
            keep = pts.copy(), d.copy()
            x = gu.get_line_intersections_with_plane(pts, d, t, nrm)
        ctx.expect(np.array_equal(keep[0], pts) and np.array_equal(keep[1], d), 'input-modified', 'intersection changed its input', **det)
        ctx.expect(x.shape == (n, 3) and np.all(np.isnan(x[par])), 'parallel', 'line parallel to the plane got an intersection', d=d[par], x=x[par], **det)
        self_check(ctx, x[~par], pts[~par], d[~par], t, nrm, det)
        ctx.ok(0, intersections=int((~par).sum()), parallel=int(par.sum()))
        with ctx.sut('line-dut'):
            x = gu.get_line_intersections_with_dut(pts, d, t[0], t[1], t[2], a, b, c)
        if not par.any():
            self_check(ctx, x, pts, d, t, W[:, 2], det)
        # spherical coordinates
        v = rng.normal(size=(n, 3)) * 10. ** rng.integers(-2, 5)
        if rng.random() < .5:
            v[0] = np.array([[0, 1, 0], [0, -1, 0], [1, 0, 0], [-1, 0, 0], [0, 0, 1], [0, 2, 3], [0, 0, 0], [0, -3, 1]], float)[rng.integers(8)]
        if rng.random() < .5:      # next to the axes, on both sides
            v[-1, int(rng.integers(2))] *= 10. ** -float(rng.integers(1, 22))
            v[-1, :2] *= rng.choice([-1, 1])
        with ctx.sut('spherical'):
            ph, th, rr = gu.cartesian_to_spherical(v[:, 0].copy(), v[:, 1].copy(), v[:, 2].copy())
            w = np.column_stack(gu.spherical_to_cartesian(ph, th, rr))
        ctx.expect(close(w, v, 1e-6 * (np.abs(v).max() + 1e-30) * 1e-2), 'spherical', 'spherical coordinates do not reproduce the vector', v=v[:3], w=w[:3])
        ctx.expect(np.all((ph >= 0) & (ph < 2 * np.pi) & (th >= 0) & (th <= np.pi)) and close(rr, np.linalg.norm(v, axis=1), 1e-9 * (1 + np.abs(v).max())),
                   'spherical-range', 'spherical coordinates outside their range')
        u1, u2 = rng.normal(size=3), rng.normal(size=3)
        with ctx.sut('normal'):
            nn = gu.get_plane_normal(u1, u2)
            S = gu.skew(u1)
            SS = gu.skew(np.array([u1, u2]))
        ctx.expect(close(nn, np.cross(u1, u2), 1e-12), 'normal', 'plane normal is wrong')
        sk = lambda v: np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
        ctx.expect(close(S, sk(u1), 1e-12) or close(S, -sk(u1), 1e-12), 'skew', 'skew matrix is wrong', S=S, v=u1)
        ctx.expect(close(SS[0], S, 1e-12) and close(SS[1], gu.skew(u2), 1e-12), 'skew', 'skew matrices of several vectors are wrong')
        ctx.ok(0, spherical=n)
        if a and b and c:
            ctx.interesting(a, b, c, t)
            if ctx.sample is None:
                ctx.sample = dict(angles=[a, b, c], translation=t.tolist(), euler=list(map(float, e)))


def self_check(ctx, x, o, d, t, nrm, det):
    """The intersection has to be on the plane and on its line."""
    if not len(x):
        return
    un = nrm / np.linalg.norm(nrm)
    cosang = np.abs(d.dot(un)) / np.linalg.norm(d, axis=1)
    size = np.abs(x).max(1) + np.abs(o).max(1) + np.abs(t).max()
    good = cosang > 1e-6
    tol = 1e-11 * size / np.maximum(cosang, 1e-6) + 1e-9
    ctx.expect(np.all(np.isfinite(x[cosang > 1e-13])), 'intersection', 'no intersection though the line is not parallel', **det)
    ctx.expect(np.all(np.abs((x - t).dot(un))[good] <= tol[good]), 'not-on-plane', 'intersection is not on the plane', **det)
    k = np.cross(x - o, d / np.linalg.norm(d, axis=1)[:, None])
    ctx.expect(np.all(np.abs(k).max(1)[good] <= tol[good]), 'not-on-line', 'intersection is not on the line', **det)
