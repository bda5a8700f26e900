"""Rotations of the sphere and of polar grids are the rotations asked for."""
import numpy as np
from magpie import coords, grids

PI = np.pi


def rot(axis, a, p):
    """Rodrigues rotation of p about a unit axis by a"""
    c = np.cos(a); s = np.sin(a)
    n = axis
    d = n[0]*p[0] + n[1]*p[1] + n[2]*p[2]
    x = (n[1]*p[2] - n[2]*p[1], n[2]*p[0] - n[0]*p[2], n[0]*p[1] - n[1]*p[0])
    return [p[k]*c + x[k]*s + n[k]*d*(1 - c) for k in range(3)]


def unit(f, t):
    return [np.cos(f)*np.sin(t), np.sin(f)*np.sin(t), np.cos(t)]


def point(k):
    f = real('f%d' % k, 0.2, 1.4) + k*PI/2; t = real('t%d' % k, 0.2, 2.9)
    return f, t


def rotate_check(fs, ts, fe, te, axis, ang, lab):
    f, t = point(0)
    e = rot(axis, ang, unit(f, t))
    a, b = coords.usphere_rotate(f, t, fe, te, phi_start=fs, theta_start=ts)
    g = unit(a, b)
    for k in range(3):
        equal(g[k], e[k], lab)
    equal(b, np.arccos(e[2]), lab + ' (polar angle)')
    # arrays: every point, on its own
    F = np.array([f, f + 1]); T = np.array([t, t/2])
    A, B = coords.usphere_rotate(F, T, fe, te, phi_start=fs, theta_start=ts)
    e2 = rot(axis, ang, unit(f + 1, t/2))
    g1 = unit(A[0], B[0]); g2 = unit(A[1], B[1])
    for k in range(3):
        equal(g1[k], e[k], lab + ' (array)')
        equal(g2[k], e2[k], lab + ' (array)')


def P24_rotate_equator():
    rotate_check(0, PI/2, PI/2, PI/2, (0, 0, 1), PI/2, 'rotation about the axis through both points')
    rotate_check(PI/2, PI/2, 0, PI/2, (0, 0, 1), -PI/2, 'rotation about the axis through both points')
    rotate_check(PI, PI/2, 3*PI/2, PI/2, (0, 0, 1), PI/2, 'rotation about the axis through both points')


def P24_rotate_pole():
    rotate_check(0, PI/2, 0, 0, (0, -1, 0), PI/2, 'rotation about the axis through both points')
    rotate_check(0, 0, 0, PI/2, (0, 1, 0), PI/2, 'rotation about the axis through both points')
    rotate_check(PI/2, PI/2, 0, PI, (-1, 0, 0), PI/2, 'rotation about the axis through both points')
    rotate_check(0, 0, PI/2, PI/2, (-1, 0, 0), PI/2, 'rotation about the axis through both points')


def P24_rotate_default_start():
    f, t = point(0)
    a, b = coords.usphere_rotate(f, t, PI/2, PI/2)
    c, d = coords.usphere_rotate(f, t, PI/2, PI/2, phi_start=0, theta_start=0)
    equal(a, c, 'rotates from the north pole by default'); equal(b, d, 'rotates from the north pole by default')


def P24_rotate_general():
    fs = real('fs', 0.2, 2); te = real('te', 0.3, 2.5)
    a, b = coords.usphere_rotate(fs, PI/2, fs + PI/2, te, phi_start=fs, theta_start=PI/2)
    g = unit(a, b); e = unit(fs + PI/2, te)
    for k in range(3):
        equal(g[k], e[k], 'the start point goes to the end point')
    f, t = point(0)
    a, b = coords.usphere_rotate(f, t, fs + PI/2, te, phi_start=fs, theta_start=PI/2)
    g = unit(a, b); e = rot(cross(unit(fs, PI/2), unit(fs + PI/2, te)), PI/2, unit(f, t))
    for k in range(3):
        equal(g[k], e[k], 'rotation about the axis through both points')


def cross(a, b):
    return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]


def P24_rotate_numbers():
    for fs, ts, fe, te in ((PI/3, PI/4, 5*PI/6, 2*PI/3), (PI/4, PI/3, 7*PI/4, PI/6)):
        a, b = coords.usphere_rotate(fs, ts, fe, te, phi_start=fs, theta_start=ts)
        g = unit(a, b); e = unit(fe, te)
        for k in range(3):
            equal(g[k], e[k], 'the start point goes to the end point')


def P24_rotate_back():
    f, t = point(0)
    a, b = coords.usphere_rotate(f, t, PI/2, PI/2, phi_start=0, theta_start=PI/2)
    c, d = coords.usphere_rotate(a, b, 0, PI/2, phi_start=PI/2, theta_start=PI/2)
    g = unit(c, d); e = unit(f, t)
    for k in range(3):
        equal(g[k], e[k], 'rotating back and forth changes nothing')


def P24_phi_shift():
    d = real('d', 0.1, 1); t = real('t', 0.1, 3)
    for q in range(4):
        f = real('f%d' % q, 0.1, 0.5) + q*PI/2
        for s in (-1, 1):
            g = coords.usphere_phi_shift(f, s*d)
            h = coords.usphere_phi_shift(np.array([f, 1.5]), s*d)
            for v in (g, h[0]):
                equal(np.cos(v), np.cos(f + s*d), 'longitude moves by the shift')
                equal(np.sin(v), np.sin(f + s*d), 'longitude moves by the shift')
    for s in (-5, 5):
        f = real('F', 0.1, 0.2) + PI
        g = coords.usphere_phi_shift(f, s)
        equal(np.cos(g), np.cos(f + s), 'long shifts wrap'); equal(np.sin(g), np.sin(f + s), 'long shifts wrap')


def P24_shift():
    fs = real('fs', 0.2, 0.5); fe = real('fe', 0.6, 1.2)
    f, t = point(0)
    # equator to pole along the end meridian, after the longitude shift
    a, b = coords.usphere_shift(f, t, fs, PI/2, fe, 0)
    e = rot((-np.sin(fe), np.cos(fe), 0), -PI/2, unit(f + fe - fs, t))
    g = unit(a, b)
    for k in range(3):
        equal(g[k], e[k], 'shift in longitude, then along the meridian')
    a, b = coords.usphere_shift(f, t, fs, 0, fe, PI/2)
    e = rot((-np.sin(fe), np.cos(fe), 0), PI/2, unit(f + fe - fs, t))
    g = unit(a, b)
    for k in range(3):
        equal(g[k], e[k], 'shift in longitude, then along the meridian')
    a, b = coords.usphere_shift(f, t, fs, 1, fe, 1)
    equal(np.cos(a), np.cos(f + fe - fs), 'pure longitude shift'); equal(b, t, 'a longitude shift leaves the polar angle')
    a, b = coords.usphere_shift(fs, PI/2, fs, PI/2, fe, PI/4)
    g = unit(a, b); e = unit(fe, PI/4)
    for k in range(3):
        equal(g[k], e[k], 'the start point goes to the end point')


def P24_shift_general():
    fs = real('fs', 0.2, 2); ts = 1.2; fe = real('fe', 0.2, 5); te = 2.1
    a, b = coords.usphere_shift(fs, ts, fs, ts, fe, te)
    g = unit(a, b); e = unit(fe, te)
    for k in range(3):
        equal(g[k], e[k], 'the start point goes to the end point')
    A, B = coords.usphere_shift(np.array([fs, 1]), np.array([ts, 1]), fs, ts, fe, te)
    g = unit(A[0], B[0])
    for k in range(3):
        equal(g[k], e[k], 'the start point goes to the end point (array)')


def P24_spin():
    fc = real('fc', 0.2, 1); al = real('al', 0.1, 1.2)
    f, t = point(0)
    a, b = coords.usphere_spin(f, t, fc, PI/2, al)
    g = unit(a, b)
    e = rot((np.cos(fc), np.sin(fc), 0), al, unit(f, t))
    for k in range(3):
        equal(g[k], e[k], 'rotation about the centre by the angle')
    a, b = coords.usphere_spin(f, t, fc, 0, al)
    e = unit(f + al, t)
    g = unit(a, b)
    for k in range(3):
        equal(g[k], e[k], 'spin about the pole is a longitude shift')
    a, b = coords.usphere_spin(fc, PI/2, fc, PI/2, 0.3)
    g = unit(a, b); e = unit(fc, PI/2)
    for k in range(3):
        equal(g[k], e[k], 'the centre does not move')


def P24_spin_general():
    fc = real('fc', 0.2, 5); tc = real('tc', 0.3, 2.8); al = real('al', 0.2, 6)
    f, t = point(0)
    a, b = coords.usphere_spin(f, t, fc, tc, al)
    g = unit(a, b)
    e = rot(unit(fc, tc), al, unit(f, t))
    for k in range(3):
        equal(g[k], e[k], 'rotation about the centre by the angle')


def near(a, b, lab):
    holds(abs(a - b) < 0.001, lab)


def P24_small_moves():
    # small moves are made, in their own size
    for e in (0.04, 1e-3, 1e-5):
        for s in (e, -e):
            for t0, t in ((1., 1.5), (2.5, 0.7), (0.4, 2.)):
                a, b = coords.usphere_shift(2., t, 2., t0, 2., t0 + s)
                near((b - t)/s, 1, 'a small shift along a meridian'); near(a, 2, 'a small shift along a meridian')
                a, b = coords.usphere_rotate(2., t, 2., t0 + s, phi_start=2., theta_start=t0)
                near((b - t)/s, 1, 'a small rotation along a meridian')
                a, b = coords.usphere_shift(np.array([2., 3.]), np.array([t, 1.]), 2., t0, 2., t0 + s)
                near((b[0] - t)/s, 1, 'a small shift along a meridian (array)')
                a, b = coords.usphere_shift(2., t, 2., t0, 2. + s, t0)
                near((a - 2.)/s, 1, 'a small shift in longitude'); near(b, t, 'a small shift in longitude')
            near((coords.usphere_phi_shift(2., s) - 2.)/s, 1, 'a small shift in longitude')
            near((coords.usphere_phi_shift(np.array([2., 1.]), s)[0] - 2.)/s, 1, 'a small shift in longitude')
        a, b = coords.usphere_spin(2., 1., 2., 0., e)
        near((a - 2.)/e, 1, 'a small spin')
        a, b = coords.usphere_spin(PI/2, PI/2, 0., PI/2, e)
        near((b - PI/2)/e, -1, 'a small spin about the equator')
        near((coords.rotate_polar(2., e) - 2.)/e, 1, 'a small turn')
        near((coords.rotate_polar(2., 2*PI - e) - 2.)/e, -1, 'almost a full turn')
        near((coords.rotate_polar(np.array([2., 1.]), e)[0] - 2.)/e, 1, 'a small turn')


def P24_small_grid_turns():
    n = 4; dp = 2*PI/n
    E = grids.get_xedges(2*PI, n)
    F = array('F', (n, 2))
    for e in (0.03, 1e-3, 1e-5):
        r = coords.rotate_polar_grid(E, F, e*dp)
        for i in range(n):
            equal((r[i, 0] - F[i, 0])/e, F[(i + 1) % n, 0] - F[i, 0], 'a small turn of a map')
        r = coords.rotate_polar_grid(E, F, (n - e)*dp)
        for i in range(n):
            equal((r[i, 1] - F[i, 1])/e, F[(i - 1) % n, 1] - F[i, 1], 'almost a full turn of a map')
        r = coords.rotate_polar_grid(E, F, (2 - e)*dp)
        for i in range(n):
            equal((r[i, 1] - F[(i + 2) % n, 1])/e, F[(i + 1) % n, 1] - F[(i + 2) % n, 1], 'a turn just short of whole cells')


def P24_rotate_polar():
    f = real('f', 0, 2*PI); d = real('d', 0.1, 6)
    g = coords.rotate_polar(f, d)
    equal(np.cos(g), np.cos(f + d), 'azimuth moves by the angle'); equal(np.sin(g), np.sin(f + d), 'azimuth moves by the angle')
    h = coords.rotate_polar(np.array([f, 1.0]), d)
    equal(h[0], g, 'array as scalar')


def grid_rot(n, k):
    w = real('w', 0.1, 0.9)
    e = grids.get_xedges(2*PI, n)
    dp = 2*PI/n
    F = array('F', (n, 2))
    r = frozen(coords.rotate_polar_grid, e, F, (k + w)*dp)
    equal(np.shape(r), (n, 2), 'shape')
    for i in range(n):
        for j in range(2):
            equal(r[i, j], (1 - w)*F[(i + k) % n, j] + w*F[(i + k + 1) % n, j], 'each cell holds what lies the angle ahead of it')


def P24_polar_grid():
    for k in (0, 1, 2, 3):
        grid_rot(4, k)
    grid_rot(3, 1)


def P24_polar_grid_few():
    grid_rot(1, 0)
    grid_rot(2, 0)
    grid_rot(2, 1)


def P24_whole_turns():
    # a whole turn, and almost one, is as exact as any other
    for f, t in ((2., 1.), (0.5, 2.5), (4., 0.3)):
        for a in (2*PI, 2*PI - 1e-4, PI, 1e-4):
            x, y = coords.usphere_spin(f, t, 1., 0., a)
            equal(np.cos(x), np.cos(f + a), 'spin about the pole'); equal(np.sin(x), np.sin(f + a), 'spin about the pole'); equal(np.cos(y), np.cos(t), 'spin about the pole')
        x, y = coords.usphere_spin(f, t, 1., 1.2, 2*PI)
        equal(np.cos(x), np.cos(f), 'spin by a whole turn'); equal(np.sin(x), np.sin(f), 'spin by a whole turn'); equal(np.cos(y), np.cos(t), 'spin by a whole turn')
        x, y = coords.usphere_spin(np.array([f, 1.]), np.array([t, 1.2]), 1., 1.2, 2*PI)
        equal(np.cos(x[0]), np.cos(f), 'spin by a whole turn (array)'); equal(np.cos(y[0]), np.cos(t), 'spin by a whole turn (array)'); equal(np.cos(y[1]), np.cos(1.2), 'spin by a whole turn (array)')


def P24_polar_grid_whole_cells():
    n = 4
    e = grids.get_xedges(2*PI, n)
    F = array('F', n)
    for k in (1, 2, 3):
        r = coords.rotate_polar_grid(e, F, k*PI/2)
        for i in range(n):
            equal(r[i], F[(i + k) % n], 'a whole number of cells moves cells')
