"""Coordinate systems: round trips, ranges, element-wise behaviour, rotations."""
import numpy as np
from magpie import coords

PI = np.pi


# ------------------------------------------------------------------ P05 inverse transforms about a centre
def P05_cart_polar_cart():
    x = real('x'); y = real('y'); cx = real('cx'); cy = real('cy')
    r, p = coords.cart2polar(x, y, center=[cx, cy])
    holds(r >= 0, 'radius is never negative')
    equal(r**2, (x - cx)**2 + (y - cy)**2, 'radius is the distance to the centre')
    x2, y2 = coords.polar2cart(r, p, center=[cx, cy])
    equal(x2, x, 'cartesian -> polar -> cartesian returns x')
    equal(y2, y, 'cartesian -> polar -> cartesian returns y')
    r, p = coords.cart2polar(x, y)
    equal(r**2, x**2 + y**2, 'default centre is the origin')
    x2, y2 = coords.polar2cart(r, p)
    equal(x2, x, 'default centre round trip x')
    equal(y2, y, 'default centre round trip y')


def P05_polar_def():
    r = real('r', 0.01); p = real('p', 0, 2*PI); cx = real('cx'); cy = real('cy')
    x, y = coords.polar2cart(r, p, center=[cx, cy])
    equal(x - cx, r*np.cos(p), 'x offset is r cos(phi)')
    equal(y - cy, r*np.sin(p), 'y offset is r sin(phi)')
    assume(p < 2*PI - 0.001)
    r2, p2 = coords.cart2polar(x, y, center=[cx, cy])
    equal(r2, r, 'polar -> cartesian -> polar returns r')
    equal(p2, p, 'polar -> cartesian -> polar returns phi')


def P05_cart_sphere_cart():
    cx = real('cx'); cy = real('cy'); cz = real('cz')
    x = cx + real('u'); y = cy + real('v'); z = cz + real('w')
    r, p, t = coords.cart2sphere(x, y, z, center=[cx, cy, cz])
    holds(r >= 0, 'radius is never negative')
    equal(r**2, (x - cx)**2 + (y - cy)**2 + (z - cz)**2, 'radius is the distance to the centre')
    assume(r > 0)
    x2, y2, z2 = coords.sphere2cart(r, p, t, center=[cx, cy, cz])
    equal(z2, z, 'cartesian -> spherical -> cartesian returns z')
    equal(x2, x, 'cartesian -> spherical -> cartesian returns x')
    equal(y2, y, 'cartesian -> spherical -> cartesian returns y')


def P05_sphere_default_center():
    x = real('x'); y = real('y'); z = real('z')
    r, p, t = coords.cart2sphere(x, y, z)
    equal(r**2, x**2 + y**2 + z**2, 'default centre is the origin')
    assume(r > 0)
    x2, y2, z2 = coords.sphere2cart(r, p, t)
    equal(z2, z, 'default centre round trip z')
    equal(x2, x, 'default centre round trip x')
    equal(y2, y, 'default centre round trip y')


def P05_sphere_def():
    r = real('r', 0.01); p = real('p', 0, 2*PI); t = real('t', 0.01, PI - 0.01); cx = real('cx'); cy = real('cy'); cz = real('cz')
    x, y, z = coords.sphere2cart(r, p, t, center=[cx, cy, cz])
    equal(x - cx, r*np.cos(p)*np.sin(t), 'x offset')
    equal(y - cy, r*np.sin(p)*np.sin(t), 'y offset')
    equal(z - cz, r*np.cos(t), 'z offset')
    assume(p < 2*PI - 0.001)
    r2, p2, t2 = coords.cart2sphere(x, y, z, center=[cx, cy, cz])
    equal(r2, r, 'spherical -> cartesian -> spherical returns r')
    equal(t2, t, 'spherical -> cartesian -> spherical returns theta')
    equal(p2, p, 'spherical -> cartesian -> spherical returns phi')


def P05_centre_point():
    cx = real('cx'); cy = real('cy'); cz = real('cz')
    r, p = coords.cart2polar(cx, cy, center=[cx, cy])
    equal(r, 0, 'the centre has radius 0')
    equal(p, 0, 'the centre has azimuth 0')
    r, p, t = coords.cart2sphere(cx, cy, cz, center=[cx, cy, cz])
    equal(r, 0, 'the centre has radius 0 (3D)')
    equal(p, 0, 'the centre has azimuth 0 (3D)')
    equal(t, 0, 'the centre has colatitude 0 (3D)')


def P05_arrays_round_trip():
    cx = real('cx'); cy = real('cy'); cz = real('cz')
    X = cx + array('X', 3); Y = cy + array('Y', 3); Z = cz + array('Z', 3)
    r, p = coords.cart2polar(X, Y, center=[cx, cy])
    x, y = coords.polar2cart(r, p, center=[cx, cy])
    equal(x, X, 'array round trip x (2D)')
    equal(y, Y, 'array round trip y (2D)')
    r, p, t = coords.cart2sphere(X, Y, Z, center=[cx, cy, cz])
    assume((r[0] > 0) & (r[1] > 0) & (r[2] > 0))
    x, y, z = coords.sphere2cart(r, p, t, center=[cx, cy, cz])
    equal(x, X, 'array round trip x (3D)')
    equal(y, Y, 'array round trip y (3D)')
    equal(z, Z, 'array round trip z (3D)')


def P05_center_kinds():
    x = real('x'); y = real('y'); z = real('z'); c = array('c', 3)
    equal(coords.cart2polar(x, y, center=c[:2]), coords.cart2polar(x, y, center=[c[0], c[1]]), 'centre given as array or list (2D)')
    equal(coords.cart2sphere(x, y, z, center=c), coords.cart2sphere(x, y, z, center=[c[0], c[1], c[2]]), 'centre given as array or list (3D)')
    equal(coords.cart2polar(x, y, center=(c[0], c[1])), coords.cart2polar(x, y, [c[0], c[1]]), 'centre given as tuple')


def P05_lonlat():
    t = real('t', 0, PI); b = real('b', -PI/2, PI/2)
    equal(coords.lonlat2sphere(coords.sphere2lonlat(t)), t, 'colatitude -> latitude -> colatitude')
    equal(coords.sphere2lonlat(coords.lonlat2sphere(b)), b, 'latitude -> colatitude -> latitude')
    equal(coords.sphere2lonlat(t), PI/2 - t, 'latitude is pi/2 - colatitude')
    T = array('T', 3, 0, PI)
    L = coords.sphere2lonlat(T)
    for i in range(3):
        equal(L[i], PI/2 - T[i], 'latitude elementwise')
    equal(coords.lonlat2sphere(L), T, 'array latitude round trip')
    holds(coords.sphere2lonlat(t) <= PI/2, 'latitude <= pi/2')
    holds(coords.sphere2lonlat(t) >= -PI/2, 'latitude >= -pi/2')


def P05_ortho():
    x = real('x'); y = real('y'); r = real('r', 0.5, 4); f = real('f')
    z = coords.ortho2cart(x, y, r=r, fill_value=f)
    if x**2 + y**2 < r**2:
        equal(x**2 + y**2 + z**2, r**2, 'point inside the disc is lifted onto the sphere')
        holds(z >= 0, 'lifted to the near side')
    else:
        equal(z, f, 'point outside the disc gets the fill value')
    X = array('X', 3); Y = array('Y', 3)
    Z = coords.ortho2cart(X, Y, r=r, fill_value=f)
    for i in range(3):
        equal(Z[i], coords.ortho2cart(X[i], Y[i], r=r, fill_value=f), 'elementwise')
    X = array('P', (2, 2)); Y = array('Q', (2, 2))
    Z = coords.ortho2cart(X, Y, r=r, fill_value=f)
    for i in range(2):
        for j in range(2):
            equal(Z[i, j], coords.ortho2cart(X[i, j], Y[i, j], r=r, fill_value=f), 'elementwise 2D')
    x = real('x1', -0.7, 0.7); y = real('y1', -0.7, 0.7)
    z = coords.ortho2cart(x, y)
    equal(x**2 + y**2 + z**2, 1, 'default radius is 1')


def P05_poles():
    # exactly at the poles and at the ends of the azimuth range
    r = real('r', 0.5, 2); p = real('p', 0, 2*PI); c = real('c')
    for t, s in ((0, 1), (PI, -1)):
        x, y, z = coords.sphere2cart(r, p, t, center=[c, c, c])
        equal(x, c, 'pole on the axis'); equal(y, c, 'pole on the axis'); equal(z, c + s*r, 'pole a radius away')
        x, y, z = coords.sphere2cart(np.array([r, r]), np.array([p, 0]), np.array([t, t]))
        equal(x, np.zeros(2), 'pole on the axis (array)'); equal(y, np.zeros(2), 'pole on the axis (array)'); equal(z, s*r*np.ones(2), 'pole a radius away (array)')
        r2, p2, t2 = coords.cart2sphere(c, c, c + s*r, center=[c, c, c])
        equal(r2, r, 'radius of a pole'); equal(t2, t, 'colatitude of a pole')
    for p, x1, y1 in ((0, 1, 0), (PI/2, 0, 1), (PI, -1, 0), (3*PI/2, 0, -1), (2*PI, 1, 0)):
        x, y = coords.polar2cart(r, p)
        equal(x, x1*r, 'point on an axis'); equal(y, y1*r, 'point on an axis')
        x, y, z = coords.sphere2cart(r, p, PI/2)
        equal(x, x1*r, 'point on an axis (3D)'); equal(y, y1*r, 'point on an axis (3D)'); equal(z, 0, 'point on the equator')
        if p < 6:
            equal(coords.cart2polar(x1*r, y1*r)[1], p, 'azimuth of a point on an axis')
            equal(coords.cart2sphere(x1*r, y1*r, 0)[1], p, 'azimuth of a point on an axis (3D)')


def P07_ortho_rim():
    f = real('f')
    X = np.array([1, 0, 0.6, -0.8, 0.28, 0.3, 1.5]); Y = np.array([0, -1, 0.8, 0.6, -0.96, 0.3, 0])
    Z = coords.ortho2cart(X, Y, fill_value=f)
    for i in range(7):
        equal(Z[i], coords.ortho2cart(X[i], Y[i], fill_value=f), 'exactly on the rim, inside and outside')
    Z = coords.ortho2cart(2*X, 2*Y, r=2, fill_value=f)
    for i in range(7):
        equal(Z[i], coords.ortho2cart(2*X[i], 2*Y[i], r=2, fill_value=f), 'exactly on the rim, inside and outside')


def P05_close_to_centre():
    # nothing is rounded away near the centre, the axes and the rim: offsets are compared in their own size
    for e in (0.03, 1e-4, 1e-9):
        for u, v, w in ((1, 0.5, 0.25), (-1, -0.5, -0.25), (-0.5, 1, -1), (0.25, -1, 0.5)):
            r, p = coords.cart2polar(2 + u*e, 1 + v*e, center=[2, 1])
            equal(r/e, np.sqrt(u**2 + v**2), 'radius close to the centre')
            x, y = coords.polar2cart(r, p, center=[2, 1])
            equal((x - 2)/e, u, 'round trip close to the centre'); equal((y - 1)/e, v, 'round trip close to the centre')
            r, p, t = coords.cart2sphere(2 + u*e, 1 + v*e, w*e, center=[2, 1, 0])
            equal(np.cos(t), w/np.sqrt(u**2 + v**2 + w**2), 'colatitude close to the centre')
            x, y, z = coords.sphere2cart(r, p, t, center=[2, 1, 0])
            equal((x - 2)/e, u, 'round trip close to the centre'); equal((y - 1)/e, v, 'round trip close to the centre'); equal(z/e, w, 'round trip close to the centre')
            R, P, T = coords.cart2sphere(np.array([2 + u*e, 2.]), np.array([1 + v*e, 1.]), np.array([w*e, 0.]), center=[2, 1, 0])
            equal(R[0]/e, r/e, 'radius close to the centre'); equal(P[0], p, 'azimuth close to the centre'); equal(T[0], t, 'colatitude close to the centre')
        for u, v in ((1, e), (1, -e), (-1, e), (-1, -e), (e, 1), (-e, 1), (e, -1), (-e, -1)):
            r, p = coords.cart2polar(u, v)
            x, y = coords.polar2cart(r, p)
            equal(x, u, 'round trip close to an axis'); equal(y, v, 'round trip close to an axis')
            R, P = coords.cart2polar(np.array([u, 2.]), np.array([v, -3.]))
            equal(P[0], p, 'azimuth close to an axis')
        z = coords.ortho2cart(1 - e, 0.)
        equal(z**2/e, 2 - e, 'height close to the rim of the disc')
        equal(coords.ortho2cart(np.array([1 - e, 3]), np.array([0., 0.]))[0]**2/e, 2 - e, 'height close to the rim of the disc')
        equal(coords.ortho2cart(1 + e, 0., 1., -9.), -9, 'outside close to the rim of the disc')
        equal(coords.ortho2cart(np.array([1 + e, 0]), np.array([0., 0.]), 1., -9.), [-9., 1.], 'outside close to the rim of the disc')


# ------------------------------------------------------------------ P06 angle ranges
def P06_close():
    for e in (0.03, 1e-4, 1e-9, 1e-15):
        for u, v in ((1, e), (1, -e), (-1, e), (-1, -e), (e, 1), (-e, 1), (e, -1), (-e, -1), (1, 0), (-1, 0), (0, 1), (0, -1), (0, 0), (e, 0), (e, -e)):
            r, p = coords.cart2polar(u, v)
            q = coords.cart2polar(np.array([u, 1.]), np.array([v, 2.]))[1][0]
            f = coords.cart2sphere(u, v, e)[1]
            g = coords.cart2sphere(np.array([u, 1.]), np.array([v, 2.]), np.array([e, 1.]))[1][0]
            for a in (p, q, f, g):
                holds(a >= 0, 'azimuth close to an axis >= 0')
                holds(a < 2*PI, 'azimuth close to an axis < 2 pi')
        for a in (0., e, 1., 2*PI - e, 2*PI):
            for d in (-e, e, -6., 6., 1e-3 - 2*PI, 2*PI - 1e-3):
                for b in (coords.usphere_phi_shift(a, d), coords.usphere_phi_shift(np.array([a, 1.]), d)[0]):
                    holds(b >= 0, 'azimuth shifted a little >= 0')
                    holds(b <= 2*PI, 'azimuth shifted a little <= 2 pi')
                if d > 0:
                    b = coords.rotate_polar(a, d)
                    holds(b >= 0, 'polar angle turned a little >= 0')
                    holds(b <= 2*PI, 'polar angle turned a little <= 2 pi')


def P06_cart2polar():
    x = real('x'); y = real('y'); cx = real('cx'); cy = real('cy')
    r, p = coords.cart2polar(x, y, center=[cx, cy])
    holds(p >= 0, 'azimuth >= 0')
    holds(p < 2*PI, 'azimuth < 2 pi')
    holds(r >= 0, 'radius >= 0')
    X = array('X', 3); Y = array('Y', 3)
    r, p = coords.cart2polar(X, Y, center=[cx, cy])
    holds(p >= 0, 'array azimuth >= 0')
    holds(p < 2*PI, 'array azimuth < 2 pi')
    holds(r >= 0, 'array radius >= 0')
    X = array('X2', (2, 2)); Y = array('Y2', (2, 2))
    r, p = coords.cart2polar(X, Y)
    holds(p.flatten() >= 0, '2D array azimuth >= 0')
    holds(p.flatten() < 2*PI, '2D array azimuth < 2 pi')


def P06_cart2sphere():
    x = real('x'); y = real('y'); z = real('z'); cx = real('cx'); cy = real('cy'); cz = real('cz')
    r, p, t = coords.cart2sphere(x, y, z, center=[cx, cy, cz])
    holds(p >= 0, 'azimuth >= 0')
    holds(p < 2*PI, 'azimuth < 2 pi')
    holds(t >= 0, 'colatitude >= 0')
    holds(t <= PI, 'colatitude <= pi')
    X = array('X', 3); Y = array('Y', 3); Z = array('Z', 3)
    r, p, t = coords.cart2sphere(X, Y, Z, center=[cx, cy, cz])
    holds(p >= 0, 'array azimuth >= 0')
    holds(p < 2*PI, 'array azimuth < 2 pi')
    holds(t >= 0, 'array colatitude >= 0')
    holds(t <= PI, 'array colatitude <= pi')


def P06_phi_shift():
    p = real('p', 0, 2*PI); d = real('d', -6.28, 6.28)
    q = coords.usphere_phi_shift(p, d)
    holds(q >= 0, 'shifted azimuth >= 0')
    holds(q <= 2*PI, 'shifted azimuth <= 2 pi')
    P = array('P', 3, 0, 2*PI)
    q = coords.usphere_phi_shift(P, d)
    holds(q >= 0, 'shifted azimuths >= 0')
    holds(q <= 2*PI, 'shifted azimuths <= 2 pi')


def P06_rotations():
    p = real('p', 0, 2*PI); t = real('t', 0, PI)
    a = real('a', 0, 2*PI); b = real('b', 0, PI)
    q, s = coords.usphere_shift(p, t, a, 0.6, a, b)
    holds(q >= 0, 'rotated azimuth >= 0')
    holds(q <= 2*PI, 'rotated azimuth <= 2 pi')
    holds(s >= 0, 'rotated colatitude >= 0')
    holds(s <= PI, 'rotated colatitude <= pi')


def P06_rotate_polar():
    p = real('p', -6.28, 2*PI); d = real('d', 0.001, 6.28)
    q = coords.rotate_polar(p, d)
    holds(q >= 0, 'rotated polar angle >= 0')
    holds(q <= 2*PI, 'rotated polar angle <= 2 pi')
    for a in (0.0, 0.1, 3.1, 6.2, -3.1, -6.2):
        for d in (0.05, 3.1, 6.2):
            q = coords.rotate_polar(a, d)
            t = a + d
            if t >= 2*PI:
                t = t - 2*PI
            if t < 0:
                t = t + 2*PI
            equal(q, t, 'turned polar angle, brought into the circle')
            equal(coords.rotate_polar(np.array([a, a]), d), [t, t], 'turned polar angles, brought into the circle')


# ------------------------------------------------------------------ P07 arrays are handled element by element
def P07_cart2polar():
    cx = real('cx'); cy = real('cy')
    X = array('X', 3); Y = array('Y', 3)
    R, P = coords.cart2polar(X, Y, center=[cx, cy])
    equal(np.shape(R), (3,), 'shape of r')
    equal(np.shape(P), (3,), 'shape of phi')
    A, B = coords.polar2cart(X, Y, center=[cx, cy])
    for i in range(3):
        r, p = coords.cart2polar(X[i], Y[i], center=[cx, cy])
        equal(R[i], r, 'radius of each point')
        equal(P[i], p, 'azimuth of each point')
        a, b = coords.polar2cart(X[i], Y[i], center=[cx, cy])
        equal(A[i], a, 'x of each point')
        equal(B[i], b, 'y of each point')


def P07_cart2polar_2d():
    X = array('X', (2, 3)); Y = array('Y', (2, 3))
    R, P = coords.cart2polar(X, Y)
    equal(np.shape(R), (2, 3), 'shape of r (2D)')
    equal(np.shape(P), (2, 3), 'shape of phi (2D)')
    A, B = coords.polar2cart(X, Y)
    equal(np.shape(A), (2, 3), 'shape of x (2D)')
    for i in range(2):
        for j in range(3):
            r, p = coords.cart2polar(X[i, j], Y[i, j])
            equal(R[i, j], r, 'radius of each point (2D)')
            equal(P[i, j], p, 'azimuth of each point (2D)')
            a, b = coords.polar2cart(X[i, j], Y[i, j])
            equal(A[i, j], a, 'x of each point (2D)')
            equal(B[i, j], b, 'y of each point (2D)')


def P07_cart2sphere():
    cx = real('cx'); cy = real('cy'); cz = real('cz')
    X = array('X', 3); Y = array('Y', 3); Z = array('Z', 3)
    R, P, T = coords.cart2sphere(X, Y, Z, center=[cx, cy, cz])
    equal(np.shape(P), (3,), 'shape of phi')
    equal(np.shape(T), (3,), 'shape of theta')
    for i in range(3):
        r, p, t = coords.cart2sphere(X[i], Y[i], Z[i], center=[cx, cy, cz])
        equal(R[i], r, 'radius of each point')
        equal(P[i], p, 'azimuth of each point')
        equal(T[i], t, 'colatitude of each point')


def P07_cart2sphere_2d():
    X = array('X', (2, 2)); Y = array('Y', (2, 2)); Z = array('Z', (2, 2))
    R, P, T = coords.cart2sphere(X, Y, Z)
    for i in range(2):
        for j in range(2):
            r, p, t = coords.cart2sphere(X[i, j], Y[i, j], Z[i, j])
            equal(R[i, j], r, 'radius of each point (2D)')
            equal(P[i, j], p, 'azimuth of each point (2D)')
            equal(T[i, j], t, 'colatitude of each point (2D)')


def P07_sphere2cart():
    cx = real('cx'); cy = real('cy'); cz = real('cz')
    R = array('R', 3, 0); P = array('P', 3, 0, 2*PI); T = array('T', 3, 0, PI)
    X, Y, Z = coords.sphere2cart(R, P, T, center=[cx, cy, cz])
    for i in range(3):
        x, y, z = coords.sphere2cart(R[i], P[i], T[i], center=[cx, cy, cz])
        equal(X[i], x, 'x of each point')
        equal(Y[i], y, 'y of each point')
        equal(Z[i], z, 'z of each point')
    R = array('R2', (2, 2), 0); P = array('P2', (2, 2), 0, 2*PI); T = array('T2', (2, 2), 0, PI)
    X, Y, Z = coords.sphere2cart(R, P, T)
    for i in range(2):
        for j in range(2):
            x, y, z = coords.sphere2cart(R[i, j], P[i, j], T[i, j])
            equal(X[i, j], x, 'x of each point (2D)')
            equal(Y[i, j], y, 'y of each point (2D)')
            equal(Z[i, j], z, 'z of each point (2D)')


def P07_phi_shift():
    d = real('d', -6.28, 6.28)
    P = array('P', 3, 0, 2*PI)
    Q = coords.usphere_phi_shift(clone(P), d)
    equal(np.shape(Q), (3,), 'shape')
    for i in range(3):
        equal(Q[i], coords.usphere_phi_shift(P[i], d), 'shift of each azimuth')
    P = array('P2', (2, 2), 0, 2*PI)
    Q = coords.usphere_phi_shift(clone(P), d)
    for i in range(2):
        for j in range(2):
            equal(Q[i, j], coords.usphere_phi_shift(P[i, j], d), 'shift of each azimuth (2D)')


def P07_rotate():
    P = array('P', 2, 0, 2*PI); T = array('T', 2, 0, PI)
    Q, S = coords.usphere_rotate(clone(P), clone(T), 1.0, 0.5, phi_start=1.0, theta_start=1.2)
    for i in range(2):
        q, s = coords.usphere_rotate(P[i], T[i], 1.0, 0.5, phi_start=1.0, theta_start=1.2)
        equal(Q[i], q, 'rotated azimuth of each point')
        equal(S[i], s, 'rotated colatitude of each point')


def P07_shift():
    P = array('P', 2, 0, 2*PI); T = array('T', 2, 0, PI)
    Q, S = coords.usphere_shift(clone(P), clone(T), 0.3, 0.5, 1.0, 0.5)
    for i in range(2):
        q, s = coords.usphere_shift(P[i], T[i], 0.3, 0.5, 1.0, 0.5)
        equal(Q[i], q, 'shifted azimuth of each point')
        equal(S[i], s, 'shifted colatitude of each point')


def P07_rotate_polar():
    d = real('d', 0.001, 6.28)
    P = array('P', 3, 0, 2*PI)
    Q = coords.rotate_polar(clone(P), d)
    equal(np.shape(Q), (3,), 'shape')
    for i in range(3):
        equal(Q[i], coords.rotate_polar(P[i], d), 'rotation of each polar angle')


def P07_healpix_xy():
    X = array('X', 2, 0, 2*PI); Y = array('Y', 2, -PI/2, PI/2)
    P, T = coords.healpix_xy2ang(X, Y)
    for i in range(2):
        p, t = coords.healpix_xy2ang(X[i], Y[i])
        equal(P[i], p, 'azimuth of each plane point')
        equal(T[i], t, 'colatitude of each plane point')


def P07_healpix_ang():
    P = array('P', 2, 0, 2*PI); T = array('T', 2, 0, PI)
    X, Y = coords.healpix_ang2xy(P, T)
    for i in range(2):
        x, y = coords.healpix_ang2xy(P[i], T[i])
        equal(X[i], x, 'plane x of each point')
        equal(Y[i], y, 'plane y of each point')


def P07_special_points():
    # points at the centre, on the axes and in every quadrant in one array
    cx = real('cx'); cy = real('cy'); cz = real('cz'); a = real('a', 0.1); b = real('b', 0.1); c = real('c', 0.1)
    X = np.array([cx, cx + a, cx - a, cx, cx - b, cx])
    Y = np.array([cy, cy - b, cy, cy - a, cy + c, cy])
    Z = np.array([cz, cz + c, cz - b, cz, cz, cz - c])
    R, P, T = coords.cart2sphere(X, Y, Z, center=[cx, cy, cz])
    Q, F = coords.cart2polar(X, Y, center=[cx, cy])
    for i in range(6):
        r, p, t = coords.cart2sphere(X[i], Y[i], Z[i], center=[cx, cy, cz])
        equal(R[i], r, 'radius of each special point')
        equal(P[i], p, 'azimuth of each special point')
        equal(T[i], t, 'colatitude of each special point')
        q, f = coords.cart2polar(X[i], Y[i], center=[cx, cy])
        equal(Q[i], q, 'polar radius of each special point')
        equal(F[i], f, 'polar angle of each special point')


def P07_special_plane():
    # poles, belt and both caps in one array, in several orders
    for o in ((0, 1, 2, 3, 4), (3, 0, 4, 2, 1), (1, 3, 2, 4, 0)):
        x = real('x', 0.1, 1.4); y = real('y', 0.8, 1.5); z = real('z', -0.7, 0.7)
        X = np.array([x, x + PI/2, 1.0, x, 2.5]); Y = np.array([y, -y, PI/2, z, -PI/2])
        X = X[np.array(o)]; Y = Y[np.array(o)]
        P, T = coords.healpix_xy2ang(X, Y)
        for i in range(5):
            p, t = coords.healpix_xy2ang(X[i], Y[i])
            equal(P[i], p, 'azimuth of each plane point, poles included')
            equal(T[i], t, 'colatitude of each plane point, poles included')
        U_, V_ = coords.healpix_ang2xy(P, T)
        for i in range(5):
            u, v = coords.healpix_ang2xy(P[i], T[i])
            equal(U_[i], u, 'plane x of each point, poles included')
            equal(V_[i], v, 'plane y of each point, poles included')


def P07_special_plane_caps():
    # a pole between points of different quarters and caps
    X = np.array([0.3, 1.0, 2.0, 3.6, 5.0, 4.0]); Y = np.array([1.0, PI/2, -1.2, 0.9, -PI/2, 1.4])
    for o in ((0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (2, 0, 1, 3, 5, 4)):
        x = X[np.array(o)]; y = Y[np.array(o)]
        P, T = coords.healpix_xy2ang(x, y)
        for i in range(6):
            p, t = coords.healpix_xy2ang(x[i], y[i])
            equal(P[i], p, 'azimuth of each plane point, poles included')
            equal(T[i], t, 'colatitude of each plane point, poles included')
    P = np.array([0.3, 1.0, 2.0, 3.6, 5.0, 4.0]); T = np.array([0.2, 0., 2.9, 0.5, PI, 2.6])
    A, B = coords.healpix_ang2xy(P, T)
    for i in range(6):
        a, b = coords.healpix_ang2xy(P[i], T[i])
        equal(A[i], a, 'plane x of each point, poles included')
        equal(B[i], b, 'plane y of each point, poles included')


def P07_special_plane_belt():
    # points of the equatorial belt among points of both caps, in several orders
    P0 = np.array([0.1, 0.2, 0.3, 2.0, 3.3, 4.1, 5.7]); T0 = np.array([0.2, 1.3, 1.9, 2.9, 1.0, 0.5, 1.6])
    X0 = np.array([0.3, 1.0, 2.0, 3.6, 5.0, 4.0, 5.9]); Y0 = np.array([1.0, 0.2, -1.2, 0.9, -0.7, 1.4, 0.0])
    for o in ((0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0), (2, 0, 4, 1, 3, 6, 5), (3, 0, 5, 1, 2, 4, 6)):
        P = P0[np.array(o)]; T = T0[np.array(o)]
        A, B = coords.healpix_ang2xy(P, T)
        for i in range(7):
            a, b = coords.healpix_ang2xy(P[i], T[i])
            equal(A[i], a, 'plane x of each point, belt and caps mixed')
            equal(B[i], b, 'plane y of each point, belt and caps mixed')
        x = X0[np.array(o)]; y = Y0[np.array(o)]
        P, T = coords.healpix_xy2ang(x, y)
        for i in range(7):
            p, t = coords.healpix_xy2ang(x[i], y[i])
            equal(P[i], p, 'azimuth of each plane point, belt and caps mixed')
            equal(T[i], t, 'colatitude of each plane point, belt and caps mixed')


def P07_special_ortho():
    r = real('r', 0.5, 3); x = real('x', 0.1, 0.6)
    X = np.array([r*x, 2*r, 0, -r*x, r]); Y = np.array([r*x, 0, 0, r*x/2, r])
    Z = coords.ortho2cart(X, Y, r=r, fill_value=-7.0)
    for i in range(5):
        equal(Z[i], coords.ortho2cart(X[i], Y[i], r=r, fill_value=-7.0), 'height of each point, outside ones included')


def P07_special_shift():
    P = np.array([0, PI/2, 6.2, PI, 2*PI])
    for d in (-3.5, -0.1, 0.0, 1.0, 6.0):
        Q = coords.usphere_phi_shift(clone(P), d)
        for i in range(5):
            equal(Q[i], coords.usphere_phi_shift(P[i], d), 'shift of each azimuth, wrapped or not')
    for d in (0.1, 3.0, 6.2):
        Q = coords.rotate_polar(clone(P), d)
        for i in range(5):
            equal(Q[i], coords.rotate_polar(P[i], d), 'rotation of each angle, wrapped or not')


def P07_special_rotation():
    p = real('p', 0.1, 6.2); t = real('t', 0.1, 3)
    P = np.array([p, 0, 1.0, p, 1.0]); T = np.array([t, 0, 0.6, PI, 1.2])
    Q, S = coords.usphere_shift(clone(P), clone(T), 1.0, 1.2, 1.0, 0.6)
    A, B = coords.usphere_spin(clone(P), clone(T), 1.0, 0.6, PI/3)
    for i in range(5):
        q, s = coords.usphere_shift(P[i], T[i], 1.0, 1.2, 1.0, 0.6)
        equal(Q[i], q, 'shifted azimuth, poles and centres included')
        equal(S[i], s, 'shifted colatitude, poles and centres included')
        a, b = coords.usphere_spin(P[i], T[i], 1.0, 0.6, PI/3)
        equal(A[i], a, 'spun azimuth, poles and centres included')
        equal(B[i], b, 'spun colatitude, poles and centres included')


# ------------------------------------------------------------------ P08 HEALPix plane projection
def P08_xy_equatorial():
    p = real('p', 0, 2*PI); t = real('t', 0, PI)
    z = np.cos(t)
    assume(abs(z) <= 2/3)
    x, y = coords.healpix_ang2xy(p, t)
    equal(x, p, 'equatorial belt: plane x is the azimuth')
    equal(y, 3*PI/8*z, 'equatorial belt: plane y is 3 pi/8 cos(theta)')
    p2, t2 = coords.healpix_xy2ang(x, y)
    equal(p2, p, 'equatorial round trip azimuth')
    equal(np.cos(t2), z, 'equatorial round trip colatitude')


def P08_xy_polar_def():
    p = real('p', 0, 2*PI); t = real('t', 0, PI)
    z = np.cos(t)
    assume(abs(z) > 2/3)
    x, y = coords.healpix_ang2xy(p, t)
    s = 2 - np.sqrt(3*(1 - abs(z)))
    equal(abs(y), PI/4*s, 'polar caps: |plane y|')
    holds(y*z >= 0, 'plane y has the sign of cos(theta)')
    equal(x, p - (s - 1)*(p % (PI/2) - PI/4), 'polar caps: plane x')


def P08_ang_polar_def():
    x = real('x', 0, 6.28); y = real('y', 0.79, 1.56)
    p, t = coords.healpix_xy2ang(x, y)
    s = 4*y/PI
    equal(np.cos(t), 1 - (2 - s)**2/3, 'north cap: cos(theta)')
    k = np.floor(2*x/PI)
    equal(p, (x - PI/4*(s - 1)*(2*k + 1))/(2 - s), 'north cap: azimuth')
    p2, t2 = coords.healpix_xy2ang(x, -y)
    equal(p2, p, 'south cap has the azimuth of the north cap')
    equal(t2, PI - t, 'south cap mirrors the north cap')


def P08_round_trip_caps():
    f = real('f', 0.01, 0.99)
    t = real('t', 0.02, 0.8)
    for k in range(4):
        p = (k + f)*PI/2
        for th in (t, PI - t):
            x, y = coords.healpix_ang2xy(p, th)
            p2, t2 = coords.healpix_xy2ang(x, y)
            equal(p2, p, 'cap round trip azimuth')
            equal(np.cos(t2), np.cos(th), 'cap round trip colatitude')


def P08_xy_poles():
    x = real('x', 0, 2*PI)
    p, t = coords.healpix_xy2ang(x, PI/2)
    equal(t, 0, 'top of the plane is the north pole')
    equal(p, 0, 'azimuth of the pole is 0')
    p, t = coords.healpix_xy2ang(x, -PI/2)
    equal(t, PI, 'bottom of the plane is the south pole')
