"""Views of space and of the sphere: perspective (point of view) and orthographic projection of points."""
import numpy as np
from magpie import densegrid, coords

PI = np.pi


def unit(f, t):
    return [np.cos(f)*np.sin(t), np.sin(f)*np.sin(t), np.cos(t)]


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


# ------------------------------------------------------------------ P30 perspective
def frame(f, t, spin):
    """forward, sideways (increasing azimuth) and up seen after turning by spin"""
    u = unit(f, t)
    a = [-np.sin(f), np.cos(f), 0]
    b = [-np.cos(t)*np.cos(f), -np.cos(t)*np.sin(f), np.sin(t)]
    c = np.cos(spin); s = np.sin(spin)
    return u, [c*a[k] - s*b[k] for k in range(3)], [s*a[k] + c*b[k] for k in range(3)]


def view(f, t, spin=0, back=True, D=None):
    """camera anywhere; points given by their coordinates along the frame"""
    cx = real('cx', -1, 1); cy = real('cy', -1, 1); cz = real('cz', -1, 1); L = real('L', 0.5, 2)
    if D is None:
        D = real('D', 0.5, 2)
    u = unit(f, t)
    v = densegrid.PointOfView()
    if spin == 0:
        v.setup([cx, cy, cz], [cx + L*u[0], cy + L*u[1], cz + L*u[2]], D)
    else:
        v.setup([cx, cy, cz], [cx + L*u[0], cy + L*u[1], cz + L*u[2]], D, spin=spin)
    a = array('a', 2, 1, 2); b = array('b', 2, 0.2, 0.4); c = array('c', 2, 0.5, 0.7)
    u, s, w = frame(f, t, spin)
    x = [cx + a[i]*u[0] + b[i]*s[0] + c[i]*w[0] for i in range(2)]
    y = [cy + a[i]*u[1] + b[i]*s[1] + c[i]*w[1] for i in range(2)]
    z = [cz + a[i]*u[2] + b[i]*s[2] + c[i]*w[2] for i in range(2)]
    bx, by, r = v.transform(np.array(x), np.array(y), np.array(z))
    for i in range(2):
        equal(bx[i], D*b[i]/a[i], 'sideways position on the display')
        equal(by[i], D*c[i]/a[i], 'upward position on the display')
        equal(r[i], np.sqrt(a[i]**2 + b[i]**2 + c[i]**2), 'distance from the camera')
    p = array('p', 2, 0.1, 0.4); q = array('q', 2, 0.1, 0.3); d = array('d', 2, 1, 3)
    x, y, z = v.reverse(p, q, d)
    for i in range(2):
        n = d[i]/np.sqrt(D**2 + p[i]**2 + q[i]**2)
        equal(x[i], cx + n*(D*u[0] + p[i]*s[0] + q[i]*w[0]), 'position in space of a point of the display')
        equal(y[i], cy + n*(D*u[1] + p[i]*s[1] + q[i]*w[1]), 'position in space of a point of the display')
        equal(z[i], cz + n*(D*u[2] + p[i]*s[2] + q[i]*w[2]), 'position in space of a point of the display')


def P30_level():
    view(0, PI/2)
    view(PI/2, PI/2)


def P30_level_turned():
    view(PI/4, PI/2)
    view(7*PI/6, PI/2)


def P30_up():
    view(0, PI/4)
    view(PI/2, PI/3)


def P30_down():
    view(3*PI/2, 2*PI/3)
    view(2*PI/3, 3*PI/4)


def P30_spin():
    view(0, PI/2, spin=PI/2)
    view(PI/2, PI/2, spin=PI/6)


def P30_spin_tilted():
    view(PI/3, PI/4, spin=3*PI/2)


def P30_spin_small():
    view(0, PI/3, spin=PI/4)


def near(a, b, lab):
    holds(abs(a - b) < 1e-9, lab)


def P30_small_tilt():
    # a camera that looks only slightly up or down, or is turned or spun only slightly
    for f, t, sp in ((1., PI/2 - 0.06, 0), (2., PI/2 + 1e-3, 0), (1e-3, PI/2 - 1e-3, 0), (1., PI/2, 0.04), (1., PI/2, 1e-3), (0., 1., 1e-3)):
        v = densegrid.PointOfView()
        u, s, w = frame(f, t, sp)
        v.setup([0, 0, 0], [u[0], u[1], u[2]], 2., sp)
        q = [3*u[k] + 0.5*s[k] + 0.25*w[k] for k in range(3)]
        bx, by, r = v.transform(np.array([q[0]]), np.array([q[1]]), np.array([q[2]]))
        near(bx[0], 1/3, 'sideways position on the display'); near(by[0], 1/6, 'upward position on the display')
        x, y, z = v.reverse(bx, by, r)
        near(x[0], q[0], 'the view is undone by its reverse'); near(y[0], q[1], 'the view is undone by its reverse'); near(z[0], q[2], 'the view is undone by its reverse')


def P30_rim():
    # directions just before and just behind the rim
    for c, d in (((0, 0), 0), ((1., PI/2), 1), ((1., PI/2), 2)):
        h = densegrid.Heal2Ortho()
        h.setup_map(1); h.setup_box(2., 2, center=[c[0], c[1]])
        for e in (0.008, 1e-4, 1e-7):
            for s in (-1, 1):
                f, t = ((2., PI/2 + s*e) if d == 0 else (1. + PI/2 + s*e, PI/2) if d == 1 else (1., s*e) if s > 0 else (1. + PI, e))
                hid = (s > 0 if d < 2 else s < 0)
                x, y = h.transform(f, t)
                X, Y = h.transform(np.array([f, 2.5]), np.array([t, 1.]))
                if hid:
                    holds(np.isnan(x) & np.isnan(y), 'just behind the rim is not seen'); holds(np.isnan(X[0]) & np.isnan(Y[0]), 'just behind the rim is not seen (array)')
                else:
                    holds(x**2 + y**2 > 0.9999, 'just before the rim is seen'); holds(X[0]**2 + Y[0]**2 > 0.9999, 'just before the rim is seen (array)')


def P30_round_trip():
    cx = real('cx', -1, 1); cy = real('cy', -1, 1); cz = real('cz', -1, 1); D = real('D', 0.5, 2)
    for px, py, pz, sp in ((1, 1, 0, 0), (0, 2, 0, PI/2), (1, 0, 1, PI/6)):
        v = densegrid.PointOfView()
        v.setup([cx, cy, cz], [cx + px, cy + py, cz + pz], D, sp)
        n = np.sqrt(px**2 + py**2 + pz**2)
        a = real('a', 1, 2)
        x = cx + a*px + 0.1*a; y = cy + a*py + 0.2*a; z = cz + a*pz - 0.1*a
        bx, by, r = v.transform(np.array([x]), np.array([y]), np.array([z]))
        X, Y, Z = v.reverse(bx, by, r)
        equal(X[0], x, 'the view is undone by its reverse')
        equal(Y[0], y, 'the view is undone by its reverse')
        equal(Z[0], z, 'the view is undone by its reverse')


def P30_unchanged():
    v = densegrid.PointOfView()
    v.setup([0, 1, 2], [1, 1, 3], 2., PI/4)
    s = snap(v)
    x = array('x', 2, 2, 3); y = array('y', 2, 1.5, 2); z = array('z', 2, 3, 4)
    frozen(v.transform, x, y, z); frozen(v.reverse, x, y, z)
    same_as(s, 'looking does not change the view')


# ------------------------------------------------------------------ P30 orthographic positions of points
def ortho_points(c, sa, sb, lab='seen from the centre of the view: east to the right, north up'):
    """points given by how far east, north and out of the display they are"""
    h = densegrid.Heal2Ortho()
    h.setup_map(1); h.setup_box(2., 2, center=[c[0], c[1]])
    u = unit(c[0], c[1])
    e = [-np.sin(c[0]), np.cos(c[0]), 0]
    n = [-np.cos(c[1])*np.cos(c[0]), -np.cos(c[1])*np.sin(c[0]), np.sin(c[1])]
    a = [sa*real('a', 0.3, 0.4), sa*real('A', 0.45, 0.5)]; b = [sb*real('b', 0.2, 0.3), sb*real('B', 0.1, 0.15)]
    w = [real('w', 0.6, 0.8), -real('W', 0.6, 0.8)]
    f = []; t = []
    for i in range(2):
        q = [a[i]*e[k] + b[i]*n[k] + w[i]*u[k] for k in range(3)]
        g = np.arctan2(q[1], q[0])
        f.append(g if q[1] >= 0 else g + 2*PI)
        t.append(np.arctan2(np.sqrt(q[0]**2 + q[1]**2), q[2]))
    R = [np.sqrt(a[i]**2 + b[i]**2 + w[i]**2) for i in range(2)]
    x, y = h.transform(np.array(f), np.array(t))
    equal(x[0], a[0]/R[0], lab)
    equal(y[0], b[0]/R[0], lab)
    holds(np.isnan(x[1]), 'the far side is not seen'); holds(np.isnan(y[1]), 'the far side is not seen')
    x, y = h.transform(f[0], t[0])
    equal(x, a[0]/R[0], lab + ' (one point)')
    equal(y, b[0]/R[0], lab + ' (one point)')
    x, y = h.transform(f[1], t[1])
    holds(np.isnan(x), 'the far side is not seen'); holds(np.isnan(y), 'the far side is not seen')


def P30_ortho_pole():
    ortho_points((0, 0), 1, 1)
    ortho_points((PI/2, 0), 1, -1)


def P30_ortho_equator():
    ortho_points((0, PI/2), 1, 1)
    ortho_points((2*PI/3, PI/2), 1, -1)


def P30_ortho_tilted():
    ortho_points((PI/6, PI/3), 1, 1)
    ortho_points((PI/4, 2*PI/3), -1, 1)


def P30_ortho_south():
    ortho_points((PI/3, 5*PI/6), 1, 1)
