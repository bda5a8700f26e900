"""The dense and the Monte Carlo version of one remap object."""
import numpy as np
import healpy as hp
from magpie import coords, grids, polar, densegrid, montecarlo

PI = np.pi
POINTS = (0.1, 0.62, 0.35, 0.87, 0.21, 0.95, 0.5)
SAME = 'both versions have the same grids'


def same_grids(a, b, names):
    for k in names:
        if hasattr(a, k) and hasattr(b, k):
            equal(getattr(a, k), getattr(b, k), SAME)


BOX = ('nside', 'xedges', 'yedges', 'xmid', 'ymid', 'dx', 'dy', 'x2d', 'y2d', 'center')
RING = ('xedges', 'yedges', 'xmid', 'ymid', 'dx', 'dy', 'x2d', 'y2d', 'redges', 'pedges', 'rmid', 'pmid', 'dr', 'dp', 'r2d', 'p2d', 'center')
CAP = ('nside', 'alpha_edges', 'beta_edges', 'alpha_mid', 'beta_mid', 'dalpha', 'dbeta', 'alpha2d', 'beta2d', 'center')
CUBE = ('xedges', 'yedges', 'zedges', 'xmid', 'ymid', 'zmid', 'dx', 'dy', 'dz', 'x3d', 'y3d', 'z3d', 'redges', 'rmid', 'dr', 'nside', 'center')


def rings(box, ring, kw):
    d = densegrid.Box2Ring(); m = montecarlo.Box2Ring()
    d.setup_box(*box); m.setup_box(*box)
    d.setup_polar(*ring, **kw); m.setup_polar_lin(*ring, **kw)
    return d, m


def P28_ring_grids():
    x = real('x'); y = real('y'); a = real('a', 0.5, 2); b = real('b', 0.5, 2)
    r = real('r', 0.1, 0.4); t = real('t', 0.5, 1.5); p = real('p', 0, 1); q = real('q', 1.5, 6)
    d, m = rings((x, x + 3*a, 3, y, y + 2*b, 2), (r, r + t, 2, 3), {})
    same_grids(d, m, RING)
    d, m = rings((x, x + 3*a, 3, y, y + 2*b, 2), (r, r + t, 2, 3), {'pmin': p, 'pmax': q, 'center': [x + a, y + b], 'phi_shift': 0.3})
    same_grids(d, m, RING)
    equal(d.redges, m.redges, SAME); equal(d.pedges, m.pedges, SAME)


def P28_ring_turn():
    s = real('s', 0.5, 2)
    d, m = rings((0, 3*s, 3, 0, 4*s, 4), (0.2*s, 1.2*s, 2, 4), {'center': [1.4*s, 2*s]})
    p = array('p', (4, 2))
    for t in (0.3, PI/2, real('t', 0.1, 1.5), real('u', 1.6, 3.1), 5.):
        equal(m.rotate_polar(p, t), d.rotate_polar(p, t), 'both versions turn a polar map alike')
        equal(d.rotate_polar(p, t), coords.rotate_polar_grid(d.pedges, p, t), 'a polar map is turned on its own grid')
    d, m = rings((0, 3*s, 3, 0, 4*s, 4), (0.2*s, 1.2*s, 2, 4), {'center': [1.4*s, 2*s], 'pmin': 0.2, 'pmax': 2.})
    t = real('v', 0.05, 0.4)
    equal(m.rotate_polar(p, t), d.rotate_polar(p, t), 'both versions turn a polar map alike')


def P28_ring_profile():
    # the whole ring lies inside the box
    s = real('s', 0.5, 2)
    d, m = rings((0, 2*s, 1, 0, 2*s, 1), (0.1*s, 0.7*s, 2, 4), {'center': [s, s]})
    m.get_weights(2, False)
    f = array('f', (4, 2)); g = array('g', (4, 2), 0.1, 2); w = array('w', (4, 2), 0.1, 2)
    A = polar.get_polar_area2d(d.redges, d.pedges)
    P = polar.get_pixarea(d.xedges, d.yedges)
    for o in (d, m):
        equal(o.polar2radial(f), polar.polar2radial(f, A, P), 'both versions give the same profile')
        equal(o.polar2radial(f, g), polar.polar2radial(f, A, P, g), 'both versions give the same profile')
        equal(o.polar2radial(f, g, w), polar.polar2radial(f, A, P, g, w), 'both versions give the same profile')
        equal(o.polar2radial(f, w=w), polar.polar2radial(f, A, P, w=w), 'both versions give the same profile')


def P28_ring_profile_outside():
    # the outer ring lies outside the box: its cells carry no weight, in either version
    s = real('s', 0.5, 2)
    d, m = rings((0, 2*s, 2, 0, 2*s, 2), (0., 4*s, 2, 4), {'center': [-1.5*s, -1.5*s], 'pmin': PI/2, 'pmax': 2*PI})
    m.get_weights(2, False)
    f = array('f', (4, 2)); g = array('g', (4, 2), 0.1, 2); w = array('w', (4, 2), 0.1, 2)
    for o in (d, m):
        o.get_mask_in_bound(False)
        for i in range(4):
            for j in range(2):
                holds(o.mask_in_bound[i, j] >= 0, 'cells outside the box are masked alike')
        equal(o.mask_in_bound[3, 1], 0., 'cells outside the box are masked alike')


def P28_ring_map():
    # each target cell lies in one source cell
    s = real('s', 0.5, 2)
    f = array('f', (2, 2)); w = array('w', (2, 2), 0.1, 2)
    for k in range(4):
        d, m = rings((0, 2*s, 2, 0, 2*s, 2), (0.1*s, 0.7*s, 1, 1), {'center': [s, s], 'pmin': k*PI/2 + 0.2, 'pmax': k*PI/2 + 1.3})
        m.get_weights(2, False)
        equal(m.remap(f, None, False), d.remap(f, None, False), 'both versions agree where a target cell lies in one source cell')
        equal(m.remap(f, w, False), d.remap(f, w, False), 'both versions agree where a target cell lies in one source cell')
        m.get_mask_in_bound(False); d.get_mask_in_bound(False)
        equal(m.mask_in_bound, d.mask_in_bound, 'both versions agree where a target cell lies in one source cell')


def P28_ring_map_turned():
    # the ring begins a quarter turn, or less, further round
    s = real('s', 0.5, 2)
    f = array('f', (2, 2))
    for k in range(4):
        for t in (0.3, PI/2, PI):
            d, m = rings((0, 2*s, 2, 0, 2*s, 2), (0.1*s, 0.7*s, 1, 1), {'center': [s, s], 'pmin': k*PI/2 + 0.2, 'pmax': k*PI/2 + 1.1, 'phi_shift': t})
            m.get_weights(2, False)
            equal(m.remap(f, None, False), d.remap(f, None, False), 'both versions agree where a target cell lies in one source cell')


def P28_ring_profile_half():
    stream(POINTS)
    # the second sector lies beside the box: it has no weight, in either version
    s = real('s', 0.5, 2)
    d, m = rings((0, 4*s, 1, 0, 4*s, 1), (0.1*s, 0.7*s, 1, 2), {'pmin': 0.1, 'pmax': PI - 0.1, 'center': [0, 0.1*s]})
    m.get_weights(4, False)
    f = array('f', (2, 1)); g = array('g', (2, 1), 0.1, 2); w = array('w', (2, 1), 0.1, 2)
    equal(m.polar2radial(f), d.polar2radial(f), 'cells beside the box have no part in the profile of either version')
    equal(m.polar2radial(f, g), d.polar2radial(f, g), 'cells beside the box have no part in the profile of either version')
    equal(m.polar2radial(f, g, w), d.polar2radial(f, g, w), 'cells beside the box have no part in the profile of either version')
    equal(m.polar2radial(f, w=w), d.polar2radial(f, w=w), 'cells beside the box have no part in the profile of either version')
    equal(m.polar2radial(f)[0], f[0, 0], 'cells beside the box have no part in the profile of either version')


def agree(steps, *a, **kw):
    """both refuse or both accept"""
    r = [raises(f, *a, **kw) for f in steps]
    holds(r[0] == r[1], 'both versions accept and refuse the same')


def P28_ring_refused():
    o = (densegrid.Box2Ring(), montecarlo.Box2Ring())
    f = [x.setup_box for x in o]
    for bad in ((1, 1, 2, 0, 1, 2), (2, 1, 2, 0, 1, 2), (0, 1, 0, 0, 1, 2), (0, 1, 2, 1, 1, 2), (0, 1, 2, 2, 1, 2), (0, 1, 2, 0, 1, 0), (0, 1, 1, 0, 1, 1)):
        agree(f, *bad)
    x = real('x'); y = real('y')
    agree(f, x, y, 2, 0, 1, 2); agree(f, 0, 1, 2, x, y, 2)
    for q in f:
        q(0, 3, 3, 0, 4, 4)
    f = [o[0].setup_polar, o[1].setup_polar_lin]
    for bad in ((-0.1, 1., 2, 2), (1., 1., 2, 2), (2., 1., 2, 2), (0., 1., 0, 2), (0., 1., 2, 0), (0., 1., 2, 2, -0.1, 1.), (0., 1., 2, 2, 0., 7.), (0., 1., 2, 2, 2., 1.),
                (0., 1., 1, 1), (x, y, 2, 2), (0., 1., 2, 2, x, y)):
        agree(f, *bad)
    agree(f, 0., 1., 2, 2, center=[1.])
    for q in f:
        q(0., 1., 2, 2)
    agree([q.rotate_polar for q in o], array('p', (3, 2)), 0.3)
    agree([q.rotate_polar for q in o], array('p', (2, 2)), real('z', -9, 0))
    agree([q.rotate_polar for q in o], array('p', (2, 2)), real('v', 6.3, 9))


def caps(args, kw, nside=1):
    d = densegrid.Heal2Ring(); m = montecarlo.Heal2Ring()
    d.setup_map(nside); m.setup_map(nside)
    d.setup_polar_cap(*args, **kw); m.setup_polar_cap(*args, **kw)
    return d, m


def P28_cap_grids():
    a = real('a', 0.1, 0.4); b = real('b', 0.5, 1.5); p = real('p', 0, 1); q = real('q', 1.5, 6)
    d, m = caps((a, b, 2, 3), {})
    same_grids(d, m, CAP)
    d, m = caps((a, b, 2, 3), {'beta_min': p, 'beta_max': q, 'center': [1.1, 0.7], 'beta_shift': 0.3})
    same_grids(d, m, CAP)


def P28_cap_turn():
    d, m = caps((0.2, 0.9, 2, 4), {'center': [1.1, 0.7]})
    p = array('p', (4, 2))
    for t in (0.3, PI/2, real('t', 0.1, 1.5), real('u', 1.6, 3.1), 5.):
        equal(m.rotate_polar(p, t), d.rotate_polar(p, t), 'both versions turn a polar map alike')
        equal(d.rotate_polar(p, t), coords.rotate_polar_grid(grids.get_xedges(2*PI, 4, 0.), p, t), 'a polar map is turned on its own grid')


def P28_cap_profile():
    a = real('a', 0.1, 0.4); b = real('b', 0.5, 0.8)
    d, m = caps((a, b, 2, 4), {'center': [1.1, 0.7]})
    f = array('f', (4, 2)); g = array('g', (4, 2), 0.1, 2); w = array('w', (4, 2), 0.1, 2)
    equal(m.polar2radial(f), d.polar2radial(f), 'both versions give the same profile')
    equal(m.polar2radial(f, g), d.polar2radial(f, g), 'both versions give the same profile')
    equal(m.polar2radial(f, g, w), d.polar2radial(f, g, w), 'both versions give the same profile')
    equal(m.polar2radial(f, w=w), d.polar2radial(f, w=w), 'both versions give the same profile')


def P28_cap_map():
    stream(POINTS)
    # each target cell lies in one pixel
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    for k in range(4):
        for kw in ({}, {'beta_shift': 0.1}, {'beta_shift': PI/2}):
            c = dict(kw); c['beta_min'] = k*PI/2 + 0.2; c['beta_max'] = k*PI/2 + 1.3
            d, m = caps((0.1, 0.6, 1, 1), c)
            m.get_weights(4, False)
            equal(m.remap(f, None, False), d.remap(f, None, False), 'both versions agree where a target cell lies in one pixel')
            equal(m.remap(f, w, False), d.remap(f, w, False), 'both versions agree where a target cell lies in one pixel')
    for c in ([PI/2, PI/2], [PI, PI/2], [PI/4, 2.6], [2.4, 0.6]):
        d, m = caps((0.01, 0.2, 1, 2), {'center': c})
        m.get_weights(4, False)
        equal(m.remap(f, None, False), d.remap(f, None, False), 'both versions agree where a target cell lies in one pixel')


def P28_cap_refused():
    o = (densegrid.Heal2Ring(), montecarlo.Heal2Ring())
    f = [x.setup_map for x in o]
    for n in (0, 3, -1, 1, 4):
        agree(f, n)
    for q in f:
        q(1)
    x = real('x'); y = real('y')
    f = [q.setup_polar_cap for q in o]
    for bad in ((-0.1, 1., 2, 2), (1., 1., 2, 2), (2., 1., 2, 2), (0., 1., 0, 2), (0., 1., 2, 0), (0., 1., 2, 2, -0.1, 1.), (0., 1., 2, 2, 0., 7.), (0., 1., 2, 2, 2., 1.), (0., 4., 1, 1),
                (x, y, 2, 2), (0., 1., 2, 2, x, y)):
        agree(f, *bad)
    agree(f, 0., 1., 2, 2, center=[1.])
    for q in f:
        q(0., 1., 2, 2)
    agree([q.rotate_polar for q in o], array('p', (3, 2)), 0.3)
    agree([q.polar2radial for q in o], array('p', (3, 2)))


def boxes(args, kw):
    d = densegrid.Heal2Polar(); m = montecarlo.Heal2Polar()
    d.setup_map(1); m.setup_map(1)
    d.setup_box(*args, **kw); m.setup_box(*args, **kw)
    return d, m


def P28_box_grids():
    L = real('L', 0.1, 1); M = real('M', 0.1, 1)
    d, m = boxes((L, 2), {})
    same_grids(d, m, BOX)
    d, m = boxes((L, 2), {'y_length': M, 'y_grid': 3, 'center': [1.1, 0.7], 'alpha': 0.3})
    same_grids(d, m, BOX)
    d, m = boxes((L, 2), {'y_grid': 3})
    same_grids(d, m, BOX)
    d, m = boxes((L, 2), {'y_length': M})
    same_grids(d, m, BOX)


def P28_box_long():
    # the default height of a long box
    for L in (3., PI, real('L', 3.2, 6.2), 2*PI):
        d, m = boxes((L, 2), {})
        same_grids(d, m, BOX)


def P28_box_map():
    stream(POINTS)
    # each target cell lies in one pixel
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    for c in ([PI/2, PI/2], [PI, PI/2], [PI/4, 2.6], [2.4, 0.6]):
        for kw in ({}, {'alpha': 0.7, 'y_length': 0.1, 'y_grid': 1}):
            d, m = boxes((0.2, 2), dict(kw, center=c))
            m.get_weights(4, False)
            equal(m.remap(f, None, False), d.remap(f, None, False), 'both versions agree where a target cell lies in one pixel')
    equal(m.remap(f, w, False), d.remap(f, w, False), 'both versions agree where a target cell lies in one pixel')


def P28_box_map_rows():
    stream(POINTS)
    # the top and bottom rows, and the first and last columns, of a box lie in pixels of their own
    f = array('f', 12)
    d, m = boxes((0.1, 1), {'y_length': 1.2, 'y_grid': 3, 'center': [PI/4, PI/2]})
    m.get_weights(4, False)
    a = m.remap(f, None, False); b = d.remap(f, None, False)
    equal(a[0, 0], b[0, 0], 'both versions agree where a target cell lies in one pixel')
    equal(a[2, 0], b[2, 0], 'both versions agree where a target cell lies in one pixel')
    d, m = boxes((1.2, 3), {'y_length': 0.1, 'y_grid': 1, 'center': [PI/4, PI/2]})
    m.get_weights(4, False)
    a = m.remap(f, None, False); b = d.remap(f, None, False)
    equal(a[0, 0], b[0, 0], 'both versions agree where a target cell lies in one pixel')
    equal(a[0, 2], b[0, 2], 'both versions agree where a target cell lies in one pixel')


def P28_box_refused():
    o = (densegrid.Heal2Polar(), montecarlo.Heal2Polar())
    f = [x.setup_map for x in o]
    for n in (0, 3, -1, 1, 4):
        agree(f, n)
    for q in f:
        q(1)
    f = [q.setup_box for q in o]
    for bad in ((0., 2), (-1., 2), (1., 0), (1., -1), (1., 2)):
        agree(f, *bad)
    x = real('x')
    for L in (3.2, 4., 6.2, 2*PI, 6.3, 7., 13.):
        agree(f, L, 2); agree(f, L, 2, y_length=1.)
    for L in (-0.1, 1.6, 3.1, PI, 3.2, 4., 6.3):
        agree(f, 1., 2, y_length=L)
    agree(f, 1., 2, y_length=0.); agree(f, 1., 2, y_grid=0); agree(f, 1., 2, center=[1.])


def cubes(cube, shell, c):
    d = densegrid.Cube2Shell(); m = montecarlo.Cube2Shell()
    d.setup_cube(*cube); m.setup_cube(*cube)
    d.setup_polar(*shell, center=c); m.setup_polar_lin(*shell, center=c)
    return d, m


def P28_shell_grids():
    x = real('x'); y = real('y'); z = real('z'); a = real('a', 0.5, 2); b = real('b', 0.5, 2); c = real('c', 0.5, 2)
    r = real('r', 0.1, 0.4); t = real('t', 0.5, 1.5)
    d, m = cubes((x, x + 3*a, 3, y, y + 2*b, 2, z, z + c, 1), (r, r + t, 2, 1), [x + a, y + b, z])
    same_grids(d, m, CUBE)
    equal(d.redges, m.redges, SAME)


def P28_shell_default():
    x = real('x', -3, -1); a = real('a', 1, 2)
    d = densegrid.Cube2Shell(); m = montecarlo.Cube2Shell(); l = montecarlo.Cube2Shell()
    for q in (d, m, l):
        q.setup_cube(x, a, 2, x, a, 2, x, a, 2)
    d.setup_polar(0.2, 0.9, 2, 1); m.setup_polar_lin(0.2, 0.9, 2, 1); l.setup_polar_log(0.2, 0.9, 2, 1)
    same_grids(d, m, CUBE)
    equal(d.center, l.center, SAME); equal(d.nside, l.nside, SAME)
    equal(d.xmid, l.xmid, SAME); equal(d.ymid, l.ymid, SAME); equal(d.zmid, l.zmid, SAME)


def P28_shell_map():
    # the pixels around a pole lie each in one octant
    f = array('f', (3, 2, 2))
    stream(POINTS)
    for c in ([1., 1., 1.], [1., 2., 1.]):
        d, m = cubes((0., 2., 2, 0., 3., 3, 0., 2., 2), (0.1, 0.4, 2, 1), c)
        m.get_weights(4, False)
        a = m.remap(f, verbose=False); b = d.remap(f, verbose=False)
        for r in range(2):
            for k in (0, 1, 2, 3, 8, 9, 10, 11):
                equal(a[r, k], b[r, k], 'both versions agree where a target cell lies in one source cell')


def P28_shell_map_inside():
    # the whole shell lies in one cell of the cube
    f = array('f', (3, 2, 2))
    stream(POINTS)
    for c in ([0.5, 1.6, 1.4], [1.5, 0.5, 0.6], [1.5, 2.4, 1.5]):
        d, m = cubes((0., 2., 2, 0., 3., 3, 0., 2., 2), (0.1, 0.3, 1, 1), c)
        m.get_weights(4, False)
        equal(m.remap(f, verbose=False), d.remap(f, verbose=False), 'both versions agree where a target cell lies in one source cell')


def P28_shell_refused():
    o = (densegrid.Cube2Shell(), montecarlo.Cube2Shell())
    f = [x.setup_cube for x in o]
    ok = [0, 1, 2, 0, 1, 2, 0, 1, 2]
    x = real('x'); y = real('y')
    for k in (0, 3, 6):
        for j, v in ((k, 1), (k, 2), (k + 2, 0), (k + 2, 1), (k, x), (k + 1, y)):
            bad = list(ok); bad[j] = v
            agree(f, *bad)
    for q in f:
        q(*ok)
    f = [o[0].setup_polar, o[1].setup_polar_lin]
    for bad in ((-0.1, 1., 2, 1), (1., 1., 2, 1), (2., 1., 2, 1), (0., 1., 0, 1), (0., 1., 1, 1), (x, y, 2, 1)):
        agree(f, *bad)
    agree(f, 0., 1., 2, 1, center=[1., 1.])
