"""Remaps are weighted means: constants stay constant, remaps are linear, common factors of the weights drop out."""
import numpy as np
from magpie import coords, grids, polar, one_d, remap, densegrid, montecarlo

PI = np.pi


def constant(go, shape, lab='a constant map stays constant'):
    c = real('c', -3, 3)
    g = go(c*np.ones(shape))
    equal(g, c*np.ones(np.shape(g)), lab)
    for big in (4e7, -3e-7):
        equal(go(big*np.ones(shape)), big*np.ones(np.shape(g)), lab)


def linear(go, shape):
    f = array('f', shape); g = array('g', shape); a = real('a', -3, 3); b = real('b', -3, 3)
    e = go(f)
    equal(go(a*f + b*g), a*e + b*go(g), 'the remap of a sum is the sum of the remaps')
    for big in (4e7, 3e-7):
        equal(go(big*f), big*e, 'the remap of a multiple is the multiple of the remap')


def ordered(go, shape):
    g = go(array('p', shape, 0, 5))
    holds(g >= 0, 'a map without negative values stays so')


def weighted(go, shape):
    """go(f, w)"""
    f = array('f', shape); w = array('w', shape, 0.1, 2); k = real('k', 0.2, 3); c = real('c', -3, 3)
    e = go(f, w)
    equal(go(f, k*w), e, 'a common factor of the weights drops out')
    for big in (4e7, 3e-7):
        equal(go(f, big*w), e, 'a common factor of the weights drops out')
        equal(go(big*f, w), big*e, 'the remap of a multiple is the multiple of the remap')
    equal(go(f, k*np.ones(shape)), go(f, np.ones(shape)), 'equal weights of any size give the same')
    g = go(c*np.ones(shape), w)
    equal(g, c*np.ones(np.shape(g)), 'a constant map stays constant with any weights')
    h = array('h', shape); a = real('a', -3, 3); b = real('b', -3, 3)
    equal(go(a*f + b*h, w), a*e + b*go(h, w), 'the weighted remap of a sum is the sum of the remaps')


def equal_weights(go, shape):
    f = array('f', shape)
    equal(go(f, np.ones(shape)), go(f, None), 'equal weights are no weights')


def lists(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i in range(len(rows)):
        for j in range(len(rows[0])):
            a[i, j] = np.array(rows[i][j])
    return a


# ------------------------------------------------------------------ P18 grids
def P18_grid_1():
    d = real('d', 0.1, 2); t = real('t', 0.05, 0.3)
    def inside(f):
        return remap.grid2grid1D(f, 4*d, 3, originout=t*d, boxsizeout=3*d)
    def whole(f):
        return remap.grid2grid1D(f, 4*d, 3)
    def over(f):
        return remap.grid2grid1D(f, 4*d, 2, originout=3*d + t*d, boxsizeout=2*d)
    for g in (inside, whole):
        constant(g, 4); linear(g, 4); ordered(g, 4)
    linear(over, 4); ordered(over, 4)


def P18_grid_2():
    d = real('d', 0.1, 2); t = real('t', 0.05, 0.3)
    def inside(f):
        return remap.grid2grid2D(f, [3*d, 2*d], [2, 1], originout=[t*d, t*d], boxsizeout=[2*d, d])
    def whole(f):
        return remap.grid2grid2D(f, 2*d, 3)
    constant(inside, (3, 2)); linear(inside, (3, 2)); ordered(inside, (3, 2))
    constant(whole, (2, 2)); linear(whole, (2, 2))


def P18_grid_3():
    d = real('d', 0.1, 2); t = real('t', 0.05, 0.3)
    def inside(f):
        return remap.grid2grid3D(f, [2*d, 2*d, 3*d], [1, 1, 2], originout=[t*d, t*d, t*d], boxsizeout=[d, d, 2*d])
    def whole(f):
        return remap.grid2grid3D(f, 2*d, 1)
    constant(inside, (2, 2, 3)); linear(inside, (2, 2, 3)); ordered(inside, (2, 2, 3))
    constant(whole, (2, 2, 2)); linear(whole, (2, 2, 2))


def P18_bins():
    e = increasing('e', 5)
    t = real('t', 0.1, 0.4); u = real('u', 0.6, 0.9)
    def at(k, x):
        return e[k] + x*(e[k + 1] - e[k])
    b = np.array([at(0, t), at(0, u), at(1, t), at(3, u)])
    def plain(f, w=None):
        return one_d.rebin_1d(e, f, b, w=w)
    constant(plain, 4); linear(plain, 4); ordered(plain, 4)
    weighted(plain, 4); equal_weights(plain, 4)


# ------------------------------------------------------------------ P18 dense remaps
def P18_ring():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring()
    b.setup_box(0, 4*s, 4, 0, 3*s, 3)
    b.setup_polar(0.2*s, 1.1*s, 2, 3, center=[1.9*s, 1.6*s], rebin_r=2, rebin_p=1)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, (3, 4)); linear(go, (3, 4)); ordered(go, (3, 4)); weighted(go, (3, 4)); equal_weights(go, (3, 4))


def P18_ring_partly_outside():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring()
    b.setup_box(0, 2*s, 2, 0, 2*s, 2)
    b.setup_polar(0.2*s, 1.7*s, 1, 4, center=[0.9*s, 0.8*s])
    def go(f, w=None):
        return b.remap(f, w, False)
    linear(go, (2, 2)); ordered(go, (2, 2)); weighted(go, (2, 2))


def P18_shell():
    s = real('s', 0.5, 2)
    b = densegrid.Cube2Shell()
    b.setup_cube(0, 3*s, 3, 0, 2*s, 2, 0, 2*s, 2)
    b.setup_polar(0.2*s, 0.7*s, 1, 1, center=[1.4*s, 0.9*s, 1.1*s], rebin_shell=1, rebin_r=2)
    def go(f):
        return b.remap(f, False)
    constant(go, (2, 3, 2)); linear(go, (2, 3, 2)); ordered(go, (2, 3, 2))


def P18_cap():
    b = densegrid.Heal2Ring()
    b.setup_map(1)
    b.setup_polar_cap(0.3, 1.2, 2, 2, center=[PI/3, PI/4], rebin_alpha=2, rebin_beta=1)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, 12); linear(go, 12); ordered(go, 12); weighted(go, 12); equal_weights(go, 12)


def P18_box():
    b = densegrid.Heal2Polar()
    b.setup_map(1)
    b.setup_box(0.9, 2, center=[PI/3, PI/4], y_length=0.7, y_grid=1)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, 12); linear(go, 12); ordered(go, 12); weighted(go, 12); equal_weights(go, 12)


def P18_ortho():
    b = densegrid.Heal2Ortho()
    b.setup_map(1)
    b.setup_box(0.9, 2, center=[PI/3, PI/4], y_length=0.7, y_grid=1)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, 12); linear(go, 12); ordered(go, 12); weighted(go, 12); equal_weights(go, 12)


# ------------------------------------------------------------------ P18 Monte Carlo remaps
def P18_mc_ring():
    s = real('s', 0.5, 2)
    b = montecarlo.Box2Ring()
    b.setup_box(0, 2*s, 2, 0, 2*s, 2)
    b.setup_polar_lin(0.1*s, 0.7*s, 1, 4, center=[s, s])
    b.get_weights(2, False)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, (2, 2)); linear(go, (2, 2)); ordered(go, (2, 2)); weighted(go, (2, 2)); equal_weights(go, (2, 2))


def P18_mc_ring_any():
    # draws that fall in any of the cells
    s = real('s', 0.5, 2)
    b = montecarlo.Box2Ring()
    b.setup_box(0, 2*s, 2, 0, s, 1)
    b.setup_polar_lin(0.1*s, 0.4*s, 1, 1, center=[s, 0.5*s])
    b.get_weights(2, False)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, (1, 2)); ordered(go, (1, 2)); linear(go, (1, 2)); weighted(go, (1, 2)); equal_weights(go, (1, 2))


def P18_mc_shell():
    # any cells of the cube with any stored weights
    c = montecarlo.Cube2Shell()
    c.setup_cube(0, 3, 3, 0, 2, 2, 0, 2, 2)
    c.setup_polar_lin(0.1, 0.9, 1, 1, center=[1, 1, 1])
    if not (hasattr(c, 'ind_xs') and hasattr(c, 'ind_ys') and hasattr(c, 'ind_zs') and hasattr(c, 'ind_ws')):
        return
    c.ind_xs = lists([[[(j + k) % 2 for k in range(1 + j % 2)] for j in range(12)]])
    c.ind_ys = lists([[[(j + 2*k) % 3 for k in range(1 + j % 2)] for j in range(12)]])
    c.ind_zs = lists([[[(j//2 + k) % 2 for k in range(1 + j % 2)] for j in range(12)]])
    c.ind_ws = lists([[[real('w%d%d' % (j, k), 0.1, 1) for k in range(1 + j % 2)] for j in range(12)]])
    if raises(c.remap, array('f', (2, 3, 2)), None, False):
        return
    def go(f, w=None):
        return c.remap(f, w, False)
    n = (2, 3, 2)
    constant(go, n); linear(go, n); ordered(go, n); weighted(go, n); equal_weights(go, n)


def P18_mc_cap():
    b = montecarlo.Heal2Ring()
    b.setup_map(1)
    b.setup_polar_cap(0.1, 0.7, 1, 4)
    b.get_weights(2, False)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, 12); linear(go, 12); ordered(go, 12); weighted(go, 12); equal_weights(go, 12)


def P18_mc_box():
    b = montecarlo.Heal2Polar()
    b.setup_map(1)
    b.setup_box(0.3, 1, center=[PI/4, PI/2], y_length=0.2)
    b.get_weights(2, False)
    def go(f, w=None):
        return b.remap(f, w, False)
    constant(go, 12); linear(go, 12); ordered(go, 12); weighted(go, 12); equal_weights(go, 12)


# ------------------------------------------------------------------ P18 profiles and turns
def P18_profile():
    A = polar.get_polar_area2d(increasing('e', 3, 0), np.array([0., 1., 2., 3.]))
    def go(f, w=None):
        return polar.polar2radial(f, A, 0.3, w=w)
    constant(go, (3, 2)); linear(go, (3, 2)); ordered(go, (3, 2)); weighted(go, (3, 2)); equal_weights(go, (3, 2))


def P18_turn():
    p = grids.get_xedges(2*PI, 4, 0.)
    t = real('t', 0.1, 1.4)
    def go(f):
        return coords.rotate_polar_grid(p, f, t)
    constant(go, (4, 2)); linear(go, (4, 2)); ordered(go, (4, 2))


def P18_sum():
    e = increasing('e', 4, 0)
    def go(f):
        return polar.cumulative_radial(e, f)
    linear(go, 3); ordered(go, 3)
