"""The form an argument comes in (whole numbers, lists, tuples, views) does not matter, nor does a size of one."""
import numpy as np
import healpy as hp
from magpie import coords, grids, pixel, randoms, polar, one_d, remap, densegrid, montecarlo

PI = np.pi


def ia(*v):
    return np.array(v, dtype=int)
LAB = 'whole numbers give what the same floating numbers give'
LST = 'the container of an argument does not matter'


def fl(a):
    """the same values as floating numbers"""
    if isinstance(a, (list, tuple)):
        return [fl(v) for v in a]
    return a*1.


def whole(f, *a, **kw):
    """integer arguments against the same numbers as floats (sizes stay as they are: pass them by partial application)"""
    reset_rng()
    r = clone(f(*[fl(v) for v in a], **kw))
    reset_rng()
    equal(f(*a, **kw), r, LAB)


def P04_coords_plane():
    x = intarray('x', 3, -4, 4); y = intarray('y', 3, -4, 4); c = intarray('c', 2, -2, 2)
    whole(coords.cart2polar, x, y)
    whole(coords.cart2polar, x, y, c)
    whole(coords.cart2polar, integer('a', -4, 4), integer('b', -4, 4))
    whole(coords.cart2polar, 0, 0)
    whole(coords.cart2polar, ia(0, 1, 0, -1, 0), ia(0, 0, 1, 0, -1))
    r = intarray('r', 3, 0, 4); p = intarray('p', 3, 0, 6)
    whole(coords.polar2cart, r, p)
    whole(coords.polar2cart, r, p, c)
    whole(coords.polar2cart, integer('s', 0, 4), integer('q', 0, 6))


def P04_coords_space():
    x = intarray('x', 3, -4, 4); y = intarray('y', 3, -4, 4); z = intarray('z', 3, -4, 4); c = intarray('c', 3, -2, 2)
    whole(coords.cart2sphere, x, y, z)
    whole(coords.cart2sphere, x, y, z, c)
    whole(coords.cart2sphere, 0, 0, 0)
    whole(coords.cart2sphere, integer('a', -4, 4), integer('b', -4, 4), integer('d', -4, 4))
    whole(coords.cart2sphere, ia(0, 1, 0, 0, 0), ia(0, 0, 1, 0, 0), ia(0, 0, 0, 1, -1))
    r = intarray('r', 3, 0, 4); p = intarray('p', 3, 0, 6); t = intarray('t', 3, 0, 3)
    whole(coords.sphere2cart, r, p, t)
    whole(coords.sphere2cart, r, p, t, c)
    whole(coords.sphere2cart, integer('s', 0, 4), integer('q', 0, 6), integer('u', 0, 3))
    whole(coords.sphere2lonlat, t)
    whole(coords.lonlat2sphere, intarray('l', 3, -1, 1))
    whole(coords.usphere_area, 0, integer('w', 1, 6), 1, 2)


def P04_coords_ortho():
    x = intarray('x', 3, -3, 3); y = intarray('y', 3, -3, 3)
    whole(coords.ortho2cart, x, y)
    whole(coords.ortho2cart, x, y, 2)
    whole(coords.ortho2cart, x, y, r=2, fill_value=0)
    whole(coords.ortho2cart, ia(0, 1, 2, 3), ia(0, 0, 1, 0), 2)
    whole(coords.ortho2cart, integer('a', -3, 3), integer('b', -3, 3), 2)


def P04_coords_healpix():
    whole(coords.healpix_ang2xy, intarray('p', 3, 0, 6), intarray('t', 3, 1, 2))
    whole(coords.healpix_xy2ang, intarray('x', 3, 0, 6), intarray('y', 3, -1, 1))
    whole(coords.healpix_ang2xy, intarray('p', 3, 0, 6), ia(0, 3, 1))
    whole(coords.healpix_ang2xy, ia(0, 1, 3, 4, 6), ia(0, 3, 3, 1, 0))
    whole(coords.healpix_xy2ang, ia(0, 1, 3, 4, 6), ia(0, 1, -1, 1, 0))
    whole(coords.healpix_ang2xy, integer('q', 0, 6), integer('u', 1, 2))
    whole(coords.healpix_xy2ang, integer('v', 0, 6), integer('w', -1, 1))


def P04_coords_turn():
    p = intarray('p', 2, 0, 6); t = intarray('t', 2, 1, 2)
    whole(coords.rotate_polar, p, integer('s', 1, 6))
    whole(coords.usphere_phi_shift, p, integer('d', -6, 6))
    whole(coords.usphere_rotate, p, t, 1, 1)
    whole(coords.usphere_shift, p, t, 1, 1, 2, 1)
    whole(coords.usphere_spin, p, t, 1, 1, 2)
    whole(lambda a: coords.usphere_shift(p, t, a, 1, 2, 1), integer('g', 1, 6))
    whole(lambda a: coords.usphere_shift(p, t, 1, 1, a, 1), integer('h', 1, 6))
    whole(lambda a: coords.usphere_spin(p, t, a, 1, 2), integer('g', 1, 6))


def P04_coords_mixed():
    # whole-number arrays next to fractional numbers, and the other way round
    x = intarray('x', 2, -4, 4); y = intarray('y', 2, -4, 4); z = intarray('z', 2, -4, 4); c = array('c', 3, 0.1, 0.9)
    whole(lambda a, b: coords.cart2polar(a, b, [c[0], c[1]]), x, y)
    whole(lambda a, b, d: coords.cart2sphere(a, b, d, [c[0], c[1], c[2]]), x, y, z)
    r = intarray('r', 2, 1, 4); p = intarray('p', 2, 0, 6); t = intarray('t', 2, 1, 2); h = real('h', 0.1, 0.9)
    whole(lambda a, b: coords.polar2cart(a, b, [c[0], c[1]]), r, p)
    whole(lambda a, b, d: coords.sphere2cart(a, b, d, [c[0], c[1], c[2]]), r, p, t)
    whole(lambda a: coords.polar2cart(a, p + h), r)
    whole(lambda a: coords.polar2cart(r + h, a), p)
    whole(lambda a: coords.cart2polar(a, y + h), x)
    whole(lambda a: coords.cart2polar(x + h, a), y)
    whole(lambda a: coords.cart2sphere(a, y + h, z + h), x)
    whole(lambda a: coords.cart2sphere(x + h, a, z), y)
    whole(lambda a: coords.ortho2cart(a, y*h, 2 + h), x)
    whole(lambda a: coords.ortho2cart(a, a, 2 + h, 0.5), intarray('o', 2, -3, 3))
    whole(lambda a: coords.rotate_polar(a, h), p)
    whole(lambda a: coords.rotate_polar(a, 6 + 0.2*h), p)
    whole(lambda a: coords.rotate_polar(p + 0.2*h, a), integer('s', 1, 6))
    whole(lambda a: coords.usphere_phi_shift(a, h), p)
    whole(lambda a: coords.usphere_phi_shift(a, -5 - h), p)
    whole(lambda a, b: coords.usphere_rotate(a, b, 0.5, 1.25), p, t)
    whole(lambda a, b: coords.usphere_shift(a, b, 0.5, 1.25, 2.5, 0.75), p, t)
    whole(lambda a, b: coords.usphere_spin(a, b, 0.5, 1.25, 2.5), p, t)
    whole(lambda a: coords.usphere_shift(a, t + 0.5, 0.5, 1.25, 2.5, 0.75), p)
    whole(lambda a: coords.healpix_ang2xy(a, t + 0.25), ia(0, 2, 5)[:2])
    whole(lambda a: coords.healpix_ang2xy(ia(0, 2) + 0.3, a), ia(3, 0))
    whole(lambda a: coords.healpix_xy2ang(ia(0, 2) + 0.3, a), ia(1, -1))
    whole(lambda a: coords.healpix_xy2ang(a, ia(0, 1)*0.9), ia(0, 3))


def P04_coords_lists():
    x = array('x', 2); y = array('y', 2); z = array('z', 2); c = array('c', 3)
    equal(coords.cart2polar(x, y, [c[0], c[1]]), coords.cart2polar(x, y, c[:2]), LST)
    equal(coords.cart2polar(x, y, (c[0], c[1])), coords.cart2polar(x, y, c[:2]), LST)
    equal(coords.polar2cart(x, y, (c[0], c[1])), coords.polar2cart(x, y, c[:2]), LST)
    equal(coords.cart2sphere(x, y, z, (c[0], c[1], c[2])), coords.cart2sphere(x, y, z, c), LST)
    equal(coords.sphere2cart(x, y, z, (c[0], c[1], c[2])), coords.sphere2cart(x, y, z, c), LST)
    v = array('v', (2, 2))
    equal(coords.cart2polar(v[:, 0], v[:, 1]), coords.cart2polar(v[:, 0]*1., v[:, 1]*1.), LST)
    equal(coords.cart2sphere(v[0], v[:, 1], v[1]), coords.cart2sphere(v[0]*1., v[:, 1]*1., v[1]*1.), LST)


def P04_grids():
    L = integer('L', 1, 5); m = integer('m', -3, 3)
    whole(lambda l: grids.get_xedges(l, 3), L)
    whole(lambda l, k: grids.get_xedges(l, 3, k), L, m)
    whole(lambda l, k: grids.grid1d(l, 3, k, True), L, m)
    whole(lambda l, k: grids.grid2d(l, 3, [k, k], True), L, m)
    whole(lambda l, k: grids.grid3d([l, 2*l, 3], [1, 2, 3], [k, 1, k], True), L, m)
    whole(grids.xedges2mid, ia(0, 1, 3, 4))
    whole(grids.xedges2mid, intarray('e', 4, 0, 9))
    whole(grids.xmid2edges, ia(0, 1, 2, 3))
    whole(lambda a, b, c, d: grids.polargrid(2, 3, a, b, c, d, True), 1, 1 + L, 0, 2)
    whole(lambda a: grids.polarEA_grid(2, a), L)
    whole(lambda a: grids.polarEA_area(2, a), L)


def P04_grids_one():
    L = real('L', 0.5, 4); m = real('m', -2, 2)
    e = grids.get_xedges(L, 1, m)
    equal(e, np.array([m, m + L]), 'a grid of one cell')
    x = grids.grid1d(L, 1, m)
    equal(x, np.array([m + L/2]), 'a grid of one cell')
    a, b = grids.grid2d([L, 2*L], [1, 1], [m, m])
    equal(a, np.array([[m + L/2]]), 'a grid of one cell'); equal(b, np.array([[m + L]]), 'a grid of one cell')
    a, b, c = grids.grid3d([L, 2*L, 3*L], [1, 1, 1], [m, m, m])
    equal(a, np.array([[[m + L/2]]]), 'a grid of one cell'); equal(b, np.array([[[m + L]]]), 'a grid of one cell'); equal(c, np.array([[[m + 1.5*L]]]), 'a grid of one cell')
    equal(grids.xedges2mid(np.array([m, m + L])), np.array([m + L/2]), 'a grid of one cell')
    r, p = grids.polargrid(1, 1, 0., L)
    equal(r, np.array([[L/2]]), 'a grid of one cell'); equal(p, np.array([[PI]]), 'a grid of one cell')


def P04_pixel():
    a = integer('a', 1, 4); b = integer('b', 1, 4)
    whole(lambda *v: pixel.get_square(*v, steps=8), 0, a, 1, 1 + b)
    whole(lambda r, p, q, c: pixel.get_arc(r, p, q, c, 5), a, 1, 3, [1, 2])
    whole(lambda r, s, p, q, c: pixel.get_disc(r, s, p, q, c, 8), 1, 1 + a, 0, 2, [1, 2])
    whole(lambda *v: pixel.get_box(*v, steps=24), 1, 1 + a, 2, 2 + b, 3, 4)
    p = intarray('p', 3, 0, 47)
    i, j = pixel.healpix_pix2ij(p, 2)
    whole(lambda v, w: pixel.healpix_ij2xy(v, w, 2), i, j)
    whole(lambda v: pixel.healpix_i2id(v, 2), i)
    whole(lambda v, w: pixel.healpix_j2jd(v, w, 2), i, j)
    whole(lambda v: pixel.healpix_pix2xy(v, 2), p)


def P04_one_d():
    e = ia(0, 2, 3, 7); d = intarray('d', 3, -4, 4); s = intarray('s', 3, 1, 4); w = intarray('w', 3, 1, 4); b = ia(1, 3, 5)
    whole(one_d.rebin_1d, e, d, b)
    whole(one_d.rebin_1d, e, d, b, w)
    whole(one_d.rebin_1d, e, d, b, w, s)
    whole(lambda e, d, b, s: one_d.rebin_1d(e, d, b, sigma=s), e, d, b, s)
    whole(one_d.rebin_1d_single_bin_weights, e, 1, 4)


def P04_one_d_one():
    a = real('a', 0.1, 0.4); t = real('t', 0.5, 0.9); f = real('f'); s = real('s', 0.1, 2); w = real('w', 0.1, 2)
    e = np.array([0., 1.]); d = np.array([f])
    equal(one_d.rebin_1d(e, d, np.array([a, t])), np.array([f]), 'one bin to one bin')
    equal(one_d.rebin_1d(e, d, np.array([0., 1.])), np.array([f]), 'one bin to one bin')
    equal(one_d.rebin_1d(e, d, np.array([a, t]), np.array([w])), np.array([f]), 'one bin to one bin')


def P04_remap():
    f = intarray('f', 3, -4, 4); g = intarray('g', (2, 2), -4, 4); h = intarray('h', (2, 1, 2), -4, 4)
    whole(lambda v, L: remap.grid2grid1D(v, L, 2), f, 3)
    whole(lambda v, L, a, b, c: remap.grid2grid1D(v, L, 2, a, b, c), f, 3, 1, 2, 2)
    whole(lambda v, L: remap.grid2grid2D(v, L, 1), g, 2)
    whole(lambda v, L, a, b, c: remap.grid2grid2D(v, L, [1, 2], a, b, c), g, [2, 3], [0, 1], [1, 1], [1, 2])
    whole(lambda v, L: remap.grid2grid3D(v, L, 1), h, [2, 1, 2])
    whole(lambda v, L, a, b, c: remap.grid2grid3D(v, L, [1, 2, 1], a, b, c), h, [2, 1, 2], [0, 1, 0], [1, 1, 0], [1, 2, 2])


def P04_remap_one():
    f = real('f'); d = real('d', 0.2, 2); t = real('t', 0.1, 0.4)
    equal(remap.grid2grid1D(np.array([f]), d, 1), np.array([f]), 'one cell to one cell')
    equal(remap.grid2grid1D(np.array([f]), d, 1, 0., t*d, 0.5*d), np.array([f]), 'one cell to one cell')
    equal(remap.grid2grid2D(np.array([[f]]), d, 1), np.array([[f]]), 'one cell to one cell')
    equal(remap.grid2grid3D(np.array([[[f]]]), d, 1), np.array([[[f]]]), 'one cell to one cell')


def P04_polar():
    e = ia(0, 1, 3); p = ia(0, 1, 2, 3)
    whole(polar.get_polar_area2d, e, p)
    whole(polar.get_pixarea, e, p)
    f = intarray('f', (3, 2), -4, 4); s = intarray('s', (3, 2), 1, 4); w = intarray('w', (3, 2), 1, 4); A = intarray('A', (3, 2), 1, 4)
    whole(polar.polar2radial, f, A, 2)
    whole(polar.polar2radial, f, A, 2, s, w)
    whole(polar.polar2radial, f, A, 2, s)
    g = intarray('g', 2, -4, 4); v = intarray('v', 2, 1, 4)
    whole(polar.cumulative_radial, e, g)
    whole(polar.cumulative_radial, e, g, v)
    whole(coords.rotate_polar_grid, grids.get_xedges(2*PI, 3, 0.), f, 1)


def P04_polar_one():
    f = real('f'); s = real('s', 0.1, 2); r = real('r', 0.2, 2)
    A = polar.get_polar_area2d(np.array([0., r]), np.array([0., 2*PI]))
    equal(A, np.array([[PI*r**2]]), 'one cell')
    equal(polar.polar2radial(np.array([[f]]), A, 0.1)[0], f, 'the profile of one cell')
    equal(coords.rotate_polar_grid(np.array([0., 2*PI]), np.array([[f]]), real('t', 0.1, 6)), np.array([[f]]), 'one cell turned')


def P04_randoms():
    a = integer('a', 0, 3); b = a + integer('d', 1, 4)
    whole(lambda u, v: randoms.randoms_1d(2, u, v), a, b)
    whole(lambda u, v: randoms.randoms_2d(2, u, v), [a, 0], [b, 1])
    whole(lambda u, v: randoms.randoms_3d(2, u, v), [a, 0, 1], [b, 1, 3])
    whole(lambda *v: randoms.randoms_polar(2, *v), a, b, 0, 3)
    whole(lambda *v: randoms.randoms_sphere_r(2, *v), a, b)
    whole(lambda *v: randoms.randoms_sphere(2, *v), a, b, 0, 3, 1, 2)
    whole(lambda *v: randoms.randoms_usphere(2, *v), 0, 3, 1, 2)
    s = intarray('s', 3, -4, 4)
    whole(randoms.shuffle, s)
    whole(lambda v: randoms.random_draw(v, 2), s)
    whole(randoms.stochastic_integer_weights, intarray('w', 3, 0, 4))
    whole(randoms.stochastic_integer_weights, integer('v', 0, 4))
    whole(randoms.stochastic_binary_weights, intarray('q', 3, 0, 1))


def P04_randoms_one():
    for f, k in ((randoms.randoms_1d, 1), (randoms.randoms_2d, 2), (randoms.randoms_3d, 3), (randoms.randoms_polar, 2), (randoms.randoms_sphere_r, 1),
                 (randoms.randoms_sphere, 3), (randoms.randoms_usphere, 2)):
        reset_rng()
        one = f(1)
        many = (one,) if k == 1 else one
        equal(len(many), k, 'one entry per coordinate')
        for v in many:
            equal(v.shape, (1,), 'one random point')
    s = np.array([real('s')])
    equal(randoms.shuffle(s), s, 'a sample of one')


def P04_mixed():
    h = real('h', 0.1, 0.4)
    L = integer('L', 1, 4)
    whole(lambda l: grids.get_xedges(l, 3, h), L)
    whole(lambda l: grids.get_xedges(l + h, 3, l), L)
    whole(lambda l: grids.grid2d([l, 2*l], 3, [h, 1 + h]), L)
    whole(lambda l: grids.grid3d([l, l + h, 2], [1, 2, 3], [h, 0, -h]), L)
    whole(lambda l: grids.polargrid(2, 3, h, l, 0, 2 + h), L)
    whole(lambda r: pixel.get_arc(r, h, 2 + h, [h, 1], 5), L)
    whole(lambda r: pixel.get_disc(h, r, h, 2 + h, [h, 1], 8), L)
    whole(lambda a: pixel.get_square(-h, a, h, 1 + a, steps=8), L)
    whole(lambda a: pixel.get_box(-h, a, h, 1 + a, -h, 1, steps=24), L)
    e = ia(0, 2, 3, 7); d = intarray('d', 3, -4, 4); s = intarray('s', 3, 1, 4); w = intarray('w', 3, 1, 4); b = np.array([1.25, 2.5, 5.5])
    whole(lambda u: one_d.rebin_1d(u, d*0.5, b), e)
    whole(lambda u: one_d.rebin_1d(e, u, b, w*0.5, s*0.5), d)
    whole(lambda u: one_d.rebin_1d(e, d*0.5, b, u, s*0.5), w)
    whole(lambda u: one_d.rebin_1d(e, d*0.5, b, w*0.5, u), s)
    whole(lambda u: one_d.rebin_1d(e*0.5, d, u), ia(0, 1, 3))
    f = intarray('f', 3, -4, 4)
    whole(lambda v: remap.grid2grid1D(v, 3 + h, 2, 1.5, 2.25, 0.5), f)
    whole(lambda v: remap.grid2grid2D(v, [2.5, 3], [1, 2], [0.5, 1], 1.25, 0.25), intarray('g', (2, 2), -4, 4))
    whole(lambda v: remap.grid2grid3D(v, [2.5, 3, 1], [1, 2, 1], [0.5, 1, 0], 0.75, 0.25), intarray('k', (2, 1, 2), -4, 4))
    F = intarray('F', (3, 2), -4, 4); S = intarray('S', (3, 2), 1, 4); W = intarray('W', (3, 2), 1, 4); A = intarray('A', (3, 2), 1, 4)
    whole(lambda v: polar.polar2radial(v, A*0.5, 0.3, S*0.5, W*0.5), F)
    whole(lambda v: polar.polar2radial(F*0.5, v, 0.3, S*0.5, W*0.5), A)
    whole(lambda v: polar.polar2radial(F*0.5, A*0.5, 0.3, v, W*0.5), S)
    whole(lambda v: polar.polar2radial(F*0.5, A*0.5, 0.3, S*0.5, v), W)
    whole(lambda v: coords.rotate_polar_grid(grids.get_xedges(2*PI, 3, 0.), v, 0.7), F)
    q = intarray('q', 2, -4, 4); v2 = intarray('v', 2, 1, 4)
    whole(lambda v: polar.cumulative_radial(ia(0, 1, 3)*0.5, v, v2*0.5), q)
    whole(lambda v: polar.cumulative_radial(ia(0, 1, 3)*0.5, q*0.5, v), v2)
    whole(lambda v: polar.cumulative_radial(v, q*0.5, v2*0.5), ia(0, 1, 3))
    whole(lambda v: randoms.pdf2cdf(v, v2*0.5), ia(1, 3))
    whole(lambda v: randoms.pdf2cdf(np.array([0.5, 0.75]), v), v2)


def P04_pdf():
    x = ia(1, 2, 3); p = intarray('p', 3, 1, 4)
    whole(randoms.pdf2cdf, x, p)
    whole(lambda u, v: randoms.randoms_pdf(u, v, 2, 'linear'), x, p)


def P04_ring():
    f = intarray('f', (4, 3), -4, 4); w = intarray('w', (4, 3), 1, 4); p = intarray('p', (2, 2), -4, 4); q = intarray('q', (2, 2), 1, 4)
    def go(a, b, c, d, r, s, cen, m, v):
        o = densegrid.Box2Ring()
        o.setup_box(a, b, 3, c, d, 4); o.setup_polar(r, s, 2, 2, center=cen, phi_shift=0)
        return o.remap(m, None, False), o.remap(m, v, False)
    whole(go, 0, 6, 0, 8, 1, 2, [3, 4], f, w)
    whole(go, -1, 5, 1, 9, 1, 5, [2, 4], f, w)
    def more(g, v):
        o = densegrid.Box2Ring()
        o.setup_box(0, 6, 3, 0, 8, 4); o.setup_polar(1, 2, 2, 2, center=[3, 4])
        return o.polar2radial(g), o.polar2radial(g, v, v), o.rotate_polar(g, 1)
    whole(more, p, q)


def P04_ring_mc():
    f = intarray('f', (4, 3), -4, 4); w = intarray('w', (4, 3), 1, 4)
    def go(a, b, c, d, r, s, cen, m, v):
        o = montecarlo.Box2Ring()
        o.setup_box(a, b, 3, c, d, 4); o.setup_polar_lin(r, s, 1, 2, center=cen, phi_shift=0)
        reset_rng()
        o.get_weights(2, False)
        return o.remap(m, None, False), o.remap(m, v, False)
    whole(go, 0, 6, 0, 8, 1, 2, [3, 4], f, w)


def P04_shell():
    f = intarray('f', (2, 2, 2), -4, 4)
    def go(a, b, r, s, cen, m):
        o = densegrid.Cube2Shell()
        o.setup_cube(a, b, 2, a, b, 2, a, b, 2); o.setup_polar(r, s, 1, 1, cen, 1, 1)
        return o.remap(m, False)
    whole(go, 0, 8, 1, 2, [3, 5, 3], f)
    def fine(m):
        o = densegrid.Cube2Shell()
        o.setup_cube(0, 1, 2, 0, 1, 2, 0, 1, 2); o.setup_polar(0.1, 0.4, 1, 1, [0.45, 0.55, 0.5], 2, 2)
        return o.remap(m, False)
    whole(fine, f)
    def mc(a, b, r, s, cen, m):
        o = montecarlo.Cube2Shell()
        o.setup_cube(a, b, 2, a, b, 2, a, b, 2); o.setup_polar_lin(r, s, 1, 1, cen)
        reset_rng()
        o.get_weights(1, False)
        return o.remap(m, None, False)
    whole(mc, 0, 8, 1, 2, [3, 5, 3], f)


def P04_sky():
    f = intarray('f', 12, -4, 4); w = intarray('w', 12, 1, 4)
    def cap(a, b, c, d, cen, s, m, v):
        o = densegrid.Heal2Ring(); o.setup_map(1)
        o.setup_polar_cap(a, b, 1, 2, c, d, cen, s)
        return o.remap(m, None, False), o.remap(m, v, False)
    whole(cap, 0, 1, 0, 2, [1, 1], 1, f, w)
    def box(L, cen, a, M, m, v):
        o = densegrid.Heal2Polar(); o.setup_map(1)
        o.setup_box(L, 2, cen, a, M, 1)
        return o.remap(m, None, False), o.remap(m, v, False)
    whole(box, 1, [1, 1], 1, 1, f, w)


def P04_ortho():
    f = intarray('f', 12, -4, 4); w = intarray('w', 12, 1, 4)
    def view(L, cen, M, m, v):
        o = densegrid.Heal2Ortho(); o.setup_map(1)
        o.setup_box(L, 2, cen, M, 1)
        return o.remap(m, None, False), o.remap(m, v, False)
    whole(view, 1, [1, 1], 1, f, w)


def P04_view():
    x = intarray('x', 2, 3, 6); y = intarray('y', 2, 2, 5); z = intarray('z', 2, 1, 4)
    def go(c, p, d, s, *v):
        b = densegrid.PointOfView()
        b.setup(c, p, d, s)
        return b.transform(*v), b.reverse(*v)
    whole(go, [0, 0, 0], [1, 1, 1], 2, 0, x, y, z)
    whole(go, [0, 0, 0], [1, 0, 0], 1, 1, x, y, z)
