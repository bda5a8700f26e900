"""Side effects: arguments stay as they were, calls do not remember earlier calls, one random stream, nothing printed or written."""
import numpy as np
import healpy as hp
from magpie import coords, grids, pixel, randoms, polar, one_d, remap, densegrid, montecarlo, utils

PI = np.pi
RNG = ['rng', 'rng-state', 'private-rng', 'foreign-rng']
OTHER = ['rng-state', 'private-rng', 'foreign-rng']
TRACE = ['io', 'file', 'global', 'os', 'external']


# ------------------------------------------------------------------ what is done to each call
def calm(f, *a, **kw):
    """no draw at all"""
    return quiet(RNG, f, *a, **kw)


def one_stream(f, *a, **kw):
    """draws from the global stream only"""
    return quiet(OTHER, f, *a, **kw)


def silent(f, *a, **kw):
    return quiet(TRACE, f, *a, **kw)


def twice(f, *a, **kw):
    reset_rng()
    r = clone(f(*a, **kw))
    n = ndraws()
    reset_rng()
    q = f(*a, **kw)
    equal(q, r, 'the same call gives the same result again')
    equal(ndraws(), n, 'the same call draws as much again')
    return q


# ------------------------------------------------------------------ the calls
def coords_plane(go):
    x = array('x', 2); y = array('y', 2); c = array('c', 2)
    go(coords.cart2polar, x, y)
    go(coords.cart2polar, x, y, c)
    go(coords.cart2polar, x, y, center=[real('c0'), real('c1')])
    r = array('r', 2, -4, 4); p = array('p', 2, -10, 10)
    go(coords.polar2cart, r, p)
    go(coords.polar2cart, r, p, c)
    go(coords.rotate_polar, p, real('s', 0.1, 6))
    go(coords.rotate_polar_grid, grids.get_xedges(2*PI, 4, 0.), array('f', (4, 2)), real('s', 0.2, 1.2))


def coords_space(go):
    x = array('x', 2); y = array('y', 2); z = array('z', 2); c = array('c', 3)
    go(coords.cart2sphere, x, y, z)
    go(coords.cart2sphere, x, y, z, c)
    r = array('r', 2, -4, 4); p = array('p', 2, -10, 10); t = array('t', 2, -4, 8)
    go(coords.sphere2cart, r, p, t)
    go(coords.sphere2cart, r, p, t, c)
    go(coords.sphere2lonlat, t)
    go(coords.lonlat2sphere, array('l', 2, -1.57, 1.57))
    go(coords.usphere_area, 0.1, real('q', 0.2, 6), 0.3, 0.9)


def coords_ortho(go):
    go(coords.ortho2cart, array('x', 2), array('y', 2))
    go(coords.ortho2cart, array('x', 2), array('y', 2), 2., fill_value=0.)


def coords_healpix(go):
    p = array('p', 2, 0, 6.28); t = array('t', 2, 0.01, 3.13)
    go(coords.healpix_ang2xy, p, t)
    go(coords.healpix_xy2ang, array('x', 2, 0, 6.28), array('y', 2, -1.5, 1.5))


def coords_turn(go):
    p = array('p', 2, 0, 6.28); t = array('t', 2, 0.01, 3.13)
    go(coords.usphere_rotate, p, t, 0.4, 0.9)
    go(coords.usphere_rotate, p, t, 0.4, 0.9, 1.2, 0.3)
    go(coords.usphere_phi_shift, p, real('s', -6, 6))
    go(coords.usphere_shift, p, t, 0.4, 0.9, 1.2, 0.3)
    go(coords.usphere_spin, p, t, 0.4, 0.9, real('a', 0.1, 6))


def grids_calls(go):
    L = real('L', 0.1, 4)
    go(grids.get_xedges, L, 3)
    go(grids.get_xedges, L, 3, real('m'))
    e = increasing('e', 4)
    go(grids.xedges2mid, e)
    go(grids.xmid2edges, e)
    go(grids.grid1d, L, 3)
    go(grids.grid1d, L, 3, xmin=real('m'), return_edges=True)
    go(grids.grid2d, L, 2)
    go(grids.grid2d, [L, 2*L], [2, 3], mins=[real('m'), real('n')], return1d=True)
    go(grids.grid3d, L, 2)
    go(grids.grid3d, [L, 2*L, 3*L], [2, 3, 1], mins=[real('m'), real('n'), real('o')], return1d=True)
    go(grids.polargrid, 2, 3)
    go(grids.polargrid, 2, 3, rmin=0.5, rmax=0.5 + L, phimin=0.1, phimax=2., return1d=True)
    go(grids.polarEA_grid, 2)
    go(grids.polarEA_grid, 2, L, 3)
    go(grids.polarEA_area, 2, L, 3)
    go(grids.polarEA_npix, 2, 3)


def pixel_shapes(go):
    go(pixel.get_square, 0, real('a', 1, 2), 0, real('b', 1, 2), 4)
    go(pixel.get_square, 0, real('a', 1, 2), 0, real('b', 1, 2))
    go(pixel.get_arc, real('r', 1, 2), 0, 2, [real('x'), real('y')], 3)
    go(pixel.get_arc, real('r', 1, 2))
    go(pixel.get_disc, 0.5, real('r', 1, 2), 0, 2, [real('x'), real('y')], 8)
    go(pixel.get_disc)
    go(pixel.get_box, 0, real('a', 1, 2), 0, 1, 0, 1, 12)
    go(pixel.get_box, 1, 1 + real('a', 1, 2), 1, 2, 1, 2, 12, return_nearest=True, center=[0., 0., 0.])


def pixel_healpix(go):
    p = np.array([0, 3, 7, 20, 30, 47])
    i, j = pixel.healpix_pix2ij(p, 2)
    go(pixel.healpix_pix2ij, p, 2)
    go(pixel.healpix_pix2ij, 7, 2)
    go(pixel.healpix_ij2pix, i, j, 2)
    go(pixel.healpix_i2id, i, 2)
    go(pixel.healpix_j2jd, i, j, 2)
    a = pixel.healpix_i2id(i, 2); b = pixel.healpix_j2jd(i, j, 2)
    go(pixel.healpix_ijd2ijs, a, b, 2)
    k, l = pixel.healpix_ijd2ijs(a, b, 2)
    go(pixel.healpix_ijs2ijd, k, l, 2)
    go(pixel.healpix_ij2xy, i, j, 2)
    go(pixel.healpix_pix2xy, p, 2)
    go(pixel.healpix_boundary_top, 5, 2, 4)
    go(pixel.healpix_boundary_bot, 5, 2, 4, True)
    go(pixel.healpix_boundary, 5, 2, 8)


def random_points(go):
    a = real('a', 0, 1); b = a + real('d', 0.1, 2)
    go(randoms.randoms_1d, 3)
    go(randoms.randoms_1d, 3, a, b)
    go(randoms.randoms_2d, 2)
    go(randoms.randoms_2d, 2, [a, a], [b, b])
    go(randoms.randoms_3d, 2)
    go(randoms.randoms_3d, 2, mins=[a, a, a], maxs=[b, b, b])
    go(randoms.randoms_polar, 2, a, b, 0.2, 3.)
    go(randoms.randoms_sphere_r, 2, a, b)
    go(randoms.randoms_sphere, 2, a, b)
    go(randoms.randoms_usphere, 2, 0.1, 2., 0.3, 0.9)


def random_pixel(go):
    go(randoms.randoms_healpix_pixel, 2, 5, 1)
    go(randoms.randoms_healpix_pixel, 2, 0, 1)


def random_samples(go):
    s = array('s', 3); p = array('p', 3, 0.1, 0.9)
    go(randoms.shuffle, s)
    go(randoms.random_draw, s, 2)
    go(randoms.random_prob_draw, s, p, 2)
    go(randoms.stochastic_integer_weights, array('w', 3, 0, 3))
    go(randoms.stochastic_integer_weights, real('v', 0, 3))
    go(randoms.stochastic_binary_weights, array('w', 3, 0, 1))


def random_kept(go):
    s = array('s', 2); p = array('p', 2, 0.1, 0.9)
    assume(U(0, 2)[0] < p[0]); assume(U(0, 2)[1] > p[1])
    reset_rng()
    go(randoms.random_prob_draw, s, p)


def random_pdf(go):
    x = grids.grid1d(real('L', 0.5, 2), 3)
    p = array('p', 3, 0.1, 2)
    go(randoms.pdf2cdf, x, p)
    go(randoms.pdf2cdf, x, p, False)
    e, c = randoms.pdf2cdf(x, p, False)
    go(randoms.randoms_cdf, e, c, 2, 'linear')
    go(randoms.randoms_pdf, x, p, 2, 'linear')


def one_d_calls(go):
    e = increasing('e', 4)
    d = array('d', 3); s = array('s', 3, 0.1, 2); w = array('w', 3, 0.1, 2)
    t = real('t', 0.1, 0.9)
    b = np.array([e[0] + t*(e[1] - e[0]), e[1] + t*(e[2] - e[1]), e[3] - t*(e[3] - e[2])])
    go(one_d.rebin_1d, e, d, b)
    go(one_d.rebin_1d, e, d, b, w, s)
    go(one_d.rebin_1d_single_bin_weights, e, b[0], b[1])


def remap_calls(go):
    d = real('d', 0.1, 2); t = real('t', 0.1, 0.4)
    go(remap.grid2grid1D, array('f', 3), 3*d, 2, t*d, t*d)
    go(remap.grid2grid2D, array('g', (2, 2)), 2*d, 1)
    go(remap.grid2grid2D, array('g', (2, 2)), [2*d, 2*d], [1, 2], [0, 0], [0, 0], [d, d])
    go(remap.grid2grid3D, array('h', (2, 1, 2)), [2*d, d, 2*d], [1, 1, 1], [0, 0, 0], [0, 0, 0], [d, d, d])


def polar_calls(go):
    e = increasing('e', 3, 0)
    p = np.array([0., 1., 2., 3.])
    f = array('f', (3, 2)); s = array('s', (3, 2), 0.1, 2); w = array('w', (3, 2), 0.1, 2)
    A = polar.get_polar_area2d(e, p)
    go(polar.get_polar_area2d, e, p)
    go(polar.get_pixarea, e, p)
    go(polar.polar2radial, f, A, 0.3)
    go(polar.polar2radial, f, A, 0.3, s, w)
    g = array('g', 2); v = array('v', 2, 0.1, 2)
    go(polar.cumulative_radial, e, g)
    go(polar.cumulative_radial, e, g, v)


def dense_ring(go):
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring()
    go(b.setup_box, 0, 3*s, 3, 0, 4*s, 4)
    c = [1.4*s, 2*s]
    go(b.setup_polar, 0.2*s, 1.2*s, 2, 2, 0., 2*PI, c, 3, 1, PI/4)
    f = array('f', (4, 3)); w = array('w', (4, 3), 0.1, 2); p = array('p', (2, 2)); q = array('q', (2, 2), 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)
    go(b.rotate_polar, p, real('t', 0.1, 0.3))
    go(b.polar2radial, p)
    go(b.polar2radial, p, q, q)
    b.setup_polar(0.2*s, 3*s, 2, 2, center=c)
    go(b.get_mask_in_bound, False)
    go(b.polar2radial, p)
    go(b.polar2radial, p, q, q)
    go(b.polar2radial, p, sigma=q)


def dense_shell(go):
    s = real('s', 0.5, 2)
    b = densegrid.Cube2Shell()
    go(b.setup_cube, 0, 2*s, 2, 0, 3*s, 3, 0, 2*s, 2)
    go(b.setup_polar, 0.2*s, 1.2*s, 1, 1, [1.1*s, 1.6*s, 0.9*s], 1, 2, [-1, 0], [0, 0], [0, 1])
    go(b.remap, array('f', (3, 2, 2)), False)


def dense_cap(go):
    b = densegrid.Heal2Ring()
    go(b.setup_map, 1)
    go(b.setup_polar_cap, 0.2, 0.9, 1, 2, 0., 2*PI, [4., PI/4], 0.3, 1, 2)
    f = array('f', 12); w = array('w', 12, 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)
    go(b.rotate_polar, p, real('t', 0.1, 0.3))
    go(b.polar2radial, p)
    go(b.polar2radial, p, q, q)


def dense_box(go):
    b = densegrid.Heal2Polar()
    go(b.setup_map, 1)
    go(b.setup_box, 0.9, 2, [4., PI/4], 0.3, 0.5, 1, 1, 2)
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)


def dense_ortho(go):
    b = densegrid.Heal2Ortho()
    go(b.setup_map, 1)
    go(b.setup_box, 0.9, 2, [4., PI/4], 0.5, 1, 1, 2)
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)
    go(b.transform, np.array([0.4, 0.7]), np.array([0.8, 0.9]))
    go(b.transform, 0.4, 0.8)


def dense_view(go):
    b = densegrid.PointOfView()
    go(b.setup, [0.1, -0.2, 0.3], [1, 1, 1], 2., 0.3)
    x = array('x', 2, 3, 4); y = array('y', 2, 2, 3); z = array('z', 2, 0.2, 0.6)
    go(b.transform, x, y, z)
    go(b.reverse, x, y, z)


def mc_ring(go):
    s = real('s', 0.5, 2)
    b = montecarlo.Box2Ring()
    go(b.setup_box, s, 5*s, 4, -s, s, 2)
    c = [2.9*s, 0.1*s]
    go(b.setup_polar_log, 0.1*s, 0.7*s, 1, 2, 0., 2*PI, c, 0.)
    go(b.setup_polar_lin, 0.1*s, 0.7*s, 1, 2, 0., 2*PI, c, 0.)
    b.get_weights(2, False)
    f = array('f', (2, 4)); w = array('w', (2, 4), 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)
    go(b.rotate_polar, p, real('t', 0.1, 0.3))
    go(b.get_mask_in_bound, False)
    go(b.polar2radial, p)
    go(b.polar2radial, p, q, q)


def mc_ring_part(go):
    # the second sector lies beside the box
    s = real('s', 0.5, 2)
    b = montecarlo.Box2Ring()
    b.setup_box(0, 4*s, 2, 0, 4*s, 2)
    b.setup_polar_lin(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1)
    b.get_weights(2, False)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2); w = array('w', (2, 1), 0.1, 2)
    go(b.polar2radial, p)
    go(b.polar2radial, p, q)
    go(b.polar2radial, p, q, w)
    go(b.polar2radial, p, None, w)


def dense_ring_part(go):
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring()
    b.setup_box(0, 4*s, 2, 0, 4*s, 2)
    b.setup_polar(0.1*s, 0.7*s, 1, 2, 0., PI)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2); w = array('w', (2, 1), 0.1, 2)
    go(b.polar2radial, p)
    go(b.polar2radial, p, q)
    go(b.polar2radial, p, q, w)
    go(b.polar2radial, p, None, w)


def mc_cap(go):
    b = montecarlo.Heal2Ring()
    go(b.setup_map, 1)
    go(b.setup_polar_cap, 0.2, 0.9, 1, 2, 0., 2*PI, [4., PI/4], 0.3)
    b.get_weights(2, False)
    f = array('f', 12); w = array('w', 12, 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)
    go(b.rotate_polar, p, real('t', 0.1, 0.3))
    go(b.polar2radial, p)
    go(b.polar2radial, p, q, q)


def mc_box(go):
    b = montecarlo.Heal2Polar()
    go(b.setup_map, 1)
    go(b.setup_box, 0.9, 1, [4., PI/4], 0.3, 0.5, 1)
    b.get_weights(2, False)
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)


def mc_shell(go):
    s = real('s', 0.5, 2)
    b = montecarlo.Cube2Shell()
    go(b.setup_cube, 0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2)
    c = [0.95*s, 0.9*s, 0.8*s]
    go(b.setup_polar_log, 0.1*s, 0.4*s, 2, 1, c)
    go(b.setup_polar_lin, 0.1*s, 0.4*s, 1, 1, c)
    b.get_weights(2, False)
    f = array('f', (2, 2, 2)); w = array('w', (2, 2, 2), 0.1, 2)
    go(b.remap, f, None, False)
    go(b.remap, f, w, False)


def weights_ring():
    s = real('s', 0.5, 2)
    b = montecarlo.Box2Ring()
    b.setup_box(s, 5*s, 4, -s, s, 2)
    b.setup_polar_lin(0.1*s, 0.7*s, 1, 2, 0., 2*PI, [2.9*s, 0.1*s], 0.2)
    return b


def weights_cap():
    b = montecarlo.Heal2Ring()
    b.setup_map(1)
    b.setup_polar_cap(0.2, 0.9, 1, 2, 0., 2*PI, [4., PI/4], 0.3)
    return b


def weights_box():
    b = montecarlo.Heal2Polar()
    b.setup_map(1)
    b.setup_box(0.9, 1, [4., PI/4], 0.3, 0.5, 1)
    return b


def weights_shell():
    s = real('s', 0.5, 2)
    b = montecarlo.Cube2Shell()
    b.setup_cube(0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2)
    b.setup_polar_lin(0.1*s, 0.4*s, 1, 1, [0.9*s, 0.9*s, 0.9*s])
    return b


# ------------------------------------------------------------------ P01 arguments and memory
def P01_coords_plane():
    coords_plane(frozen)


def P01_coords_plane_again():
    coords_plane(twice)


def P01_coords_space():
    coords_space(frozen)


def P01_coords_space_again():
    coords_space(twice)


def P01_coords_ortho():
    coords_ortho(frozen)


def P01_coords_ortho_again():
    coords_ortho(twice)


def P01_coords_healpix():
    coords_healpix(frozen)


def P01_coords_healpix_again():
    coords_healpix(twice)


def P01_coords_turn():
    coords_turn(frozen)


def P01_coords_turn_again():
    coords_turn(twice)


def P01_grids():
    grids_calls(frozen)


def P01_grids_again():
    grids_calls(twice)


def P01_pixel_shapes():
    pixel_shapes(frozen)


def P01_pixel_shapes_again():
    pixel_shapes(twice)


def P01_pixel_healpix():
    pixel_healpix(frozen)


def P01_pixel_healpix_again():
    pixel_healpix(twice)


def P01_one_d():
    one_d_calls(frozen)


def P01_one_d_again():
    one_d_calls(twice)


def P01_remap():
    remap_calls(frozen)


def P01_remap_again():
    remap_calls(twice)


def P01_polar():
    polar_calls(frozen)


def P01_polar_again():
    polar_calls(twice)


def P01_dense_ring():
    dense_ring(frozen)


def P01_dense_ring_again():
    dense_ring(twice)


def P01_dense_shell():
    dense_shell(frozen)


def P01_dense_shell_again():
    dense_shell(twice)


def P01_dense_cap():
    dense_cap(frozen)


def P01_dense_cap_again():
    dense_cap(twice)


def P01_dense_box():
    dense_box(frozen)


def P01_dense_box_again():
    dense_box(twice)


def P01_dense_ortho():
    dense_ortho(frozen)


def P01_dense_ortho_again():
    dense_ortho(twice)


def P01_dense_view():
    dense_view(frozen)


def P01_dense_view_again():
    dense_view(twice)


def P01_mc_ring():
    mc_ring(frozen)


def P01_mc_ring_again():
    mc_ring(twice)


def P01_mc_ring_part():
    mc_ring_part(frozen)


def P01_dense_ring_part():
    dense_ring_part(frozen)


def P01_mc_ring_part_again():
    mc_ring_part(twice)


def P01_dense_ring_part_again():
    dense_ring_part(twice)


def P01_mc_cap():
    mc_cap(frozen)


def P01_mc_cap_again():
    mc_cap(twice)


def P01_mc_box():
    mc_box(frozen)


def P01_mc_box_again():
    mc_box(twice)


def P01_mc_shell():
    mc_shell(frozen)


def P01_mc_shell_again():
    mc_shell(twice)


def P01_random_points():
    random_points(frozen)


def P01_random_points_again():
    random_points(twice)


def P01_random_pixel():
    random_pixel(frozen)


def P01_random_pixel_again():
    random_pixel(twice)


def P01_random_samples():
    random_samples(frozen)


def P01_random_samples_again():
    random_samples(twice)


def P01_random_kept():
    random_kept(frozen)


def P01_random_kept_again():
    random_kept(twice)


def P01_random_pdf():
    random_pdf(frozen)


def P01_random_pdf_again():
    random_pdf(twice)


# ------------------------------------------------------------------ P23 the random stream
def P23_coords_plane():
    coords_plane(calm)


def P23_coords_space():
    coords_space(calm)


def P23_coords_ortho():
    coords_ortho(calm)


def P23_coords_healpix():
    coords_healpix(calm)


def P23_coords_turn():
    coords_turn(calm)


def P23_grids():
    grids_calls(calm)


def P23_pixel_shapes():
    pixel_shapes(calm)


def P23_pixel_healpix():
    pixel_healpix(calm)


def P23_one_d():
    one_d_calls(calm)


def P23_remap():
    remap_calls(calm)


def P23_polar():
    polar_calls(calm)


def P23_dense_ring():
    dense_ring(calm)


def P23_dense_shell():
    dense_shell(calm)


def P23_dense_cap():
    dense_cap(calm)


def P23_dense_box():
    dense_box(calm)


def P23_dense_ortho():
    dense_ortho(calm)


def P23_dense_view():
    dense_view(calm)


def P23_mc_ring():
    mc_ring(calm)


def P23_mc_ring_part():
    mc_ring_part(calm)


def P23_dense_ring_part():
    dense_ring_part(calm)


def P23_mc_cap():
    mc_cap(calm)


def P23_mc_box():
    mc_box(calm)


def P23_mc_shell():
    mc_shell(calm)


def P23_random_points():
    random_points(one_stream)


def P23_random_points_repeat():
    random_points(twice)


def P23_random_pixel():
    random_pixel(one_stream)


def P23_random_pixel_repeat():
    random_pixel(twice)


def P23_random_samples():
    random_samples(one_stream)


def P23_random_samples_repeat():
    random_samples(twice)


def P23_random_kept():
    random_kept(one_stream)


def P23_random_kept_repeat():
    random_kept(twice)


def P23_random_pdf():
    random_pdf(one_stream)


def P23_random_pdf_repeat():
    random_pdf(twice)


# ------------------------------------------------------------------ P27 traces
def P27_coords_plane():
    coords_plane(silent)


def P27_coords_space():
    coords_space(silent)


def P27_coords_ortho():
    coords_ortho(silent)


def P27_coords_healpix():
    coords_healpix(silent)


def P27_coords_turn():
    coords_turn(silent)


def P27_grids():
    grids_calls(silent)


def P27_pixel_shapes():
    pixel_shapes(silent)


def P27_pixel_healpix():
    pixel_healpix(silent)


def P27_one_d():
    one_d_calls(silent)


def P27_remap():
    remap_calls(silent)


def P27_polar():
    polar_calls(silent)


def P27_dense_ring():
    dense_ring(silent)


def P27_dense_shell():
    dense_shell(silent)


def P27_dense_cap():
    dense_cap(silent)


def P27_dense_box():
    dense_box(silent)


def P27_dense_ortho():
    dense_ortho(silent)


def P27_dense_view():
    dense_view(silent)


def P27_mc_ring():
    mc_ring(silent)


def P27_mc_ring_part():
    mc_ring_part(silent)


def P27_dense_ring_part():
    dense_ring_part(silent)


def P27_mc_cap():
    mc_cap(silent)


def P27_mc_box():
    mc_box(silent)


def P27_mc_shell():
    mc_shell(silent)


def P27_random_points():
    random_points(silent)


def P27_random_pixel():
    random_pixel(silent)


def P27_random_samples():
    random_samples(silent)


def P27_random_kept():
    random_kept(silent)


def P27_random_pdf():
    random_pdf(silent)


# ------------------------------------------------------------------ P23 / P27 Monte Carlo weights
def same_weights(make, f, w):
    reset_rng()
    b = make(); quiet(OTHER, b.get_weights, 2, False)
    n = ndraws()
    c = make(); d = make()
    reset_rng()
    c.get_weights(2, False)
    equal(ndraws(), n, 'the same set-up draws as much again')
    equal(c.remap(f, None, False), b.remap(f, None, False), 'the same stream gives the same weights')
    equal(c.remap(f, w, False), b.remap(f, w, False), 'the same stream gives the same weights')
    reset_rng()
    d.get_weights(2, True)
    equal(ndraws(), n, 'progress messages draw nothing')


def asked(make, f, w):
    reset_rng()
    b = make(); quiet(TRACE, b.get_weights, 2, False)
    c = make()
    reset_rng()
    quiet(TRACE[1:], c.get_weights, 2, True)
    r = quiet(TRACE, b.remap, f, None, False)
    equal(quiet(TRACE[1:], c.remap, f, None, True), r, 'messages do not change the result')
    r = quiet(TRACE, b.remap, f, w, False)
    equal(c.remap(f, w, True), r, 'messages do not change the result')


def P23_weights_ring():
    same_weights(weights_ring, array('f', (2, 4)), array('w', (2, 4), 0.1, 2))


def P23_weights_cap():
    same_weights(weights_cap, array('f', 12), array('w', 12, 0.1, 2))


def P23_weights_box():
    same_weights(weights_box, array('f', 12), array('w', 12, 0.1, 2))


def P23_weights_shell():
    same_weights(weights_shell, array('f', (2, 2, 2)), array('w', (2, 2, 2), 0.1, 2))


def P27_weights_ring():
    asked(weights_ring, array('f', (2, 4)), array('w', (2, 4), 0.1, 2))


def P27_weights_ring_profile():
    b = weights_ring(); c = weights_ring()
    reset_rng(); b.get_weights(2, False)
    reset_rng(); c.get_weights(2, False)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    equal(c.polar2radial(p, q, q, True), b.polar2radial(p, q, q, False), 'messages do not change the result')


def P27_weights_cap():
    asked(weights_cap, array('f', 12), array('w', 12, 0.1, 2))


def P27_weights_box():
    asked(weights_box, array('f', 12), array('w', 12, 0.1, 2))


def P27_weights_shell():
    asked(weights_shell, array('f', (2, 2, 2)), array('w', (2, 2, 2), 0.1, 2))


def P27_many_rows():
    # long grids are no louder than short ones
    stream((0.4, 0.7, 0.2)); f = array('F', 12)
    for n in ((12, 25) if thorough() else (12,)):
        b = montecarlo.Heal2Ring(); b.setup_map(1); b.setup_polar_cap(0.1, 0.4, 1, n)
        quiet(TRACE, b.get_weights, 2, False); quiet(TRACE, b.remap, f, None, False)
        b = montecarlo.Heal2Polar(); b.setup_map(1); b.setup_box(0.2, 1, center=[PI/4, 0.9], y_grid=n)
        quiet(TRACE, b.get_weights, 2, False); quiet(TRACE, b.remap, f, None, False)
        b = montecarlo.Box2Ring(); b.setup_box(0, 2, 2, 0, 2, 2); b.setup_polar_lin(0.1, 0.4, 1, n, center=[0.5, 0.5])
        quiet(TRACE, b.get_weights, 2, False); quiet(TRACE, b.remap, array('f', (2, 2)), None, False)
        quiet(TRACE, b.polar2radial, array('p', (n, 1)))
        b = densegrid.Heal2Ring(); b.setup_map(1); b.setup_polar_cap(0.1, 0.4, 1, n)
        quiet(TRACE, b.remap, f, None, False)
        b = densegrid.Heal2Polar(); b.setup_map(1); b.setup_box(0.2, 1, center=[PI/4, 0.9], y_grid=n)
        quiet(TRACE, b.remap, f, None, False)
        b = densegrid.Box2Ring(); b.setup_box(0, 2, 2, 0, 2, 2); b.setup_polar(0.1, 0.4, 1, n, center=[0.5, 0.5])
        quiet(TRACE, b.remap, array('f', (2, 2)), None, False); quiet(TRACE, b.polar2radial, array('p', (n, 1)))


def P27_many_shells():
    stream((0.4, 0.7, 0.2)); f = array('f', (2, 2, 2))
    b = densegrid.Cube2Shell(); b.setup_cube(0, 2, 2, 0, 2, 2, 0, 2, 2); b.setup_polar(0.1, 0.4, 12, 1, center=[1, 1, 1])
    quiet(TRACE, b.remap, f, verbose=False)
    b = montecarlo.Cube2Shell(); b.setup_cube(0, 2, 2, 0, 2, 2, 0, 2, 2); b.setup_polar_lin(0.1, 0.4, 12, 1, center=[1, 1, 1])
    quiet(TRACE, b.get_weights, 2, False); quiet(TRACE, b.remap, f, verbose=False)


def P27_dense_asked():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring()
    b.setup_box(0, 3*s, 3, 0, 4*s, 4)
    b.setup_polar(0.2*s, 2.2*s, 2, 2, center=[1.4*s, 2*s])
    f = array('f', (4, 3)); p = array('p', (2, 2)); q = array('q', (2, 2), 0.1, 2)
    equal(b.remap(f, None, True), b.remap(f, None, False), 'messages do not change the result')
    b.get_mask_in_bound(True)
    m = clone(b.mask_in_bound)
    b.get_mask_in_bound(False)
    equal(b.mask_in_bound, m, 'messages do not change the result')
    equal(b.polar2radial(p, q, q, True), b.polar2radial(p, q, q, False), 'messages do not change the result')
    c = densegrid.Cube2Shell()
    c.setup_cube(0, 2*s, 2, 0, 3*s, 3, 0, 2*s, 2)
    c.setup_polar(0.2*s, 1.2*s, 1, 1, [1.1*s, 1.6*s, 0.9*s], 1, 2)
    g = array('g', (3, 2, 2))
    equal(c.remap(g, True), c.remap(g, False), 'messages do not change the result')


def P27_dense_asked_sky():
    f = array('f', 12); w = array('w', 12, 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    a = densegrid.Heal2Ring()
    a.setup_map(1); a.setup_polar_cap(0.2, 0.9, 1, 2)
    b = densegrid.Heal2Polar()
    b.setup_map(1); b.setup_box(0.9, 2)
    c = densegrid.Heal2Ortho()
    c.setup_map(1); c.setup_box(0.9, 2)
    for h in (a, b, c):
        equal(h.remap(f, None, True), h.remap(f, None, False), 'messages do not change the result')
        equal(h.remap(f, w, True), h.remap(f, w, False), 'messages do not change the result')
    equal(a.polar2radial(p, q, q, True), a.polar2radial(p, q, q, False), 'messages do not change the result')


def P27_bar():
    for n in (1, 2, 7, 60, 130):
        for k in (0, n // 2, n - 1):
            quiet(['file', 'global', 'os', 'external'], utils.progress_bar, k, n)
            quiet(['file', 'global', 'os', 'external'], utils.progress_bar, k, n, explanation='step', indexing=True)
