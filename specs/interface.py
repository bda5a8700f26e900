"""How functions are called: argument order, names, defaults; the forms an argument may take; the smallest sizes."""
import numpy as np
import healpy as hp
from magpie import coords, grids, pixel, randoms, polar, one_d, remap, densegrid, montecarlo

PI = np.pi


# ------------------------------------------------------------------ P03 position, name, default
def ways(f, req, opt):
    """f called by position, by name, with options left out, one by one and all together;
    req: [(name, value)], opt: [(name, documented default, some other value)]"""
    names = {}
    for k, v in req:
        names[k] = v
    given = [v for k, v in req]
    reset_rng()
    plain = clone(f(*given))
    reset_rng()
    equal(f(**names), plain, 'by name as by position')
    full = dict(names)
    for k, d, o in opt:
        full[k] = d
    reset_rng()
    equal(f(**full), plain, 'an argument left out has its documented default')
    for k, d, o in opt:
        given.append(o)
        full[k] = o
        reset_rng()
        r = clone(f(*given))
        reset_rng()
        equal(f(**full), r, 'by name as by position')
    for k, d, o in opt:
        one = dict(names); one[k] = o
        rest = dict(names)
        for q, e, p in opt:
            rest[q] = e
        rest[k] = o
        reset_rng()
        r = clone(f(**one))
        reset_rng()
        equal(f(**rest), r, 'an option given on its own leaves the others at their defaults')


def P03_coords_plane():
    x = array('x', 2); y = array('y', 2); c = array('c', 2)
    ways(coords.cart2polar, [('x', x), ('y', y)], [('center', [0., 0.], c)])
    r = array('r', 2, 0.1, 4); p = array('p', 2, 0, 6.28)
    ways(coords.polar2cart, [('r', r), ('phi', p)], [('center', [0., 0.], c)])
    ways(coords.rotate_polar, [('phi', p), ('rotate', real('s', 0.1, 6))], [])
    ways(coords.rotate_polar_grid, [('pedges', grids.get_xedges(2*PI, 4, 0.)), ('f_polar', array('f', (4, 2))), ('phi_shift', real('s', 0.2, 1.2))], [])


def P03_coords_space():
    x = array('x', 2); y = array('y', 2); z = array('z', 2); c = array('c', 3)
    ways(coords.cart2sphere, [('x', x), ('y', y), ('z', z)], [('center', [0., 0., 0.], c)])
    r = array('r', 2, 0.1, 4); p = array('p', 2, 0, 6.28); t = array('t', 2, 0.01, 3.14)
    ways(coords.sphere2cart, [('r', r), ('phi', p), ('theta', t)], [('center', [0., 0., 0.], c)])
    ways(coords.sphere2lonlat, [('theta', t)], [])
    ways(coords.lonlat2sphere, [('theta', array('l', 2, -1.57, 1.57))], [])
    ways(coords.usphere_area, [('phi_min', 0.1), ('phi_max', real('q', 0.2, 6)), ('theta_min', 0.3), ('theta_max', 0.9)], [])


def P03_coords_ortho():
    x = array('x', 2); y = array('y', 2)
    ways(coords.ortho2cart, [('x', x), ('y', y)], [('r', 1., 2.), ('fill_value', np.nan, -3.)])


def P03_coords_healpix():
    p = array('p', 2, 0, 6.28); t = array('t', 2, 0.01, 3.13)
    ways(coords.healpix_ang2xy, [('phi', p), ('theta', t)], [])
    ways(coords.healpix_xy2ang, [('healx', array('x', 2, 0, 6.28)), ('healy', array('y', 2, -1.5, 1.5))], [])


def P03_coords_turn():
    p = array('p', 2, 0, 6.28); t = array('t', 2, 0.01, 3.13)
    ways(coords.usphere_rotate, [('phi', p), ('theta', t), ('phi_end', 0.4), ('theta_end', 0.9)], [('phi_start', 0., 1.2), ('theta_start', 0., 0.3)])
    ways(coords.usphere_phi_shift, [('phi', p), ('dphi', real('s', -6, 6))], [])
    ways(coords.usphere_shift, [('phi', p), ('theta', t), ('phi_start', 0.4), ('theta_start', 0.9), ('phi_end', 1.2), ('theta_end', 0.3)], [])
    ways(coords.usphere_spin, [('phi', p), ('theta', t), ('phi_center', 0.4), ('theta_center', 0.9), ('alpha', 0.7)], [])


def P03_grids():
    L = real('L', 0.1, 4); M = real('M', 0.1, 4); m = real('m', 0.1, 2); n = real('n', 0.1, 2); o = real('o', 0.1, 2)
    ways(grids.get_xedges, [('length', L), ('ngrid', 3)], [('xmin', None, m)])
    ways(grids.get_xedges, [('length', L), ('ngrid', 3)], [('xmin', 0., m)])
    e = increasing('e', 4)
    ways(grids.xedges2mid, [('xedges', e)], [])
    ways(grids.xmid2edges, [('xmid', e)], [])
    ways(grids.grid1d, [('length', L), ('ngrid', 3)], [('xmin', None, m), ('return_edges', False, True)])
    ways(grids.grid1d, [('length', L), ('ngrid', 3)], [('xmin', 0., m), ('return_edges', False, True)])
    ways(grids.grid2d, [('lengths', [L, M]), ('ngrids', [2, 3])], [('mins', [None, None], [m, n]), ('return1d', False, True)])
    ways(grids.grid2d, [('lengths', [L, M]), ('ngrids', [2, 3])], [('mins', [0., 0.], [m, n]), ('return1d', False, True)])
    ways(grids.grid3d, [('lengths', [L, M, 2.]), ('ngrids', [2, 3, 1])], [('mins', [None, None, None], [m, n, o]), ('return1d', False, True)])
    ways(grids.grid3d, [('lengths', [L, M, 2.]), ('ngrids', [2, 3, 1])], [('mins', [0., 0., 0.], [m, n, o]), ('return1d', False, True)])


def P03_grids_polar():
    L = real('L', 1.1, 4); m = real('m', 0.1, 0.9)
    ways(grids.polargrid, [('nr', 2), ('nphi', 3)], [('rmin', 0., m), ('rmax', 1., L), ('phimin', 0., 0.3), ('phimax', 2*PI, 2.), ('return1d', False, True)])
    ways(grids.polarEA_grid, [('nr', 2)], [('rmax', 1., 2), ('base_nphi', 4, 3)])
    ways(grids.polarEA_area, [('nr', 2)], [('rmax', 1., 2), ('base_nphi', 4, 3)])
    ways(grids.polarEA_npix, [('nr', 2)], [('base_nphi', 4, 3)])


def P03_pixel_shapes():
    a = real('a', 1, 2); b = real('b', 1, 2); c = [real('x'), real('y')]
    ways(pixel.get_square, [('xmin', 0.), ('xmax', a), ('ymin', 0.5), ('ymax', 0.5 + b)], [('steps', 40, 8)])
    ways(pixel.get_arc, [('radius', a)], [('phimin', 0., 0.4), ('phimax', 2*PI, 2.), ('center', [0., 0.], c), ('steps', 10, 5)])
    ways(pixel.get_disc, [], [('rmin', 0., 0.3), ('rmax', 1., a), ('phimin', 0., 0.4), ('phimax', 2*PI, 2.), ('center', [0., 0.], c), ('steps', 40, 8)])
    ways(pixel.get_box, [('xmin', 1.), ('xmax', 1. + a), ('ymin', 2.), ('ymax', 2. + b), ('zmin', 3.), ('zmax', 4.)],
         [('steps', 120, 24), ('return_nearest', False, True), ('center', [0., 0., 0.], [0.1, 0.2, 0.3])])


def P03_pixel_healpix():
    p = np.array([0, 3, 7, 20, 30, 47])
    ways(pixel.healpix_pix2ij, [('p', p), ('nside', 2)], [])
    i, j = pixel.healpix_pix2ij(p, 2)
    ways(pixel.healpix_ij2pix, [('ringi', i), ('ringj', j), ('nside', 2)], [])
    ways(pixel.healpix_i2id, [('ringi', i), ('nside', 2)], [])
    ways(pixel.healpix_j2jd, [('ringi', i), ('ringj', j), ('nside', 2)], [])
    a = pixel.healpix_i2id(i, 2); b = pixel.healpix_j2jd(i, j, 2)
    ways(pixel.healpix_ijd2ijs, [('idash', a), ('jdash', b), ('nside', 2)], [])
    k, l = pixel.healpix_ijd2ijs(a, b, 2)
    ways(pixel.healpix_ijs2ijd, [('istar', k), ('jstar', l), ('nside', 2)], [])
    ways(pixel.healpix_ij2xy, [('ringi', i), ('ringj', j), ('nside', 2)], [])
    ways(pixel.healpix_pix2xy, [('p', p), ('nside', 2)], [])


def P03_pixel_boundary():
    for p in (0, 5, 21, 47):
        ways(pixel.healpix_boundary_top, [('p', p), ('nside', 2)], [('steps', 20, 4), ('reverse', False, True)])
        ways(pixel.healpix_boundary_bot, [('p', p), ('nside', 2)], [('steps', 20, 4), ('reverse', False, True)])
        ways(pixel.healpix_boundary, [('p', p), ('nside', 2)], [('steps', 40, 8), ('reverse', False, True)])


def P03_random_points():
    a = real('a', 0, 0.4); b = real('b', 1.1, 2); c = real('c', 0.5, 0.9); d = real('d', 2.5, 3); e = real('e', 0.1, 0.3)
    ways(randoms.randoms_1d, [('size', 3)], [('xmin', 0., a), ('xmax', 1., b)])
    ways(randoms.randoms_2d, [('size', 2)], [('mins', [0., 0.], [a, c]), ('maxs', [1., 1.], [b, d])])
    ways(randoms.randoms_3d, [('size', 2)], [('mins', [0., 0., 0.], [a, c, e]), ('maxs', [1., 1., 1.], [b, d, 5.])])
    ways(randoms.randoms_polar, [('size', 2)], [('r_min', 0., a), ('r_max', 1., b), ('phi_min', 0., c), ('phi_max', 2*PI, d)])
    ways(randoms.randoms_sphere_r, [('size', 2)], [('r_min', 0., a), ('r_max', 1., b)])
    ways(randoms.randoms_sphere, [('size', 2)], [('r_min', 0., a), ('r_max', 1., b), ('phi_min', 0., c), ('phi_max', 2*PI, d), ('theta_min', 0., e), ('theta_max', PI, 0.8)])
    ways(randoms.randoms_usphere, [('size', 2)], [('phi_min', 0., c), ('phi_max', 2*PI, d), ('theta_min', 0., e), ('theta_max', PI, 0.8)])


def P03_random_rest():
    ways(randoms.randoms_healpix_pixel, [('size', 2), ('p', 5), ('nside', 1)], [])
    s = array('s', 3); p = array('p', 3, 0.1, 0.9)
    ways(randoms.shuffle, [('sample', s)], [])
    ways(randoms.random_draw, [('sample', s), ('size', 2)], [])
    ways(randoms.random_prob_draw, [('sample', s), ('prob', p), ('size', 2)], [])
    ways(randoms.stochastic_integer_weights, [('weights', array('w', 3, 0, 3))], [])
    ways(randoms.stochastic_binary_weights, [('weights', array('w', 3, 0, 1))], [])
    x = grids.grid1d(real('L', 0.5, 2), 5)
    q = array('q', 5, 0.1, 2)
    ways(randoms.pdf2cdf, [('xmid', x), ('pdf', q)], [('return_normpdf', True, False)])
    e, c = randoms.pdf2cdf(x, q, False)
    ways(randoms.randoms_cdf, [('x', e), ('cdf', c), ('size', 2)], [('kind', 'cubic', 'linear')])
    ways(randoms.randoms_pdf, [('xmid', x), ('pdf', q), ('size', 2)], [('kind', 'cubic', 'linear')])


def P03_random_kept():
    s = array('s', 2); p = array('p', 2, 0.1, 0.9)
    assume(U(0, 2)[0] < p[0]); assume(U(0, 2)[1] > p[1])
    ways(randoms.random_prob_draw, [('sample', s), ('prob', p)], [])
    ways(randoms.random_prob_draw, [('sample', s), ('prob', p)], [('size', None, 1)])


def P03_one_d():
    e = increasing('e', 4)
    d = array('d', 3); s = array('s', 3, 0.1, 2); w = array('w', 3, 0.1, 2)
    t = real('t', 0.1, 0.9)
    b = np.array([e[0] + t*(e[1] - e[0]), e[1] + t*(e[2] - e[1]), e[3] - t*(e[3] - e[2])])
    ways(one_d.rebin_1d, [('bin_edges', e), ('data', d), ('new_bin_edges', b)], [('w', None, w), ('sigma', None, s)])
    ways(one_d.rebin_1d_single_bin_weights, [('bin_edges', e), ('bin_min', b[0]), ('bin_max', b[1])], [])


def P03_remap():
    d = real('d', 0.1, 2)
    ways(remap.grid2grid1D, [('f1', array('f', 3)), ('boxsize', 3*d), ('ngridout', 2)], [('origin', 0., 0.2*d), ('originout', 0., 0.3*d), ('boxsizeout', 3*d, 2*d)])
    ways(remap.grid2grid2D, [('f1', array('g', (2, 2))), ('boxsize', 2*d), ('ngridout', 1)],
         [('origin', 0., [0.2*d, 0.1*d]), ('originout', 0., [0.3*d, 0.4*d]), ('boxsizeout', 2*d, [d, 1.5*d])])
    ways(remap.grid2grid3D, [('f1', array('h', (2, 1, 2))), ('boxsize', [2*d, d, 2*d]), ('ngridout', 1)],
         [('origin', 0., [0.2*d, 0.1*d, 0.]), ('originout', 0., [0.3*d, 0.4*d, 0.5*d]), ('boxsizeout', [2*d, d, 2*d], [d, 0.5*d, 1.5*d])])
    ways(remap.grid2grid1D, [('f1', array('f', 3)), ('boxsize', 3*d), ('ngridout', 2)], [('origin', 0., 0.2*d), ('originout', 0., 0.3*d), ('boxsizeout', None, 2*d)])


def P03_polar():
    e = increasing('e', 3, 0)
    p = np.array([0., 1., 2., 3.])
    f = array('f', (3, 2)); s = array('s', (3, 2), 0.1, 2); w = array('w', (3, 2), 0.1, 2)
    A = polar.get_polar_area2d(e, p)
    ways(polar.get_polar_area2d, [('redges', e), ('pedges', p)], [])
    ways(polar.get_pixarea, [('xedges', e), ('yedges', p)], [])
    ways(polar.polar2radial, [('f', f), ('area2d', A), ('pixarea', 0.3)], [('sigma', None, s), ('w', None, w)])
    ways(polar.cumulative_radial, [('redges', e), ('f', array('g', 2))], [('sigma', None, array('v', 2, 0.1, 2))])


# set-up steps: what the object then does
def seen(make, step, use):
    """a function that sets up a fresh object and returns what it then gives"""
    def f(*a, **kw):
        b = make()
        getattr(b, step)(*a, **kw)
        return use(b)
    return f


def ringed(b):
    s = 0.7
    b.setup_box(0., 3*s, 3, 0., 4*s, 4)
    return b


def ring_map():
    return array('f', (4, 3))


def P03_dense_ring():
    f = ring_map(); w = array('w', (4, 3), 0.1, 2); s = 0.7
    go = seen(lambda: ringed(densegrid.Box2Ring()), 'setup_polar', lambda b: b.remap(f, None, False))
    ways(go, [('rmin', 0.2), ('rmax', 1.2), ('numr', 2), ('nump', 3)],
         [('pmin', 0., 0.3), ('pmax', 2*PI, 2.), ('center', [0., 0.], [0.9, 1.1]), ('rebin_r', 2, 1), ('rebin_p', 2, 3), ('phi_shift', 0., 0.4)])
    def box(b):
        b.setup_polar(0.2, 1.2, 2, 3, center=[1., 1.4])
        return b.remap(f, None, False)
    go = seen(densegrid.Box2Ring, 'setup_box', box)
    ways(go, [('xmin', 0.1), ('xmax', 2.), ('numx', 3), ('ymin', 0.2), ('ymax', 2.6), ('numy', 4)], [])
    b = ringed(densegrid.Box2Ring()); b.setup_polar(0.2, 1.2, 2, 3, center=[1., 1.4])
    p = array('p', (3, 2)); q = array('q', (3, 2), 0.1, 2)
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])
    ways(b.rotate_polar, [('f_polar', p), ('phi_shift', 0.3)], [])
    ways(b.polar2radial, [('f_polar', p)], [('sigma', None, q), ('w', None, 2*q), ('verbose', False, True)])


def P03_mc_ring():
    f = ring_map(); w = array('w', (4, 3), 0.1, 2)
    def use(b):
        b.get_weights(2, False)
        return b.redges, b.pedges, b.remap(f, None, False)
    def at(n):
        b = ringed(montecarlo.Box2Ring())
        b.setup_polar_lin(0.2, 0.9, 1, 2, center=[1., 1.4])
        return b
    opt = [('pmin', 0., 0.3), ('pmax', 2*PI, 2.), ('center', [0., 0.], [0.9, 1.1]), ('phi_shift', 0., 0.4)]
    go = seen(lambda: ringed(montecarlo.Box2Ring()), 'setup_polar_lin', use)
    ways(go, [('rmin', 0.2), ('rmax', 1.2), ('numr', 1), ('nump', 2)], opt)
    go = seen(lambda: ringed(montecarlo.Box2Ring()), 'setup_polar_log', use)
    ways(go, [('rmin', 0.2), ('rmax', 1.2), ('numr', 1), ('nump', 2)], opt + [('addzero', True, False)])
    def box(b):
        b.setup_polar_lin(0.2, 0.9, 1, 2, center=[1., 1.4])
        return use(b)
    go = seen(montecarlo.Box2Ring, 'setup_box', box)
    ways(go, [('xmin', 0.1), ('xmax', 2.), ('numx', 3), ('ymin', 0.2), ('ymax', 2.6), ('numy', 4)], [])
    b = at(0)
    b.get_weights(2, False)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])
    ways(b.rotate_polar, [('f_polar', p), ('phi_shift', 0.3)], [])
    ways(b.polar2radial, [('f_polar', p)], [('sigma', None, q), ('w', None, 2*q), ('verbose', False, True)])
    go = seen(lambda: at(0), 'get_weights', lambda b: b.remap(f, None, False))
    ways(go, [('mc_size', 3)], [('verbose', True, False)])


def P03_mc_ring_size():
    b = montecarlo.Box2Ring()
    b.setup_box(0., 1., 1, 0., 1., 1); b.setup_polar_lin(0.1, 0.2, 1, 1, center=[0.5, 0.5])
    n = ndraws()
    b.get_weights(verbose=False)
    equal(ndraws() - n, 20000, 'points per cell when none are asked for')


def P03_dense_shell():
    f = array('f', (3, 2, 2))
    def cubed():
        b = densegrid.Cube2Shell()
        b.setup_cube(0., 1.4, 2, 0., 2.1, 3, 0., 1.4, 2)
        return b
    go = seen(cubed, 'setup_polar', lambda b: b.remap(f, False))
    ways(go, [('rmin', 0.2), ('rmax', 0.6), ('numr', 1), ('nside', 1)],
         [('center', [0., 0., 0.], [0.8, 1.1, 0.7]), ('rebin_shell', 2, 1), ('rebin_r', 2, 1), ('periodicx', [0, 0], [-1, 0]), ('periodicy', [0, 0], [0, 1]), ('periodicz', [0, 0], [-1, 1])])
    def cube(b):
        b.setup_polar(0.2, 0.6, 1, 1, [0.8, 1.1, 0.7], 1, 1)
        return b.remap(f, False)
    go = seen(densegrid.Cube2Shell, 'setup_cube', cube)
    ways(go, [('xmin', 0.1), ('xmax', 1.4), ('numx', 2), ('ymin', 0.2), ('ymax', 2.1), ('numy', 3), ('zmin', 0.3), ('zmax', 1.5), ('numz', 2)], [])
    b = cubed(); b.setup_polar(0.2, 0.6, 1, 1, [0.8, 1.1, 0.7], 1, 1)
    ways(b.remap, [('f', f)], [('verbose', True, False)])


def P03_mc_shell():
    f = array('f', (2, 2, 2)); w = array('w', (2, 2, 2), 0.1, 2)
    def cubed():
        b = montecarlo.Cube2Shell()
        b.setup_cube(0., 1.4, 2, 0., 1.4, 2, 0., 1.4, 2)
        return b
    opt = [('center', [0., 0., 0.], [0.65, 0.6, 0.55])]
    def edges(b):
        return b.redges, b.center
    go = seen(cubed, 'setup_polar_lin', edges)
    ways(go, [('rmin', 0.2), ('rmax', 0.5), ('numr', 2), ('nside', 1)], opt)
    go = seen(cubed, 'setup_polar_log', edges)
    ways(go, [('rmin', 0.2), ('rmax', 0.5), ('numr', 2), ('nside', 1)], opt + [('addzero', True, False)])
    b = cubed(); b.setup_polar_lin(0.1, 0.3, 1, 1, [0.65, 0.6, 0.55]); b.get_weights(2, False)
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])


def P03_mc_shell_size():
    def one():
        b = montecarlo.Cube2Shell()
        b.setup_cube(0., 1., 1, 0., 1., 1, 0., 1., 1)
        b.setup_polar_lin(0.1, 0.2, 1, 1, center=[0.5, 0.5, 0.5])
        reset_rng()
        return b
    n = []
    for k in (1, 2):
        b = one()
        b.get_weights(k, False)
        n.append(ndraws())
    b = one()
    b.get_weights(verbose=False)
    equal(ndraws(), n[0] + 99*(n[1] - n[0]), 'points per cell when none are asked for')


def P03_dense_cap():
    f = array('f', 12); w = array('w', 12, 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    def mapped():
        b = densegrid.Heal2Ring(); b.setup_map(1)
        return b
    go = seen(mapped, 'setup_polar_cap', lambda b: b.remap(f, None, False))
    ways(go, [('alpha_min', 0.2), ('alpha_max', 0.9), ('num_alpha', 1), ('num_beta', 2)],
         [('beta_min', 0., 0.4), ('beta_max', 2*PI, 2.), ('center', [0., 0.], [1.1, 0.7]), ('beta_shift', 0., 0.3), ('rebin_alpha', 2, 1), ('rebin_beta', 2, 3)])
    b = mapped(); b.setup_polar_cap(0.2, 0.9, 1, 2, center=[1.1, 0.7])
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])
    ways(b.rotate_polar, [('f_polar', p), ('beta_shift', 0.3)], [])
    ways(b.polar2radial, [('f_polar', p)], [('sigma', None, q), ('w', None, 2*q), ('verbose', False, True)])


def P03_mc_cap():
    f = array('f', 12); w = array('w', 12, 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    def mapped():
        b = montecarlo.Heal2Ring(); b.setup_map(1)
        return b
    def use(b):
        b.get_weights(2, False)
        return b.remap(f, None, False)
    go = seen(mapped, 'setup_polar_cap', use)
    ways(go, [('alpha_min', 0.2), ('alpha_max', 0.9), ('num_alpha', 1), ('num_beta', 2)],
         [('beta_min', 0., 0.4), ('beta_max', 2*PI, 2.), ('center', [0., 0.], [1.1, 0.7]), ('beta_shift', 0., 0.3)])
    b = mapped(); b.setup_polar_cap(0.2, 0.9, 1, 2, center=[1.1, 0.7]); b.get_weights(2, False)
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])
    ways(b.rotate_polar, [('f_polar', p), ('beta_shift', 0.3)], [])
    ways(b.polar2radial, [('f_polar', p)], [('sigma', None, q), ('w', None, 2*q), ('verbose', False, True)])


def P03_dense_box():
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    def mapped():
        b = densegrid.Heal2Polar(); b.setup_map(1)
        return b
    go = seen(mapped, 'setup_box', lambda b: b.remap(f, None, False))
    opt = [('center', [0., 0.], [1.1, 0.7]), ('alpha', 0., 0.4), ('y_length', None, 0.5), ('y_grid', None, 1), ('rebin_x', 2, 1), ('rebin_y', 2, 3)]
    ways(go, [('x_length', 0.9), ('x_grid', 2)], opt)
    opt = [('center', [0., 0.], [1.1, 0.7]), ('alpha', 0., 0.4), ('y_length', 0.9, 0.5), ('y_grid', 2, 1), ('rebin_x', 2, 1), ('rebin_y', 2, 3)]
    ways(go, [('x_length', 0.9), ('x_grid', 2)], opt)
    b = mapped(); b.setup_box(0.9, 2, center=[1.1, 0.7])
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])


def P03_mc_box():
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    def mapped():
        b = montecarlo.Heal2Polar(); b.setup_map(1)
        return b
    def use(b):
        b.get_weights(2, False)
        return b.remap(f, None, False)
    go = seen(mapped, 'setup_box', use)
    opt = [('center', [0., 0.], [1.1, 0.7]), ('alpha', 0., 0.4), ('y_length', None, 0.5), ('y_grid', None, 2)]
    ways(go, [('x_length', 0.9), ('x_grid', 1)], opt)
    opt = [('center', [0., 0.], [1.1, 0.7]), ('alpha', 0., 0.4), ('y_length', 0.9, 0.5), ('y_grid', 1, 2)]
    ways(go, [('x_length', 0.9), ('x_grid', 1)], opt)
    b = mapped(); b.setup_box(0.9, 1, center=[1.1, 0.7]); b.get_weights(2, False)
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])


def P03_ortho():
    f = array('f', 12); w = array('w', 12, 0.1, 2)
    def mapped():
        b = densegrid.Heal2Ortho(); b.setup_map(1)
        return b
    go = seen(mapped, 'setup_box', lambda b: b.remap(f, None, False))
    opt = [('center', [0., 0.], [1.1, 0.7]), ('y_length', None, 0.5), ('y_grid', None, 1), ('rebin_x', 2, 1), ('rebin_y', 2, 3), ('radius', 1., 2.)]
    ways(go, [('x_length', 0.9), ('x_grid', 2)], opt)
    opt = [('center', [0., 0.], [1.1, 0.7]), ('y_length', 0.9, 0.5), ('y_grid', 2, 1), ('rebin_x', 2, 1), ('rebin_y', 2, 3), ('radius', 1., 2.)]
    ways(go, [('x_length', 0.9), ('x_grid', 2)], opt)
    b = mapped(); b.setup_box(0.9, 2, center=[1.1, 0.7])
    ways(b.remap, [('f', f)], [('w', None, w), ('verbose', True, False)])
    ways(b.transform, [('phi', np.array([0.9, 1.3])), ('theta', np.array([0.8, 0.9]))], [])


def P03_view():
    x = array('x', 2, 3, 4); y = array('y', 2, 2, 3); z = array('z', 2, 0.2, 0.6)
    go = seen(densegrid.PointOfView, 'setup', lambda b: b.transform(x, y, z))
    ways(go, [('camera', [0., 0., 0.]), ('point', [1., 1., 1.]), ('display', 2.)], [('spin', 0., 0.3)])
    b = densegrid.PointOfView(); b.setup([0., 0., 0.], [1., 1., 1.], 2.)
    ways(b.transform, [('x', x), ('y', y), ('z', z)], [])
    ways(b.reverse, [('bx', x), ('by', y), ('dist', 3*z)], [])
