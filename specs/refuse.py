"""Arguments out of range are refused before anything is stored, and the limits themselves are accepted."""
import numpy as np
import healpy as hp
from magpie import coords, densegrid, montecarlo, one_d, pixel, randoms

PI = np.pi


def low(k=0):
    return real('low%d' % k, -4, -0.001)


def high(x):
    return real('over', x + 0.001, x + 4)


def none_or_less():
    return integer('n', -3, 0)


def refused(b, f, lab, *a, **kw):
    holds(raises(f, *a, **kw), lab)
    s = snap(b)
    attempt(f, *a, **kw)
    same_as(s, 'a refused call changes nothing')


def taken(f, lab, *a, **kw):
    holds(not raises(f, *a, **kw), lab)


# ------------------------------------------------------------------ P26 box to ring
def box_sides(b):
    for n in (0, -1, -2):
        box_count(b, n)
    taken(b.setup_box, 'one cell is accepted', 0, 1, 1, 0, 1, 1)


def box_count(b, n):
    refused(b, b.setup_box, 'a box without cells is refused', 0, 1, n, 0, 1, 2)
    refused(b, b.setup_box, 'a box without cells is refused', 0, 1, 2, 0, 1, n)


def ring_limits(b, f, log):
    lo = low(); m = real('m', 0.5, 2)
    refused(b, f, 'a negative radius is refused', lo, m, 2, 4)
    refused(b, f, 'radii in the wrong order are refused', m, real('q', 0.1, 0.4), 2, 4)
    refused(b, f, 'an empty range of radii is refused', m, m, 2, 4)
    for k in (0, -1, -2):
        refused(b, f, 'no rings is refused', 0.1, m, k, 4)
        refused(b, f, 'no sectors is refused', 0.1, m, 2, k)
    refused(b, f, 'an angle below zero is refused', 0.1, m, 2, 4, pmin=lo, pmax=1.)
    refused(b, f, 'an angle beyond the circle is refused', 0.1, m, 2, 4, pmax=high(2*PI))
    refused(b, f, 'a range of angles that starts at the end of the circle is refused', 0.1, m, 2, 4, pmin=2*PI, pmax=7.)
    refused(b, f, 'angles in the wrong order are refused', 0.1, m, 2, 4, pmin=real('p1', 2, 3), pmax=real('p2', 0.5, 1.9))
    refused(b, f, 'an empty range of angles is refused', 0.1, m, 2, 4, pmin=1., pmax=1.)
    refused(b, f, 'a centre without two coordinates is refused', 0.1, m, 2, 4, center=[0, 0, 0])
    refused(b, f, 'a centre without two coordinates is refused', 0.1, m, 2, 4, center=[0])
    taken(f, 'the full circle is accepted', 0.1, m, 1, 1, pmin=0, pmax=2*PI)
    taken(f, 'a part of the circle is accepted', 0.1, m, 1, 1, pmin=0.5, pmax=2*PI)
    taken(f, 'a part of the circle is accepted', 0.1, m, 1, 1, pmin=0., pmax=0.25)
    if log:
        refused(b, f, 'logarithmic rings from radius zero are refused', 0, m, 2, 4)
    else:
        taken(f, 'rings from radius zero are accepted', 0, m, 1, 1)


def ready(b):
    b.setup_box(0, 3, 3, 0, 4, 4)


def P26_ring_dense():
    b = densegrid.Box2Ring()
    box_sides(b); ready(b)
    ring_limits(b, b.setup_polar, False)
    b.setup_polar(0.1, 0.9, 2, 4, center=[1.5, 2])
    box_sides(b); ring_limits(b, b.setup_polar, False)


def P26_ring_mc():
    b = montecarlo.Box2Ring()
    box_sides(b); ready(b)
    ring_limits(b, b.setup_polar_lin, False)
    ring_limits(b, b.setup_polar_log, True)
    b.setup_polar_lin(0.1, 0.9, 2, 4, center=[1.5, 2])
    box_sides(b); ring_limits(b, b.setup_polar_lin, False); ring_limits(b, b.setup_polar_log, True)


def ring_shapes(b):
    for sh in ((4, 3), (2, 3), (4, 2, 1), (8,), (1, 4)):
        p = array('p', sh)
        refused(b, b.rotate_polar, 'a map of another shape is refused', p, 1.)
        refused(b, b.polar2radial, 'a map of another shape is refused', p)
        refused(b, b.polar2radial, 'errors of another shape are refused', array('P', (2, 2)), sigma=p)
    p = array('P', (2, 2))
    refused(b, b.rotate_polar, 'a turn by nothing or backwards is refused', p, integer('t', -2, 0))
    refused(b, b.rotate_polar, 'a turn by a full circle or more is refused', p, 2*PI + real('o', 0, 3))
    taken(b.rotate_polar, 'a turn within the circle is accepted', p, 0.1); taken(b.rotate_polar, 'a turn within the circle is accepted', p, 6.28)


def P26_ring_shapes_dense():
    b = densegrid.Box2Ring()
    ready(b)
    b.setup_polar(0.1, 0.9, 2, 2, center=[1.5, 2])
    b.polar2radial(array('P', (2, 2)))
    ring_shapes(b)


def P26_ring_shapes_mc():
    b = montecarlo.Box2Ring()
    b.setup_box(0, 6, 1, 0, 6, 1)
    b.setup_polar_lin(0.1, 0.9, 2, 2, center=[3, 3])
    refused(b, b.get_weights, 'one random point or fewer is refused', 1, False)
    refused(b, b.get_weights, 'one random point or fewer is refused', 0, False)
    refused(b, b.get_weights, 'one random point or fewer is refused', -2, False)
    b.get_weights(2, False)
    b.polar2radial(array('P', (2, 2)))
    ring_shapes(b)
    for sh in ((1, 2), (2, 1), (1,), (1, 1, 1)):
        refused(b, b.remap, 'a field of another shape is refused', array('f', sh), None, False)
        refused(b, b.remap, 'weights of another shape are refused', array('F', (1, 1)), array('w', sh, 0.1, 1), False)
    taken(b.remap, 'a field of the shape of the box is accepted', array('F', (1, 1)), array('W', (1, 1), 0.1, 1), False)
    taken(b.get_weights, 'two random points are accepted', 2, False)


def P26_ring_unset():
    b = densegrid.Box2Ring()
    refused(b, b.get_mask_in_bound, 'a mask needs grids', False)
    b.setup_box(0, 1, 1, 0, 1, 1)
    refused(b, b.get_mask_in_bound, 'a mask needs grids', False)
    b = montecarlo.Box2Ring()
    refused(b, b.get_mask_in_bound, 'a mask needs grids', False)
    b.setup_box(0, 1, 1, 0, 1, 1)
    refused(b, b.get_mask_in_bound, 'a mask needs grids', False)


def early(b, f, lab, *a, **kw):
    refused(b, f, lab, *a, **kw)
    equal(ndraws(), 0, 'a refused call draws nothing')


def P26_early_mc():
    f = array('f', (2, 3)); m = array('m', 12); c = array('c', (2, 2, 2))
    b = montecarlo.Box2Ring()
    early(b, b.remap, 'a remap before the box is set up is refused', f, None, False)
    early(b, b.get_weights, 'points before the ring is set up are refused', 3, False)
    b.setup_box(0, 1, 2, 0, 1, 3)
    early(b, b.get_weights, 'points before the ring is set up are refused', 3, False)
    b.setup_polar_lin(0.1, 0.5, 1, 2, center=[0.5, 0.5])
    early(b, b.remap, 'a remap before its points are drawn is refused', array('F', np.shape(b.x2d)), None, False)
    early(b, b.remap, 'a remap before its points are drawn is refused', array('F', np.shape(b.x2d)), np.ones(np.shape(b.x2d)), False)
    early(b, b.get_mask_in_bound, 'a mask before its points are drawn is refused', False)
    b = montecarlo.Heal2Ring()
    early(b, b.remap, 'a remap before the cap is set up is refused', m, None, False)
    early(b, b.get_weights, 'points before the cap is set up are refused', 3, False)
    b.setup_map(1)
    b.setup_polar_cap(0.1, 0.5, 1, 2)
    early(b, b.remap, 'a remap before its points are drawn is refused', m, None, False)
    early(b, b.remap, 'a remap before its points are drawn is refused', m, np.ones(12), False)
    b = montecarlo.Heal2Polar()
    early(b, b.remap, 'a remap before the box is set up is refused', m, None, False)
    early(b, b.get_weights, 'points before the box is set up are refused', 3, False)
    b.setup_map(1)
    b.setup_box(0.2, 1, y_grid=2)
    early(b, b.remap, 'a remap before its points are drawn is refused', m, None, False)
    early(b, b.remap, 'a remap before its points are drawn is refused', m, np.ones(12), False)


def P26_early_mc_shell():
    c = array('c', (2, 2, 2))
    b = montecarlo.Cube2Shell()
    early(b, b.remap, 'a remap before the cube is set up is refused', c, None, False)
    early(b, b.get_weights, 'points before the shells are set up are refused', 3, False)
    b.setup_cube(0, 1, 2, 0, 1, 2, 0, 1, 2)
    early(b, b.remap, 'a remap before the shells are set up is refused', c, None, False)
    early(b, b.get_weights, 'points before the shells are set up are refused', 3, False)
    b.setup_polar_lin(0.1, 0.4, 1, 1, center=[0.5, 0.5, 0.5])
    early(b, b.remap, 'a remap before its points are drawn is refused', c, None, False)
    early(b, b.remap, 'a remap before its points are drawn is refused', c, np.ones((2, 2, 2)), False)


def P26_early_dense():
    f = array('f', (2, 3)); m = array('m', 12); c = array('c', (2, 2, 2))
    b = densegrid.Box2Ring()
    early(b, b.remap, 'a remap before the box is set up is refused', f, None, False)
    b.setup_box(0, 1, 2, 0, 1, 3)
    early(b, b.remap, 'a remap before the ring is set up is refused', array('F', np.shape(b.x2d)), None, False)
    b = densegrid.Heal2Ring()
    early(b, b.remap, 'a remap before the cap is set up is refused', m, None, False)
    b.setup_map(1)
    early(b, b.remap, 'a remap before the cap is set up is refused', m, None, False)
    b = densegrid.Heal2Polar()
    early(b, b.remap, 'a remap before the box is set up is refused', m, None, False)
    b.setup_map(1)
    early(b, b.remap, 'a remap before the box is set up is refused', m, None, False)
    b = densegrid.Heal2Ortho()
    early(b, b.remap, 'a remap before the view is set up is refused', m, None, False)
    b = densegrid.Cube2Shell()
    early(b, b.remap, 'a remap before the cube is set up is refused', c, False)
    b.setup_cube(0, 1, 2, 0, 1, 2, 0, 1, 2)
    early(b, b.remap, 'a remap before the shells are set up is refused', c, False)


# ------------------------------------------------------------------ P26 sphere to cap
def cap_limits(b):
    f = b.setup_polar_cap; lo = low(); m = real('m', 0.5, 2)
    for k in (0, -1):
        refused(b, b.setup_map, 'a map without resolution is refused', k)
    refused(b, f, 'a negative angle from the centre is refused', lo, m, 2, 4)
    refused(b, f, 'angles from the centre in the wrong order are refused', m, real('q', 0.1, 0.4), 2, 4)
    refused(b, f, 'an empty range of angles from the centre is refused', m, m, 2, 4)
    for k in (0, -1, -2):
        refused(b, f, 'no rings is refused', 0, m, k, 4)
        refused(b, f, 'no sectors is refused', 0, m, 2, k)
    refused(b, f, 'an angle around the centre below zero is refused', 0, m, 2, 4, beta_min=lo, beta_max=1.)
    refused(b, f, 'an angle around the centre beyond the circle is refused', 0, m, 2, 4, beta_max=high(2*PI))
    refused(b, f, 'a range of angles that starts at the end of the circle is refused', 0, m, 2, 4, beta_min=2*PI, beta_max=7.)
    refused(b, f, 'angles around the centre in the wrong order are refused', 0, m, 2, 4, beta_min=real('p1', 2, 3), beta_max=real('p2', 0.5, 1.9))
    refused(b, f, 'an empty range of angles around the centre is refused', 0, m, 2, 4, beta_min=1., beta_max=1.)
    refused(b, f, 'a centre without two coordinates is refused', 0, m, 2, 4, center=[0, 0, 0])
    refused(b, f, 'a centre without two coordinates is refused', 0, m, 2, 4, center=[0])
    taken(f, 'the full circle is accepted', 0, m, 1, 1, beta_min=0, beta_max=2*PI)
    taken(f, 'a part of the circle is accepted', 0.1, m, 1, 1, beta_min=0.5, beta_max=2*PI)
    taken(b.setup_map, 'one pixel per face is accepted', 1); taken(b.setup_map, 'a fine map is accepted', 64)


def cap_shapes(b):
    for sh in ((4, 3), (2, 3), (4, 2, 1), (8,), (1, 4)):
        p = array('p', sh)
        refused(b, b.rotate_polar, 'a map of another shape is refused', p, 1.)
        refused(b, b.polar2radial, 'a map of another shape is refused', p)
        refused(b, b.polar2radial, 'errors of another shape are refused', array('P', (2, 2)), sigma=p)
    p = array('P', (2, 2))
    refused(b, b.rotate_polar, 'a turn by nothing or backwards is refused', p, integer('t', -2, 0))
    refused(b, b.rotate_polar, 'a turn by a full circle or more is refused', p, 2*PI + real('o', 0, 3))


def P26_cap_dense():
    b = densegrid.Heal2Ring()
    b.setup_map(2)
    cap_limits(b)
    b.setup_polar_cap(0.1, 0.9, 2, 2)
    b.polar2radial(array('P', (2, 2)))
    cap_limits(b); cap_shapes(b)


def P26_cap_mc():
    b = montecarlo.Heal2Ring()
    b.setup_map(1)
    cap_limits(b)
    b.setup_polar_cap(0.1, 0.2, 2, 2)
    refused(b, b.get_weights, 'one random point or fewer is refused', 1, False)
    refused(b, b.get_weights, 'one random point or fewer is refused', 0, False)
    refused(b, b.get_weights, 'one random point or fewer is refused', -2, False)
    b.get_weights(2, False)
    b.polar2radial(array('P', (2, 2)))
    cap_limits(b); cap_shapes(b)
    for n in (11, 13, 48):
        refused(b, b.remap, 'a map of another resolution is refused', array('f', n), None, False)
        refused(b, b.remap, 'weights of another resolution are refused', array('F', 12), array('w', n, 0.1, 1), False)


# ------------------------------------------------------------------ P26 sphere to box
def box_limits(b, mc):
    f = b.setup_box; lo = low(); m = real('m', 0.5, 2)
    for k in (0, -1):
        refused(b, b.setup_map, 'a map without resolution is refused', k)
    refused(b, f, 'a negative side is refused', lo, 2)
    refused(b, f, 'a side longer than the circle is refused', high(2*PI), 2)
    for k in (0, -1, -2):
        refused(b, f, 'no cells is refused', m, k)
        refused(b, f, 'no cells is refused', m, 2, y_grid=k)
    refused(b, f, 'a negative side is refused', m, 2, y_length=lo)
    refused(b, f, 'a side longer than half the circle is refused', m, 2, y_length=high(PI))
    refused(b, f, 'a centre without two coordinates is refused', m, 2, center=[0])
    refused(b, f, 'a centre without two coordinates is refused', m, 2, center=[0, 0, 0])
    taken(f, 'the largest box is accepted', 2*PI, 1, y_length=PI, y_grid=1, center=[PI, PI/2])
    taken(f, 'the largest box is accepted', 2*PI, 1)
    taken(f, 'a box is accepted', 1.1, 1, center=[0, PI/2], y_length=0.3)


def P26_tangent_dense():
    b = densegrid.Heal2Polar()
    b.setup_map(2)
    box_limits(b, False)
    b.setup_box(1., 2)
    box_limits(b, False)


def P26_tangent_mc():
    b = montecarlo.Heal2Polar()
    b.setup_map(1)
    box_limits(b, True)
    b.setup_box(0.1, 1, center=[0.7, PI/2])
    refused(b, b.get_weights, 'one random point or fewer is refused', 1, False)
    refused(b, b.get_weights, 'one random point or fewer is refused', 0, False)
    refused(b, b.get_weights, 'one random point or fewer is refused', -2, False)
    b.get_weights(2, False)
    box_limits(b, True)
    for n in (11, 13, 48):
        refused(b, b.remap, 'a map of another resolution is refused', array('f', n), None, False)
        refused(b, b.remap, 'weights of another resolution are refused', array('F', 12), array('w', n, 0.1, 1), False)


def P26_ortho():
    b = densegrid.Heal2Ortho()
    b.setup_map(2)
    m = real('m', 0.5, 2)
    for k in (0, -1):
        refused(b, b.setup_map, 'a map without resolution is refused', k)
    for k in (0, -1, -2):
        refused(b, b.setup_box, 'no cells is refused', m, k)
    refused(b, b.setup_box, 'a centre without two coordinates is refused', m, 2, center=[0])
    refused(b, b.setup_box, 'a centre without two coordinates is refused', m, 2, center=[0, 0, 0])


# ------------------------------------------------------------------ P26 cube to shell
def cube_limits(b):
    for n in (0, -1, -2):
        refused(b, b.setup_cube, 'a cube without cells is refused', 0, 1, n, 0, 1, 2, 0, 1, 2)
        refused(b, b.setup_cube, 'a cube without cells is refused', 0, 1, 2, 0, 1, n, 0, 1, 2)
        refused(b, b.setup_cube, 'a cube without cells is refused', 0, 1, 2, 0, 1, 2, 0, 1, n)
    taken(b.setup_cube, 'one cell is accepted', 0, 1, 1, 0, 1, 1, 0, 1, 1)


def shell_limits(b, f, log):
    lo = low(); m = real('m', 0.5, 2)
    refused(b, f, 'a negative radius is refused', lo, m, 2, 1)
    refused(b, f, 'radii in the wrong order are refused', m, real('q', 0.1, 0.4), 2, 1)
    refused(b, f, 'an empty range of radii is refused', m, m, 2, 1)
    for k in (0, -1, -2):
        refused(b, f, 'no shells is refused', 0.1, m, k, 1)
    refused(b, f, 'a centre without three coordinates is refused', 0.1, m, 2, 1, center=[0, 0])
    refused(b, f, 'a centre without three coordinates is refused', 0.1, m, 2, 1, center=[0, 0, 0, 0])
    if log:
        refused(b, f, 'logarithmic shells from radius zero are refused', 0, m, 2, 1)
    else:
        taken(f, 'shells from radius zero are accepted', 0, m, 1, 1)


def P26_shell_dense():
    b = densegrid.Cube2Shell()
    cube_limits(b)
    b.setup_cube(0, 1, 2, 0, 1, 2, 0, 1, 2)
    shell_limits(b, b.setup_polar, False)
    f = b.setup_polar
    refused(b, f, 'a map without resolution is refused', 0, 1, 1, 0)
    for n in (0, -1, -2):
        refused(b, f, 'no refinement of the shell is refused', 0, 1, 1, 1, rebin_shell=n)
        refused(b, f, 'no refinement of the radius is refused', 0, 1, 1, 1, rebin_r=n)
    taken(f, 'no finer than the shell is accepted', 0, 1, 1, 1, rebin_shell=1, rebin_r=1)


def P26_shell_mc():
    b = montecarlo.Cube2Shell()
    cube_limits(b)
    b.setup_cube(0, 1, 2, 0, 1, 2, 0, 1, 2)
    shell_limits(b, b.setup_polar_lin, False)
    shell_limits(b, b.setup_polar_log, True)


# ------------------------------------------------------------------ P26 every count below one
def P26_counts_ring():
    for b in (densegrid.Box2Ring(), montecarlo.Box2Ring()):
        n = none_or_less()
        refused(b, b.setup_box, 'a box without cells is refused', 0, 1, n, 0, 1, 2); refused(b, b.setup_box, 'a box without cells is refused', 0, 1, 2, 0, 1, n)
    b = densegrid.Box2Ring(); c = montecarlo.Box2Ring()
    for f in (b.setup_polar, c.setup_polar_lin, c.setup_polar_log):
        no('no rings is refused', f, 0.1, 1, n, 2); no('no sectors is refused', f, 0.1, 1, 2, n)


def P26_counts_sky():
    n = none_or_less()
    for b in (densegrid.Heal2Ring(), montecarlo.Heal2Ring()):
        b.setup_map(1)
        refused(b, b.setup_polar_cap, 'no rings is refused', 0.1, 1, n, 2); refused(b, b.setup_polar_cap, 'no sectors is refused', 0.1, 1, 2, n)
    for b in (densegrid.Heal2Polar(), montecarlo.Heal2Polar(), densegrid.Heal2Ortho()):
        b.setup_map(1)
        refused(b, b.setup_box, 'no cells is refused', 1., n)
    for b in (densegrid.Heal2Polar(), montecarlo.Heal2Polar()):
        refused(b, b.setup_box, 'no cells is refused', 1., 2, y_grid=n)


def P26_counts_shell():
    n = none_or_less()
    b = densegrid.Cube2Shell(); c = montecarlo.Cube2Shell()
    for h in (b, c):
        refused(h, h.setup_cube, 'a cube without cells is refused', 0, 1, n, 0, 1, 2, 0, 1, 2)
        refused(h, h.setup_cube, 'a cube without cells is refused', 0, 1, 2, 0, 1, n, 0, 1, 2)
        refused(h, h.setup_cube, 'a cube without cells is refused', 0, 1, 2, 0, 1, 2, 0, 1, n)
    for f in (b.setup_polar, c.setup_polar_lin, c.setup_polar_log):
        no('no shells is refused', f, 0.1, 1, n, 1)
    no('no refinement of the shell is refused', b.setup_polar, 0, 1, 1, 1, rebin_shell=n)
    no('no refinement of the radius is refused', b.setup_polar, 0, 1, 1, 1, rebin_r=n)


def P26_counts_points():
    k = integer('k', -3, 1)
    for b in (montecarlo.Box2Ring(), montecarlo.Heal2Ring(), montecarlo.Heal2Polar()):
        refused(b, b.get_weights, 'one random point or fewer is refused', k, False)


# ------------------------------------------------------------------ P26 functions
def no(lab, f, *a, **kw):
    holds(raises(f, *a, **kw), lab)


def P26_sphere_ranges():
    t = real('t', 0, PI); p = real('p', 0, 2*PI); lo = low(); h2 = high(2*PI); h1 = real('over1', PI + 0.001, PI + 2)
    for bad in (lo, h2):
        no('an azimuth beyond the circle is refused', coords.usphere_rotate, p, t, bad, 1.)
        no('an azimuth beyond the circle is refused', coords.usphere_rotate, p, t, 1., 1., phi_start=bad)
        no('an azimuth beyond the circle is refused', coords.usphere_shift, p, t, bad, 1., 1., 2.)
        no('an azimuth beyond the circle is refused', coords.usphere_shift, p, t, 1., 1., bad, 2.)
        no('an azimuth beyond the circle is refused', coords.usphere_spin, p, t, bad, 1., 1.)
        no('an angle beyond the circle is refused', coords.usphere_spin, p, t, 1., 1., bad)
    z = real('z', 0.001, 0.5)
    for bad in (-z, 2*PI + z):
        no('an azimuth beyond the circle is refused', coords.usphere_shift, p, t, 1., 2., bad, 2.)
        no('an azimuth beyond the circle is refused', coords.usphere_shift, p, t, bad, 2., 1., 2.)
    for bad in (-z, PI + z):
        no('a colatitude beyond the poles is refused', coords.usphere_shift, p, t, 1., bad, 2., bad)
    for bad in (lo, h1):
        no('a colatitude beyond the poles is refused', coords.usphere_rotate, p, t, 1., bad)
        no('a colatitude beyond the poles is refused', coords.usphere_rotate, p, t, 1., 1., theta_start=bad)
        no('a colatitude beyond the poles is refused', coords.usphere_shift, p, t, 1., bad, 1., 2.)
        no('a colatitude beyond the poles is refused', coords.usphere_shift, p, t, 1., 1., 1., bad)
        no('a colatitude beyond the poles is refused', coords.usphere_spin, p, t, 1., bad, 1.)
    no('a rotation from a point to itself is refused', coords.usphere_rotate, p, t, 1., 2., phi_start=1., theta_start=2.)
    no('a rotation from a point to itself is refused', coords.usphere_rotate, p, t, 0., 0.)
    no('a shift by more than a full circle is refused', coords.usphere_phi_shift, p, 2*PI + real('o', 0.001, 3))
    no('a shift by more than a full circle is refused', coords.usphere_phi_shift, p, -2*PI - real('o', 0.001, 3))


def P26_sphere_ranges_taken():
    p = real('p', 0.1, 6); t = real('t', 0.1, 3)
    taken(coords.usphere_rotate, 'limits are accepted', p, t, 2*PI, PI/2); taken(coords.usphere_rotate, 'limits are accepted', p, t, PI/2, PI/2, phi_start=2*PI, theta_start=PI/2)
    taken(coords.usphere_rotate, 'limits are accepted', p, t, 0, PI, phi_start=0, theta_start=PI/2)
    taken(coords.usphere_shift, 'limits are accepted', p, t, 2*PI, PI/2, PI, 0)
    taken(coords.usphere_shift, 'limits are accepted', p, t, PI, 0, 2*PI, PI/2)
    taken(coords.usphere_shift, 'no move is accepted', p, t, 1., 2., 1., 2.)
    taken(coords.usphere_spin, 'limits are accepted', p, t, 2*PI, PI/2, 0)
    taken(coords.usphere_phi_shift, 'a shift within the circle is accepted', p, real('s', -6.28, 6.28))
    taken(coords.usphere_phi_shift, 'a shift by a full circle is accepted', p, 2*PI); taken(coords.usphere_phi_shift, 'a shift by a full circle is accepted', p, -2*PI)
    taken(coords.usphere_spin, 'a spin by a full circle is accepted', p, t, 1., 1.2, 2*PI)
    taken(coords.usphere_shift, 'a shift by a full circle is accepted', p, t, 0, 1., 2*PI, 1.); taken(coords.usphere_shift, 'a shift by a full circle is accepted', p, t, 2*PI, 1., 0, 2.)


def P26_full_turns_taken():
    for m in (densegrid, montecarlo):
        for c, b in (((2*PI, 1.), 0), ((0, PI/2), 2*PI), ((2*PI, PI/2), 2*PI)):
            h = m.Heal2Ring(); h.setup_map(1)
            taken(h.setup_polar_cap, 'a turn by a full circle is accepted', 0.1, 1., 1, 2, center=[c[0], c[1]], beta_shift=b)
            h = m.Heal2Polar(); h.setup_map(1)
            taken(h.setup_box, 'a turn by a full circle is accepted', 1., 2, center=[c[0], c[1]], alpha=b)
    h = densegrid.Heal2Ortho(); h.setup_map(1)
    taken(h.setup_box, 'a turn by a full circle is accepted', 1., 2, center=[2*PI, 1.])


def P26_polar_turns():
    p = real('p', 0, 6.28); e = np.array([0., PI, 2*PI]); f = array('f', (2, 3))
    for bad in (low(), 0, 2*PI, high(2*PI)):
        no('a turn by nothing, backwards or a full circle is refused', coords.rotate_polar, p, bad)
        no('a turn by nothing, backwards or a full circle is refused', coords.rotate_polar_grid, e, f, bad)
    s = real('s', 0.001, 6.28)
    taken(coords.rotate_polar, 'a turn within the circle is accepted', p, s)


def P26_outlines():
    for n in (0, -4, 1, 2, 3, 5, 6, 7, 10, 41):
        no('points that do not divide over the sides are refused', pixel.get_square, 0, 1, 0, 1, n)
    for n in (0, -12, 1, 4, 6, 11, 13, 18, 40, 100):
        no('points that do not divide over the sides are refused', pixel.get_box, 0, 1, 0, 1, 0, 1, n)
    for n in (4, 8, 36):
        taken(pixel.get_square, 'points that divide over the sides are accepted', 0, 1, 0, 1, n)
    for n in (12, 24, 36):
        taken(pixel.get_box, 'points that divide over the sides are accepted', 0, 1, 0, 1, 0, 1, n)


def P26_draws():
    s = array('s', 4); p = array('p', 4, 0.1, 1)
    for n in (4, 5):
        no('a draw of the whole sample or more is refused', randoms.random_draw, s, n)
        no('a draw of the whole sample or more is refused', randoms.random_prob_draw, s, p, n)
    no('a probability of zero is refused for a draw of given size', randoms.random_prob_draw, s, np.array([0.5, 0., 1., 1.]), 2)
    no('a probability below zero is refused for a draw of given size', randoms.random_prob_draw, s, np.array([0.5, 1., 1., low()]), 2)
    for n in (1, 3):
        taken(randoms.random_draw, 'a draw smaller than the sample is accepted', s, n)
        taken(randoms.random_prob_draw, 'a draw smaller than the sample is accepted', s, p, n)


def P26_cdf():
    x = np.array([0., 1., 2.])
    no('a distribution that does not start at zero is refused', randoms.randoms_cdf, x, np.array([real('c', 0.01, 0.3), 0.5, 1.]), 3)
    no('a distribution that does not end at one is refused', randoms.randoms_cdf, x, np.array([0., 0.5, real('d', 0.6, 0.99)]), 3)
    no('a distribution that does not end at one is refused', randoms.randoms_cdf, x, np.array([0., 0.5, real('D', 1.01, 2)]), 3)


def P26_bins():
    e = np.array([0., 1., 2., 3.]); b = np.array([0.5, 1.5, 2.]); d = array('d', 3)
    for n in (2, 4):
        no('data that do not fit the edges are refused', one_d.rebin_1d, e, array('g', n), b)
        no('weights that do not fit the data are refused', one_d.rebin_1d, e, d, b, w=array('w', n, 0.1, 1))
        no('errors that do not fit the data are refused', one_d.rebin_1d, e, d, b, sigma=array('s', n, 0.1, 1))
    no('edges that decrease are refused', one_d.rebin_1d, np.array([0., 1., real('q', -1, 0.9), 2.]), d, b)
    no('edges that decrease are refused', one_d.rebin_1d, e, d, np.array([0., real('q', -1, -0.1), 1.]))
    for k in range(14):
        x = np.arange(15)*1.; x[k + 1] = x[k] - 0.5
        no('edges that decrease anywhere are refused', one_d.rebin_1d, x, np.ones(14), np.array([2., 3.]))
        no('edges that decrease anywhere are refused', one_d.rebin_1d, np.arange(20)*1., np.ones(19), x)
    taken(one_d.rebin_1d, 'many edges are accepted', np.arange(40)*1., np.ones(39), np.arange(30)*1.2)


def P26_areas():
    lo = low(); h2 = high(2*PI); h1 = real('over1', PI + 0.001, PI + 2)
    f = coords.usphere_area
    for a in ((lo, 1., 0.5, 1.), (2*PI, 1., 0.5, 1.), (h2, 1., 0.5, 1.), (1., lo, 0.5, 1.), (1., 0, 0.5, 1.), (1., h2, 0.5, 1.), (1., 1., 0.5, 1.),
              (0.5, 1., lo, 1.), (0.5, 1., PI, 1.), (0.5, 1., h1, 1.), (0.5, 1., 1., lo), (0.5, 1., 1., 0), (0.5, 1., 1., h1), (0.5, 1., 1., 1.)):
        no('an impossible range on the sphere is refused', f, a[0], a[1], a[2], a[3])
    taken(f, 'the whole sphere is accepted', 0, 2*PI, 0, PI)
