"""Objects: reconfiguration, independence, validation, sibling agreement, constant fields, projections."""
import numpy as np
import healpy as hp
from magpie import densegrid, montecarlo, coords, grids, polar, one_d, randoms, remap, pixel

PI = np.pi


# ------------------------------------------------------------------ P25 results depend on the current set-up only
def same_grids(a, b, names, lab):
    for k in names:
        if not (hasattr(a, k) or hasattr(b, k)):
            continue
        equal(getattr(a, k), getattr(b, k), lab)


RING = ('xedges', 'yedges', 'xmid', 'ymid', 'dx', 'dy', 'x2d', 'y2d', 'redges', 'pedges', 'rmid', 'pmid', 'dr', 'dp', 'r2d', 'p2d', 'center', 'phi_shift')
CAP = ('nside', 'alpha_edges', 'beta_edges', 'alpha_mid', 'beta_mid', 'dalpha', 'dbeta', 'alpha2d', 'beta2d', 'center', 'beta_shift')
BOX = ('nside', 'xedges', 'yedges', 'xmid', 'ymid', 'dx', 'dy', 'x2d', 'y2d', 'center')
CUBE = ('xedges', 'yedges', 'zedges', 'xmid', 'ymid', 'zmid', 'dx', 'dy', 'dz', 'x3d', 'y3d', 'z3d', 'redges', 'rmid', 'dr', 'nside', 'center')


def ring1(b, s):
    b.setup_box(0, 3*s, 3, 0, 4*s, 4)
    b.setup_polar(0.2*s, 1.2*s, 2, 2, center=[1.4*s, 2*s], rebin_r=3, rebin_p=1, phi_shift=PI/4)


def ring2(b, s):
    b.setup_box(s, 5*s, 4, -s, s, 2)
    b.setup_polar(0.1*s, 0.9*s, 1, 3, center=[2.9*s, 0.1*s])


def P25_ring_again():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    ring1(b, s)
    f1 = array('f1', (4, 3)); p1 = array('p1', (2, 2))
    b.remap(f1, None, False); b.polar2radial(p1); b.get_mask_in_bound(False)
    ring2(b, s); ring2(c, s)
    f = array('f', (2, 4)); w = array('w', (2, 4), 0.1, 4); p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    equal(b.remap(f, w, False), c.remap(f, w, False), 'a set-up object behaves like a fresh one')
    equal(b.polar2radial(p), c.polar2radial(p), 'a set-up object behaves like a fresh one')
    equal(b.polar2radial(p, sigma=q, w=q), c.polar2radial(p, sigma=q, w=q), 'a set-up object behaves like a fresh one')
    equal(b.rotate_polar(p, 0.3), c.rotate_polar(p, 0.3), 'a set-up object behaves like a fresh one')
    b.get_mask_in_bound(False); c.get_mask_in_bound(False)
    equal(b.mask_in_bound, c.mask_in_bound, 'a set-up object behaves like a fresh one')
    same_grids(b, c, RING, 'the grids of a set-up object are those of a fresh one')


def P25_ring_order():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    b.setup_polar(0.1*s, 0.9*s, 1, 3, center=[2.9*s, 0.1*s]); b.setup_box(s, 5*s, 4, -s, s, 2)
    ring2(c, s)
    f = array('f', (2, 4)); p = array('p', (3, 1))
    equal(b.remap(f, None, False), c.remap(f, None, False), 'box and ring may be set up in any order')
    equal(b.polar2radial(p), c.polar2radial(p), 'box and ring may be set up in any order')


def P25_ring_box_only():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    b.setup_box(0, s, 3, 0, s, 2); b.setup_polar(0.1*s, 0.9*s, 1, 3, center=[2.9*s, 0.1*s])
    p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    b.polar2radial(p, sigma=q)
    b.setup_box(s, 5*s, 4, -s, s, 2)
    ring2(c, s)
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'a new box replaces the old one everywhere')
    f = array('f', (2, 4))
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a new box replaces the old one everywhere')


def P25_ring_polar_only():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    b.setup_box(s, 5*s, 4, -s, s, 2); b.setup_polar(0.4*s, 2.5*s, 1, 3, center=[1.9*s, 0.3*s], rebin_r=1)
    p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    b.polar2radial(p, sigma=q)
    b.setup_polar(0.1*s, 0.9*s, 1, 3, center=[2.9*s, 0.1*s])
    ring2(c, s)
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'a new ring replaces the old one everywhere')
    f = array('f', (2, 4))
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a new ring replaces the old one everywhere')


def P25_ring_repeat():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring()
    ring2(b, s)
    f = array('f', (2, 4)); g = array('g', (2, 4)); w = array('w', (2, 4), 0.1, 4); p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    a = clone(b.remap(f, None, False)); r = clone(b.polar2radial(p))
    b.remap(g, w, False); b.get_mask_in_bound(False); b.rotate_polar(p, 0.2); b.polar2radial(q, sigma=p, w=w[:, :1][:1]*np.ones((3, 1)))
    equal(b.remap(f, None, False), a, 'repeating an operation repeats its result')
    equal(b.polar2radial(p), r, 'repeating an operation repeats its result')


def P25_ring_clean():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    ring1(b, s)
    b.polar2radial(array('p1', (2, 2)))
    b.clean()
    same_grids(b, c, RING + ('area2d', 'pixarea', 'mask_in_bound'), 'a cleaned object is as good as new')
    ring2(b, s); ring2(c, s)
    f = array('f', (2, 4))
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a cleaned object is as good as new')


def P25_two_objects():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring(); d = densegrid.Box2Ring()
    ring2(b, s)
    f = array('f', (2, 4)); p = array('p', (3, 1))
    r = clone(b.remap(f, None, False)); q = clone(b.polar2radial(p))
    ring1(c, s); c.remap(array('f1', (4, 3)), None, False); c.polar2radial(array('p1', (2, 2)))
    equal(b.remap(f, None, False), r, 'objects do not influence one another')
    equal(b.polar2radial(p), q, 'objects do not influence one another')
    equal(d.x2d, None, 'objects do not influence one another')


def cube1(c, s):
    c.setup_cube(0, 2*s, 2, 0, 3*s, 3, 0, 2*s, 2)
    c.setup_polar(0.2*s, 1.2*s, 2, 1, center=[1.1*s, 1.6*s, 0.9*s], rebin_shell=1, rebin_r=1, periodicx=[-1, 1])


def cube2(c, s):
    c.setup_cube(s, 4*s, 3, -s, s, 2, 0, 2*s, 2)
    c.setup_polar(0.1*s, 0.9*s, 1, 1, center=[2.4*s, 0.1*s, 1.1*s])


def P25_shell_again():
    s = real('s', 0.5, 2)
    b = densegrid.Cube2Shell(); c = densegrid.Cube2Shell()
    cube1(b, s)
    b.remap(array('f1', (3, 2, 2)), False)
    cube2(b, s); cube2(c, s)
    f = array('f', (2, 3, 2))
    equal(b.remap(f, False), c.remap(f, False), 'a set-up object behaves like a fresh one')
    equal(b.remap(f, False), c.remap(f, False), 'repeating an operation repeats its result')
    same_grids(b, c, CUBE, 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = densegrid.Cube2Shell()
    same_grids(b, c, CUBE, 'a cleaned object is as good as new')


def P25_shell_moved():
    # samples outside the cube stay without a source after a move of the centre
    s = real('s', 0.5, 2)
    b = densegrid.Cube2Shell(); c = densegrid.Cube2Shell()
    b.setup_cube(0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2)
    b.setup_polar(0.2*s, 0.9*s, 1, 1, center=[1.1*s, 0.95*s, 0.9*s], rebin_shell=1, periodicy=[0, 1])
    f = array('f', (2, 2, 2))
    b.remap(f, False)
    c.setup_cube(0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2)
    for h in (b, c):
        h.setup_polar(0.2*s, 0.9*s, 1, 1, center=[0.1*s, 1.9*s, 0.2*s], rebin_shell=1)
    equal(b.remap(f, False), c.remap(f, False), 'a new shell replaces the old one everywhere')


def P25_ring_moved():
    s = real('s', 0.5, 2)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    b.setup_box(0, 2*s, 2, 0, 2*s, 2)
    b.setup_polar(0.2*s, 0.9*s, 1, 3, center=[1.1*s, 0.95*s], phi_shift=0.4)
    f = array('f', (2, 2)); p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    b.remap(f, None, False); b.polar2radial(p)
    c.setup_box(0, 2*s, 2, 0, 2*s, 2)
    for h in (b, c):
        h.setup_polar(0.2*s, 0.9*s, 1, 3, center=[0.1*s, 1.9*s])
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a new ring replaces the old one everywhere')
    equal(b.polar2radial(p, q), c.polar2radial(p, q), 'a new ring replaces the old one everywhere')


def P25_mc_ring_moved():
    # the second sector of the first ring lies in the box, that of the second beside it, and the reverse
    s = real('s', 0.5, 2)
    f = array('f', (2, 2)); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    b = montecarlo.Box2Ring(); c = montecarlo.Box2Ring()
    b.setup_box(0, 4*s, 2, 0, 4*s, 2)
    b.setup_polar_lin(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1, center=[2*s, 0.1*s])
    b.get_weights(2, False)
    b.polar2radial(p)
    c.setup_box(0, 4*s, 2, 0, 4*s, 2)
    for h in (b, c):
        h.setup_polar_lin(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1)
        reset_rng()
        h.get_weights(2, False)
    equal(b.polar2radial(p, q), c.polar2radial(p, q), 'new weights replace the old ones everywhere')
    b.setup_polar_log(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1, center=[2*s, 0.1*s], addzero=False)
    reset_rng()
    b.get_weights(2, False)
    d = montecarlo.Box2Ring()
    d.setup_box(0, 4*s, 2, 0, 4*s, 2)
    d.setup_polar_log(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1, center=[2*s, 0.1*s], addzero=False)
    reset_rng()
    d.get_weights(2, False)
    equal(b.polar2radial(p, q), d.polar2radial(p, q), 'new weights replace the old ones everywhere')


def P25_mc_ring_box_moved():
    s = real('s', 0.5, 2)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    b = montecarlo.Box2Ring()
    b.setup_box(-4*s, 4*s, 2, 0, 4*s, 2)
    b.setup_polar_lin(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1)
    b.get_weights(2, False)
    b.polar2radial(p)
    b.setup_box(0, 4*s, 2, 0, 4*s, 2)
    reset_rng()
    b.get_weights(2, False)
    c = montecarlo.Box2Ring()
    c.setup_box(0, 4*s, 2, 0, 4*s, 2)
    c.setup_polar_lin(0.1*s, 0.7*s, 1, 2, 0.1, PI - 0.1)
    reset_rng()
    c.get_weights(2, False)
    equal(b.polar2radial(p, q), c.polar2radial(p, q), 'a new box replaces the old one everywhere')


def P25_mc_ring_weights_only():
    # the points of the first sector fall in the box at the first draw and beside it at the second, those of the other always in it
    s = real('s', 0.5, 2)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    b = montecarlo.Box2Ring(); c = montecarlo.Box2Ring()
    for h in (b, c):
        h.setup_box(0, 4*s, 1, -4*s, 4*s, 1)
        h.setup_polar_lin(0.1*s, 0.7*s, 1, 2)
    u = U(0, 16)
    for k in (2, 3):
        assume(u[k] < 0.4)
    for k in (10, 11):
        assume(u[k] > 0.6)
    for k in (6, 7, 14, 15):
        assume(u[k] > 0.6)
    reset_rng()
    b.get_weights(2, False)
    b.polar2radial(p)
    b.get_weights(2, False)
    reset_rng()
    c.get_weights(2, False)
    c.get_weights(2, False)
    equal(b.polar2radial(p, q), c.polar2radial(p, q), 'new weights replace the old ones everywhere')


def P25_cap_again():
    b = densegrid.Heal2Ring(); c = densegrid.Heal2Ring()
    b.setup_map(1); b.setup_polar_cap(0.1, 0.7, 2, 2, center=[PI/3, PI/3], beta_shift=0.3, rebin_alpha=1, rebin_beta=3)
    p1 = array('p1', (2, 2), 0.1, 2)
    b.remap(array('f1', 12), None, False); b.polar2radial(p1, sigma=p1)
    for h in (b, c):
        h.setup_map(2); h.setup_polar_cap(0.2, 1.1, 1, 3)
    f = array('f', 48); w = array('w', 48, 0.1, 4); p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    equal(b.remap(f, w, False), c.remap(f, w, False), 'a set-up object behaves like a fresh one')
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'a set-up object behaves like a fresh one')
    equal(b.rotate_polar(p, 0.3), c.rotate_polar(p, 0.3), 'a set-up object behaves like a fresh one')
    same_grids(b, c, CAP, 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = densegrid.Heal2Ring()
    same_grids(b, c, CAP, 'a cleaned object is as good as new')


def P25_cap_map_only():
    b = densegrid.Heal2Ring()
    p = array('p', (3, 1)); q = array('q', (3, 1), 0.1, 2)
    for n in (1, 2, 4):
        b.setup_map(n); b.setup_polar_cap(0.2, 1.1, 1, 3)
        c = densegrid.Heal2Ring()
        c.setup_map(n); c.setup_polar_cap(0.2, 1.1, 1, 3)
        equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'a new map resolution counts in the errors')


def P25_box_again():
    b = densegrid.Heal2Polar(); c = densegrid.Heal2Polar()
    b.setup_map(1); b.setup_box(0.9, 3, center=[PI/3, PI/3], alpha=0.4, y_length=0.5, y_grid=2, rebin_x=1, rebin_y=3)
    b.remap(array('f1', 12), None, False)
    for h in (b, c):
        h.setup_map(2); h.setup_box(1.1, 2)
    f = array('f', 48); w = array('w', 48, 0.1, 4)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    equal(b.remap(f, w, False), c.remap(f, w, False), 'a set-up object behaves like a fresh one')
    same_grids(b, c, BOX, 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = densegrid.Heal2Polar()
    same_grids(b, c, BOX, 'a cleaned object is as good as new')


def P25_ortho_again():
    b = densegrid.Heal2Ortho(); c = densegrid.Heal2Ortho()
    b.setup_map(1); b.setup_box(2.6, 3, center=[PI/3, PI/3], y_length=0.5, y_grid=2, rebin_x=1, rebin_y=3, radius=1.2)
    b.remap(array('f1', 12), None, False); b.transform(0.4, 0.8)
    for h in (b, c):
        h.setup_map(2); h.setup_box(1.1, 2, center=[PI/6, PI/4])
    f = array('f', 48); w = array('w', 48, 0.1, 4)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    equal(b.remap(f, w, False), c.remap(f, w, False), 'a set-up object behaves like a fresh one')
    equal(b.transform(0.4, 0.8), c.transform(0.4, 0.8), 'a set-up object behaves like a fresh one')
    same_grids(b, c, BOX + ('z2d', 'onsphere', 'radius', 'end_center'), 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = densegrid.Heal2Ortho()
    same_grids(b, c, BOX, 'a cleaned object is as good as new')


def P25_view_again():
    b = densegrid.PointOfView(); c = densegrid.PointOfView()
    b.setup([0, 0, 0], [1, 1, 1], 2., 0.3)
    b.transform(np.array([2., 3.]), np.array([1., 2.]), np.array([0.5, 0.2]))
    for v in (b, c):
        v.setup([1, 2, 0], [3, 3, 1], 1.)
    x = array('x', 2, 3, 4); y = array('y', 2, 2, 3); z = array('z', 2, 0.2, 0.6)
    equal(b.transform(x, y, z), c.transform(x, y, z), 'a set-up object behaves like a fresh one')
    equal(b.reverse(x, y, z), c.reverse(x, y, z), 'a set-up object behaves like a fresh one')
    b.clean(); c = densegrid.PointOfView()
    same_grids(b, c, ('camera', 'point', 'display', 'spin'), 'a cleaned object is as good as new')


def mring1(b, s, log=False):
    b.setup_box(0, 3*s, 3, 0, 4*s, 4)
    if log:
        b.setup_polar_log(0.2*s, 1.2*s, 2, 2, center=[1.4*s, 2*s])
    else:
        b.setup_polar_lin(0.2*s, 1.2*s, 2, 2, center=[1.4*s, 2*s], phi_shift=PI/4)
    b.get_weights(2, False)


def mring2(b, s):
    b.setup_box(s, 5*s, 4, -s, s, 2)
    b.setup_polar_lin(0.1*s, 0.7*s, 1, 2, center=[2.9*s, 0.1*s])
    reset_rng()
    b.get_weights(2, False)


def P25_mc_ring_again():
    s = real('s', 0.5, 2)
    b = montecarlo.Box2Ring(); c = montecarlo.Box2Ring()
    mring1(b, s)
    b.remap(array('f1', (4, 3)), None, False); b.polar2radial(array('p1', (2, 2)))
    mring2(b, s); mring2(c, s)
    f = array('f', (2, 4)); w = array('w', (2, 4), 0.1, 4); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    equal(b.remap(f, w, False), c.remap(f, w, False), 'a set-up object behaves like a fresh one')
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'a set-up object behaves like a fresh one')
    same_grids(b, c, RING, 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = montecarlo.Box2Ring()
    same_grids(b, c, RING + ('area2d', 'pixarea', 'mask_in_bound'), 'a cleaned object is as good as new')


def P25_mc_ring_errors():
    # what the error of the profile uses is renewed with each part
    s = real('s', 0.5, 2)
    p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    b = montecarlo.Box2Ring()
    b.setup_box(0, s, 3, 0, s, 2); b.setup_polar_lin(0.1*s, 0.2*s, 1, 2, center=[0.5*s, 0.5*s]); b.get_weights(2, False)
    b.polar2radial(p, sigma=q)
    mring2(b, s)
    c = montecarlo.Box2Ring(); mring2(c, s)
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'new grids replace the old ones everywhere')
    b.setup_polar_log(0.1*s, 0.7*s, 1, 2, center=[2.9*s, 0.1*s]); reset_rng(); b.get_weights(2, False)
    c = montecarlo.Box2Ring(); c.setup_box(s, 5*s, 4, -s, s, 2)
    c.setup_polar_log(0.1*s, 0.7*s, 1, 2, center=[2.9*s, 0.1*s]); reset_rng(); c.get_weights(2, False)
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'new grids replace the old ones everywhere')


def P25_mc_sky_again():
    b = montecarlo.Heal2Ring(); c = montecarlo.Heal2Ring()
    b.setup_map(1); b.setup_polar_cap(0.1, 0.7, 2, 2, beta_shift=0.3); b.get_weights(2, False)
    p1 = array('p1', (2, 2), 0.1, 2)
    b.remap(array('f1', 12), None, False); b.polar2radial(p1, sigma=p1)
    for h in (b, c):
        h.setup_map(2); h.setup_polar_cap(0.2, 1.1, 1, 2); reset_rng(); h.get_weights(2, False)
    f = array('f', 48); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    equal(b.polar2radial(p, sigma=q), c.polar2radial(p, sigma=q), 'a set-up object behaves like a fresh one')
    same_grids(b, c, CAP, 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = montecarlo.Heal2Ring()
    same_grids(b, c, CAP, 'a cleaned object is as good as new')
    b = montecarlo.Heal2Polar(); c = montecarlo.Heal2Polar()
    b.setup_map(1); b.setup_box(0.9, 2, alpha=0.4, y_length=0.5, y_grid=1); b.get_weights(2, False)
    b.remap(array('f1', 12), None, False)
    for h in (b, c):
        h.setup_map(2); h.setup_box(1.1, 1); reset_rng(); h.get_weights(2, False)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'a set-up object behaves like a fresh one')
    same_grids(b, c, BOX + ('alpha',), 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = montecarlo.Heal2Polar()
    same_grids(b, c, BOX, 'a cleaned object is as good as new')


def P25_mc_shell_again():
    s = real('s', 0.5, 2)
    b = montecarlo.Cube2Shell(); c = montecarlo.Cube2Shell()
    b.setup_cube(0, 2*s, 2, 0, 3*s, 3, 0, 2*s, 2); b.setup_polar_log(0.2*s, 1.2*s, 2, 2, center=[1.1*s, 1.6*s, 0.9*s])
    b.setup_polar_log(0.1*s, 0.2*s, 1, 1)
    c.setup_cube(0, 2*s, 2, 0, 3*s, 3, 0, 2*s, 2); c.setup_polar_log(0.1*s, 0.2*s, 1, 1)
    same_grids(b, c, CUBE, 'the grids of a set-up object are those of a fresh one')
    for h in (b, c):
        h.setup_cube(s, 4*s, 3, -s, s, 2, 0, 2*s, 2); h.setup_polar_lin(0.1*s, 0.9*s, 1, 1, center=[2.4*s, 0.1*s, 1.1*s])
    same_grids(b, c, CUBE, 'the grids of a set-up object are those of a fresh one')
    b.clean(); c = montecarlo.Cube2Shell()
    same_grids(b, c, CUBE, 'a cleaned object is as good as new')


# ------------------------------------------------------------------ P25 objects of unchanged shape, and objects in use
def P25_mc_same_shape():
    # as many cells as before, elsewhere
    f = array('f', 12)
    b = montecarlo.Heal2Polar(); c = montecarlo.Heal2Polar()
    b.setup_map(1); b.setup_box(0.2, 1, center=[PI/4, 0.5]); b.get_weights(2, False); b.remap(f, None, False)
    c.setup_map(1)
    for h in (b, c):
        h.setup_box(0.3, 1, center=[PI, PI/2]); reset_rng(); h.get_weights(2, False)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'new weights replace the old ones everywhere')
    b = montecarlo.Heal2Ring(); c = montecarlo.Heal2Ring()
    b.setup_map(1); b.setup_polar_cap(0.1, 0.3, 1, 1, center=[PI/4, 0.5]); b.get_weights(2, False); b.remap(f, None, False)
    c.setup_map(1)
    for h in (b, c):
        h.setup_polar_cap(0.05, 0.2, 1, 1, center=[PI, PI/2]); reset_rng(); h.get_weights(2, False)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'new weights replace the old ones everywhere')


def P25_mc_same_shape_map():
    # as many cells as before, on a finer map
    f = array('f', 12); g = array('g', 48)
    b = montecarlo.Heal2Polar(); c = montecarlo.Heal2Polar()
    b.setup_map(1); b.setup_box(0.1, 1, center=[PI/4, 0.5]); b.get_weights(2, False); b.remap(f, None, False)
    b.setup_map(2); c.setup_map(2); c.setup_box(0.1, 1, center=[PI/4, 0.5])
    for h in (b, c):
        reset_rng(); h.get_weights(2, False)
    equal(b.remap(g, None, False), c.remap(g, None, False), 'weights are those of the current map')
    b = montecarlo.Heal2Ring(); c = montecarlo.Heal2Ring()
    b.setup_map(1); b.setup_polar_cap(0.01, 0.1, 1, 1, center=[PI/4, 0.5]); b.get_weights(2, False); b.remap(f, None, False)
    b.setup_map(2); c.setup_map(2); c.setup_polar_cap(0.01, 0.1, 1, 1, center=[PI/4, 0.5])
    for h in (b, c):
        reset_rng(); h.get_weights(2, False)
    equal(b.remap(g, None, False), c.remap(g, None, False), 'weights are those of the current map')


def P25_mc_same_shape_ring():
    s = real('s', 0.5, 2); f = array('f', (2, 2))
    b = montecarlo.Box2Ring(); c = montecarlo.Box2Ring()
    b.setup_box(0, 2*s, 2, 0, 2*s, 2); b.setup_polar_lin(0.1*s, 0.7*s, 1, 1, 0.1, 1.3, center=[s, s]); b.get_weights(2, False)
    b.remap(f, None, False)
    c.setup_box(0, 2*s, 2, 0, 2*s, 2)
    for h in (b, c):
        h.setup_polar_lin(0.2*s, 0.6*s, 1, 1, 2., 2.9, center=[s, s]); reset_rng(); h.get_weights(2, False)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'new weights replace the old ones everywhere')
    for h in (b, c):
        h.setup_box(s/2, 2.5*s, 2, 0, 2*s, 2); reset_rng(); h.get_weights(2, False)
    equal(b.remap(f, None, False), c.remap(f, None, False), 'new weights replace the old ones everywhere')


def P25_mc_same_shape_shell():
    s = real('s', 0.5, 2); f = array('f', (2, 2, 2))
    b = montecarlo.Cube2Shell(); c = montecarlo.Cube2Shell()
    b.setup_cube(0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2); b.setup_polar_lin(0.1*s, 0.4*s, 1, 1, center=[0.5*s, 0.5*s, 0.5*s]); b.get_weights(2, False)
    b.remap(f, verbose=False)
    c.setup_cube(0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2)
    for h in (b, c):
        h.setup_polar_lin(0.1*s, 0.4*s, 1, 1, center=[1.5*s, 0.5*s, 1.5*s]); reset_rng(); h.get_weights(2, False)
    equal(b.remap(f, verbose=False), c.remap(f, verbose=False), 'new weights replace the old ones everywhere')


def P25_in_use():
    s = real('s', 0.5, 2); LAB = 'using an object does not change it'
    b = densegrid.Box2Ring(); ring1(b, s)
    f = array('f', (4, 3)); w = array('w', (4, 3), 0.1, 2); p = array('p', (2, 2)); q = array('q', (2, 2), 0.1, 2)
    b.remap(f, w, False); b.polar2radial(p, q, q); b.get_mask_in_bound(False)
    t = snap(b)
    b.remap(f, w, False); b.remap(f, None, False); b.polar2radial(p, q, q); b.polar2radial(p); b.rotate_polar(p, 0.4)
    same_as(t, LAB)
    b = densegrid.Heal2Ring(); b.setup_map(1); b.setup_polar_cap(0.1, 0.7, 2, 2, center=[1., 0.5], beta_shift=0.3)
    f = array('F', 12); w = array('W', 12, 0.1, 2)
    b.remap(f, w, False); b.polar2radial(p, q, q)
    t = snap(b)
    b.remap(f, w, False); b.remap(f, None, False); b.polar2radial(p, q, q); b.polar2radial(p); b.rotate_polar(p, 0.4)
    same_as(t, LAB)
    b = densegrid.Heal2Polar(); b.setup_map(1); b.setup_box(0.7, 2, center=[1., 0.5], alpha=0.2)
    b.remap(f, w, False)
    t = snap(b)
    b.remap(f, w, False); b.remap(f, None, False)
    same_as(t, LAB)
    b = densegrid.Heal2Ortho(); b.setup_map(1); b.setup_box(0.7, 2, center=[1., 0.5])
    b.remap(f, w, False); b.transform(0.4, 0.8)
    t = snap(b)
    b.remap(f, w, False); b.remap(f, None, False); b.transform(0.4, 0.8)
    same_as(t, LAB)
    b = densegrid.Cube2Shell(); b.setup_cube(0, 2*s, 2, 0, 2*s, 2, 0, 2*s, 2); b.setup_polar(0.1*s, 0.4*s, 1, 1, center=[0.5*s, 0.5*s, 0.5*s])
    f = array('c', (2, 2, 2))
    b.remap(f, verbose=False)
    t = snap(b)
    b.remap(f, verbose=False)
    same_as(t, LAB)


def P25_mc_in_use():
    s = real('s', 0.5, 2); LAB = 'using an object does not change it'
    b = montecarlo.Box2Ring(); b.setup_box(0, 2*s, 2, 0, 2*s, 2); b.setup_polar_lin(0.1*s, 0.7*s, 1, 2, center=[s, s]); b.get_weights(2, False)
    f = array('f', (2, 2)); w = array('w', (2, 2), 0.1, 2); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    a = b.remap(f, w, False); r = b.polar2radial(p, q, q); b.get_mask_in_bound(False)
    b.remap(f, None, False); b.polar2radial(p); b.rotate_polar(p, 0.4)
    equal(b.remap(f, w, False), a, LAB); equal(b.polar2radial(p, q, q), r, LAB)
    f = array('F', 12); w = array('W', 12, 0.1, 2)
    b = montecarlo.Heal2Ring(); b.setup_map(1); b.setup_polar_cap(0.1, 0.7, 1, 2, center=[1., 0.5], beta_shift=0.3); b.get_weights(2, False)
    a = b.remap(f, w, False); r = b.polar2radial(p, q, q)
    b.remap(f, None, False); b.polar2radial(p); b.rotate_polar(p, 0.4)
    equal(b.remap(f, w, False), a, LAB); equal(b.polar2radial(p, q, q), r, LAB)
    b = montecarlo.Heal2Polar(); b.setup_map(1); b.setup_box(0.7, 1, center=[1., 0.5], alpha=0.2); b.get_weights(2, False)
    a = b.remap(f, w, False)
    b.remap(f, None, False)
    equal(b.remap(f, w, False), a, LAB)


# ------------------------------------------------------------------ P25 one setting changed at a time on an object in use, the rest repeated
ONE = 'a setting changed alone counts as on a fresh object'
STREAM = [0.37, 0.81, 0.12, 0.55, 0.93, 0.28, 0.69]


def changed(args, k, v):
    return args[:k] + (v,) + args[k+1:]


def same_use(b, c, f, w, p, q):
    equal(b.remap(f, None, False), c.remap(f, None, False), ONE); equal(b.remap(f, w, False), c.remap(f, w, False), ONE)
    equal(b.polar2radial(p), c.polar2radial(p), ONE); equal(b.polar2radial(p, sigma=q, w=q), c.polar2radial(p, sigma=q, w=q), ONE)
    equal(b.rotate_polar(p, 0.3), c.rotate_polar(p, 0.3), ONE)


def use(b, f, w, p, q):
    b.remap(f, None, False); b.remap(f, w, False); b.polar2radial(p); b.polar2radial(p, sigma=q, w=q); b.rotate_polar(p, 0.3)


def P25_ring_one_setting():
    f = array('f', (2, 3)); w = array('w', (2, 3), 0.1, 4); p = array('p', (3, 2)); q = array('q', (3, 2), 0.1, 2)
    B = (0., 3., 3, 0., 2., 2); P = (0.2, 0.9, 2, 3, 0.1, 4., [1.4, 0.4], 2, 1, 0.)
    new = [(B, changed(P, k, v)) for k, v in ((0, 0.5), (1, 1.6), (4, 0.9), (5, 5.), (6, [0.3, 0.2]), (7, 3), (8, 2), (9, 0.9))]
    new += [(changed(B, k, v), P) for k, v in ((0, 1.), (1, 2.), (3, 0.5), (4, 1.2))]
    for bb, pp in new:
        b = densegrid.Box2Ring()
        b.setup_box(*B); b.setup_polar(*P); use(b, f, w, p, q)
        if bb is not B:
            b.setup_box(*bb)
        else:
            b.setup_polar(*pp)
        c = densegrid.Box2Ring(); c.setup_box(*bb); c.setup_polar(*pp)
        same_use(b, c, f, w, p, q)
        b.setup_box(*B); b.setup_polar(*P); use(b, f, w, p, q)
        b.setup_box(*bb); b.setup_polar(*pp)
        same_use(b, c, f, w, p, q)


def P25_mc_ring_one_setting():
    f = array('f', (2, 3)); w = array('w', (2, 3), 0.1, 4); p = array('p', (3, 2)); q = array('q', (3, 2), 0.1, 2)
    B = (0., 3., 3, 0., 2., 2); P = (0.2, 0.9, 2, 3, 0.1, 4., [1.4, 0.4], 0.)
    new = [(B, changed(P, k, v)) for k, v in ((0, 0.5), (1, 1.6), (4, 0.9), (5, 5.), (6, [0.3, 0.2]), (7, 0.9))]
    new += [(changed(B, k, v), P) for k, v in ((0, 1.), (1, 2.), (3, 0.5), (4, 1.2))]
    for bb, pp in new:
        b = montecarlo.Box2Ring()
        b.setup_box(*B); b.setup_polar_lin(*P); stream(STREAM); b.get_weights(4, False); use(b, f, w, p, q)
        if bb is not B:
            b.setup_box(*bb)
        else:
            b.setup_polar_lin(*pp)
        stream(STREAM); b.get_weights(4, False)
        c = montecarlo.Box2Ring(); c.setup_box(*bb); c.setup_polar_lin(*pp); stream(STREAM); c.get_weights(4, False)
        same_use(b, c, f, w, p, q)
    stream(None)


def P25_cap_one_setting():
    f = array('f', 48); w = array('w', 48, 0.1, 4); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    P = (0.2, 0.7, 1, 2, 0.1, 4., [1.4, 0.9], 0., 2, 1)
    for k, v in ((0, 0.3), (1, 1.1), (4, 0.5), (5, 5.), (6, [0.3, 2.2]), (7, 0.6), (8, 3), (9, 2)):
        b = densegrid.Heal2Ring(); b.setup_map(2); b.setup_polar_cap(*P); use(b, f, w, p, q)
        b.setup_polar_cap(*changed(P, k, v))
        c = densegrid.Heal2Ring(); c.setup_map(2); c.setup_polar_cap(*changed(P, k, v))
        same_use(b, c, f, w, p, q)


def P25_mc_cap_one_setting():
    f = array('f', 48); w = array('w', 48, 0.1, 4); p = array('p', (2, 1)); q = array('q', (2, 1), 0.1, 2)
    P = (0.2, 0.7, 1, 2, 0.1, 4., [1.4, 0.9], 0.)
    for k, v in ((0, 0.3), (1, 1.1), (4, 0.5), (5, 5.), (6, [0.3, 2.2]), (7, 0.6)):
        b = montecarlo.Heal2Ring(); b.setup_map(2); b.setup_polar_cap(*P); stream(STREAM); b.get_weights(2, False); use(b, f, w, p, q)
        b.setup_polar_cap(*changed(P, k, v)); stream(STREAM); b.get_weights(2, False)
        c = montecarlo.Heal2Ring(); c.setup_map(2); c.setup_polar_cap(*changed(P, k, v)); stream(STREAM); c.get_weights(2, False)
        same_use(b, c, f, w, p, q)
    stream(None)


def P25_box_one_setting():
    f = array('f', 48); w = array('w', 48, 0.1, 4)
    P = (0.9, 1, [1.4, 0.9], 0., 0.8, 2, 2, 1)
    for k, v in ((0, 1.3), (2, [0.3, 2.2]), (3, 0.6), (4, 1.2), (6, 3), (7, 2)):
        b = densegrid.Heal2Polar(); b.setup_map(2); b.setup_box(*P); b.remap(f, w, False)
        b.setup_box(*changed(P, k, v))
        c = densegrid.Heal2Polar(); c.setup_map(2); c.setup_box(*changed(P, k, v))
        equal(b.remap(f, w, False), c.remap(f, w, False), ONE); equal(b.remap(f, None, False), c.remap(f, None, False), ONE)


def P25_mc_box_one_setting():
    f = array('f', 48); w = array('w', 48, 0.1, 4)
    P = (0.9, 1, [1.4, 0.9], 0., 0.8, 2)
    for k, v in ((0, 1.3), (2, [0.3, 2.2]), (3, 0.6), (4, 1.2)):
        b = montecarlo.Heal2Polar(); b.setup_map(2); b.setup_box(*P); stream(STREAM); b.get_weights(2, False); b.remap(f, w, False)
        b.setup_box(*changed(P, k, v)); stream(STREAM); b.get_weights(2, False)
        c = montecarlo.Heal2Polar(); c.setup_map(2); c.setup_box(*changed(P, k, v)); stream(STREAM); c.get_weights(2, False)
        equal(b.remap(f, w, False), c.remap(f, w, False), ONE); equal(b.remap(f, None, False), c.remap(f, None, False), ONE)
    stream(None)


def P25_ortho_one_setting():
    f = array('f', 48); w = array('w', 48, 0.1, 4)
    P = (0.9, 1, [1.4, 0.9], 0.8, 2, 2, 1, 1.)
    for k, v in ((0, 1.3), (2, [0.3, 2.2]), (3, 1.2), (5, 3), (6, 2), (7, 1.5)):
        b = densegrid.Heal2Ortho(); b.setup_map(2); b.setup_box(*P); b.remap(f, w, False); b.transform(0.4, 0.8)
        b.setup_box(*changed(P, k, v))
        c = densegrid.Heal2Ortho(); c.setup_map(2); c.setup_box(*changed(P, k, v))
        equal(b.remap(f, w, False), c.remap(f, w, False), ONE); equal(b.remap(f, None, False), c.remap(f, None, False), ONE)
        equal(b.transform(0.4, 0.8), c.transform(0.4, 0.8), ONE)


def P25_shell_one_setting():
    f = array('f', (2, 3, 2))
    C = (0., 3., 3, 0., 2., 2, 0., 2., 2); P = (0.2, 0.7, 2, 1, [1.4, 0.9, 1.1], 1, 1, [0, 0], [0, 0], [0, 0])
    new = [(C, changed(P, k, v)) for k, v in ((0, 0.3), (1, 1.1), (4, [0.3, 0.2, 0.4]), (5, 2), (6, 2), (7, [0, 1]), (8, [-1, 0]), (9, [-1, 1]))]
    new += [(changed(C, k, v), P) for k, v in ((0, 1.), (1, 2.), (3, 0.5), (4, 1.2), (6, 0.7), (7, 1.6))]
    for cc, pp in new:
        b = densegrid.Cube2Shell(); b.setup_cube(*C); b.setup_polar(*P); b.remap(f, False)
        b.setup_cube(*cc); b.setup_polar(*pp)
        c = densegrid.Cube2Shell(); c.setup_cube(*cc); c.setup_polar(*pp)
        equal(b.remap(f, False), c.remap(f, False), ONE)
    for cc, pp in new:
        if pp[5:] == P[5:]:
            b = montecarlo.Cube2Shell(); b.setup_cube(*C); b.setup_polar_lin(*P[:5]); stream(STREAM); b.get_weights(3, False); b.remap(f, verbose=False)
            if cc is not C:
                b.setup_cube(*cc)
            else:
                b.setup_polar_lin(*pp[:5])
            stream(STREAM); b.get_weights(3, False)
            c = montecarlo.Cube2Shell(); c.setup_cube(*cc); c.setup_polar_lin(*pp[:5]); stream(STREAM); c.get_weights(3, False)
            equal(b.remap(f, verbose=False), c.remap(f, verbose=False), ONE)
    stream(None)


def P25_map_updated():
    # the caller refills the array between two remaps
    LAB = 'a map refilled by the caller is remapped with its new values'
    s = 1.; f = array('f', (2, 3)); w = array('w', (2, 3), 0.1, 4); p = array('p', (3, 2)); q = array('q', (3, 2), 0.1, 2); u = array('u', (3, 2), 0.1, 2)
    F = array('F', 48); W = array('W', 48, 0.1, 4); C = array('C', (2, 3, 2)); D = array('D', (2, 3, 2), 0.1, 4)
    b = densegrid.Box2Ring(); b.setup_box(0., 3., 3, 0., 2., 2); b.setup_polar(0.2, 0.7, 2, 3, 0.1, 4., [1.4, 0.9], 2, 1)
    m = montecarlo.Box2Ring(); m.setup_box(0., 3., 3, 0., 2., 2); m.setup_polar_lin(0.2, 0.7, 2, 3, 0.1, 4., [1.4, 0.9]); stream(STREAM); m.get_weights(4, False)
    c = densegrid.Heal2Ring(); c.setup_map(2); c.setup_polar_cap(0.2, 0.7, 2, 3, 0.1, 4., [1.4, 0.9])
    d = montecarlo.Heal2Ring(); d.setup_map(2); d.setup_polar_cap(0.2, 0.7, 2, 3, 0.1, 4., [1.4, 0.9]); stream(STREAM); d.get_weights(4, False)
    e = densegrid.Heal2Polar(); e.setup_map(2); e.setup_box(0.9, 2, [1.4, 0.9])
    g = montecarlo.Heal2Polar(); g.setup_map(2); g.setup_box(0.9, 2, [1.4, 0.9]); stream(STREAM); g.get_weights(4, False)
    h = densegrid.Heal2Ortho(); h.setup_map(2); h.setup_box(0.9, 2, [1.4, 0.9])
    k = densegrid.Cube2Shell(); k.setup_cube(0., 3., 3, 0., 2., 2, 0., 2., 2); k.setup_polar(0.2, 0.7, 2, 1, [1.4, 0.9, 1.1])
    n = montecarlo.Cube2Shell(); n.setup_cube(0., 3., 3, 0., 2., 2, 0., 2., 2); n.setup_polar_lin(0.2, 0.7, 2, 1, [1.4, 0.9, 1.1]); stream(STREAM); n.get_weights(3, False)
    stream(None)
    for o, a, v in ((b, f, w), (m, f, w), (c, F, W), (d, F, W), (e, F, W), (g, F, W), (h, F, W), (n, C, D)):
        o.remap(a, None, False); o.remap(a, v, False)
        for part in (a, v):
            t = clone(part)
            part += 1.5
            x = o.remap(a, None, False); y = o.remap(a, v, False)
            equal(x, o.remap(clone(a), None, False), LAB); equal(y, o.remap(clone(a), clone(v), False), LAB)
            o.remap(a, v, False)
            part[:] = 2*t
            y = o.remap(a, v, False); x = o.remap(a, None, False)
            equal(x, o.remap(clone(a), None, False), LAB); equal(y, o.remap(clone(a), clone(v), False), LAB)
    k.remap(C, False)
    C *= 3.
    x = k.remap(C, False)
    equal(x, k.remap(clone(C), False), LAB)
    LAB = 'a profile of a refilled map has its new values'
    for o in (b, m, c, d):
        o.polar2radial(p); o.polar2radial(p, q, u)
        for part in (p, q, u):
            part += 0.5
            x = o.polar2radial(p); y = o.polar2radial(p, q, u); z = o.rotate_polar(p, 0.4)
            equal(x, o.polar2radial(clone(p)), LAB); equal(y, o.polar2radial(clone(p), clone(q), clone(u)), LAB); equal(z, o.rotate_polar(clone(p), 0.4), LAB)


def P25_view_one_setting():
    P = ([0.2, 0.1, 0.], [1., 2., 1.5], 2., 0.3)
    x = np.array([2., 3.]); y = np.array([3., 4.5]); z = np.array([1.5, 2.2])
    for k, v in ((0, [0.5, 0., 0.2]), (0, [0.2, 0.1, 1.5]), (1, [1.5, 1., 0.5]), (1, [1., 2., 0.]), (2, 0.7), (3, 0.), (3, 1.2)):
        b = densegrid.PointOfView(); c = densegrid.PointOfView()
        b.setup(*P); b.reverse(*b.transform(x, y, z))
        b.setup(*changed(P, k, v)); c.setup(*changed(P, k, v))
        equal(b.transform(x, y, z), c.transform(x, y, z), ONE); equal(b.reverse(x, y, z), c.reverse(x, y, z), ONE)
