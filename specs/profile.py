"""Radial profiles taken through the remap objects."""
import numpy as np
import healpy as hp
from magpie import coords, densegrid, montecarlo

PI = np.pi


def profile_check(o, inside, area, pixarea, nphi, nr, tag):
    """the profile leaves out every cell that is not inside and follows the weights of the others"""
    f = array('f' + tag, (nphi, nr)); s = array('s' + tag, (nphi, nr), 0.1, 2); w = array('w' + tag, (nphi, nr), 0.1, 2)
    bare = frozen(o.polar2radial, f)
    err = frozen(o.polar2radial, f, s)
    wei = frozen(o.polar2radial, f, w=w)
    both = frozen(o.polar2radial, f, s, w)
    for j in range(nr):
        n = 0; t = 0; v = 0; W = 0; wt = 0; wv = 0
        for i in range(nphi):
            k = inside[i][j]
            n = n + k; t = t + k*f[i, j]; v = v + k*pixarea/area[j]*s[i, j]**2
            W = W + k*w[i, j]; wt = wt + k*w[i, j]*f[i, j]; wv = wv + k*pixarea/area[j]*(w[i, j]*s[i, j])**2
        if any([inside[i][j] is 1 for i in range(nphi)]):
            equal(bare[j], t/n, 'profile is the mean over the cells inside')
            equal(err[0][j], t/n, 'errors leave the profile')
            equal(err[1][j]**2, v/n**2, 'error of the mean over the cells inside')
            equal(wei[j], wt/W, 'profile is the weighted mean over the cells inside')
            equal(both[0][j], wt/W, 'errors leave the weighted profile')
            equal(both[1][j]**2, wv/W**2, 'error of the weighted mean over the cells inside')
            holds(err[1][j] >= 0, 'error is not negative'); holds(both[1][j] >= 0, 'error is not negative')


def ring_inside(nx, ny, ax, ay, r, p, kr, kp, shift):
    """which cells of a ring lie inside the box with all their sub-cells; lengths in cells"""
    out = []
    for i in range(len(p) - 1):
        row = []
        for j in range(len(r) - 1):
            ok = 1
            for a in range(kp):
                for b in range(kr):
                    R = r[j] + (r[j + 1] - r[j])*(b + 0.5)/kr
                    f = p[i] + (p[i + 1] - p[i])*(a + 0.5)/kp + shift
                    x = ax + R*np.cos(f); y = ay + R*np.sin(f)
                    if x < 0 or x >= nx or y < 0 or y >= ny:
                        ok = 0
            row.append(ok)
        out.append(row)
    return out


def dense_ring(nx, ny, ax, ay, r0, r1, nr, nphi, p0=0, p1=2*PI, kr=2, kp=2, shift=0, tag=''):
    m = real('m'); n = real('n'); s = real('s', 0.5, 2)
    o = densegrid.Box2Ring()
    o.setup_box(m, m + nx*s, nx, n, n + ny*s, ny)
    o.setup_polar(r0*s, r1*s, nr, nphi, pmin=p0, pmax=p1, center=[m + ax*s, n + ay*s], rebin_r=kr, rebin_p=kp, phi_shift=shift)
    r = [r0 + (r1 - r0)*k/nr for k in range(nr + 1)]
    p = [p0 + (p1 - p0)*k/nphi for k in range(nphi + 1)]
    ins = ring_inside(nx, ny, ax, ay, r, p, kr, kp, shift)
    area = [(r[j + 1]**2 - r[j]**2)/2*(p1 - p0)/nphi*s**2 for j in range(nr)]
    profile_check(o, ins, area, s**2, nphi, nr, tag)
    return ins


def P19_dense_inside():
    dense_ring(4, 4, 2.1, 1.9, 0.3, 1.5, 2, 3)
    dense_ring(4, 3, 2.1, 1.4, 0.2, 1.1, 1, 2, p0=PI/6, p1=PI, kr=1, kp=3, tag='b')


def P19_dense_partly_outside():
    a = dense_ring(4, 4, 1.7, 1.6, 0.4, 3.2, 2, 4)
    holds(a[0][1] + a[1][1] + a[2][1] + a[3][1] < 4, 'some cells lie partly outside')
    dense_ring(4, 4, 1.7, 1.6, 0.4, 3.2, 2, 4, shift=0.4, tag='b')
    dense_ring(4, 3, 0.8, 1.1, 0.2, 1.6, 3, 4, kr=3, kp=2, tag='c')
    dense_ring(3, 3, 1.4, 1.3, 0.2, 2.2, 2, 3, p0=PI/5, p1=3*PI/2, kr=2, kp=4, tag='d')


def P19_dense_edge_cells_only():
    # every cell has some part inside the box
    dense_ring(4, 4, 2, 2, 0.4, 2.6, 2, 4)
    dense_ring(4, 4, 1.9, 2, 1.2, 2.4, 1, 2, kr=3, kp=3, tag='b')
    a = dense_ring(4, 4, 2.9, 2, 0.4, 1.8, 1, 4, tag='c')
    holds(a[0][0] + a[1][0] + a[2][0] + a[3][0] == 2, 'two cells lie partly outside')


def P19_dense_far_outside():
    # beside the box: whole rows of the ring lie outside
    dense_ring(2, 2, 1.9, 1.2, 0.2, 1., 2, 4)
    dense_ring(2, 2, 0.4, 0.6, 0.3, 2.1, 2, 6, kr=1, kp=2, tag='b')


def mc_ring(nx, ny, ax, ay, r, nphi, inside, p0=0, p1=2*PI, shift=0, log=False, mc=2, tag=''):
    m = real('m'); n = real('n'); s = (1 if log else real('s', 0.5, 2))
    o = montecarlo.Box2Ring()
    o.setup_box(m, m + nx*s, nx, n, n + ny*s, ny)
    if log:
        o.setup_polar_log(r[0]*s, r[-1]*s, len(r) - 1, nphi, pmin=p0, pmax=p1, center=[m + ax*s, n + ay*s], phi_shift=shift, addzero=False)
    else:
        o.setup_polar_lin(r[0]*s, r[-1]*s, len(r) - 1, nphi, pmin=p0, pmax=p1, center=[m + ax*s, n + ay*s], phi_shift=shift)
    o.get_weights(mc, False)
    nr = len(r) - 1
    area = [(r[j + 1]**2 - r[j]**2)/2*(p1 - p0)/nphi*s**2 for j in range(nr)]
    if inside is None:
        return o, area, s
    profile_check(o, inside, area, s**2, nphi, nr, tag)


def P19_mc_inside():
    mc_ring(1, 1, 0.5, 0.5, [0.1, 0.25, 0.4], 2, [[1, 1], [1, 1]])
    mc_ring(1, 1, 0.5, 0.45, [0.1, 0.2, 0.4], 1, [[1, 1]], log=True, p0=PI/6, p1=PI, shift=0.3, tag='b')


def P19_mc_outside():
    # the first azimuth bin lies inside, the last outside, the one between crosses the edge
    o, area, s = mc_ring(1, 1, 0.1, 0.1, [0.3, 0.8], 3, None, p0=0.1, p1=3.7)
    o.get_mask_in_bound(False)
    k = o.mask_in_bound[1, 0]
    profile_check(o, [[1], [k], [0]], area, s**2, 3, 1, '')
    o, area, s = mc_ring(1, 1, 0.1, 0.1, [0.3, 0.8], 3, None, p0=0.1, p1=3.7)
    f = array('f', (3, 1)); w = array('w', (3, 1), 0.1, 2); e = array('e', (3, 1), 0.1, 2)
    w[1, 0] = 0
    g, d = frozen(o.polar2radial, f, e, w)
    equal(g[0], f[0, 0], 'cells outside the box or without weight do not count')
    equal(d[0], e[0, 0]*np.sqrt(s**2/area[0]), 'cells outside the box or without weight do not count')


def P19_cap():
    for nside in (1, 2):
        for kind in (0, 1):
            o = (densegrid.Heal2Ring() if kind == 0 else montecarlo.Heal2Ring())
            o.setup_map(nside)
            o.setup_polar_cap(0.2, 1.4, 2, 3, beta_min=0.4, beta_max=5.2, center=[0.7, 1.1], beta_shift=0.3)
            a = [0.2, 0.8, 1.4]
            area = [(np.cos(a[j]) - np.cos(a[j + 1]))*(5.2 - 0.4)/3 for j in range(2)]
            profile_check(o, [[1, 1]]*3, area, PI/3/nside**2, 3, 2, '%d' % (2*nside + kind))


def missing_check(o, out, f, e, w, lab):
    # what the map, its error and its weights hold where there is no box does not matter
    a = o.polar2radial(f); b = o.polar2radial(f, e); c = o.polar2radial(f, w=w); d = o.polar2radial(f, e, w)
    F = clone(f); E = clone(e); W = clone(w)
    for i, j in out:
        F[i, j] = np.nan; E[i, j] = np.nan; W[i, j] = np.nan
    equal(o.polar2radial(F), a, lab); equal(o.polar2radial(F, E), b, lab); equal(o.polar2radial(F, w=W), c, lab); equal(o.polar2radial(F, E, W), d, lab)
    for i in range(len(a)):
        holds(np.isfinite(a[i]), lab)


def P19_missing_outside():
    LAB = 'cells outside the box contribute nothing, whatever they hold'
    f = array('f', (4, 1)); e = array('e', (4, 1), 0.1, 2); w = array('w', (4, 1), 0.1, 2)
    o = densegrid.Box2Ring(); o.setup_box(0, 4, 4, 0, 4, 4); o.setup_polar(0.4, 1.8, 1, 4, center=[2.9, 2.])
    missing_check(o, [(0, 0), (3, 0)], f, e, w, LAB)
    o = montecarlo.Box2Ring(); o.setup_box(0, 4, 4, 0, 4, 4); o.setup_polar_lin(0.4, 1.8, 1, 4, center=[4.1, 2.])
    stream([0.37, 0.81, 0.12, 0.55, 0.93, 0.28, 0.69]); o.get_weights(3, False); stream(None)
    missing_check(o, [(0, 0), (3, 0)], f, e, w, LAB)
    # the map of the object itself has no value there
    F = o.remap(array('F', (4, 4)), None, False)
    holds(np.isnan(F[0, 0]), 'a cell beside the box has no value')
    G = clone(F); G[0, 0] = 0; G[3, 0] = 0
    equal(o.polar2radial(F), o.polar2radial(G), LAB); equal(o.polar2radial(F, e, w), o.polar2radial(G, e, w), LAB)
    holds(np.isfinite(o.polar2radial(F)[0]), LAB)
