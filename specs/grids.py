"""Grid construction, cell areas, cumulative profiles."""
import numpy as np
from magpie import coords, grids, polar

PI = np.pi


# ------------------------------------------------------------------ P10 grids
def axis_check(n):
    L = real('L', 0.1, 10); m = real('m')
    e = grids.get_xedges(L, n, xmin=m)
    equal(np.shape(e), (n + 1,), 'one edge more than cells')
    for k in range(n + 1):
        equal(e[k], m + L*k/n, 'edges are evenly spaced from xmin to xmin + length')
    c = grids.xedges2mid(e)
    equal(np.shape(c), (n,), 'one centre per cell')
    x = grids.grid1d(L, n, xmin=m)
    x2, e2 = grids.grid1d(L, n, xmin=m, return_edges=True)
    equal(x2, x, 'centres do not depend on return_edges')
    equal(e2, e, 'returned edges are the edges of the axis')
    for k in range(n):
        equal(c[k], m + L*(k + 0.5)/n, 'centres lie half way between the edges')
        equal(x[k], m + L*(k + 0.5)/n, 'grid1d returns the cell centres')
    e = grids.get_xedges(L, n)
    equal(e[0], 0, 'axis starts at 0 by default')
    equal(e[n], L, 'axis ends at its length by default')
    equal(grids.grid1d(L, n)[0], 0.5*L/n, 'default grid1d starts half a cell from 0')


def P10_axis_1():
    axis_check(1)


def P10_axis_2():
    axis_check(2)


def P10_axis_5():
    axis_check(5)


def P10_mid_any_edges():
    e = increasing('e', 5)
    c = grids.xedges2mid(e)
    for k in range(4):
        equal(c[k], (e[k] + e[k + 1])/2, 'centre of an uneven cell')


def P10_mid2edges_interior():
    x0 = real('x0'); d = real('d', 0.1, 2)
    for n in (2, 4):
        c = x0 + d*np.arange(n)
        e = grids.xmid2edges(c)
        equal(np.shape(e), (n + 1,), 'one edge more than centres')
        for k in range(n - 1):
            equal(e[k + 1] - e[k], d, 'recovered edges are one cell apart')


def P10_mid2edges():
    L = real('L', 0.1, 10); m = real('m')
    n = 4
    e = grids.xmid2edges(grids.grid1d(L, n, xmin=m))
    for k in range(n + 1):
        equal(e[k], m + L*k/n, 'edges recovered from the centres are the edges of the grid')


def grid2_check(na, nb):
    a = real('a', 0.1, 10); b = real('b', 0.1, 10); p = real('p'); q = real('q')
    x, y = grids.grid2d([a, b], [na, nb], mins=[p, q])
    equal(np.shape(x), (na, nb), 'shape of x')
    equal(np.shape(y), (na, nb), 'shape of y')
    x2, y2, xm, ym = grids.grid2d([a, b], [na, nb], mins=[p, q], return1d=True)
    equal(x2, x, 'return1d leaves x'); equal(y2, y, 'return1d leaves y')
    equal(np.shape(xm), (na,), 'x centres'); equal(np.shape(ym), (nb,), 'y centres')
    for i in range(na):
        equal(xm[i], p + a*(i + 0.5)/na, 'x centre')
        for j in range(nb):
            equal(x[i, j], p + a*(i + 0.5)/na, 'x of each cell')
            equal(y[i, j], q + b*(j + 0.5)/nb, 'y of each cell')
            equal(ym[j], q + b*(j + 0.5)/nb, 'y centre')


def P10_grid2d_23():
    grid2_check(2, 3)


def P10_grid2d_41():
    grid2_check(4, 1)


def P10_grid2d_scalar():
    a = real('a', 0.1, 10)
    x, y = grids.grid2d(a, 2)
    for i in range(2):
        for j in range(2):
            equal(x[i, j], a*(i + 0.5)/2, 'one length and count for both axes (x)')
            equal(y[i, j], a*(j + 0.5)/2, 'one length and count for both axes (y)')
    b = real('b', 0.1, 10)
    x, y = grids.grid2d([a, b], 2)
    equal(np.shape(x), (2, 2), 'one count for both axes')
    equal(y[0, 1], b*0.75, 'second length is for y')
    x, y = grids.grid2d(a, [2, 3])
    equal(np.shape(x), (2, 3), 'one length for both axes')
    equal(y[0, 2], a*2.5/3, 'y cells')


def grid3_check(na, nb, nc):
    a = real('a', 0.1, 10); b = real('b', 0.1, 10); c = real('c', 0.1, 10); p = real('p'); q = real('q'); s = real('s')
    x, y, z = grids.grid3d([a, b, c], [na, nb, nc], mins=[p, q, s])
    for v in (x, y, z):
        equal(np.shape(v), (na, nb, nc), 'shape')
    x2, y2, z2, xm, ym, zm = grids.grid3d([a, b, c], [na, nb, nc], mins=[p, q, s], return1d=True)
    equal(x2, x, 'return1d leaves x'); equal(y2, y, 'return1d leaves y'); equal(z2, z, 'return1d leaves z')
    for i in range(na):
        for j in range(nb):
            for k in range(nc):
                equal(x[i, j, k], p + a*(i + 0.5)/na, 'x of each cell')
                equal(y[i, j, k], q + b*(j + 0.5)/nb, 'y of each cell')
                equal(z[i, j, k], s + c*(k + 0.5)/nc, 'z of each cell')
    equal(xm, x[:, 0, 0], 'x centres'); equal(ym, y[0, :, 0], 'y centres'); equal(zm, z[0, 0, :], 'z centres')


def P10_grid3d_234():
    grid3_check(2, 3, 4)


def P10_grid3d_312():
    grid3_check(3, 1, 2)


def P10_grid3d_scalar():
    a = real('a', 0.1, 10)
    x, y, z = grids.grid3d(a, 2)
    equal(np.shape(x), (2, 2, 2), 'one length and count for all axes')
    equal(x[1, 0, 0], 0.75*a, 'x'); equal(y[0, 1, 0], 0.75*a, 'y'); equal(z[0, 0, 1], 0.75*a, 'z')


def P10_one_cell():
    a = real('a', 0.1, 10); m = real('m')
    x, y = grids.grid2d(a, 1)
    equal(np.shape(x), (1, 1), 'one cell'); equal(x[0, 0], a/2, 'one cell'); equal(y[0, 0], a/2, 'one cell')
    x, y, z = grids.grid3d(a, 1)
    equal(np.shape(x), (1, 1, 1), 'one cell'); equal(np.shape(z), (1, 1, 1), 'one cell'); equal(z[0, 0, 0], a/2, 'one cell')
    x, y, z = grids.grid3d(a, 1, mins=[m, 0., -m])
    equal(z[0, 0, 0], a/2 - m, 'one cell from its minimum'); equal(x[0, 0, 0], a/2 + m, 'one cell from its minimum')


def P10_some_minima():
    # an axis whose minimum is left out starts at zero, whatever the other minima are
    L = [real('a', 0.1, 10), real('b', 0.1, 10), real('c', 0.1, 10)]; m = [real('p'), real('q'), real('r')]; n = [2, 3, 2]
    for k in range(8):
        s = [m[i] if (k >> i) % 2 else None for i in range(3)]
        g = grids.grid3d(L, n, mins=s)
        g1 = grids.grid3d(L, n, mins=s, return1d=True)
        h = grids.grid2d(L[:2], n[:2], mins=s[:2])
        for i in range(3):
            o = m[i] if (k >> i) % 2 else 0
            equal(g[i][1, 1, 1], o + 1.5*L[i]/n[i], 'each axis starts at its own minimum or zero')
            equal(g[i][0, 0, 0], o + 0.5*L[i]/n[i], 'each axis starts at its own minimum or zero')
            equal(g1[3 + i][0], o + 0.5*L[i]/n[i], 'each axis starts at its own minimum or zero')
            if i < 2:
                equal(h[i][1, 1], o + 1.5*L[i]/n[i], 'each axis starts at its own minimum or zero')
    for x0 in (0., -0.5, -2., 3.):
        e = grids.get_xedges(L[0], 2, xmin=x0)
        equal(e[0], x0, 'edges start at the minimum'); equal(e[2], x0 + L[0], 'and end a length later')
        x = grids.grid1d(L[0], 2, xmin=x0)
        equal(x[0], x0 + L[0]/4, 'centres start at the minimum')


def P10_polargrid():
    a = real('a', 0, 1); b = a + real('d', 0.1, 2); p = real('p', 0, 3); q = p + real('dp', 0.1, 3)
    for nr, nphi in ((2, 3), (3, 1)):
        r, f = grids.polargrid(nr, nphi, rmin=a, rmax=b, phimin=p, phimax=q)
        equal(np.shape(r), (nr, nphi), 'shape')
        r2, f2, rm, pm = grids.polargrid(nr, nphi, rmin=a, rmax=b, phimin=p, phimax=q, return1d=True)
        equal(r2, r, 'return1d leaves r'); equal(f2, f, 'return1d leaves phi')
        equal(rm, r[:, 0], 'radial centres'); equal(pm, f[0, :], 'azimuthal centres')
        for i in range(nr):
            for j in range(nphi):
                equal(r[i, j], a + (b - a)*(i + 0.5)/nr, 'radius of each cell')
                equal(f[i, j], p + (q - p)*(j + 0.5)/nphi, 'azimuth of each cell')
    r, f = grids.polargrid(2, 4)
    equal(r[0, 0], 0.25, 'default radial range is [0, 1]')
    equal(f[0, 0], PI/4, 'default azimuthal range is [0, 2 pi]')
    equal(f[0, 3], 7*PI/4, 'default azimuthal range ends at 2 pi')


def ea_check(nr, base):
    R = real('R', 0.1, 5)
    r, p = grids.polarEA_grid(nr, rmax=R, base_nphi=base)
    n = base*nr*nr
    equal(np.shape(r), (n,), 'number of equal-area cells (r)')
    equal(np.shape(p), (n,), 'number of equal-area cells (phi)')
    equal(grids.polarEA_npix(nr, base_nphi=base), n, 'announced number of cells')
    k = 0
    for i in range(nr):
        m = base*(2*i + 1)
        for j in range(m):
            equal(r[k], R*(i + 0.5)/nr, 'ring radius')
            equal(p[k], 2*PI*(j + 0.5)/m, 'azimuth along the ring')
            k += 1
        equal(PI*((R*(i + 1)/nr)**2 - (R*i/nr)**2)/m, grids.polarEA_area(nr, rmax=R, base_nphi=base), 'every cell has the announced area')


def P10_equal_area_1():
    ea_check(1, 4)


def P10_equal_area_3():
    ea_check(3, 4)


def P10_equal_area_more():
    ea_check(6, 1)
    ea_check(5, 3)


def P10_equal_area_23():
    ea_check(2, 3)


def P10_equal_area_default():
    r, p = grids.polarEA_grid(2)
    equal(len(r), 16, 'default base of four cells')
    equal(r[15], 0.75, 'default radius 1')


# ------------------------------------------------------------------ P20 areas and cumulative profiles
def P20_sphere_area():
    a = real('a', 0, 3); b = a + real('d', 0.01, 3); t = real('t', 0, 1.5); u = t + real('dt', 0.01, 1.6)
    A = coords.usphere_area(a, b, t, u)
    equal(A, (b - a)*(np.cos(t) - np.cos(u)), 'area of a sphere segment')
    m = real('m', 0.1, 0.9)
    c = a + m*(b - a); v = t + m*(u - t)
    equal(coords.usphere_area(a, c, t, u) + coords.usphere_area(c, b, t, u), A, 'areas add up along azimuth')
    equal(coords.usphere_area(a, b, t, v) + coords.usphere_area(a, b, v, u), A, 'areas add up along colatitude')
    equal(coords.usphere_area(0., 2*PI, 0., PI), 4*PI, 'the whole sphere has area 4 pi')
    equal(coords.usphere_area(0., PI, 0., PI/2), PI, 'a quarter sphere')
    for w in (1e-4, 1e-7):
        for s in (0., 0.7, PI/2, 2.9):
            equal(coords.usphere_area(a, b, s, s + w)/w, (b - a)*(np.cos(s) - np.cos(s + w))/w, 'area of a thin ring')
        for s in (0., 3.1, 2*PI - 2*w):
            equal(coords.usphere_area(s, s + w, t, u)/w, np.cos(t) - np.cos(u), 'area of a thin lune')
    equal(coords.usphere_area(0., 1., PI - 1e-3, PI)*1e6, (1 + np.cos(PI - 1e-3))*1e6, 'area of a small cap round the south pole')
    equal(coords.usphere_area(0., 1., 0., 1e-3)*1e6, (1 - np.cos(1e-3))*1e6, 'area of a small cap round the north pole')


def P20_sphere_area_checks():
    t = real('t', 0, 1.5); u = t + real('dt', 0.01, 1.6)
    equal(raises(coords.usphere_area, real('neg', -3, -0.01), 1., t, u), True, 'negative azimuth is refused')
    equal(raises(coords.usphere_area, 0., 7., t, u), True, 'azimuth above 2 pi is refused')
    equal(raises(coords.usphere_area, 1., 1., t, u), True, 'empty azimuth range is refused')
    equal(raises(coords.usphere_area, 0., 1., 1., 1.), True, 'empty colatitude range is refused')
    equal(raises(coords.usphere_area, 0., 1., 0., 4.), True, 'colatitude above pi is refused')
    equal(raises(coords.usphere_area, 0., 1., real('negt', -3, -0.01), 1.), True, 'negative colatitude is refused')
    for w in (1e-3, 1e-5):
        equal(raises(coords.usphere_area, -w, 1., t, u), True, 'slightly negative azimuth is refused')
        equal(raises(coords.usphere_area, 0., 2*PI + w, t, u), True, 'azimuth slightly above 2 pi is refused')
        equal(raises(coords.usphere_area, 0., 1., -w, 1.), True, 'slightly negative colatitude is refused')
        equal(raises(coords.usphere_area, 0., 1., 0., PI + w), True, 'colatitude slightly above pi is refused')


def polar_area_check(nr, nphi):
    e = increasing('r', nr + 1, 0); p0 = real('p0', 0, 3); w = real('w', 0.1, 3)
    p = p0 + w*np.arange(nphi + 1)/nphi
    A = polar.get_polar_area2d(e, p)
    equal(np.shape(A), (nphi, nr), 'one area per cell, azimuth along the first axis')
    tot = 0
    for i in range(nphi):
        for j in range(nr):
            equal(A[i, j], 0.5*(e[j + 1]**2 - e[j]**2)*(p[i + 1] - p[i]), 'area of each polar cell')
            tot += A[i, j]
    equal(tot, 0.5*(e[nr]**2 - e[0]**2)*w, 'cell areas add up to the annulus')


def P20_polar_area_23():
    polar_area_check(2, 3)


def P20_polar_area_31():
    polar_area_check(3, 1)


def P20_pixarea():
    x = real('x0') + real('dx', 0.1, 2)*np.arange(4); y = real('y0') + real('dy', 0.1, 2)*np.arange(3)
    equal(polar.get_pixarea(x, y), real('dx', 0.1, 2)*real('dy', 0.1, 2), 'area of a cartesian cell')


def cumul_check(n):
    e = increasing('r', n + 1, 0); f = array('f', n); s = array('s', n, 0.1, 3)
    c = polar.cumulative_radial(e, f)
    equal(np.shape(c), (n + 1,), 'one cumulative value per edge')
    acc = 0; var = 0
    c2, sg = polar.cumulative_radial(e, f, sigma=s)
    equal(c2, c, 'errors leave the cumulative profile')
    equal(np.shape(sg), (n + 1,), 'one cumulative error per edge')
    equal(c[0], 0, 'cumulative profile starts at 0')
    equal(sg[0], 0, 'cumulative error starts at 0')
    for k in range(n):
        a = PI*(e[k + 1]**2 - e[k]**2)
        acc += a*f[k]; var += (a*s[k])**2
        equal(c[k + 1], acc, 'cumulative profile sums value times annulus area')
        equal(sg[k + 1]**2, var, 'cumulative error adds in quadrature')
        holds(sg[k + 1] >= 0, 'error is not negative')


def P20_cumulative_1():
    cumul_check(1)


def P20_cumulative_4():
    cumul_check(4)


# ------------------------------------------------------------------ P19 radial profile of a polar grid
def P19_mean():
    for nphi, nr in ((3, 2), (2, 4), (1, 2)):
        f = array('f%d' % nphi, (nphi, nr)); e = increasing('r', nr + 1, 0)
        p = 2*PI*np.arange(nphi + 1)/nphi
        A = polar.get_polar_area2d(e, p); pa = real('pa', 0.1, 2)
        g = polar.polar2radial(f, A, pa)
        equal(np.shape(g), (nr,), 'one value per radial bin')
        s = array('s%d' % nphi, (nphi, nr), 0.1, 2)
        g2, sg = polar.polar2radial(f, A, pa, sigma=s)
        equal(g2, g, 'errors leave the profile')
        for j in range(nr):
            t = 0; v = 0
            for i in range(nphi):
                t += f[i, j]; v += pa/A[i, j]*s[i, j]**2
            equal(g[j], t/nphi, 'profile is the mean over azimuth')
            equal(sg[j]**2, v/nphi**2, 'error of the mean, scaled by cells per pixel')
            holds(sg[j] >= 0, 'error is not negative')


def P19_weighted():
    for nphi, nr in ((3, 2), (2, 3)):
        f = array('f%d' % nphi, (nphi, nr)); e = increasing('r', nr + 1, 0)
        p = 2*PI*np.arange(nphi + 1)/nphi
        A = polar.get_polar_area2d(e, p); pa = real('pa', 0.1, 2)
        w = array('w%d' % nphi, (nphi, nr), 0.1, 2); s = array('s%d' % nphi, (nphi, nr), 0.1, 2)
        g = polar.polar2radial(f, A, pa, w=w)
        g2, sg = polar.polar2radial(f, A, pa, sigma=s, w=w)
        equal(g2, g, 'errors leave the weighted profile')
        for j in range(nr):
            t = 0; v = 0; W = 0
            for i in range(nphi):
                t += f[i, j]*w[i, j]; W += w[i, j]; v += pa/A[i, j]*(w[i, j]*s[i, j])**2
            equal(g[j], t/W, 'profile is the weighted mean over azimuth')
            equal(sg[j]**2, v/W**2, 'error of the weighted mean')
        one = np.ones((nphi, nr))
        equal(polar.polar2radial(f, A, pa, w=one), polar.polar2radial(f, A, pa), 'unit weights change nothing')
        a, b = polar.polar2radial(f, A, pa, sigma=s, w=one)
        c, d = polar.polar2radial(f, A, pa, sigma=s)
        equal(b, d, 'unit weights leave the error')
        k = real('k', 0.5, 3)
        equal(polar.polar2radial(f, A, pa, w=k*w), g, 'the profile does not depend on the scale of the weights')
        c0 = real('c0')
        equal(polar.polar2radial(c0 + 0*f, A, pa, w=w), c0 + np.zeros(nr), 'a constant map has a constant profile')
