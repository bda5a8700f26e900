"""Monte Carlo remaps: weights are the fractions of the drawn points per cell, remaps their weighted means."""
import numpy as np
import healpy as hp
from magpie import montecarlo, randoms, coords

PI = np.pi


def unit(f, t):
    return [np.cos(f)*np.sin(t), np.sin(f)*np.sin(t), np.cos(t)]


def about_y(a, p):
    c = np.cos(a); s = np.sin(a)
    return [c*p[0] + s*p[2], p[1], c*p[2] - s*p[0]]


def about_x(a, p):
    c = np.cos(a); s = np.sin(a)
    return [p[0], c*p[1] - s*p[2], s*p[1] + c*p[2]]


def about_z(a, p):
    c = np.cos(a); s = np.sin(a)
    return [c*p[0] - s*p[1], s*p[0] + c*p[1], p[2]]


def pixel_of(nside, p):
    f = np.arctan2(p[1], p[0])
    if f < 0:
        f = f + 2*PI
    return hp.ang2pix(nside, np.arccos(p[2]), f)


def share(pix, f, w, n):
    """weighted mean of f over the pixels of the draws"""
    num = 0; den = 0
    for k in range(n):
        c = 0
        for p in pix:
            if p == k:
                c = c + 1
        if w is None:
            num = num + c*f[k]
        else:
            num = num + c*f[k]*w[k]; den = den + c*w[k]
    if w is None:
        return num/len(pix)
    return num/den


# ------------------------------------------------------------------ P17 cap
def cap_mc(nside, a0, a1, na, b0, b1, nb, c, shift, mc, weights=False, positional=False):
    n = 12*nside*nside
    h = montecarlo.Heal2Ring()
    h.setup_map(nside)
    if positional:
        h.setup_polar_cap(a0, a1, na, nb, b0, b1, list(c), shift)
    else:
        h.setup_polar_cap(a0, a1, na, nb, beta_min=b0, beta_max=b1, center=list(c), beta_shift=shift)
    reset_rng()
    h.get_weights(mc, False)
    equal(ndraws(), 2*mc*na*nb, 'the asked number of points in every cell')
    f = array('f', n)
    w = array('w', n, 0.1, 4) if weights else None
    g = frozen(h.remap, f, w, False)
    equal(np.shape(g), (nb, na), 'one value per azimuth and opening-angle bin')
    e = []
    at = 0
    da = (a1 - a0)/na; db = (b1 - b0)/nb
    for i in range(nb):
        for j in range(na):
            u = U(at, mc); v = U(at + mc, mc)
            at = at + 2*mc
            pix = []
            for k in range(mc):
                be = b0 + (i + u[k])*db
                al = np.arccos(np.cos(a0 + j*da) + (np.cos(a0 + (j + 1)*da) - np.cos(a0 + j*da))*v[k])
                if c[0] == 0 and c[1] == 0 and shift == 0:
                    pix.append(hp.ang2pix(nside, al, be))
                else:
                    pix.append(pixel_of(nside, about_z(c[0], about_y(c[1], unit(be + shift, al)))))
            e.append(share(pix, f, w, n))
    equal_rng(np.ravel(g), np.array(e), 'mean of the map over the points drawn in the cell')


def P17_cap_pole():
    cap_mc(1, 0.2, 1.4, 2, 0, 2*PI, 2, (0, 0), 0, 2)
    cap_mc(1, 0.3, 2.4, 1, PI/4, PI, 2, (0, 0), 0, 2)


def P17_cap_weights():
    cap_mc(1, 0.2, 1.4, 1, 0, 2*PI, 2, (0, 0), 0, 2, weights=True)


def P17_cap_tilted():
    cap_mc(1, 0.2, 1.4, 1, 0, 2*PI, 1, (PI/3, PI/2), 0, 2)
    cap_mc(1, 0.2, 1.4, 1, 0, 2*PI, 1, (PI/4, 2*PI/3), 0, 2)


def P17_cap_shift():
    cap_mc(1, 0.2, 1.4, 1, 0, PI, 2, (0, 0), PI/3, 2)
    cap_mc(1, 0.2, 1.4, 1, 0, PI, 1, (PI/3, PI/2), PI/2, 2)


def P17_cap_shares():
    cap_mc(1, 0.2, 1.4, 1, 0, PI, 1, (0, 0), 0, 3)
    cap_mc(1, 0.2, 1.4, 1, 0, PI, 1, (0, 0), 0, 3, weights=True)


def P17_cap_positional():
    cap_mc(1, 0.2, 1.4, 1, PI/3, PI, 1, (PI/3, PI/2), PI/2, 2, positional=True)


# ------------------------------------------------------------------ P17 longitude-latitude box
def box_mc(nside, lx, nx, ly, ny, c, al, mc, weights=False, positional=False):
    n = 12*nside*nside
    h = montecarlo.Heal2Polar()
    h.setup_map(nside)
    if positional:
        h.setup_box(lx, nx, list(c), al, ly, ny)
    else:
        h.setup_box(lx, nx, center=list(c), alpha=al, y_length=ly, y_grid=ny)
    reset_rng()
    h.get_weights(mc, False)
    equal(ndraws(), 2*mc*nx*ny, 'the asked number of points in every cell')
    f = array('f', n)
    w = array('w', n, 0.1, 4) if weights else None
    g = frozen(h.remap, f, w, False)
    equal(np.shape(g), (ny, nx), 'one value per cell')
    e = []
    at = 0
    dx = lx/nx; dy = ly/ny
    for i in range(ny):
        for j in range(nx):
            u = U(at, mc); v = U(at + mc, mc)
            at = at + 2*mc
            s0 = np.sin(-ly/2 + i*dy); s1 = np.sin(-ly/2 + (i + 1)*dy)
            pix = []
            for k in range(mc):
                lon = -lx/2 + (j + u[k])*dx
                th = np.arccos(s1 + (s0 - s1)*v[k])
                pix.append(pixel_of(nside, about_z(c[0], about_y(c[1] - PI/2, about_x(al, unit(lon, th))))))
            e.append(share(pix, f, w, n))
    equal_rng(np.ravel(g), np.array(e), 'mean of the map over the points drawn in the cell')


def P17_box_equator():
    box_mc(1, 1.9, 2, 1.2, 2, (0, PI/2), 0, 2)
    box_mc(1, 1.9, 1, 2.2, 2, (PI/3, PI/2), 0, 2)


def P17_box_tilted():
    box_mc(1, 1.9, 1, 1.2, 1, (PI/3, PI/4), 0, 2)


def P17_box_spin():
    box_mc(1, 1.9, 1, 1.2, 2, (PI/3, PI/2), PI/3, 2)


def P17_box_spin_tilted():
    box_mc(1, 1.9, 1, 1.2, 1, (PI/3, PI/4), PI/3, 2)
    box_mc(1, 1.9, 2, 1.2, 1, (PI/3, PI/2), 4*PI/3, 2)


def P17_box_weights():
    box_mc(1, 1.9, 1, 1.2, 2, (0, PI/2), 0, 2, weights=True)


def P17_box_positional():
    box_mc(1, 1.9, 1, 1.2, 2, (PI/3, PI/2), PI/6, 2, positional=True)


# ------------------------------------------------------------------ P17 box to ring
def ring_setup(nx, ny, a, sy, r0, r1, nr, np_, p0, p1, shift, positional=False, log=None):
    m = real('m'); n = real('n'); s = real('s', 0.5, 2)
    if log is not None:
        s = 1
    b = montecarlo.Box2Ring()
    b.setup_box(m, m + nx*s, nx, n, n + ny*sy*s, ny)
    c = [m + a[0]*s, n + a[1]*s]
    if log is not None:
        b.setup_polar_log(r0, r1, nr, np_, pmin=p0, pmax=p1, center=c, phi_shift=shift, addzero=log)
    elif positional:
        b.setup_polar_lin(r0*s, r1*s, nr, np_, p0, p1, c, shift)
    else:
        b.setup_polar_lin(r0*s, r1*s, nr, np_, pmin=p0, pmax=p1, center=c, phi_shift=shift)
    return b


def inside(r, lo, hi):
    return r >= lo and r <= hi


def ring_mc(nx, ny, a, sy, r0, r1, nr, np_, p0, p1, shift, mc, weights=False, positional=False, log=None):
    b = ring_setup(nx, ny, a, sy, r0, r1, nr, np_, p0, p1, shift, positional, log)
    reset_rng()
    b.get_weights(mc, False)
    equal(ndraws(), 2*mc*nr*np_, 'the asked number of points in every cell')
    f = array('f', (ny, nx))
    w = array('w', (ny, nx), 0.1, 4) if weights else None
    g = frozen(b.remap, f, w, False)
    equal(np.shape(g), (np_, nr), 'one value per azimuth and radius bin')
    e = []
    at = 0
    dp = (p1 - p0)/np_
    if log is None:
        edge = [r0 + j*(r1 - r0)/nr for j in range(nr + 1)]
    else:
        edge = edges_of(r0, r1, nr, log)
    for i in range(np_):
        for j in range(nr):
            u = U(at, mc); v = U(at + mc, mc)
            at = at + 2*mc
            num = 0; den = 0
            for k in range(mc):
                r = np.sqrt(edge[j]**2 + (edge[j + 1]**2 - edge[j]**2)*u[k])
                p = p0 + (i + v[k])*dp + shift
                x = a[0] + r*np.cos(p); y = (a[1] + r*np.sin(p))/sy
                for X in range(nx):
                    for Y in range(ny):
                        if x >= X and (x < X + 1 or x <= nx and X == nx - 1) and y >= Y and (y < Y + 1 or y <= ny and Y == ny - 1):
                            if w is None:
                                num = num + f[Y, X]; den = den + 1
                            else:
                                num = num + f[Y, X]*w[Y, X]; den = den + w[Y, X]
            e.append(num/den if den != 0 else np.nan)
    equal_rng(np.ravel(g), np.array(e), 'mean of the box over the points drawn in the cell that lie in the box')


def P17_ring_inside():
    ring_mc(2, 3, (1, 1.5), 1, 0.2, 0.9, 2, 2, 0, 2*PI, 0, 2)
    ring_mc(3, 2, (1.2, 1.1), 1, 0.2, 0.9, 1, 3, PI/4, PI, 0, 2)


def P17_ring_outside():
    ring_mc(2, 2, (0.3, 1.5), 1, 0.2, 1.4, 1, 2, 0, 2*PI, 0, 2)
    ring_mc(2, 1, (-3, 4), 1, 0.2, 1.4, 1, 2, 0, 2*PI, 0, 2)


def P17_ring_rectangular():
    ring_mc(3, 2, (1.2, 2.1), 2, 0.2, 1.1, 1, 2, 0, 2*PI, 0, 2)


def P17_ring_shift():
    ring_mc(2, 2, (1.1, 0.9), 1, 0.2, 0.8, 1, 2, 0, 2*PI, PI/3, 2)
    ring_mc(2, 2, (1.1, 0.9), 1, 0.2, 0.8, 1, 2, 0, PI, -PI/4, 2)


def P17_ring_weights():
    ring_mc(2, 2, (1.1, 0.9), 1, 0.2, 0.8, 1, 2, 0, 2*PI, 0, 2, weights=True)


def P17_ring_log():
    # cells of different widths
    ring_mc(2, 1, (1, 0.5), 1, 0.1, 0.8, 2, 1, 0.2, PI - 0.2, 0, 2, log=False)
    ring_mc(2, 1, (1, 0.5), 1, 0.1, 0.8, 2, 1, 0.2, PI - 0.2, 0, 2, log=True)


def P17_ring_positional():
    ring_mc(2, 2, (1.1, 0.9), 1, 0.2, 0.8, 1, 2, PI/4, PI, PI/6, 2, positional=True)


# cells that lie inside one box cell: exact whatever is drawn
def P17_ring_quadrants():
    for mc in (2, 3):
        for i, q in enumerate(((1, 2), (1, 1), (0, 1), (0, 2))):
            b = ring_setup(4, 2, (2, 1), 1, 0.1, 0.9, 1, 2, i*PI/2 + 0.1, (i + 1)*PI/2 - 0.1, 0)
            b.get_weights(mc, False)
            f = array('f', (2, 4))
            g = b.remap(f, None, False)
            for k in range(2):
                equal(g[k, 0], f[q], 'a cell inside one box cell has its value')


# ------------------------------------------------------------------ P17 remap formula with given weights
def lists(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i in range(len(rows)):
        for j in range(len(rows[0])):
            a[i, j] = np.array(rows[i][j])
    return a


def P17_ring_shares():
    # three points of a cell over two box cells: one or two of three in each
    ring_mc(2, 1, (1, 0.5), 1, 0.1, 0.4, 1, 1, PI/4, 3*PI/4, 0, 3)
    ring_mc(2, 1, (1, 0.5), 1, 0.1, 0.4, 1, 1, PI/4, 3*PI/4, 0, 3, weights=True)


def P17_ring_formula():
    b = ring_setup(3, 2, (1, 1), 1, 0.1, 0.9, 2, 2, 0, 2*PI, 0)
    w = [[[real('w%d%d%d' % (i, j, k), 0.1, 1) for k in range(1 + (i + j) % 2)] for j in range(2)] for i in range(2)]
    ys = [[[0], [1, 0]], [[1, 1], [0]]]; xs = [[[2], [0, 1]], [[2, 1], [1]]]
    if not (hasattr(b, 'ind_xs') and hasattr(b, 'ind_ys') and hasattr(b, 'ind_ws')):
        return
    b.ind_xs = lists(ys); b.ind_ys = lists(xs); b.ind_ws = lists(w)
    f = array('f', (2, 3)); q = array('q', (2, 3), 0.1, 4)
    if raises(b.remap, f, None, False):      # the stored lists name the other axis
        return
    g = b.remap(f, None, False); h = b.remap(f, q, False)
    for i in range(2):
        for j in range(2):
            n = d = m = e = 0
            for k in range(len(w[i][j])):
                o = (ys[i][j][k], xs[i][j][k])
                n = n + w[i][j][k]*f[o]; d = d + w[i][j][k]; m = m + w[i][j][k]*q[o]*f[o]; e = e + w[i][j][k]*q[o]
            equal(g[i, j], n/d, 'weighted mean with the stored weights'); equal(h[i, j], m/e, 'weighted mean with the stored and the given weights')


def sky_formula(h, shape, lab):
    ny, nx = shape
    w = [[[real('w%d%d%d' % (i, j, k), 0.1, 1) for k in range(1 + (i + j) % 2)] for j in range(nx)] for i in range(ny)]
    ps = [[[(5*i + 3*j + 4*k) % 12 for k in range(1 + (i + j) % 2)] for j in range(nx)] for i in range(ny)]
    if not (hasattr(h, 'ind_pixs') and hasattr(h, 'ind_ws')):
        return
    h.ind_pixs = lists(ps); h.ind_ws = lists(w)
    f = array('f', 12); q = array('q', 12, 0.1, 4)
    g = h.remap(f, None, False); r = h.remap(f, q, False)
    for i in range(ny):
        for j in range(nx):
            n = d = m = e = 0
            for k in range(len(w[i][j])):
                o = ps[i][j][k]
                n = n + w[i][j][k]*f[o]; d = d + w[i][j][k]; m = m + w[i][j][k]*q[o]*f[o]; e = e + w[i][j][k]*q[o]
            equal(g[i, j], n/d, 'weighted mean with the stored weights'); equal(r[i, j], m/e, 'weighted mean with the stored and the given weights')


def P17_cap_formula():
    h = montecarlo.Heal2Ring()
    h.setup_map(1); h.setup_polar_cap(0.2, 1.4, 2, 3)
    sky_formula(h, (3, 2), 'cap')


def P17_box_formula():
    h = montecarlo.Heal2Polar()
    h.setup_map(1); h.setup_box(0.2, 2, y_length=0.3, y_grid=3)
    sky_formula(h, (3, 2), 'box')


# ------------------------------------------------------------------ P17 cube to shell
def P17_shell_octants():
    # the pixels of nside 1 centred at z = 2/3 lie in one octant each
    m = real('m'); n = real('n'); o = real('o'); s = real('s', 0.5, 2)
    c = montecarlo.Cube2Shell()
    c.setup_cube(m, m + 4*s, 4, n, n + 2*s, 2, o, o + 2*s, 2)
    c.setup_polar_lin(0.1*s, 0.9*s, 1, 1, center=[m + 2*s, n + s, o + s])
    reset_rng()
    c.get_weights(2, False)
    equal(ndraws(), 12*2*3, 'the asked number of points in every cell')
    f = array('f', (2, 4, 2))
    g = frozen(c.remap, f, None, False)
    equal(np.shape(g), (1, 12), 'one map per shell')
    for k, q in enumerate(((1, 2), (1, 1), (0, 1), (0, 2))):
        equal(g[0, k], f[q[0], q[1], 1], 'a cell inside one cube cell has its value')
        equal(g[0, 8 + k], f[q[0], q[1], 0], 'a cell inside one cube cell has its value')


def P17_shell_formula():
    c = montecarlo.Cube2Shell()
    c.setup_cube(0, 3, 3, 0, 2, 2, 0, 2, 2)
    c.setup_polar_lin(0.1, 0.9, 1, 1, center=[1, 1, 1])
    w = [[[real('w%d%d' % (j, k), 0.1, 1) for k in range(1 + j % 2)] for j in range(12)]]
    ix = [[[(j + k) % 2 for k in range(1 + j % 2)] for j in range(12)]]
    iy = [[[(j + 2*k) % 3 for k in range(1 + j % 2)] for j in range(12)]]
    iz = [[[(j//2 + k) % 2 for k in range(1 + j % 2)] for j in range(12)]]
    if not (hasattr(c, 'ind_xs') and hasattr(c, 'ind_ys') and hasattr(c, 'ind_zs') and hasattr(c, 'ind_ws')):
        return
    c.ind_xs = lists(ix); c.ind_ys = lists(iy); c.ind_zs = lists(iz); c.ind_ws = lists(w)
    f = array('f', (2, 3, 2)); q = array('q', (2, 3, 2), 0.1, 4)
    if raises(c.remap, f, None, False):
        return
    g = c.remap(f, None, False); r = c.remap(f, q, False)
    for j in range(12):
        n = d = m = e = 0
        for k in range(len(w[0][j])):
            o = (ix[0][j][k], iy[0][j][k], iz[0][j][k])
            n = n + w[0][j][k]*f[o]; d = d + w[0][j][k]; m = m + w[0][j][k]*q[o]*f[o]; e = e + w[0][j][k]*q[o]
        equal(g[0, j], n/d, 'weighted mean with the stored weights'); equal(r[0, j], m/e, 'weighted mean with the stored and the given weights')


# ------------------------------------------------------------------ P17 grids
def edges_of(r0, r1, n, zero):
    if zero:
        return [0*r0] + [r0*10**(k*np.log10(r1/r0)/(n - 1)) for k in range(n)]
    return [r0*10**(k*np.log10(r1/r0)/n) for k in range(n + 1)]


def P17_ring_grids():
    b = montecarlo.Box2Ring()
    s = real('s', 0.5, 2)
    b.setup_polar_lin(s, 4*s, 3, 4, pmin=PI/4, pmax=PI/2)
    for j in range(4):
        equal(b.redges[j], s*(1 + j), 'radius edges')
    for i in range(5):
        equal(b.pedges[i], PI/4 + i*PI/16, 'azimuth edges')
    for i in range(4):
        for j in range(3):
            equal(b.r2d[i, j], s*(1.5 + j), 'radii of the ring'); equal(b.p2d[i, j], PI/4 + (i + 0.5)*PI/16, 'azimuths of the ring')
    equal(b.dr, s, 'radius spacing'); equal(b.dp, PI/16, 'azimuth spacing')
    for zero in (True, False):
        b.setup_polar_log(1, 100, 3, 2, addzero=zero)
        e = [0, 1, 10, 100] if zero else [1, 10**(2/3), 10**(4/3), 100]
        for j in range(4):
            equal(b.redges[j], e[j], 'logarithmic radius edges, from zero if asked')
        for j in range(3):
            equal(b.rmid[j], (e[j] + e[j + 1])/2, 'radius centres'); equal(b.dr[j], e[j + 1] - e[j], 'radius spacings')
            equal(b.r2d[1, j], (e[j] + e[j + 1])/2, 'radii of the ring')
        equal(b.p2d[1, 2], 1.5*PI, 'azimuths of the ring'); equal(b.dp, PI, 'azimuth spacing')
    b.setup_polar_log(1, 100, 3, 2, PI/4, PI/2, [1, 2], 0.5, False)
    equal(b.pedges[0], PI/4, 'arguments by position'); equal(b.pedges[2], PI/2, 'arguments by position'); equal(b.dp, PI/8, 'azimuth spacing')
    equal(b.center[1], 2, 'arguments by position'); equal(b.phi_shift, 0.5, 'arguments by position'); equal(b.redges[0], 1, 'arguments by position')


def P17_shell_grids():
    c = montecarlo.Cube2Shell()
    for zero in (True, False):
        c.setup_polar_log(1, 100, 3, 2, addzero=zero)
        e = [0, 1, 10, 100] if zero else [1, 10**(2/3), 10**(4/3), 100]
        for j in range(4):
            equal(c.redges[j], e[j], 'logarithmic radius edges, from zero if asked')
        for j in range(3):
            equal(c.rmid[j], (e[j] + e[j + 1])/2, 'radius centres'); equal(c.dr[j], e[j + 1] - e[j], 'radius spacings')
    equal(c.nside, 2, 'the resolution is kept')
    s = real('s', 0.5, 2)
    c.setup_polar_lin(s, 4*s, 3, 1)
    for j in range(4):
        equal(c.redges[j], s*(1 + j), 'radius edges')
    equal(c.dr, s, 'radius spacing'); equal(c.rmid[2], 3.5*s, 'radius centres')


def P17_ring_log_draws():
    m = real('m'); n = real('n')
    for i, q in enumerate(((1, 2), (1, 1), (0, 1), (0, 2))):
        b = montecarlo.Box2Ring()
        b.setup_box(m, m + 4, 4, n, n + 2, 2)
        b.setup_polar_log(0.1, 1, 2, 1, pmin=i*PI/2 + 0.1, pmax=(i + 1)*PI/2 - 0.1, center=[m + 2, n + 1])
        b.get_weights(2, False)
        f = array('f', (2, 4))
        g = b.remap(f, None, False)
        for j in range(2):
            equal(g[0, j], f[q], 'a cell inside one box cell has its value')


# ------------------------------------------------------------------ P17 where the points of one cell fall
def within(v, lo, d, n, k):
    if k == n - 1:
        return v >= lo + k*d and v <= lo + n*d
    return v >= lo + k*d and v < lo + (k + 1)*d


def shell_points(r0, r1, nr, lo, hi, axis, log=None, pixels=(1, 5, 10), mc=1):
    """Two cube cells split by one plane; every pixel of a one-pixel-per-face
    map gets one point, uniform in the volume of its cell."""
    n = [1, 1, 1]
    n[axis] = 2
    c = montecarlo.Cube2Shell()
    c.setup_cube(-8 if axis != 0 else lo, 8 if axis != 0 else hi, n[0],
                 -8 if axis != 1 else lo, 8 if axis != 1 else hi, n[1],
                 -8 if axis != 2 else lo, 8 if axis != 2 else hi, n[2])
    if log is None:
        c.setup_polar_lin(r0, r1, nr, 1)
        e = [r0 + k*(r1 - r0)/nr for k in range(nr + 1)]
    else:
        c.setup_polar_log(r0, r1, nr, 1, addzero=log)
        e = edges_of(r0, r1, nr, log)
    reset_rng()
    c.get_weights(mc, False)
    f = array('f', (n[1], n[0], n[2]))
    a = f[0, 0, 0]
    b = f[1 if axis == 1 else 0, 1 if axis == 0 else 0, 1 if axis == 2 else 0]
    g = c.remap(f, None, False)
    reset_rng()
    for i in range(nr):
        for j in range(12):
            p, t = randoms.randoms_healpix_pixel(mc, j, 1)
            u = U(ndraws(), mc)
            randoms.randoms_1d(mc)
            if j in pixels:
                v = 0
                for k in range(mc):
                    r = (e[i]**3 + (e[i + 1]**3 - e[i]**3)*u[k])**(1/3)
                    x = [r*np.sin(t[k])*np.cos(p[k]), r*np.sin(t[k])*np.sin(p[k]), r*np.cos(t[k])][axis]
                    v = v + (a if x < (lo + hi)/2 else b)/mc
                equal_rng(g[i, j], v, 'the cube cells of points uniform in the volume of the cell')


def P17_shell_points_z():
    shell_points(0.5, 3.5, 1, -4, 8, 2)


def P17_shell_points_x():
    shell_points(0.5, 3.5, 2, -4, 7, 0)


def P17_shell_points_log():
    shell_points(0.5, 3.5, 2, -5, 8, 1, log=True, pixels=(0, 11))


def P17_shell_points_log_wide():
    shell_points(0.5, 3.5, 3, -5, 7.2, 1, log=False, pixels=(0, 5))


def P17_shell_points_shares():
    shell_points(0.5, 3.5, 1, -4, 8, 2, pixels=(1,), mc=3)


def P17_shell_beside_the_cube():
    c = montecarlo.Cube2Shell()
    c.setup_cube(0, 1, 1, 0, 1, 2, 0, 1, 1)
    c.setup_polar_lin(0.5, 1.5, 1, 1, center=[-4000, 0.5, 0.5])
    c.get_weights(1, False)
    f = array('f', (2, 1, 1)); w = array('w', (2, 1, 1), 0.1, 4)
    for g in (c.remap(f, None, False), c.remap(f, w, False)):
        equal(np.shape(g), (1, 12), 'one map per shell')
        for k in range(12):
            equal(g[0, k], hp.UNSEEN, 'a cell none of whose points lies in the cube is marked as not seen')


# ------------------------------------------------------------------ P17 given draws
# Every draw is the same number q, so the order of the draws is free; a drawing rule may use q or 1 - q.
def one_of(g, choices, lab):
    ok = False
    for e in choices:
        same = True
        for k in range(len(e)):
            if g[k] != e[k]:
                same = False
        if same:
            ok = True
    if not ok:
        equal(g, np.array(choices[0]), lab)
    holds(ok, lab)


def given_cap(nside, a0, a1, na, b0, b1, nb, c, shift):
    n = 12*nside*nside
    for q in (0.5, 0.3, 0.9):
        h = montecarlo.Heal2Ring()
        h.setup_map(nside)
        h.setup_polar_cap(a0, a1, na, nb, beta_min=b0, beta_max=b1, center=list(c), beta_shift=shift)
        stream([q])
        h.get_weights(2, False)
        g = np.ravel(h.remap(np.arange(n)*1.0, None, False))
        da = (a1 - a0)/na; db = (b1 - b0)/nb
        es = []
        for u, v in ((q, q), (q, 1 - q), (1 - q, q), (1 - q, 1 - q)):
            e = []
            for i in range(nb):
                for j in range(na):
                    be = b0 + (i + u)*db + shift
                    al = np.arccos(np.cos(a0 + j*da) + (np.cos(a0 + (j + 1)*da) - np.cos(a0 + j*da))*v)
                    e.append(pixel_of(nside, about_z(c[0], about_y(c[1], unit(be, al)))))
            es.append(e)
        one_of(g, es, 'a cell has the value of the pixel its points fall in')


def P17_cap_given():
    given_cap(4, 0.2, 1.4, 2, 0.1, 6.1, 3, (1.1, 0.9), 0)
    given_cap(2, 0.3, 2.9, 3, 0, 2*PI, 2, (4.1, 2.2), 0.4)


def P17_cap_given_shift():
    given_cap(4, 0, 0.7, 2, 0.2, 5, 3, (5.9, 1.7), 2.2)
    given_cap(8, 0.1, 0.5, 1, 0, 2*PI, 4, (0, 0), 5.5)


def given_box(nside, lx, nx, ly, ny, c, al):
    n = 12*nside*nside
    for q in (0.5, 0.3, 0.9):
        h = montecarlo.Heal2Polar()
        h.setup_map(nside)
        h.setup_box(lx, nx, center=list(c), alpha=al, y_length=ly, y_grid=ny)
        stream([q])
        h.get_weights(2, False)
        g = np.ravel(h.remap(np.arange(n)*1.0, None, False))
        dx = lx/nx; dy = ly/ny
        es = []
        for u, v in ((q, q), (q, 1 - q), (1 - q, q), (1 - q, 1 - q)):
            e = []
            for i in range(ny):
                for j in range(nx):
                    s0 = np.sin(-ly/2 + i*dy); s1 = np.sin(-ly/2 + (i + 1)*dy)
                    e.append(pixel_of(nside, about_z(c[0], about_y(c[1] - PI/2, about_x(al, unit(-lx/2 + (j + u)*dx, np.arccos(s1 + (s0 - s1)*v)))))))
            es.append(e)
        one_of(g, es, 'a cell has the value of the pixel its points fall in')


def P17_box_given():
    given_box(4, 1.9, 3, 1.2, 2, (1.1, 0.9), 0)
    given_box(2, 5.9, 3, 2.9, 3, (4.1, 2.2), 0)


def P17_box_given_spin():
    given_box(4, 1.9, 2, 1.2, 3, (5.9, 1.7), 0.8)
    given_box(8, 0.9, 2, 0.6, 2, (2.9, 0.4), 3.9)


def given_ring(nx, ny, a, r0, r1, nr, np_, p0, p1, shift, log=None):
    for q in (0.5, 0.3, 0.9):
        b = montecarlo.Box2Ring()
        b.setup_box(-1, nx - 1, nx, 2, 2 + ny, ny)
        c = [a[0] - 1, a[1] + 2]
        if log is None:
            b.setup_polar_lin(r0, r1, nr, np_, pmin=p0, pmax=p1, center=c, phi_shift=shift)
            edge = [r0 + j*(r1 - r0)/nr for j in range(nr + 1)]
        else:
            b.setup_polar_log(r0, r1, nr, np_, pmin=p0, pmax=p1, center=c, phi_shift=shift, addzero=log)
            edge = edges_of(r0, r1, nr, log)
        stream([q])
        b.get_weights(2, False)
        f = np.reshape(np.arange(nx*ny)*1.0, (ny, nx))
        g = np.ravel(b.remap(f, None, False))
        h = np.where(np.isfinite(g), g, -5.0)
        dp = (p1 - p0)/np_
        es = []
        for u, v in ((q, q), (q, 1 - q), (1 - q, q), (1 - q, 1 - q)):
            e = []
            for i in range(np_):
                for j in range(nr):
                    r = np.sqrt(edge[j]**2 + (edge[j + 1]**2 - edge[j]**2)*u)
                    p = p0 + (i + v)*dp + shift
                    x = a[0] + r*np.cos(p); y = a[1] + r*np.sin(p)
                    o = -5
                    for X in range(nx):
                        for Y in range(ny):
                            if x > X and x < X + 1 and y > Y and y < Y + 1:
                                o = Y*nx + X
                    e.append(o)
            es.append(e)
        one_of(h, es, 'a cell has the value of the box cell its points fall in, or none')


def P17_ring_given():
    given_ring(4, 3, (1.9, 1.6), 0.2, 1.5, 3, 4, 0, 2*PI, 0)
    given_ring(3, 4, (0.4, 3.1), 0, 2.5, 2, 3, 0.3, 5.1, 0)


def P17_ring_given_shift():
    given_ring(4, 3, (1.9, 1.6), 0.2, 1.5, 3, 4, 0, 2*PI, 0.9)
    given_ring(3, 3, (1.4, 1.6), 0.1, 1.5, 2, 3, 0.2, 4, -1.1)


def P17_ring_given_log():
    given_ring(4, 3, (1.9, 1.6), 0.2, 1.5, 3, 4, 0, 2*PI, 0, log=False)
    given_ring(4, 3, (1.9, 1.6), 0.2, 1.5, 3, 4, 0, 2*PI, 0.7, log=True)


def rare(n, d, k, v):
    """n points of d coordinates, all in the middle but for one number"""
    s = [0.5]*(n*d)
    s[k] = v
    stream(s)


def rare_check(remap_of, n, ks):
    """remap_of gives a cell whose middle lies in a source cell of value 2, all others have 1"""
    for k in ks:
        found = False
        for v in (0.99, 0.01):
            g = remap_of(k, v)
            if g == 2 - 1/n:
                found = True
            elif g != 2:
                equal(g, 2 - 1/n, 'a rare point counts as much as any other')
        holds(found, 'a rare point counts as much as any other')


def P17_ring_rare():
    # one point in a thousand counts for a thousandth
    def run(n, log):
        def f(k, v):
            b = montecarlo.Box2Ring()
            b.setup_box(0, 2, 2, 0, 2, 2)
            if log:
                b.setup_polar_log(0.1, 1.6, 1, 1, pmin=0, pmax=PI/2, addzero=False)
            else:
                b.setup_polar_lin(0.1, 1.6, 1, 1, pmin=0, pmax=PI/2)
            rare(n, 2, k, v)
            b.get_weights(n, False)
            return b.remap(np.array([[2., 1.], [1., 1.]]), None, False)[0, 0]
        return f
    rare_check(run(1200, False), 1200, (700, 1900)); rare_check(run(2500, True), 2500, (100, 4000))


def P17_cap_rare():
    n = 1200
    def f(k, v):
        h = montecarlo.Heal2Ring()
        h.setup_map(1); h.setup_polar_cap(0.1, 2.2, 1, 1, beta_min=0.2, beta_max=1.7)
        rare(n, 2, k, v)
        h.get_weights(n, False)
        return h.remap(np.array([2.] + [1.]*11), None, False)[0, 0]
    rare_check(f, n, (700, 1900))


def P17_box_rare():
    n = 1200
    def f(k, v):
        h = montecarlo.Heal2Polar()
        h.setup_map(1); h.setup_box(1.8, 1, center=[0.05, 1.52])
        rare(n, 2, k, v)
        h.get_weights(n, False)
        return h.remap(np.array([1.]*4 + [2.] + [1.]*7), None, False)[0, 0]
    rare_check(f, n, (700, 1900))


def P17_shell_rare():
    n = 1001
    def f(k, v):
        c = montecarlo.Cube2Shell()
        c.setup_cube(0, 2, 2, 0, 2, 2, 0, 2, 2); c.setup_polar_lin(0.1, 1.86, 1, 1)
        rare(n*36, 1, k, v)
        c.get_weights(n, False)
        return c.remap(np.array([[[2., 1.], [1., 1.]], [[1., 1.], [1., 1.]]]), None, False)[0, 0]
    rare_check(f, n, (700,))


def P17_fine_map():
    # pixels beyond 32767
    n = 64; f = np.arange(12*n*n)*1.
    for c in ([1., 2.9], [4., 2.03], [5.1, 3.1]):
        h = montecarlo.Heal2Ring(); h.setup_map(n); h.setup_polar_cap(0, 1e-5, 1, 1, center=c)
        stream([0.37, 0.81, 0.12, 0.55, 0.93, 0.28, 0.69]); h.get_weights(3, False)
        equal(h.remap(f, None, False), np.array([[1.*hp.ang2pix(n, c[1], c[0])]]), 'a tiny cell has the value of its pixel')
        h = montecarlo.Heal2Polar(); h.setup_map(n); h.setup_box(1e-5, 1, center=c)
        stream([0.37, 0.81, 0.12, 0.55, 0.93, 0.28, 0.69]); h.get_weights(3, False)
        equal(h.remap(f, None, False), np.array([[1.*hp.ang2pix(n, c[1], c[0])]]), 'a tiny cell has the value of its pixel')
    stream(None)
