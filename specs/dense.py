"""Dense-grid remaps: box to ring, cube to shell, sphere map to ring, polar box and orthographic view."""
import numpy as np
import healpy as hp
from magpie import densegrid, coords

PI = np.pi


# ------------------------------------------------------------------ P14 box to ring
def ring_expect(f, w, nx, ny, ax, ay, sy, r0, r1, nr, p0, p1, np_, kr, kp, shift):
    """expected ring values; lengths in units of the box cell along x, ay and sy in units of dx"""
    dr = (r1 - r0)/(nr*kr); dp = (p1 - p0)/(np_*kp)
    out = []
    for i in range(np_):
        row = []
        for j in range(nr):
            num = 0; den = 0
            for a in range(kp):
                for b in range(kr):
                    q = j*kr + b; g = i*kp + a
                    rin = r0 + q*dr; rout = r0 + (q + 1)*dr
                    r = (rin + rout)/2; p = p0 + (g + 0.5)*dp + shift
                    x = ax + r*np.cos(p); y = (ay + r*np.sin(p))/sy
                    area = rout**2 - rin**2
                    X = int(np.floor(x)); Y = int(np.floor(y))
                    v = 0; u = 0
                    if X >= 0 and X < nx and Y >= 0 and Y < ny:
                        if w is None:
                            v = f[Y, X]
                        else:
                            v = f[Y, X]*w[Y, X]; u = w[Y, X]
                    if w is None:
                        u = 1
                    num = num + area*v; den = den + area*u
            row.append(num/den)
        out.append(row)
    return out


def ring_check(nx, ny, ax, ay, sy, r0, r1, nr, np_, p0=0, p1=2*PI, kr=2, kp=2, shift=0, weights=False, positional=False):
    m = real('m'); n = real('n'); s = real('s', 0.1, 3)
    b = densegrid.Box2Ring()
    b.setup_box(m, m + nx*s, nx, n, n + ny*sy*s, ny)
    c = [m + ax*s, n + ay*s]
    if positional:
        b.setup_polar(r0*s, r1*s, nr, np_, p0, p1, c, kr, kp, shift)
    else:
        b.setup_polar(r0*s, r1*s, nr, np_, pmin=p0, pmax=p1, center=c, rebin_r=kr, rebin_p=kp, phi_shift=shift)
    f = array('f', (ny, nx))
    if weights:
        w = array('w', (ny, nx), 0.1, 4)
        g = frozen(b.remap, f, w, False)
    else:
        w = None
        g = frozen(b.remap, f, None, False)
    equal(np.shape(g), (np_, nr), 'one value per azimuth and radius bin')
    e = ring_expect(f, w, nx, ny, ax, ay, sy, r0, r1, nr, p0, p1, np_, kr, kp, shift)
    for i in range(np_):
        for j in range(nr):
            equal(g[i, j], e[i][j], 'ring value is the area-weighted mean of the box at the sub-cell centres')


def P14_full_ring():
    ring_check(4, 4, 2, 2, 1, 0, 1.7, 1, 4)
    ring_check(4, 3, 2, 1.5, 1, 0.3, 1.3, 2, 3)


def P14_rectangular_cells():
    ring_check(4, 2, 2, 2, 2, 0.3, 1.8, 2, 2)
    ring_check(3, 5, 1.5, 1.2, 0.5, 0.2, 1.1, 1, 4, kr=3, kp=1)


def P14_off_centre():
    ring_check(4, 3, 1.2, 1.1, 1, 0.3, 1.9, 2, 3, kr=1, kp=2)
    ring_check(3, 4, 2.6, 0.7, 1, 0.2, 3.3, 2, 4)


def P14_sector():
    ring_check(4, 4, 2, 2, 1, 0.4, 1.9, 2, 2, p0=PI/4, p1=3*PI/4)
    ring_check(4, 4, 2, 2, 1, 0.4, 1.9, 1, 3, p0=PI/2, p1=2*PI, kr=2, kp=1)


def P14_rebin_factors():
    for kr, kp in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2)):
        ring_check(4, 4, 2.1, 1.9, 1, 0.4, 1.8, 2, 2, kr=kr, kp=kp)


def P14_positional():
    ring_check(4, 3, 2.1, 1.4, 1, 0.4, 1.3, 2, 2, p0=PI/6, p1=PI, kr=1, kp=3, shift=PI/3, positional=True)


def P14_shifted():
    ring_check(4, 4, 2.1, 1.9, 1, 0.4, 1.8, 1, 4, kp=1, shift=PI/2)
    ring_check(4, 4, 2.1, 1.9, 1, 0.4, 1.8, 1, 3, kp=2, shift=-PI/3)
    ring_check(4, 4, 2.1, 1.9, 1, 0.4, 1.8, 1, 3, kp=2, p0=PI/2, p1=PI, shift=7*PI/6)
    ring_check(4, 4, 2.1, 1.9, 1, 0.4, 1.8, 1, 4, kp=1, shift=-7*PI/6)
    ring_check(4, 3, 2.1, 1.4, 1, 0.4, 1.3, 1, 3, kp=1, kr=1, shift=-11*PI/6)


def P14_outside_counts_as_zero():
    ring_check(2, 2, 0.3, 0.4, 1, 0.2, 2.5, 2, 4)
    ring_check(2, 2, -0.5, 1.0, 1, 0.2, 1.5, 1, 4)


def P14_weights():
    ring_check(4, 4, 2.1, 1.9, 1, 0.4, 1.8, 1, 2, weights=True)
    ring_check(3, 2, 1.5, 1, 1, 0.3, 0.9, 1, 2, kr=1, kp=3, weights=True)


def P14_defaults():
    s = real('s', 0.1, 3)
    b = densegrid.Box2Ring(); c = densegrid.Box2Ring()
    f = array('f', (4, 4))
    b.setup_box(-2*s, 2*s, 4, -2*s, 2*s, 4); c.setup_box(-2*s, 2*s, 4, -2*s, 2*s, 4)
    b.setup_polar(0, 2*s, 1, 2)
    c.setup_polar(0, 2*s, 1, 2, pmin=0, pmax=2*PI, center=[0, 0], rebin_r=2, rebin_p=2, phi_shift=0)
    equal(b.remap(f), c.remap(f), 'defaults are a full circle about the origin, two sub-cells per direction')


def P14_grids():
    m = real('m'); n = real('n'); s = real('s', 0.1, 3); t = real('t', 0.1, 3)
    b = densegrid.Box2Ring()
    b.setup_box(m, m + 3*s, 3, n, n + 2*t, 2)
    for i in range(4):
        equal(b.xedges[i], m + i*s, 'x edges')
    for i in range(3):
        equal(b.yedges[i], n + i*t, 'y edges'); equal(b.xmid[i], m + (i + 0.5)*s, 'x centres')
    for i in range(2):
        equal(b.ymid[i], n + (i + 0.5)*t, 'y centres')
        for j in range(3):
            equal(b.x2d[i, j], m + (j + 0.5)*s, 'x coordinates of the box'); equal(b.y2d[i, j], n + (i + 0.5)*t, 'y coordinates of the box')
    equal(b.dx, s, 'x spacing'); equal(b.dy, t, 'y spacing')
    b.setup_polar(s, 4*s, 3, 4, pmin=PI/4, pmax=PI/2, center=[m, n])
    for j in range(4):
        equal(b.redges[j], s*(1 + j), 'radius edges')
    for i in range(5):
        equal(b.pedges[i], PI/4 + i*PI/16, 'azimuth edges')
    for i in range(4):
        for j in range(3):
            equal(b.r2d[i, j], s*(1.5 + j), 'radii of the ring'); equal(b.p2d[i, j], PI/4 + (i + 0.5)*PI/16, 'azimuths of the ring')
    equal(b.dr, s, 'radius spacing'); equal(b.dp, PI/16, 'azimuth spacing')
    equal(b.rmid[1], 2.5*s, 'radius centres'); equal(b.pmid[1], PI/4 + 1.5*PI/16, 'azimuth centres')


# ------------------------------------------------------------------ P15 cube to shell
def shell_expect(f, nx, ny, nz, a, sc, r0, r1, nr, nside, ks, kr, pers):
    """lengths in units of dx; sc = (1, dy/dx, dz/dx), a the centre relative to the lower corner"""
    out = []
    dr = (r1 - r0)/(nr*kr)
    sub = nside*ks
    th, ph = hp.pix2ang(sub, np.arange(12*sub*sub))
    own = hp.ud_grade(np.arange(12*nside*nside), sub)
    ext = (nx, ny*sc[1], nz*sc[2])
    for j in range(nr):
        tot = [0 for p in range(12*nside*nside)]
        wt = 0
        for b in range(kr):
            rin = r0 + (j*kr + b)*dr; rout = rin + dr; r = (rin + rout)/2
            vol = rout**3 - rin**3
            wt = wt + vol
            for p in range(12*sub*sub):
                v = 0
                for q in pers:
                    x = a[0] + q[0]*ext[0] + r*np.cos(ph[p])*np.sin(th[p])
                    y = (a[1] + q[1]*ext[1] + r*np.sin(ph[p])*np.sin(th[p]))/sc[1]
                    z = (a[2] + q[2]*ext[2] + r*np.cos(th[p]))/sc[2]
                    X = int(np.floor(x)); Y = int(np.floor(y)); Z = int(np.floor(z))
                    if X >= 0 and X < nx and Y >= 0 and Y < ny and Z >= 0 and Z < nz:
                        v = f[Y, X, Z]
                k = int(own[p])
                tot[k] = tot[k] + vol*v/(ks*ks)
        out.append([t/wt for t in tot])
    return out


def shell_check(nx, ny, nz, a, sc, r0, r1, nr, nside=1, ks=2, kr=2, px=(0, 0), py=(0, 0), pz=(0, 0)):
    m = real('m'); n = real('n'); o = real('o'); s = real('s', 0.1, 3)
    c = densegrid.Cube2Shell()
    c.setup_cube(m, m + nx*s, nx, n, n + ny*sc[1]*s, ny, o, o + nz*sc[2]*s, nz)
    c.setup_polar(r0*s, r1*s, nr, nside, center=[m + a[0]*s, n + a[1]*s, o + a[2]*s], rebin_shell=ks, rebin_r=kr,
                  periodicx=list(px), periodicy=list(py), periodicz=list(pz))
    f = array('f', (ny, nx, nz))
    g = frozen(c.remap, f, False)
    equal(np.shape(g), (nr, 12*nside*nside), 'one map per shell')
    pers = [(i, j, k) for i in range(px[0], px[1] + 1) for j in range(py[0], py[1] + 1) for k in range(pz[0], pz[1] + 1)]
    e = shell_expect(f, nx, ny, nz, a, sc, r0, r1, nr, nside, ks, kr, pers)
    for j in range(nr):
        for p in range(12*nside*nside):
            equal(g[j, p], e[j][p], 'shell value is the volume-weighted mean of the cube at the sub-pixel centres')


def P15_centred():
    shell_check(4, 4, 4, (2, 2, 2), (1, 1, 1), 0.3, 1.8, 1, ks=1)
    shell_check(3, 4, 2, (1.5, 2.1, 1.1), (1, 1, 1), 0.3, 1.3, 2)


def P15_rectangular_cells():
    shell_check(4, 2, 3, (2, 2, 1.5), (1, 2, 0.5), 0.2, 1.4, 2, ks=1)
    shell_check(2, 3, 5, (1.1, 1.2, 1.3), (1, 0.8, 0.6), 0.2, 1.4, 1, kr=3, ks=1)


def P15_off_centre():
    shell_check(3, 3, 3, (0.6, 1.4, 2.3), (1, 1, 1), 0.2, 1.9, 2, ks=1, kr=1)
    shell_check(2, 2, 2, (-0.4, 1.2, 0.7), (1, 1, 1), 0.2, 1.2, 1, ks=2, kr=1)


def P15_finer_shell():
    shell_check(3, 3, 3, (1.4, 1.6, 1.5), (1, 1, 1), 0.4, 1.2, 1, nside=2, ks=1, kr=2)
    shell_check(3, 3, 3, (1.4, 1.6, 1.5), (1, 1, 1), 0.4, 1.2, 1, nside=1, ks=4, kr=1)


def P15_rebin_radius():
    for kr in (1, 2, 3):
        shell_check(3, 3, 3, (1.4, 1.6, 1.5), (1, 1, 1), 0.3, 1.4, 2, ks=1, kr=kr)


def P15_periodic():
    shell_check(2, 2, 2, (0.4, 1.2, 0.7), (1, 1, 1), 0.4, 1.4, 1, ks=1, kr=1, px=(-1, 1), py=(-1, 1), pz=(-1, 1))
    shell_check(2, 3, 2, (0.4, 1.2, 0.7), (1, 1, 1), 0.4, 1.9, 1, ks=1, kr=1, px=(0, 1))
    shell_check(2, 3, 2, (0.4, 2.2, 0.7), (1, 1, 1), 0.4, 1.4, 1, ks=1, kr=1, py=(-1, 0))
    shell_check(2, 3, 2, (0.4, 1.2, 0.4), (1, 1, 1), 0.4, 1.4, 1, ks=1, kr=1, pz=(0, 1))


def P15_periodic_long_boxes():
    # the copies lie one box length apart along each axis
    shell_check(3, 2, 1, (1.4, 0.7, 0.3), (1, 1, 1.3), 0.4, 1.3, 1, ks=1, kr=1, pz=(-1, 1))
    shell_check(3, 2, 1, (1.4, 0.7, 0.9), (1, 1, 1.3), 0.4, 1.1, 1, ks=1, kr=1, pz=(-1, 0))
    shell_check(2, 1, 3, (1.2, 0.4, 1.6), (1, 1.3, 1), 0.4, 1.3, 1, ks=1, kr=1, py=(-1, 1))
    shell_check(2, 1, 3, (1.2, 0.4, 1.6), (1, 1.3, 1), 0.4, 1.3, 1, ks=1, kr=1, py=(0, 1))
    shell_check(1, 2, 3, (0.4, 1.1, 1.6), (1, 0.9, 0.8), 0.4, 0.9, 1, ks=1, kr=1, px=(-1, 1))
    shell_check(1, 2, 3, (0.4, 1.1, 1.6), (1, 0.9, 0.8), 0.4, 0.9, 1, ks=1, kr=1, px=(-1, 0))
    shell_check(1, 1, 2, (0.4, 0.3, 0.9), (1, 1.2, 0.7), 0.3, 0.9, 1, ks=1, kr=1, px=(-1, 1), py=(-1, 0), pz=(0, 1))
    shell_check(1, 1, 1, (-1.4, 0.5, 0.5), (1, 1, 1), 0.2, 0.4, 1, ks=1, kr=1, px=(1, 2))


def P15_defaults():
    s = real('s', 0.1, 3)
    f = array('f', (3, 3, 3))
    b = densegrid.Cube2Shell(); c = densegrid.Cube2Shell()
    for x in (b, c):
        x.setup_cube(-s, 2*s, 3, -2*s, s, 3, -s, 2*s, 3)
    b.setup_polar(s/4, s, 1, 1)
    c.setup_polar(s/4, s, 1, 1, center=[0, 0, 0], rebin_shell=2, rebin_r=2, periodicx=[0, 0], periodicy=[0, 0], periodicz=[0, 0])
    equal(b.remap(f, False), c.remap(f, False), 'defaults are one copy of the cube about the origin, two sub-cells per direction')
    d = densegrid.Cube2Shell()
    d.setup_cube(-s, 2*s, 3, -2*s, s, 3, -s, 2*s, 3)
    d.setup_polar(s/4, s, 1, 1, [0, 0, 0], 2, 2, [0, 0], [0, 0], [0, 0])
    equal(d.remap(f, False), c.remap(f, False), 'arguments by position')


def P15_grids():
    m = real('m'); n = real('n'); o = real('o'); s = real('s', 0.1, 3); t = real('t', 0.1, 3); u = real('u', 0.1, 3)
    b = densegrid.Cube2Shell()
    b.setup_cube(m, m + 3*s, 3, n, n + 2*t, 2, o, o + 4*u, 4)
    for i in range(4):
        equal(b.xedges[i], m + i*s, 'x edges'); equal(b.zedges[i + 1], o + (i + 1)*u, 'z edges'); equal(b.zmid[i], o + (i + 0.5)*u, 'z centres')
    for i in range(3):
        equal(b.yedges[i], n + i*t, 'y edges'); equal(b.xmid[i], m + (i + 0.5)*s, 'x centres')
    equal(b.ymid[1], n + 1.5*t, 'y centres')
    for i in range(2):
        for j in range(3):
            for k in range(4):
                equal(b.x3d[i, j, k], m + (j + 0.5)*s, 'x coordinates of the cube')
                equal(b.y3d[i, j, k], n + (i + 0.5)*t, 'y coordinates of the cube')
                equal(b.z3d[i, j, k], o + (k + 0.5)*u, 'z coordinates of the cube')
    equal(b.dx, s, 'x spacing'); equal(b.dy, t, 'y spacing'); equal(b.dz, u, 'z spacing')
    b.setup_polar(s, 4*s, 3, 1)
    for j in range(4):
        equal(b.redges[j], s*(1 + j), 'radius edges')
    for j in range(3):
        equal(b.rmid[j], s*(1.5 + j), 'radius centres')
    equal(b.dr, s, 'radius spacing')


# ------------------------------------------------------------------ cells without a value
def P14_missing_values():
    # a box cell without a value takes its value from the polar cells that sample it and from no other
    b = densegrid.Box2Ring(); b.setup_box(0, 4, 4, 0, 4, 4); b.setup_polar(0.1, 0.9, 1, 4, center=[1.1, 2.05])
    f = array('f', (4, 4)); w = array('w', (4, 4), 0.1, 2)
    a = b.remap(f, None, False); aw = b.remap(f, w, False)
    for y, x in ((3, 3), (0, 0), (3, 0), (0, 3)):
        g = clone(f); g[y, x] = np.nan
        equal(b.remap(g, None, False), a, 'cells that are not sampled do not count')
        equal(b.remap(g, w, False), aw, 'cells that are not sampled do not count')
    g = clone(f); g[2, 1] = np.nan
    r = b.remap(g, None, False)
    for k in range(4):
        if k == 0:
            holds(np.isnan(r[k, 0]), 'a cell without a value has no mean')
        elif k == 2:
            equal(r[k, 0], a[k, 0], 'cells that are not sampled do not count')
    # beside the box there is nothing, whatever the cells at the rim hold
    b.setup_polar(0.2, 1.4, 1, 2, center=[-1.6, 2.], rebin_p=1, rebin_r=1, phi_shift=PI/2)
    g = f*np.nan
    r = b.remap(g, None, False)
    equal(r, np.zeros((2, 1)), 'samples beside the box count as zero')
    b.setup_polar(0.2, 1.4, 1, 2, center=[2., 5.6], rebin_p=1, rebin_r=1)
    equal(b.remap(g, None, False), np.zeros((2, 1)), 'samples beside the box count as zero')


def P15_missing_values():
    c = densegrid.Cube2Shell(); c.setup_cube(0, 4, 4, 0, 4, 4, 0, 4, 4)
    f = array('f', (4, 4, 4))
    c.setup_polar(0.1, 0.9, 1, 1, center=[1.1, 2.05, 0.95], rebin_shell=2)
    a = c.remap(f, False)
    for y, x, z in ((3, 3, 3), (0, 0, 3), (3, 0, 0), (0, 3, 0), (0, 0, 0)):
        g = clone(f); g[y, x, z] = np.nan
        equal(c.remap(g, False), a, 'cells that are not sampled do not count')
    c.setup_polar(0.2, 1.4, 1, 1, center=[-1.6, 2., 2.], rebin_shell=1, rebin_r=1)
    equal(c.remap(f*np.nan, False), np.zeros((1, 12)), 'samples beside the cube count for nothing')
    c.setup_polar(0.2, 1.4, 1, 1, center=[2., 2., 5.6], rebin_shell=1, rebin_r=1)
    equal(c.remap(f*np.nan, False), np.zeros((1, 12)), 'samples beside the cube count for nothing')
