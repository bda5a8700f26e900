"""Dense remaps of a sphere map: polar cap rings, longitude-latitude box, orthographic view."""
import numpy as np
import healpy as hp
from magpie import densegrid, coords

PI = np.pi


def unit(f, t):
    return [np.cos(f)*np.sin(t), np.sin(f)*np.sin(t), np.cos(t)]


def about_y(a, p):
    c = np.cos(a); s = np.sin(a)
    return [c*p[0] + s*p[2], p[1], c*p[2] - s*p[0]]


def about_x(a, p):
    c = np.cos(a); s = np.sin(a)
    return [p[0], c*p[1] - s*p[2], s*p[1] + c*p[2]]


def about_z(a, p):
    c = np.cos(a); s = np.sin(a)
    return [c*p[0] - s*p[1], s*p[0] + c*p[1], p[2]]


def pixel_of(nside, p):
    f = np.arctan2(p[1], p[0])
    if f < 0:
        f = f + 2*PI
    return hp.ang2pix(nside, np.arccos(p[2]), f)


# ------------------------------------------------------------------ P16 polar cap
def cap_expect(nside, f, w, a0, a1, na, b0, b1, nb, c, shift, ka, kb):
    da = (a1 - a0)/(na*ka); db = (b1 - b0)/(nb*kb)
    out = []
    for i in range(nb):
        row = []
        for j in range(na):
            num = 0; den = 0
            for x in range(ka):
                t0 = a0 + (j*ka + x)*da
                area = np.cos(t0) - np.cos(t0 + da)
                for y in range(kb):
                    be = b0 + (i*kb + y + 0.5)*db + shift
                    k = pixel_of(nside, about_z(c[0], about_y(c[1], unit(be, t0 + da/2))))
                    if w is None:
                        num = num + area*f[k]; den = den + area
                    else:
                        num = num + area*f[k]*w[k]; den = den + area*w[k]
            row.append(num/den)
        out.append(row)
    return out


def cap_check(nside, a0, a1, na, nb, c, b0=0, b1=2*PI, shift=0, ka=2, kb=2, weights=False, positional=False):
    h = densegrid.Heal2Ring()
    h.setup_map(nside)
    if positional:
        h.setup_polar_cap(a0, a1, na, nb, b0, b1, list(c), shift, ka, kb)
    else:
        h.setup_polar_cap(a0, a1, na, nb, beta_min=b0, beta_max=b1, center=list(c), beta_shift=shift, rebin_alpha=ka, rebin_beta=kb)
    f = array('f', 12*nside*nside)
    if weights:
        w = array('w', 12*nside*nside, 0.1, 4)
    else:
        w = None
    g = frozen(h.remap, f, w, False)
    equal(np.shape(g), (nb, na), 'one value per azimuth and opening-angle bin')
    e = cap_expect(nside, f, w, a0, a1, na, b0, b1, nb, c, shift, ka, kb)
    for i in range(nb):
        for j in range(na):
            equal(g[i, j], e[i][j], 'cap value is the area-weighted mean of the map at the sub-cell centres')


def P16_cap_pole():
    cap_check(2, 0.1, 1.3, 2, 4, (0, 0), kb=1)
    cap_check(2, 0.1, 1.3, 2, 2, (0, 0))
    cap_check(1, 0.2, 2.9, 2, 2, (0, 0), kb=2)


def P16_cap_equator():
    cap_check(2, 0.1, 1.1, 1, 3, (0, PI/2))
    cap_check(2, 0.2, 0.9, 2, 2, (PI/3, PI/2))


def P16_cap_tilted():
    cap_check(2, 0.2, 0.9, 2, 2, (PI/4, PI/3))
    cap_check(2, 0.1, 1.4, 1, 3, (7*PI/6, 2*PI/3))
    cap_check(2, 0.1, 1.4, 1, 3, (PI/2, 5*PI/6))


def P16_cap_sector():
    cap_check(2, 0.2, 1.2, 2, 2, (PI/3, PI/2), b0=PI/6, b1=2*PI/3)


def P16_cap_shift():
    cap_check(2, 0.2, 1.2, 1, 4, (0, 0), shift=PI/3, kb=1)
    cap_check(2, 0.2, 1.2, 1, 2, (PI/4, PI/2), shift=PI/4, kb=1)
    cap_check(2, 0.2, 1.2, 1, 2, (PI/4, PI/2), shift=5*PI/3, kb=1, b0=PI/2, b1=PI)


def P16_cap_small_shift():
    # a sub-cell just short of a pixel border is carried across it by a small shift
    for e in (0.01, 1e-3, 1e-5):
        cap_check(1, 0.1, 0.3, 1, 1, (0, 0), b1=PI - e, shift=e, ka=1, kb=1)
        cap_check(1, 0.1, 0.3, 1, 1, (0, 0), b1=PI + e, shift=2*PI - e, ka=1, kb=1)


def P16_box_small_spin():
    box_check(1, 1.391, 2, 1.2, 2, (PI/4, PI/2), al=0.008, kx=1, ky=1)
    box_check(1, 1.391, 2, 1.2, 2, (PI/4, PI/2), al=2*PI - 0.008, kx=1, ky=1)


def P16_cap_rebin():
    for ka, kb in ((1, 1), (1, 3), (3, 1), (3, 2), (2, 3)):
        cap_check(2, 0.2, 1.7, 2, 2, (0, 0), b0=PI/11, b1=7*PI/9, ka=ka, kb=kb)


def P16_cap_weights():
    cap_check(2, 0.2, 1.4, 1, 2, (0, 0), weights=True)
    cap_check(1, 0.2, 1.4, 1, 2, (PI/3, PI/2), weights=True, ka=3, kb=1)


def P16_cap_positional():
    cap_check(2, 0.2, 1.1, 2, 2, (PI/3, PI/2), b0=PI/4, b1=PI, shift=PI/6, ka=1, kb=3, positional=True)


def P16_cap_defaults():
    h = densegrid.Heal2Ring(); g = densegrid.Heal2Ring()
    f = array('f', 48)
    h.setup_map(2); g.setup_map(2)
    h.setup_polar_cap(0.1, 1.3, 2, 3)
    g.setup_polar_cap(0.1, 1.3, 2, 3, beta_min=0, beta_max=2*PI, center=[0, 0], beta_shift=0, rebin_alpha=2, rebin_beta=2)
    equal(h.remap(f), g.remap(f), 'defaults are a full cap about the pole, two sub-cells per direction')


def P16_cap_grids():
    h = densegrid.Heal2Ring()
    h.setup_map(2)
    h.setup_polar_cap(0.2, 1.4, 3, 4, beta_min=PI/4, beta_max=PI/2)
    for j in range(4):
        equal(h.alpha_edges[j], 0.2 + 0.4*j, 'opening-angle edges')
    for i in range(5):
        equal(h.beta_edges[i], PI/4 + i*PI/16, 'azimuth edges')
    for i in range(4):
        for j in range(3):
            equal(h.alpha2d[i, j], 0.4 + 0.4*j, 'opening angles of the cap'); equal(h.beta2d[i, j], PI/4 + (i + 0.5)*PI/16, 'azimuths of the cap')
    equal(h.dalpha, 0.4, 'opening-angle spacing'); equal(h.dbeta, PI/16, 'azimuth spacing')
    equal(h.alpha_mid[2], 1.2, 'opening-angle centres'); equal(h.beta_mid[2], PI/4 + 2.5*PI/16, 'azimuth centres')


# ------------------------------------------------------------------ P16 longitude-latitude box
def box_expect(nside, f, w, lx, nx, ly, ny, c, al, kx, ky):
    dx = lx/(nx*kx); dy = ly/(ny*ky)
    out = []
    for i in range(ny):
        row = []
        for j in range(nx):
            num = 0; den = 0
            for y in range(ky):
                b0 = -ly/2 + (i*ky + y)*dy
                area = np.sin(b0 + dy) - np.sin(b0)
                for x in range(kx):
                    lon = -lx/2 + (j*kx + x + 0.5)*dx
                    p = unit(lon, PI/2 - b0 - dy/2)
                    p = about_z(c[0], about_y(c[1] - PI/2, about_x(al, p)))
                    k = pixel_of(nside, p)
                    if w is None:
                        num = num + area*f[k]; den = den + area
                    else:
                        num = num + area*f[k]*w[k]; den = den + area*w[k]
            row.append(num/den)
        out.append(row)
    return out


def box_check(nside, lx, nx, ly, ny, c, al=0, kx=2, ky=2, weights=False, positional=False, same=False):
    h = densegrid.Heal2Polar()
    h.setup_map(nside)
    if positional:
        h.setup_box(lx, nx, list(c), al, ly, ny, kx, ky)
    elif same:
        h.setup_box(lx, nx, center=list(c), alpha=al, rebin_x=kx, rebin_y=ky)
    else:
        h.setup_box(lx, nx, center=list(c), alpha=al, y_length=ly, y_grid=ny, rebin_x=kx, rebin_y=ky)
    f = array('f', 12*nside*nside)
    if weights:
        w = array('w', 12*nside*nside, 0.1, 4)
    else:
        w = None
    g = frozen(h.remap, f, w, False)
    equal(np.shape(g), (ny, nx), 'one value per cell')
    e = box_expect(nside, f, w, lx, nx, ly, ny, c, al, kx, ky)
    for i in range(ny):
        for j in range(nx):
            equal(g[i, j], e[i][j], 'box value is the area-weighted mean of the map at the sub-cell centres')


def P16_box_equator():
    box_check(2, 1.1, 2, 0.9, 3, (0, PI/2))
    box_check(2, 2.1, 3, 1.3, 2, (PI/3, PI/2))
    box_check(1, 5.1, 4, 2.9, 2, (PI, PI/2))


def P16_box_same_sides():
    box_check(2, 1.1, 2, 1.1, 2, (0, PI/2), same=True)
    box_check(2, 3.9, 2, PI, 2, (PI/3, PI/2), same=True)


def P16_box_tilted():
    box_check(2, 1.1, 2, 0.9, 3, (0, 0), kx=1)
    box_check(2, 1.1, 2, 0.9, 2, (PI/3, PI/4), kx=1)
    box_check(2, 1.1, 2, 0.9, 2, (5*PI/3, 2*PI/3), ky=1)


def P16_box_spin():
    box_check(2, 1.1, 2, 0.9, 2, (0, PI/2), al=PI/3, kx=1)
    box_check(2, 1.7, 2, 0.9, 1, (PI/2, PI/2), al=3*PI/2, kx=1)


def P16_box_spin_tilted():
    box_check(2, 1.1, 2, 0.9, 1, (0, 0), al=PI/3, kx=1)
    box_check(2, 1.1, 2, 0.7, 1, (PI/4, PI/3), al=PI/6, ky=1)
    box_check(2, 1.3, 2, 0.7, 1, (5*PI/4, 3*PI/4), al=7*PI/4, ky=1)
    box_check(2, 1.3, 2, 0.7, 1, (0, 0), al=PI, ky=1, kx=1)


def P16_box_rebin():
    for kx, ky in ((1, 1), (1, 3), (3, 1), (3, 2), (2, 3)):
        box_check(2, 1.1, 2, 0.9, 3, (0, PI/2), kx=kx, ky=ky)


def P16_box_weights():
    box_check(2, 1.7, 1, 1.9, 2, (0, PI/2), weights=True)
    box_check(1, 1.7, 2, 1.9, 1, (PI/3, PI/2), weights=True, kx=3, ky=1)


def P16_box_positional():
    box_check(2, 1.1, 2, 0.9, 3, (PI/3, PI/2), al=PI/6, kx=1, ky=2, positional=True)


def P16_box_defaults():
    h = densegrid.Heal2Polar(); g = densegrid.Heal2Polar()
    f = array('f', 48)
    h.setup_map(2); g.setup_map(2)
    h.setup_box(0.9, 3)
    g.setup_box(0.9, 3, center=[0, 0], alpha=0, y_length=0.9, y_grid=3, rebin_x=2, rebin_y=2)
    equal(h.remap(f), g.remap(f), 'defaults are a square box about the north pole, two sub-cells per direction')


def P16_box_grids():
    h = densegrid.Heal2Polar()
    h.setup_map(2)
    h.setup_box(1.2, 3, y_length=0.8, y_grid=2)
    for j in range(4):
        equal(h.xedges[j], -0.6 + 0.4*j, 'longitude edges')
    for i in range(3):
        equal(h.yedges[i], -0.4 + 0.4*i, 'latitude edges')
    for i in range(2):
        for j in range(3):
            equal(h.x2d[i, j], -0.4 + 0.4*j, 'longitudes of the box'); equal(h.y2d[i, j], -0.2 + 0.4*i, 'latitudes of the box')
    equal(h.dx, 0.4, 'longitude spacing'); equal(h.dy, 0.4, 'latitude spacing')


# ------------------------------------------------------------------ P16 orthographic view
def ortho_point(x, y, c):
    """direction seen at (x, y): north up, east to the right"""
    z = np.sqrt(1 - x**2 - y**2)
    e = (-np.sin(c[0]), np.cos(c[0]), 0)
    n = (-np.cos(c[1])*np.cos(c[0]), -np.cos(c[1])*np.sin(c[0]), np.sin(c[1]))
    u = unit(c[0], c[1])
    return [x*e[k] + y*n[k] + z*u[k] for k in range(3)]


def ortho_check(nside, lx, nx, ly, ny, c, R=1, kx=2, ky=2, weights=False, positional=False):
    h = densegrid.Heal2Ortho()
    h.setup_map(nside)
    if positional:
        h.setup_box(lx, nx, list(c), ly, ny, kx, ky, R)
    else:
        h.setup_box(lx, nx, center=list(c), y_length=ly, y_grid=ny, rebin_x=kx, rebin_y=ky, radius=R)
    f = array('f', 12*nside*nside)
    if weights:
        w = array('w', 12*nside*nside, 0.1, 4)
    else:
        w = None
    g = frozen(h.remap, f, w, False)
    equal(np.shape(g), (ny, nx), 'one value per cell')
    dx = lx/(nx*kx); dy = ly/(ny*ky)
    for i in range(ny):
        for j in range(nx):
            X = (-lx/2 + (j + 0.5)*lx/nx)/R; Y = (-ly/2 + (i + 0.5)*ly/ny)/R
            if X**2 + Y**2 > 1:
                equal(g[i, j], np.nan, 'cells centred beside the sphere are not numbers')
                continue
            num = 0; den = 0
            for a in range(ky):
                for b in range(kx):
                    x = (-lx/2 + (j*kx + b + 0.5)*dx)/R; y = (-ly/2 + (i*ky + a + 0.5)*dy)/R
                    if x**2 + y**2 <= 1:
                        k = pixel_of(nside, ortho_point(x, y, c))
                        if w is None:
                            num = num + f[k]; den = den + 1
                        else:
                            num = num + f[k]*w[k]; den = den + w[k]
            equal(g[i, j], num/den, 'the mean of the map over the visible sub-cell centres')


def P16_ortho_equator():
    ortho_check(2, 1.1, 2, 1.1, 2, (PI/3, PI/2), kx=1)
    ortho_check(2, 0.9, 3, 0.7, 2, (PI/4, PI/2), ky=1)


def P16_ortho_tilted():
    ortho_check(2, 1.1, 2, 0.9, 2, (PI/3, PI/4), kx=1)
    ortho_check(2, 1.1, 2, 0.9, 2, (PI/6, 2*PI/3), ky=1, kx=1)


def P16_ortho_pole():
    ortho_check(2, 1.1, 2, 0.9, 2, (PI/4, 0), kx=1)


def P16_ortho_beside_the_sphere():
    ortho_check(2, 2.4, 4, 2.4, 4, (PI/4, PI/2), kx=1, ky=1)
    ortho_check(1, 2.1, 3, 2.1, 3, (PI/4, PI/2), kx=2, ky=1)


def P16_ortho_beside_with_visible_parts():
    # the cells in the corners are centred beside the sphere; some of their sub-cells are on it
    ortho_check(1, 2.2, 3, 2.2, 3, (PI/4, PI/2), kx=3, ky=3)
    ortho_check(2, 2.1, 3, 2.3, 3, (PI/4, PI/3), kx=2, ky=2)


def P16_ortho_radius():
    ortho_check(2, 2.2, 2, 2.2, 2, (PI/3, PI/2), R=2, kx=1)
    ortho_check(1, 3.6, 4, 3.4, 3, (PI/3, PI/2), R=2, kx=1)
    ortho_check(1, 1.1, 3, 0.9, 3, (PI/3, PI/4), R=0.5, ky=1, kx=3)


def P16_ortho_defaults_wide():
    # a view wider than the sphere
    for x, R in ((2.6, 1), (1.5, 0.5)):
        h = densegrid.Heal2Ortho(); g = densegrid.Heal2Ortho()
        f = array('f', 12)
        h.setup_map(1); g.setup_map(1)
        h.setup_box(x, 3, center=[PI/4, PI/2], radius=R)
        g.setup_box(x, 3, center=[PI/4, PI/2], y_length=x, y_grid=3, radius=R)
        for k in range(4):
            equal(h.yedges[k], -x/2 + k*x/3, 'the view is a square by default')
        equal(h.remap(f, None, False)[1, 1], g.remap(f, None, False)[1, 1], 'the view is a square by default')


def P16_ortho_rebin():
    for kx, ky in ((1, 1), (1, 3), (3, 2)):
        ortho_check(2, 1.1, 2, 0.9, 3, (PI/3, PI/2), kx=kx, ky=ky)


def P16_ortho_slivers():
    # cells of which one sub-cell out of many lies on the sphere
    ortho_check(1, 1.6, 1, 1.6, 2, (PI/3, PI/2), R=0.75, kx=5, ky=1)
    ortho_check(1, 2.2, 2, 2.2, 2, (PI/3, PI/2), kx=4, ky=4)
    ortho_check(1, 3.2, 1, 1.2, 2, (PI/3, PI/2), kx=3, ky=1)
    ortho_check(1, 1.2, 2, 3.2, 1, (PI/3, PI/2), kx=1, ky=5)


def P16_ortho_weights():
    ortho_check(2, 1.1, 2, 0.9, 1, (PI/3, PI/2), kx=2, ky=1, weights=True)


def P16_ortho_positional():
    ortho_check(2, 1.1, 2, 0.9, 3, (PI/3, PI/2), R=1.5, kx=1, ky=2, positional=True)


def P16_ortho_defaults():
    h = densegrid.Heal2Ortho(); g = densegrid.Heal2Ortho()
    f = array('f', 48)
    h.setup_map(2); g.setup_map(2)
    h.setup_box(0.9, 3)
    g.setup_box(0.9, 3, center=[0, 0], y_length=0.9, y_grid=3, rebin_x=2, rebin_y=2, radius=1)
    equal(h.remap(f), g.remap(f), 'defaults are a square view of the unit sphere from the north, two sub-cells per direction')


def P16_ortho_grids():
    h = densegrid.Heal2Ortho()
    h.setup_map(2)
    h.setup_box(1.2, 3, y_length=0.8, y_grid=2)
    for j in range(4):
        equal(h.xedges[j], -0.6 + 0.4*j, 'x edges')
    for i in range(3):
        equal(h.yedges[i], -0.4 + 0.4*i, 'y edges')
    for i in range(2):
        for j in range(3):
            equal(h.x2d[i, j], -0.4 + 0.4*j, 'x of the view'); equal(h.y2d[i, j], -0.2 + 0.4*i, 'y of the view')
            equal(h.z2d[i, j], np.sqrt(1 - (0.4*j - 0.4)**2 - (0.4*i - 0.2)**2), 'height of the sphere')
    equal(h.dx, 0.4, 'x spacing'); equal(h.dy, 0.4, 'y spacing')


def P16_fine_map():
    # pixels beyond 32767
    n = 64; f = np.arange(12*n*n)*1.
    for c in ([1., 2.9], [4., 2.03], [5.1, 3.1]):
        e = np.array([[1.*hp.ang2pix(n, c[1], c[0])]])
        h = densegrid.Heal2Ring(); h.setup_map(n); h.setup_polar_cap(0, 1e-5, 1, 1, center=c)
        equal(h.remap(f, None, False), e, 'a tiny cell has the value of its pixel')
        h = densegrid.Heal2Polar(); h.setup_map(n); h.setup_box(1e-5, 1, center=c)
        equal(h.remap(f, None, False), e, 'a tiny cell has the value of its pixel')
        h = densegrid.Heal2Ortho(); h.setup_map(n); h.setup_box(1e-5, 1, center=c)
        equal(h.remap(f, None, False), e, 'a tiny cell has the value of its pixel')
