"""planted bugs: each is written from a property's text and the code; plant.py turns them into /verif/seeded/<id>"""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


P = 'magpie/'
bug('ortho-radius', 'P05', [(P + 'coords/conversions.py', 'z[condition] = np.sqrt(r**2. - xy[condition])', 'z[condition] = r*np.sqrt(1. - xy[condition])')],
    'an orthographic disc of radius other than one, given as arrays', 'points of a disc of another radius are not on its sphere', '''
x = np.array([0.3, 0.9, -1.2])
y = np.array([0.1, -0.4, 0.7])
z = magpie.coords.ortho2cart(x, y, r=2.)
assert np.allclose(x**2 + y**2 + z**2, 4.), z
''')
bug('odd-nside-cap', 'P08', [(P + 'pixel/healpix_index.py', 'x0 = int(nside/2) + nside*k', 'x0 = int(round(nside/2)) + nside*k')],
    'nside 3 (mod 4), array input, northern cap', 'pixels of the cap are half a pixel off along the ring', '''
import healpy as hp
n = 3
p = np.arange(12*n*n)
x, y = magpie.pixel.healpix_pix2xy(p, n)
phi, theta = magpie.coords.healpix_xy2ang(x, y)
t, f = hp.pix2ang(n, p)
assert np.allclose(theta, t) and np.allclose(np.cos(phi), np.cos(f)) and np.allclose(np.sin(phi), np.sin(f))
''', nth={'x0 = int(nside/2) + nside*k': 3})
bug('odd-boundary', 'P09', [(P + 'pixel/healpix_boundary.py', 'size_bot = steps - size_top', 'size_bot = size_top')],
    'an odd number of steps', 'the outline has one point fewer than asked for', '''
x, y = magpie.pixel.healpix_boundary(5, 2, steps=21)
assert len(x) == 21 and len(y) == 21, len(x)
''')
bug('edge-cell', 'P11', [(P + 'src/remap_utils.f90', '(x2edge1 .GE. x1edge1) .AND. (x2edge1 .LT. x1edge2) .AND. (x2edge2 .GT. x1edge2)', '(x2edge1 .GT. x1edge1) .AND. (x2edge1 .LT. x1edge2) .AND. (x2edge2 .GT. x1edge2)')],
    'a coarser output grid whose edge coincides with an edge of the input grid', 'the first input cell of an aligned output cell is left out', '''
f = np.array([1., 2., 3., 4.])
g = magpie.remap.grid2grid1D(f, 4., 2)
assert np.allclose(g, [1.5, 3.5]), g
''')
bug('pix-stride', 'P12', [(P + 'src/remap_utils.f90', 'pix(ii) = zpix(k) + zgrid*(ypix(j) + ygrid*xpix(i))', 'pix(ii) = zpix(k) + ygrid*(ypix(j) + zgrid*xpix(i))')],
    'a cube with unequal numbers of cells along y and z', 'output cells read the wrong input cells', '''
f = np.arange(12.).reshape(1, 3, 4)
g = magpie.remap.grid2grid3D(f, 1., [1, 3, 4])
assert np.allclose(g, f), g
''')
bug('remap-ygrid', 'P12', [(P + 'remap/grid2grid.py', '''    ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
    f1 = f1.flatten()
    f2 = src.remap_2d''', '''    ypixlen = xpixlen
    f1 = f1.flatten()
    f2 = src.remap_2d''')],
    'a two-dimensional remap that coarsens y more than x', 'the cells of y beyond those needed along x are dropped', '''
f = np.ones((2, 8))
g = magpie.remap.grid2grid2D(f, 1., [2, 2])
assert np.allclose(g, 1.), g
''')
bug('rebin-last', 'P13', [(P + 'one_d/one_d.py', 'return data[-1]', 'return data[condition[0]-2]')],
    'a new bin that starts inside the last old bin and ends beyond the range', 'the value of the bin before the last is returned', '''
g = magpie.one_d.rebin_1d(np.array([0., 1., 2., 3.]), np.array([1., 5., 9.]), np.array([2.5, 4.]))
assert np.allclose(g, [9.]), g
''')
bug('ring-yrange', 'P14', [(P + 'densegrid/box2ring.py', '(yind >= 0) & (yind < len(self.ymid))', '(yind >= 0) & (yind < len(self.xmid))')],
    'a box with fewer cells along x than along y', 'the upper rows of the box count as outside', '''
b = magpie.densegrid.Box2Ring()
b.setup_box(0., 2., 2, 0., 4., 4)
b.setup_polar(0., 0.5, 1, 4, center=[1., 3.])
assert np.allclose(b.remap(np.ones((4, 2)), verbose=False), 1.)
''')
bug('shell-volume', 'P15', [(P + 'densegrid/cube2shell.py', 'rbin_weights = self.rebin_redges[1:]**3 - self.rebin_redges[:-1]**3', 'rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2')],
    'a field that varies along the radius within a shell', 'sub-shells are weighted by area instead of volume', '''
c = magpie.densegrid.Cube2Shell()
c.setup_cube(-2., 2., 4, -2., 2., 4, -2., 2., 4)
c.setup_polar(0., 1.9, 1, 1, rebin_shell=1, rebin_r=2)
f = np.zeros((4, 4, 4)); f[1:3, 1:3, 1:3] = 1.
g = c.remap(f, verbose=False)
e = np.array([0., 0.95, 1.9])**3
assert np.allclose(g[0, 4:8], np.array([(e[1]*1. + (e[2]-e[1])*0.)/e[2]]*4)), g
''')
bug('shell-period', 'P15', [(P + 'densegrid/cube2shell.py', 'center[2] + k*(self.zedges[-1]-self.zedges[0])', 'center[2] + k*(self.yedges[-1]-self.yedges[0])')],
    'a periodic cuboid whose z length differs from its y length', 'copies of the box along z lie in the wrong place', '''
c = magpie.densegrid.Cube2Shell()
c.setup_cube(0., 2., 2, 0., 2., 2, 0., 6., 6)
c.setup_polar_lin(0., 0.9, 1, 1, center=[1., 1., 0.1], rebin_shell=1, rebin_r=1, periodicz=[0, 1])
f = np.zeros((2, 2, 6)); f[:, :, 0] = 1.; f[:, :, 5] = 7.
g = c.remap(f, verbose=False)
assert np.allclose(g[0, :4], 1.) and np.allclose(g[0, 8:], 7.), g
''')
bug('cap-weights', 'P16', [(P + 'densegrid/heal2ring.py', 'f_polar = self._remap(f*w)/self._remap(w)', 'f_polar = self._remap(f*w)/np.mean(w[self.rebin_pix])')],
    'a weight map that varies over the cap', 'the weighted mean is not normalised per cell', '''
h = magpie.densegrid.Heal2Ring()
h.setup_map(4)
h.setup_polar_cap(0., 1., 2, 4)
w = 1. + np.arange(12*16) % 5
assert np.allclose(h.remap(np.ones(12*16), w=w, verbose=False), 1.)
''')
bug('ortho-rebin', 'P16', [(P + 'densegrid/heal2polar.py', "self.rebin_yedges = np.linspace(self.yedges[0], self.yedges[-1], self.rebin_y*len(self.ymid) + 1)", "self.rebin_yedges = np.linspace(self.xedges[0], self.xedges[-1], self.rebin_y*len(self.ymid) + 1)")],
    'a box whose sides have unequal length', 'the sub-cells along y span the length of x', '''
h = magpie.densegrid.Heal2Polar()
h.setup_map(4)
h.setup_box(1., 4, center=[1., 1.2], y_length=0.4, y_grid=2)
assert np.allclose([h.rebin_yedges[0], h.rebin_yedges[-1]], [-0.2, 0.2])
''')
bug('mc-log-edges', 'P17', [(P + 'montecarlo/cube2shell.py', 'self.redges[1:] = np.logspace(np.log10(rmin), np.log10(rmax), numr)', 'self.redges[1:] = np.logspace(np.log10(rmin), np.log10(rmax), numr+1)[1:]')],
    'logarithmic shells starting at zero', 'the first shell does not end at rmin', '''
c = magpie.montecarlo.Cube2Shell()
c.setup_cube(0., 1., 2, 0., 1., 2, 0., 1., 2)
c.setup_polar_log(0.1, 1., 3, 1)
assert np.allclose(c.redges, [0., 0.1, 0.1**0.5, 1.]), c.redges
''')
bug('mc-radius', 'P17', [(P + 'montecarlo/cube2shell.py', 'r_rand = randoms.randoms_sphere_r(mc_size, r_min=rmin, r_max=rmax)', 'r_rand = randoms.randoms_1d(mc_size, xmin=rmin, xmax=rmax)')],
    'a field that varies along the radius', 'points are uniform in radius, not in volume', '''
np.random.seed(3)
c = magpie.montecarlo.Cube2Shell()
c.setup_cube(-2., 2., 2, -2., 2., 2, -2., 2., 8)
c.setup_polar_lin(0., 1.9, 1, 1)
c.get_weights(mc_size=4000, verbose=False)
f = np.zeros((2, 2, 8)); f[:, :, 3:5] = 1.
g = c.remap(f, verbose=False)
# the polar pixels have |z| < 0.5 for a share of about (0.5/1.9)^3-ish of the volume, far below that of the radius
r = 1.9*np.random.rand(200000)**(1/3.)
p, t = magpie.randoms.randoms_healpix_pixel(200000, 0, 1)
assert abs(g[0, 0] - np.mean(np.abs(r*np.cos(t)) < 0.5)) < 0.03, g
''')
bug('mc-yrange', 'P17', [(P + 'montecarlo/box2ring.py', 'prand[condition] += 2.*np.pi', 'prand[condition] += np.pi')],
    'a negative phi_shift', 'points that wrap below zero fall on the opposite side', '''
np.random.seed(1)
b = magpie.montecarlo.Box2Ring()
b.setup_box(-1., 1., 2, -1., 1., 2)
b.setup_polar_lin(0.1, 0.9, 1, 4, phi_shift=-np.pi/2.)
b.get_weights(mc_size=50, verbose=False)
g = b.remap(np.array([[1., 2.], [3., 4.]]), verbose=False)
assert np.allclose(g[:, 0], [2., 4., 3., 1.]), g
''')
bug('radial-error', 'P19', [(P + 'polar/polar2radial.py', 'np.sum(w, axis=0)**2.', 'np.sum(w**2., axis=0)')],
    'errors and unequal or several weights', 'the error of the weighted mean is not divided by the squared sum of weights', '''
f = np.ones((3, 1)); a = np.full((3, 1), 2.); s = np.ones((3, 1)); w = np.full((3, 1), 1.)
m, e = magpie.polar.polar2radial(f, a, 2., sigma=s, w=w)
assert np.allclose(e, 1./np.sqrt(3.)), e
''')
bug('cumulative-sigma', 'P20', [(P + 'polar/radial.py', 'var_area = (area*sigma)**2.', 'var_area = area*sigma**2.')],
    'a cumulative profile with errors', 'errors are scaled by the root of the area', '''
c, s = magpie.polar.cumulative_radial(np.array([0., 1., 3.]), np.array([1., 1.]), sigma=np.array([0.5, 0.]))
assert np.allclose(s, np.pi*0.5*np.array([0., 1., 1.])), s
''')
bug('annulus', 'P21', [(P + 'randoms/polar.py', 'r = np.sqrt((r_max**2.-r_min**2.)*u_r + r_min**2.)', 'r = (r_max - r_min)*np.sqrt(u_r) + r_min')],
    'an annulus with a hole', 'points are not uniform in area', '''
np.random.seed(0)
r, p = magpie.randoms.randoms_polar(200000, r_min=0.8, r_max=1.)
assert abs(np.mean(r**2) - (0.64 + 1.)/2.) < 2e-3, np.mean(r**2)
''')
bug('pixel-right-half', 'P21', [(P + 'randoms/usphere.py', 'yrand[cond] = 2*(-xrand[cond] + xp + delta)*uy[cond] + (xrand[cond] - xp - delta + yp)', 'yrand[cond] = 2*(-xrand[cond] + xp + delta)*uy[cond] + (xrand[cond] - xp - delta)')],
    'a pixel off the equator', 'points of its right half are not in the pixel', '''
import healpy as hp
np.random.seed(0)
for p in (13, 29, 32, 37):
    phi, theta = magpie.randoms.randoms_healpix_pixel(200, p, 2)
    assert np.all(hp.ang2pix(2, theta, phi) == p), p
''')
bug('prob-size', 'P22', [(P + 'randoms/subsample.py', 'u_w = u_r/prob', 'u_w = u_r*prob')],
    'a fixed-size draw with unequal probabilities', 'unlikely elements are preferred', '''
np.random.seed(0)
s = np.arange(100); p = np.where(s < 50, 1., 1e-6)
d = magpie.randoms.random_prob_draw(s, p, size=20)
assert np.all(d < 50), d
''')
bug('spin-back', 'P24', [(P + 'coords/usphere.py', 'new_phi, new_theta = usphere_shift(phi, theta, phi_center, theta_center,\n                                       phi_center, 0.)', 'new_phi, new_theta = usphere_shift(phi, theta, 0., theta_center,\n                                       0., 0.)')],
    'a spin about a centre that is not at azimuth zero', 'points turn about another centre', '''
p, t = magpie.coords.usphere_spin(1.3, 0.7, 1.3, 0.7, 1.)
assert abs(t - 0.7) < 1e-9 and abs(p - 1.3) < 1e-9, (p, t)
''')
bug('cdf-edges', 'P29', [(P + 'randoms/pdf.py', 'x = np.linspace(xmid[0] - 0.5*dx, xmid[-1]+0.5*dx, len(xmid)+1)', 'x = np.linspace(xmid[0], xmid[-1], len(xmid)+1)')],
    'any density: only the end bins show it', 'the distribution is squeezed by half a bin at both ends', '''
x, c = magpie.randoms.pdf2cdf(np.array([0.5, 1.5, 2.5]), np.array([1., 1., 1.]), return_normpdf=False)
assert np.allclose(x, [0., 1., 2., 3.]), x
''')
bug('stale-pixarea', 'P25', [(P + 'densegrid/heal2ring.py', "assert hp.isnsideok(nside) == True, \"nside given is not ok.\"\n        self.nside = nside", "assert hp.isnsideok(nside) == True, \"nside given is not ok.\"\n        if self.nside is None:\n            self.nside = nside")],
    'an object set up for a second map of another resolution without clean()', 'the second map is read with the pixels of the first', '''
h = magpie.densegrid.Heal2Ring()
h.setup_map(1)
h.setup_map(4)
h.setup_polar_cap(0., 0.3, 1, 1)
f = np.arange(12.*16)
g = h.remap(f, verbose=False)
assert np.all(g < 24.) and h.nside == 4, g
''')
bug('cumulative-inplace', 'P01', [(P + 'polar/radial.py', 'f_area = area*f\n', 'f_area = f\n    f_area *= area\n')],
    'a profile that is used again after its cumulative profile was computed', 'the caller\'s profile is multiplied by the ring areas', '''
f = np.array([1., 2.])
magpie.polar.cumulative_radial(np.array([0., 1., 3.]), f)
assert np.allclose(f, [1., 2.]), f
''')
bug('progress-name', 'P02', [(P + 'montecarlo/cube2shell.py', 'utils.progress_bar(', 'utils.progressbar(')],
    'Monte Carlo weights of a cube with verbose on', 'the call raises because no such function exists', '''
import io, contextlib
c = magpie.montecarlo.Cube2Shell()
c.setup_cube(0., 2., 2, 0., 2., 2, 0., 2., 2)
c.setup_polar_lin(0., 0.9, 1, 1, center=[1., 1., 1.])
with contextlib.redirect_stdout(io.StringIO()):
    c.get_weights(mc_size=20, verbose=True)
''', nth={'utils.progress_bar(': 1})
bug('polargrid-order', 'P03', [(P + 'grids/polar.py', 'def polargrid(nr, nphi, rmin=0., rmax=1., phimin=0., phimax=2*np.pi,\n', 'def polargrid(nr, nphi, rmax=1., rmin=0., phimin=0., phimax=2*np.pi,\n')],
    'the radial limits given by position', 'the inner and outer radius are exchanged', '''
r, p = magpie.grids.polargrid(2, 4, 1., 3.)
assert np.allclose(r[:, 0], [1.5, 2.5]), r
''')
bug('cumulative-whole', 'P04', [(P + 'polar/radial.py', 'cumulative_f = np.zeros(len(redges))', 'cumulative_f = np.zeros_like(redges)')],
    'bin edges given as an integer array', 'the cumulative profile is truncated to whole numbers', '''
c = magpie.polar.cumulative_radial(np.array([0, 1, 3]), np.array([1., 1.]))
assert np.allclose(c, np.pi*np.array([0., 1., 9.])), c
''')
bug('azimuth-scalar', 'P05', [(P + 'coords/conversions.py', 'phi += 2.*np.pi', 'phi += np.pi')],
    'a single point in the lower half plane', 'its azimuth is half a turn off', '''
r, p = magpie.coords.cart2polar(0.3, -0.4)
assert abs(np.cos(p) - 0.6) < 1e-9 and abs(np.sin(p) + 0.8) < 1e-9, p
''', nth={'phi += 2.*np.pi': 1})
bug('plane-array', 'P07', [(P + 'coords/healpix.py', 'healy[cond] = (3*np.pi/8)*np.cos(theta[cond])', 'healy[cond] = (3*np.pi/8)*np.cos(theta[:len(cond)])')],
    'an array whose equatorial points do not come first', 'points take the height of another element', '''
p = np.array([0.1, 0.2, 0.3]); t = np.array([0.2, 1.3, 1.9])
x, y = magpie.coords.healpix_ang2xy(p, t)
for k in range(3):
    u, v = magpie.coords.healpix_ang2xy(float(p[k]), float(t[k]))
    assert abs(x[k] - u) < 1e-9 and abs(y[k] - v) < 1e-9, k
''')
bug('plain-sector', 'P10', [(P + 'grids/polar.py', "r2d, p2d = cartesian.grid2d([rmax-rmin, phimax-phimin], [nr, nphi],\n                                    mins=[rmin, phimin], return1d=False)", "r2d, p2d = cartesian.grid2d([rmax-rmin, phimax], [nr, nphi],\n                                    mins=[rmin, phimin], return1d=False)")],
    'a sector that does not begin at zero, without the one-dimensional centres', 'the cells reach past the end of the sector', '''
r, p = magpie.grids.polargrid(2, 4, phimin=1., phimax=3.)
assert np.allclose(p[0], [1.25, 1.75, 2.25, 2.75]), p[0]
''')
bug('polar-tip', 'P32', [(P + 'pixel/healpix_index.py', "istar - nside, istar + 1 - nside, istar+2*nside]", "istar - nside, istar - 1 - nside, istar+2*nside]")],
    'a pixel whose corner is the north pole', 'a pixel that does not touch it is listed as its neighbour', '''
import healpy as hp
n = 4
pix = np.arange(12*n*n)
ri, rj = magpie.pixel.healpix_pix2ij(pix, n)
i, j = magpie.pixel.healpix_ijd2ijs(magpie.pixel.healpix_i2id(ri, n), magpie.pixel.healpix_j2jd(ri, rj, n), n)
at = {(int(a), int(b)): int(k) for a, b, k in zip(i, j, pix)}
for k in pix[:4]:
    a, b = magpie.pixel.healpix_ijs_neighbours(i[k], j[k], n)
    got = sorted(at.get((int(u), int(v)), -1) for u, v in zip(a, b))
    want = sorted(int(q) for q in hp.get_all_neighbours(n, int(k)) if q >= 0)
    assert got == want, (k, got, want)
''')
bug('map-weight', 'P18', [(P + 'densegrid/heal2polar.py', 'f_box = self._remap(f*w)/self._remap(w)', 'f_box = self._remap(f*w/np.mean(w))')],
    'a weight map that is not uniform', 'the result is not the weighted mean of the map', '''
h = magpie.densegrid.Heal2Polar()
h.setup_map(2)
h.setup_box(0.5, 2, center=[1., 1.2])
w = 1. + np.arange(48.)
g = h.remap(np.full(48, 3.), w=w, verbose=False)
assert np.allclose(g, 3.), g
''')
bug('own-generator', 'P23', [(P + 'randoms/usphere.py', 'uy = np.random.random_sample(size)', 'uy = np.random.RandomState(size).random_sample(size)')],
    'random points of a HEALPix pixel', 'half of the numbers come from a private generator and are the same in every run', '''
np.random.seed(3)
magpie.randoms.randoms_healpix_pixel(5, 7, 2)
a = np.random.random_sample()
np.random.seed(3)
np.random.random_sample(10)
assert a == np.random.random_sample()
''')
bug('early-store', 'P26', [(P + 'montecarlo/heal2polar.py', '''        assert hp.isnsideok(nside) == True, "nside given is not ok."
        self.nside = nside
''', '''        self.nside = nside
        assert hp.isnsideok(nside) == True, "nside given is not ok."
''')],
    'a refused resolution followed by further use of the object', 'the refused value replaces the good one', '''
h = magpie.montecarlo.Heal2Polar()
h.setup_map(2)
try:
    h.setup_map(0)
except AssertionError:
    pass
assert h.nside == 2, h.nside
''')
bug('loud-remap', 'P27', [(P + 'montecarlo/heal2ring.py', '''            if verbose == True:
                utils.progress_bar(i, len(self.alpha2d), explanation='Remapping')''', '''            if verbose is not None:
                utils.progress_bar(i, len(self.alpha2d), explanation='Remapping')''')],
    'a Monte Carlo remap of a cap with verbose off', 'the progress bar is printed all the same', '''
import io, contextlib
np.random.seed(0)
h = magpie.montecarlo.Heal2Ring()
h.setup_map(1)
h.setup_polar_cap(0., 0.3, 1, 2)
h.get_weights(mc_size=10, verbose=False)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    h.remap(np.arange(12.), verbose=False)
assert o.getvalue() == '', o.getvalue()
''')
bug('cap-pole', 'P28', [(P + 'montecarlo/heal2ring.py', 'assert alpha_min >= 0., "alpha_min must be greater or equal to zero."', 'assert alpha_min > 0., "alpha_min must be greater or equal to zero."')],
    'a cap that starts at its centre', 'the Monte Carlo version refuses what the dense version accepts', '''
for m in (magpie.densegrid, magpie.montecarlo):
    h = m.Heal2Ring()
    h.setup_map(2)
    h.setup_polar_cap(0., 0.3, 2, 4)
    assert np.allclose(h.alpha_edges, [0., 0.15, 0.3])
''')
bug('display-distance', 'P30', [(P + 'densegrid/pointofview.py', 'dx = dist / np.sqrt(1. + (1./(self.display**2.))*(bx**2. + by**2.))', 'dx = dist / np.sqrt(1. + (1./self.display)*(bx**2. + by**2.))')],
    'a display at a distance other than one', 'points of the display are put back at another distance', '''
v = magpie.densegrid.PointOfView()
v.setup([0., 0., 0.], [1., 0., 0.], 2.)
x, y, z = np.array([3.]), np.array([1.]), np.array([0.5])
u = v.reverse(*v.transform(x, y, z))
assert np.allclose(u[0], x) and np.allclose(u[1], y) and np.allclose(u[2], z), u
''')
bug('plot-limits', 'P31', [(P + 'plots/ortho.py', 'ax.set_ylim(self.heal2ortho.yedges[0], self.heal2ortho.yedges[-1])', 'ax.set_ylim(self.heal2ortho.xedges[0], self.heal2ortho.xedges[-1])')],
    'a view that is not square, drawn on a given axis', 'the vertical limits are those of the horizontal axis', '''
from magpie.plots import ortho
class A:
    def __getattr__(self, n):
        def f(*a, **k):
            self.__dict__.setdefault('calls', []).append((n, a))
        return f
h = magpie.densegrid.Heal2Ortho()
h.setup_map(1)
h.setup_box(0.8, 2, y_length=0.4, y_grid=2)
a = A()
ortho.PlotOrtho(h).finalize(ax=a)
y = [c[1] for c in a.calls if c[0] == 'set_ylim'][0]
assert np.allclose(y, [-0.2, 0.2]), y
''')
bug('obtuse-rotation', 'P24', [(P + 'coords/usphere.py', 'alpha = np.arctan2(v.dot(t), v.dot(u))', 'alpha = np.arcsin(v.dot(t))')],
    'a rotation by more than a right angle', 'points turn by the supplement of the angle', '''
p, t = magpie.coords.usphere_rotate(0.4, 0.3, 0.4, 2.6, phi_start=0.4, theta_start=0.3)
assert abs(t - 2.6) < 1e-9 and abs(p - 0.4) < 1e-9, (p, t)
''')
bug('binary-weights', 'P22', [(P + 'randoms/subsample.py', 'weights_SB[cond] = 1\n', 'weights_SB[cond] -= 1\n')],
    'weights above two', 'weights of three and more stay above one', '''
b = magpie.randoms.stochastic_binary_weights(np.array([0., 1., 2., 3., 4.]))
assert np.array_equal(b, [0, 1, 1, 1, 1]), b
''')
bug('remap-origin', 'P11', [(P + 'remap/grid2grid.py', '    x2max = originout + boxsizeout\n    f1shape = np.shape(f1)\n    grid1 = f1shape[0]\n', '    x2max = origin + boxsizeout\n    f1shape = np.shape(f1)\n    grid1 = f1shape[0]\n')],
    'an output grid with an origin of its own', 'the cells of the output grid are stretched', '''
f = np.array([1., 2., 3., 4.])
g = magpie.remap.grid2grid1D(f, 4., 1, originout=2., boxsizeout=2.)
assert np.allclose(g, [3.5]), g
''')
bug('box-rows', 'P17', [(P + 'montecarlo/heal2polar.py', 'y_max, y_min = self.yedges[i], self.yedges[i+1]', 'y_max, y_min = self.yedges[i], self.yedges[-1]')],
    'a tangent box with more than one row', 'the points of a cell reach up to the top of the box', '''
np.random.seed(0)
h = magpie.montecarlo.Heal2Polar()
h.setup_map(16)
h.setup_box(0.8, 2, center=[1., np.pi/2.])
h.get_weights(mc_size=4000, verbose=False)
import healpy as hp
t, p = hp.pix2ang(16, np.arange(hp.nside2npix(16)))
g = h.remap(t, verbose=False)
assert np.allclose(np.sort(g[:, 0]), [np.pi/2. - 0.2, np.pi/2. + 0.2], atol=0.03), g
''')

bug('shift-scalar', 'P06', [(P + 'coords/usphere.py', '        elif phi_new < 0.:', '        elif phi_new < -np.pi:')],
    'a single azimuth shifted backwards over zero', 'a negative azimuth comes back', '''
assert 0. <= magpie.coords.usphere_phi_shift(0.5, -1.) <= 2.*np.pi
''')
