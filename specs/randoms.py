"""Random points: ranges, right measure, subsampling, PDF sampling, use of the global stream."""
import numpy as np
from magpie import coords, pixel, randoms

PI = np.pi


# ------------------------------------------------------------------ P21 in range and uniform in the right measure
def line(n):
    a = real('a', -3, 3); b = a + real('d', 0.1, 4)
    reset_rng()
    x = randoms.randoms_1d(n, xmin=a, xmax=b)
    equal(ndraws(), n, 'one uniform number per point')
    equal(np.shape(x), (n,), 'as many points as asked for')
    equal_rng(x, a + (b - a)*U(0, n), 'uniform between the limits')
    for k in range(n):
        holds(x[k] >= a, 'not below the lower limit'); holds(x[k] <= b, 'not above the upper limit')
    reset_rng()
    equal_rng(randoms.randoms_1d(n), U(0, n), 'unit interval by default')


def P21_line():
    line(1); line(3)


def P21_rectangle():
    a = real('a', -3, 3); b = a + real('d', 0.1, 4); c = real('c', -3, 3); d = c + real('e', 0.1, 4)
    n = 3
    reset_rng()
    x, y = randoms.randoms_2d(n, mins=[a, c], maxs=[b, d])
    equal(ndraws(), 2*n, 'two uniform numbers per point')
    equal(np.shape(x), (n,), 'x of each point'); equal(np.shape(y), (n,), 'y of each point')
    equal_rng((x, y), (a + (b - a)*U(0, n), c + (d - c)*U(n, n)), 'uniform and independent in x and y')
    for k in range(n):
        holds(x[k] >= a, 'x not below'); holds(x[k] <= b, 'x not above'); holds(y[k] >= c, 'y not below'); holds(y[k] <= d, 'y not above')
    reset_rng()
    equal_rng(randoms.randoms_2d(n), (U(0, n), U(n, n)), 'unit square by default')


def P21_cuboid():
    a = real('a', -3, 3); b = a + real('d', 0.1, 4); c = real('c', -3, 3); d = c + real('e', 0.1, 4)
    p = real('p', -3, 3); q = p + real('f', 0.1, 4)
    n = 2
    reset_rng()
    x, y, z = randoms.randoms_3d(n, mins=[a, c, p], maxs=[b, d, q])
    equal(ndraws(), 3*n, 'three uniform numbers per point')
    for v in (x, y, z):
        equal(np.shape(v), (n,), 'each coordinate of each point')
    equal_rng((x, y, z), (a + (b - a)*U(0, n), c + (d - c)*U(n, n), p + (q - p)*U(2*n, n)), 'uniform and independent in x, y and z')
    for k in range(n):
        holds(x[k] >= a, 'x not below'); holds(x[k] <= b, 'x not above'); holds(y[k] >= c, 'y not below'); holds(y[k] <= d, 'y not above')
        holds(z[k] >= p, 'z not below'); holds(z[k] <= q, 'z not above')
    reset_rng()
    equal_rng(randoms.randoms_3d(n), (U(0, n), U(n, n), U(2*n, n)), 'unit cube by default')


def P21_polar():
    a = real('a', 0, 2); b = a + real('d', 0.1, 2); p = real('p', 0, 3); q = p + real('e', 0.1, 3)
    n = 3
    reset_rng()
    r, f = randoms.randoms_polar(n, r_min=a, r_max=b, phi_min=p, phi_max=q)
    equal(ndraws(), 2*n, 'two uniform numbers per point')
    equal(np.shape(r), (n,), 'radius of each point'); equal(np.shape(f), (n,), 'azimuth of each point')
    u = U(0, n)
    equal_rng((r**2, f), (a**2 + (b**2 - a**2)*u, p + (q - p)*U(n, n)), 'uniform in area')
    for k in range(n):
        holds(r[k]**2 >= a**2, 'radius not below'); holds(r[k]**2 <= b**2, 'radius not above'); holds(r[k] >= 0, 'radius not negative')
        holds(f[k] >= p, 'azimuth not below'); holds(f[k] <= q, 'azimuth not above')
    reset_rng()
    r, f = randoms.randoms_polar(n)
    equal_rng((r**2, f), (U(0, n), 2*PI*U(n, n)), 'unit disc by default')


def P21_radius():
    a = real('a', 0, 2); b = a + real('d', 0.1, 2)
    n = 3
    reset_rng()
    r = randoms.randoms_sphere_r(n, r_min=a, r_max=b)
    equal(ndraws(), n, 'one uniform number per point')
    equal(np.shape(r), (n,), 'radius of each point')
    equal_rng(r**3, a**3 + (b**3 - a**3)*U(0, n), 'uniform in volume')
    for k in range(n):
        holds(r[k]**3 >= a**3, 'radius not below'); holds(r[k]**3 <= b**3, 'radius not above')
    reset_rng()
    equal_rng(randoms.randoms_sphere_r(n)**3, U(0, n), 'unit ball by default')


def P21_usphere():
    p = real('p', 0, 3); q = p + real('e', 0.1, 3); s = real('s', 0, 1.5); t = s + real('f', 0.1, 1.6)
    n = 3
    reset_rng()
    f, h = randoms.randoms_usphere(n, phi_min=p, phi_max=q, theta_min=s, theta_max=t)
    equal(ndraws(), 2*n, 'two uniform numbers per point')
    equal(np.shape(f), (n,), 'longitude of each point'); equal(np.shape(h), (n,), 'latitude of each point')
    equal_rng((np.cos(h), f), (np.cos(s) + (np.cos(t) - np.cos(s))*U(n, n), p + (q - p)*U(0, n)), 'uniform in solid angle')
    for k in range(n):
        holds(f[k] >= p, 'longitude not below'); holds(f[k] <= q, 'longitude not above')
        holds(h[k] >= 0, 'polar angle not negative'); holds(h[k] <= PI, 'polar angle at most pi')
        holds(np.cos(h[k]) <= np.cos(s), 'polar angle not below the lower limit')
        holds(np.cos(h[k]) >= np.cos(t), 'polar angle not above the upper limit')
    reset_rng()
    f, h = randoms.randoms_usphere(n)
    equal_rng((np.cos(h), f), (1 - 2*U(n, n), 2*PI*U(0, n)), 'whole sphere by default')


def P21_sphere():
    a = real('a', 0, 2); b = a + real('d', 0.1, 2)
    p = real('p', 0, 3); q = p + real('e', 0.1, 3); s = real('s', 0, 1.5); t = s + real('f', 0.1, 1.6)
    n = 2
    reset_rng()
    r, f, h = randoms.randoms_sphere(n, r_min=a, r_max=b, phi_min=p, phi_max=q, theta_min=s, theta_max=t)
    equal(ndraws(), 3*n, 'three uniform numbers per point')
    for v in (r, f, h):
        equal(np.shape(v), (n,), 'each coordinate of each point')
    equal_rng((r**3, f, np.cos(h)), (a**3 + (b**3 - a**3)*U(0, n), p + (q - p)*U(n, n), np.cos(s) + (np.cos(t) - np.cos(s))*U(2*n, n)),
              'uniform in volume')
    for k in range(n):
        holds(r[k]**3 >= a**3, 'radius not below'); holds(r[k]**3 <= b**3, 'radius not above')
        holds(f[k] >= p, 'longitude not below'); holds(f[k] <= q, 'longitude not above')
    reset_rng()
    r, f, h = randoms.randoms_sphere(n)
    equal_rng((r**3, f, np.cos(h)), (U(0, n), 2*PI*U(n, n), 1 - 2*U(2*n, n)), 'unit ball by default')


def pix_check(nside, p, ulo=0, uhi=1, vlo=0, vhi=1):
    n = 2
    d = PI/(4*nside)
    xp, yp = pixel.healpix_pix2xy(p, nside)
    # the numbers drawn first may give the position across the pixel or the one along it
    stream([0.5, 0.5, 0.75, 0.75])
    x, y = randoms._randoms_healpix_xy(n, p, nside)
    u0, v0 = (n, 0) if (x[0] - xp) % (2*PI) > d/100 and (x[0] - xp) % (2*PI) < 2*PI - d/100 else (0, n)
    stream(None)
    for k in range(n):
        assume(U(u0, n)[k] >= ulo); assume(U(u0, n)[k] <= uhi); assume(U(v0, n)[k] >= vlo); assume(U(v0, n)[k] <= vhi)
    reset_rng()
    x, y = randoms._randoms_healpix_xy(n, p, nside)
    equal(ndraws(), 2*n, 'two uniform numbers per point')
    equal(np.shape(x), (n,), 'x of each point'); equal(np.shape(y), (n,), 'y of each point')
    u = U(u0, n); v = U(v0, n)
    ex = []; ey = []
    for k in range(n):
        # inverse of the triangular distribution of the pixel's width
        h = np.sqrt(2*u[k]) if u[k] <= 0.5 else np.sqrt(2*(1 - u[k]))
        s = h - 1 if u[k] <= 0.5 else 1 - h
        ex.append((xp + d*s) % (2*PI))
        ey.append(yp + d*h*(2*v[k] - 1))
    equal_rng((x, y), (np.array(ex), np.array(ey)), 'uniform over the pixel in the equal-area plane')
    for k in range(n):
        holds(x[k] >= 0, 'x in range'); holds(x[k] < 2*PI, 'x in range')
    reset_rng()
    f, h = randoms.randoms_healpix_pixel(n, p, nside)
    f2, h2 = coords.healpix_xy2ang(x, y)
    equal(f, f2, 'longitude of the plane point'); equal(h, h2, 'polar angle of the plane point')


def P21_pixel_1():
    for p in (0, 4, 7, 11):
        pix_check(1, p)


def P21_pixel_2():
    for p in (0, 5, 20, 47):
        pix_check(2, p)


def P21_pixel_extremes():
    for nside, p in ((1, 0), (1, 8), (2, 17)):
        for ulo, uhi in ((0, 1e-4), (0.4999, 0.5), (0.50001, 0.5001), (0.9999, 1)):
            for vlo, vhi in ((0, 1e-3), (0.999, 1)):
                pix_check(nside, p, ulo, uhi, vlo, vhi)


# ------------------------------------------------------------------ P22 subsampling
def P22_shuffle():
    for n in (1, 4):
        s = array('s', n)
        reset_rng()
        r = frozen(randoms.shuffle, s)
        equal(np.shape(r), (n,), 'same number of elements')
        equal(ndraws(), n, 'one key per element')
        o = np.argsort(U(0, n))
        equal_rng(r, s[o], 'elements in the order of independent keys')


def P22_draw():
    n = 5
    s = array('s', n)
    o = np.argsort(U(0, n))
    for k in (0, 1, 3, 4):
        reset_rng()
        r = frozen(randoms.random_draw, s, k)
        equal(np.shape(r), (k,), 'as many elements as asked for')
        equal_rng(r, s[o[:k]], 'distinct elements, each equally likely')
    holds(raises(randoms.random_draw, s, n + 1), 'more elements than the sample holds is refused')


def P22_prob():
    n = 3
    s = array('s', n); p = array('p', n, 0.1, 1)
    reset_rng()
    r = frozen(randoms.random_prob_draw, s, p, size=2)
    equal(np.shape(r), (2,), 'as many elements as asked for')
    equal(ndraws(), n + 2, 'one number per element and a shuffle')
    o = np.argsort(U(0, n)/p)
    o2 = np.argsort(U(n, 2))
    equal_rng(r, s[o[:2]][o2], 'elements of the smallest u/p, shuffled')
    holds(raises(randoms.random_prob_draw, s, p, n + 1), 'more elements than the sample holds is refused')
    p[1] = 0
    holds(raises(randoms.random_prob_draw, s, p, 2), 'a zero probability is refused')


def prob_kept(keep):
    n = len(keep)
    s = array('s', n); p = array('p', n, 0.05, 0.95)
    u = U(0, n)
    for k in range(n):
        assume(u[k] < p[k] if keep[k] else u[k] > p[k])
    reset_rng()
    r = frozen(randoms.random_prob_draw, s, p)
    m = sum(keep)
    equal(np.shape(r), (m,), 'the elements whose draw does not exceed their probability')
    equal(ndraws(), n + m, 'one number per element and a shuffle')
    t = s[np.array([k for k in range(n) if keep[k]], dtype=int)]
    o = np.argsort(U(n, m)) if m > 0 else []
    for k in range(m):
        equal_rng(r[k], t[o[k]], 'elements whose draw does not exceed their probability, shuffled')


def P22_prob_kept():
    prob_kept([True, False, True])


def P22_prob_kept_2():
    prob_kept([False, True, True])


def P22_prob_kept_all():
    prob_kept([True, True])


def prob_certain(p, ulo, uhi, keep):
    n = len(p)
    s = array('s', n)
    u = U(0, n)
    for k in range(n):
        assume(u[k] > ulo[k]); assume(u[k] < uhi[k])
    reset_rng()
    r = frozen(randoms.random_prob_draw, s, np.array(p))
    m = sum(keep)
    equal(np.shape(r), (m,), 'the elements whose draw does not exceed their probability')
    equal(ndraws(), n + m, 'one number per element and a shuffle')
    t = s[np.array([k for k in range(n) if keep[k]], dtype=int)]
    o = np.argsort(U(n, m)) if m > 0 else []
    for k in range(m):
        equal_rng(r[k], t[o[k]], 'elements whose draw does not exceed their probability, shuffled')


def P22_prob_small():
    prob_certain([0.5, 0.25, 0.4], [0.1, 0.3, 0.1], [0.4, 0.4, 0.3], [True, False, True])
    prob_certain([0.02, 0.01, 0.015], [0.1, 0.3, 0.001], [0.4, 0.4, 0.012], [False, False, True])


def P22_prob_none():
    prob_certain([0.5, 0.25], [0.6, 0.3], [0.9, 0.4], [False, False])


def P22_prob_mixed():
    prob_certain([1., 0.5, 0.001], [0.9, 0.501, 0.0001], [0.999, 0.52, 0.0009], [True, False, True])
    prob_certain([0.9, 0.8, 0.7], [0.05, 0.7, 0.71], [0.2, 0.79, 0.75], [True, True, False])


def P22_prob_equal():
    # a draw that equals the probability does not exceed it
    s = array('s', 3)
    stream([0.5, 0.25, 0.75, 0.1, 0.2, 0.3])
    r = randoms.random_prob_draw(s, np.array([0.5, 0.125, 0.75]))
    equal(r, s[np.array([0, 2], dtype=int)], 'the elements whose draw does not exceed their probability')
    stream([0.5, 0.25, 0.75, 0.1, 0.2, 0.3])
    r = randoms.random_prob_draw(s, np.array([1., 0.25, 0.5]))
    equal(r, s[np.array([0, 1], dtype=int)], 'the elements whose draw does not exceed their probability')
    stream(None)
    for k in (0, 1, 2):
        reset_rng()
        equal(np.shape(randoms.random_prob_draw(s, np.array([0.5, 0.125, 0.75]), k)), (k,), 'as many elements as asked for')


def P22_integer_weights():
    n = 3
    w = array('w', n, 0, 5)
    reset_rng()
    k = frozen(randoms.stochastic_integer_weights, w)
    equal(ndraws(), n, 'one number per weight')
    equal(np.shape(k), (n,), 'one integer per weight')
    u = U(0, n)
    f = np.floor(w); c = np.ceil(w)
    for i in range(n):
        holds(k[i] >= f[i], 'not below the integer part'); holds(k[i] <= c[i], 'not above the next integer')
    e = np.array([f[i] if u[i] < c[i] - w[i] else c[i] for i in range(n)])
    equal_rng(k, e, 'rounded up with a probability of the fractional part')
    z = intarray('z', n, 0, 5)
    equal(randoms.stochastic_integer_weights(z), z, 'whole weights are kept')


def P22_integer_weight_scalar():
    w = real('w', 0, 5)
    reset_rng()
    k = randoms.stochastic_integer_weights(w)
    equal(ndraws(), 1, 'one number')
    c = np.ceil(w)
    equal_rng(k, np.floor(w) if U(0) < c - w else c, 'rounded up with a probability of the fractional part')


def P22_binary_weights():
    n = 3
    w = array('w', n, 0, 5)
    reset_rng()
    b = frozen(randoms.stochastic_binary_weights, w)
    equal(ndraws(), n, 'one number per weight')
    reset_rng()
    k = randoms.stochastic_integer_weights(w)
    for i in range(n):
        equal(b[i], min(k[i], 1), 'integer weights capped at one')
    s = real('s', 0, 5)
    reset_rng()
    b = randoms.stochastic_binary_weights(s)
    reset_rng()
    equal(b, min(randoms.stochastic_integer_weights(s), 1), 'integer weight capped at one')


# ------------------------------------------------------------------ P29 PDF sampling
def P29_cdf():
    for n, lo, hi in ((2, 0.1, 2), (4, 0.1, 2), (3, 1e-6, 1e-5), (3, 1000, 9000)):
        x0 = real('x0'); d = real('d', 0.1, 2)
        p = array('p', n, lo, hi)
        m = x0 + d*np.arange(n)
        x, c, q = frozen(randoms.pdf2cdf, m, p)
        equal(np.shape(x), (n + 1,), 'one more edge than values'); equal(np.shape(c), (n + 1,), 'one CDF value per edge')
        equal(np.shape(q), (n,), 'one normalised value per input')
        tot = np.sum(p)
        equal(c[0], 0, 'CDF starts at 0'); equal(c[n], 1, 'CDF ends at 1')
        acc = 0
        for k in range(n):
            equal(x[k], x0 + (k - 0.5)*d, 'edges half a cell below the values')
            holds(c[k + 1] >= c[k], 'CDF never decreases')
            acc += p[k]
            equal(c[k + 1], acc/tot, 'CDF is the normalised running sum')
            equal(q[k], p[k]/(tot*d), 'normalised PDF integrates to 1')
        equal(x[n], x0 + (n - 0.5)*d, 'last edge half a cell above')
        x2, c2 = randoms.pdf2cdf(m, p, return_normpdf=False)
        equal(x2, x, 'same edges'); equal(c2, c, 'same CDF')


def P29_inverse():
    x = increasing('x', 4)
    a = real('a', 0.1, 0.5); b = a + real('b', 0.1, 0.4)
    c = np.array([0, a, b, 1])
    reset_rng()
    r = frozen(randoms.randoms_cdf, x, c, 2, kind='linear')
    equal(np.shape(r), (2,), 'as many points as asked for')
    equal(ndraws(), 2, 'one uniform number per point')
    u = U(0, 2)
    e = []
    for k in range(2):
        v = x[0] + (x[1] - x[0])*u[k]/a if u[k] < a else x[1] + (x[2] - x[1])*(u[k] - a)/(b - a) if u[k] < b else x[2] + (x[3] - x[2])*(u[k] - b)/(1 - b)
        e.append(v)
        holds(v >= x[0], 'not below the first edge'); holds(v <= x[3], 'not above the last edge')
    equal_rng(r, np.array(e), 'inverse of the CDF')


def P29_sampling():
    n = 3
    x0 = real('x0'); d = real('d', 0.1, 2)
    p = array('p', n, 0.1, 2)
    m = x0 + d*np.arange(n)
    x, c = randoms.pdf2cdf(m, p, return_normpdf=False)
    for kd in ('linear', 'cubic'):
        reset_rng()
        r = randoms.randoms_cdf(x, c, 2, kind=kd)
        reset_rng()
        r2 = frozen(randoms.randoms_pdf, m, p, 2, kind=kd)
        equal(r2, r, 'sampling a PDF is sampling its CDF')
    reset_rng()
    equal(randoms.randoms_pdf(m, p, 2), r, 'cubic by default')
    reset_rng()
    equal(randoms.randoms_cdf(x, c, 2), r, 'cubic by default')
    bad = np.array([0, 0.5, 0.9])
    holds(raises(randoms.randoms_cdf, np.arange(3), bad, 2), 'a CDF that does not reach 1 is refused')
    bad = np.array([0.1, 0.5, 1.0])
    holds(raises(randoms.randoms_cdf, np.arange(3), bad, 2), 'a CDF that does not start at 0 is refused')
    for kd in ('linear', 'cubic'):
        x4 = np.arange(5); c4 = np.array([0, 0.2, 0.5, 0.6, 1])
        reset_rng()
        a = randoms.randoms_cdf(x4, c4, 3, kind=kd)
        equal(np.shape(a), (3,), 'size')
