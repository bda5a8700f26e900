"""HEALPix ring bookkeeping and pixel outlines."""
import numpy as np
from magpie import coords, pixel

PI = np.pi


def ringlen(i, n):
    return 4*min(i, n, 4*n - i)


def ring_check(n):
    """every pixel of a map: ring-ordered numbering, both directions, scalars and arrays"""
    p = 0
    ps = []; rs = []; js = []
    for i in range(1, 4*n):
        for j in range(1, ringlen(i, n) + 1):
            ri, rj = pixel.healpix_pix2ij(p, n)
            equal(ri, i, 'ring of each pixel')
            equal(rj, j, 'position of each pixel along its ring')
            equal(pixel.healpix_ij2pix(i, j, n), p, 'pixel number of each ring position')
            ps.append(p); rs.append(i); js.append(j)
            p += 1
    equal(p, 12*n*n, 'number of pixels')
    P = np.array(ps)
    R = np.array(rs)
    J = np.array(js)
    I2, J2 = pixel.healpix_pix2ij(P, n)
    equal(I2, R, 'ring of each pixel (array call)')
    equal(J2, J, 'position along the ring (array call)')
    equal(pixel.healpix_ij2pix(R, J, n), P, 'pixel number (array call)')


def xy_check(n):
    """centres of the pixels in the HEALPix plane agree with the projection of the pixel's sky position"""
    ps = []; xs = []; ys = []
    p = 0
    for i in range(1, 4*n):
        for j in range(1, ringlen(i, n) + 1):
            if i < n:
                z = 1 - i*i/(3*n*n); phi = (j - 0.5)*PI/(2*i)
            elif i <= 3*n:
                z = (4*n - 2*i)/(3*n)
                if (i + n) % 2 == 1:
                    phi = (j - 1)*PI/(2*n)
                else:
                    phi = (j - 0.5)*PI/(2*n)
            else:
                k = 4*n - i
                z = -1 + k*k/(3*n*n); phi = (j - 0.5)*PI/(2*k)
            x, y = pixel.healpix_pix2xy(p, n)
            equal(y, PI/(2*n)*(n - i/2), 'plane y of the pixel centre')
            if i >= n and i <= 3*n:
                equal(x, phi, 'plane x of the pixel centre (belt)')
            else:
                k = min(i, 4*n - i)
                s = 1 - k/n
                equal(x, phi - s*(phi % (PI/2) - PI/4), 'plane x of the pixel centre (caps)')
            ps.append(p); xs.append(x); ys.append(y)
            p += 1
    X, Y = pixel.healpix_pix2xy(np.array(ps), n)
    equal(X, np.array(xs), 'plane x (array call)')
    equal(Y, np.array(ys), 'plane y (array call)')


def P08_ring_1():
    ring_check(1)


def P08_ring_2():
    ring_check(2)


def P08_ring_3():
    ring_check(3)


def P08_ring_4():
    ring_check(4)


def P08_ring_more():
    if thorough():
        for n in (5, 6, 7, 8, 11, 16):
            ring_check(n)
    else:
        n = 5
        for p in (0, 3, 4, 5, 59, 60, 61, 150, 239, 240, 241, 250, 295, 296, 299):
            i, j = pixel.healpix_pix2ij(p, n)
            equal(pixel.healpix_ij2pix(i, j, n), p, 'pixel -> ring -> pixel')


def P08_ring_large():
    # high resolutions: first and last pixels of rings in the caps, the belt and at their borders
    for n in (128, 4096, 32768):
        ps = []; ii = []; jj = []
        for i in (1, 2, 77, n - 1, n):
            a = 2*i*(i - 1)
            ps += [a, a + 4*i - 1, 12*n*n - 1 - a, 12*n*n - a - 4*i]; ii += [i, i, 4*n - i, 4*n - i]; jj += [1, 4*i, 4*i, 1]
        for i in (n + 1, 2*n - 1, 2*n, 3*n - 1):
            a = 2*n*(n - 1) + 4*n*(i - n)
            ps += [a, a + 4*n - 1, a + 300]; ii += [i, i, i]; jj += [1, 4*n, 301]
        I, J = pixel.healpix_pix2ij(np.array(ps, dtype=int), n)
        equal(I, np.array(ii), 'ring of a pixel at high resolution'); equal(J, np.array(jj), 'position in the ring at high resolution')
        equal(pixel.healpix_ij2pix(np.array(ii, dtype=int), np.array(jj, dtype=int), n), np.array(ps), 'pixel number at high resolution')
        for k in range(len(ps)):
            i, j = pixel.healpix_pix2ij(ps[k], n)
            equal(i, ii[k], 'ring of a pixel at high resolution'); equal(j, jj[k], 'position in the ring at high resolution')
            equal(pixel.healpix_ij2pix(ii[k], jj[k], n), ps[k], 'pixel number at high resolution')


def P08_belt_any_nside():
    n = integer('n', 2, 4096)
    i = integer('i', n + 1, 3*n - 1)
    j = integer('j', 1, 4*n)
    p = 2*n*(n - 1) + 4*n*(i - n) + j - 1
    assume(p > 2*n*(n + 1))
    assume(p < 2*n*(5*n - 1))
    ri, rj = pixel.healpix_pix2ij(p, n)
    equal(ri, i, 'belt ring for any resolution')
    equal(rj, j, 'belt position for any resolution')
    equal(pixel.healpix_ij2pix(i, j, n), p, 'belt pixel number for any resolution')


def P08_caps_any_nside():
    n = integer('n', 2, 4096)
    i = integer('i', 1, n)
    j = integer('j', 1, 4*i)
    equal(pixel.healpix_ij2pix(i, j, n), 2*i*(i - 1) + j - 1, 'north cap pixel number for any resolution')
    assume(i < n)
    equal(pixel.healpix_ij2pix(4*n - i, j, n), 12*n*n - 2*i*(i + 1) + j - 1, 'south cap pixel number for any resolution')


def P08_xy_1():
    xy_check(1)


def P08_xy_2():
    xy_check(2)


def P08_xy_3():
    xy_check(3)


def P08_xy_4():
    xy_check(4)


def P08_xy_more():
    if thorough():
        for n in (5, 6, 8):
            xy_check(n)
    else:
        xy_check(5)


def P08_xy_finer():
    # first, second, middle and last pixels of some rings of finer maps, with even, odd, and twice odd resolutions
    for n in (6, 7, 9, 10, 12, 14, 16, 33, 128):
        ps = []; xs = []; ys = []; ii = []; jj = []
        for i in (1, 2, n//2 + 1, n - 1, n, n + 1, n + 2, 2*n, 2*n + 1, 3*n - 1, 3*n, 3*n + 1, 4*n - 2, 4*n - 1):
            k = min(i, 4*n - i, n)
            if i <= n:
                a = 2*i*(i - 1)
            elif i < 3*n:
                a = 2*n*(n - 1) + 4*n*(i - n)
            else:
                a = 12*n*n - 2*k*(k + 1)
            for j in (1, k, k + 1, 2*k, 2*k + 1, 3*k + 1, 4*k):
                if i >= n and i <= 3*n:
                    x = (j - 1)*PI/(2*n) if (i + n) % 2 == 1 else (j - 0.5)*PI/(2*n)
                else:
                    q = (j - 1)//k
                    x = PI/(2*n)*(q*n + n/2 + (j - 1 - q*k) - (k - 1)/2)
                y = PI/(2*n)*(n - i/2)
                a2, b2 = pixel.healpix_pix2xy(a + j - 1, n)
                equal(a2, x, 'plane x of a pixel centre in a finer map')
                equal(b2, y, 'plane y of a pixel centre in a finer map')
                ps.append(a + j - 1); xs.append(x); ys.append(y); ii.append(i); jj.append(j)
        X, Y = pixel.healpix_pix2xy(np.array(ps, dtype=int), n)
        equal(X, np.array(xs), 'plane x of pixel centres in a finer map')
        equal(Y, np.array(ys), 'plane y of pixel centres in a finer map')
        equal(pixel.healpix_ij2xy(np.array(ii, dtype=int), np.array(jj, dtype=int), n), (X, Y), 'plane position from ring and position')


def P08_dash_belt_any_nside():
    n = integer('n', 2, 4096)
    i = integer('i', n + 1, 3*n - 1)
    j = integer('j', 1, 4*n)
    for m in (4, 5):
        i = integer('i%d' % m, m + 1, 3*m - 1)
        j = integer('j%d' % m, 1, 4*m)
        x, y = pixel.healpix_ij2xy(i, j, m)
        equal(y, PI/(2*m)*(m - i/2), 'plane y of a ring')
        equal(x*2*m/PI - j, -1 + 0.5*((i + m + 1) % 2), 'plane x along a belt ring')


def P08_star():
    for n in (1, 2, 3, 4):
        ni = integer('ni%d' % n, 0, 4*n); nj = integer('nj%d' % n, 0, 4*n)
        I = np.array([ni, 3]); J = np.array([nj, 2])
        a, b = pixel.healpix_ijs2ijd(I, J, n)
        I2, J2 = pixel.healpix_ijd2ijs(a, b, n)
        equal(I2, I, 'diagonal index round trip (i)')
        equal(J2, J, 'diagonal index round trip (j)')
        equal(a[0], (nj - ni)/2, 'diagonal to dash i')
        equal(b[0], (ni + nj + 1 - n)/2, 'diagonal to dash j')


def P08_i2id():
    n = integer('n', 1, 1000); i = integer('i', 1, 4000)
    equal(pixel.healpix_i2id(i, n), n - i/2, 'dash index of a ring')


# ------------------------------------------------------------------ P09 outlines
def square_check(m):
    xmin = real('xmin'); ymin = real('ymin'); xmax = xmin + real('w', 0.1, 5); ymax = ymin + real('h', 0.1, 5)
    x, y = pixel.get_square(xmin, xmax, ymin, ymax, steps=4*m)
    equal(np.shape(x), (4*m,), 'number of outline points (x)')
    equal(np.shape(y), (4*m,), 'number of outline points (y)')
    for k in range(m):
        t = k/(m - 1)
        equal(x[k], xmin + t*(xmax - xmin), 'bottom side x'); equal(y[k], ymin, 'bottom side y')
        equal(x[m + k], xmax, 'right side x'); equal(y[m + k], ymin + t*(ymax - ymin), 'right side y')
        equal(x[2*m + k], xmax - t*(xmax - xmin), 'top side x'); equal(y[2*m + k], ymax, 'top side y')
        equal(x[3*m + k], xmin, 'left side x'); equal(y[3*m + k], ymax - t*(ymax - ymin), 'left side y')
    equal(x[-1], x[0], 'outline closed x')
    equal(y[-1], y[0], 'outline closed y')


def P09_square_2():
    square_check(2)


def P09_square_5():
    square_check(5)


def P09_square_default():
    x, y = pixel.get_square(0., 1., 2., 3.)
    equal(len(x), 40, 'default number of outline points')
    equal(x[-1], x[0], 'default outline closed')
    equal(raises(pixel.get_square, 0., 1., 2., 3., steps=6), True, 'a number of steps that is not a multiple of 4 is refused')
    equal(raises(pixel.get_square, 0., 1., 2., 3., steps=0), True, 'zero steps are refused')


def P09_arc():
    r = real('r', 0.1, 5); a = real("a", -7, 7); b = real("b", -7, 7); cx = real('cx'); cy = real('cy')
    for n in (2, 5):
        x, y = pixel.get_arc(r, phimin=a, phimax=b, center=[cx, cy], steps=n)
        equal(np.shape(x), (n,), 'number of arc points')
        for k in range(n):
            p = a + (b - a)*k/(n - 1)
            equal(x[k], cx + r*np.cos(p), 'arc x')
            equal(y[k], cy + r*np.sin(p), 'arc y')
    x, y = pixel.get_arc(r)
    equal(len(x), 10, 'default number of arc points')
    equal(x[0], r, 'default arc starts on the x axis')
    equal(x[-1], x[0], 'default arc is a closed circle (x)')
    equal(y[-1], y[0], 'default arc is a closed circle (y)')


def P09_disc():
    a = real('a', 0.1, 1); b = a + real('d', 0.1, 2); p = real('p', 0, 3); q = p + real('dp', 0.1, 3)
    cx = real('cx'); cy = real('cy')
    x, y = pixel.get_disc(rmin=a, rmax=b, phimin=p, phimax=q, center=[cx, cy], steps=12)
    equal(np.shape(x), (12,), 'number of outline points')
    m = 3
    for k in range(m):
        t = k/(m - 1)
        r = a + t*(b - a); f = p + t*(q - p); r2 = b - t*(b - a); f2 = q - t*(q - p)
        equal(x[k], cx + r*np.cos(p), 'first straight side x'); equal(y[k], cy + r*np.sin(p), 'first straight side y')
        equal(x[m + k], cx + b*np.cos(f), 'outer arc x'); equal(y[m + k], cy + b*np.sin(f), 'outer arc y')
        equal(x[2*m + k], cx + r2*np.cos(q), 'second straight side x'); equal(y[2*m + k], cy + r2*np.sin(q), 'second straight side y')
        equal(x[3*m + k], cx + a*np.cos(f2), 'inner arc x'); equal(y[3*m + k], cy + a*np.sin(f2), 'inner arc y')
    equal(x[-1], x[0], 'outline closed x')
    equal(y[-1], y[0], 'outline closed y')
    x, y = pixel.get_disc()
    equal(len(x), 40, 'default number of points')
    equal(x[20], 1, 'default outer radius 1')


def P09_box():
    x0 = real('x0'); y0 = real('y0'); z0 = real('z0')
    x1 = x0 + real('a', 0.1, 3); y1 = y0 + real('b', 0.1, 3); z1 = z0 + real('c', 0.1, 3)
    for m in (2, 3):
        x, y, z = pixel.get_box(x0, x1, y0, y1, z0, z1, steps=12*m)
        equal(np.shape(x), (12, m), 'twelve edges of equal length (x)')
        equal(np.shape(y), (12, m), 'twelve edges of equal length (y)')
        equal(np.shape(z), (12, m), 'twelve edges of equal length (z)')
        nx = 0; ny = 0; nz = 0
        for e in range(12):
            for k in range(m):
                t = k/(m - 1)
                X = x0 + t*(x1 - x0); Y = y0 + t*(y1 - y0); Z = z0 + t*(z1 - z0)
                holds(((x[e][k] == X) & ((y[e][k] == y0) | (y[e][k] == y1)) & ((z[e][k] == z0) | (z[e][k] == z1))) |
                      ((y[e][k] == Y) & ((x[e][k] == x0) | (x[e][k] == x1)) & ((z[e][k] == z0) | (z[e][k] == z1))) |
                      ((z[e][k] == Z) & ((x[e][k] == x0) | (x[e][k] == x1)) & ((y[e][k] == y0) | (y[e][k] == y1))),
                      'every point lies on an edge of the box')
    # all twelve edges, each once
    x, y, z = pixel.get_box(0., 1., 0., 2., 0., 4., steps=36)
    code = np.sum(x, axis=1) + 3.5*np.sum(y, axis=1) + 11.*np.sum(z, axis=1)
    for e in range(12):
        for f in range(e):
            holds(code[e] != code[f], 'the twelve edges are distinct')
    equal(raises(pixel.get_box, 0., 1., 0., 2., 0., 4., steps=13), True, 'a number of steps that is not a multiple of 12 is refused')


def P09_box_nearest():
    # looking along x from the origin at a box whose near face is x = 1: the four edges meeting the hidden far corners go
    x, y, z = pixel.get_box(1., 2., -0.5, 0.5, -0.5, 0.5, steps=24, return_nearest=True)
    equal(np.shape(x)[0], 4, 'only the near face stays when every far corner is hidden')
    for e in range(4):
        for k in range(2):
            equal(x[e][k], 1., 'remaining edges belong to the near face')
    # looking from a corner direction: exactly one corner is hidden and its three edges go
    x, y, z = pixel.get_box(1., 2., 1., 2., 1., 2., steps=24, return_nearest=True)
    equal(np.shape(x)[0], 9, 'edges that do not touch the hidden corner stay')
    for e in range(9):
        for k in range(2):
            holds((x[e][k] != 2.) | (y[e][k] != 2.) | (z[e][k] != 2.), 'no remaining edge touches the hidden corner')
    # the same, seen from the other side
    x, y, z = pixel.get_box(1., 2., 1., 2., 1., 2., steps=24, return_nearest=True, center=[3., 3., 3.])
    equal(np.shape(x)[0], 9, 'nine edges stay seen from the other side')
    for e in range(9):
        for k in range(2):
            holds((x[e][k] != 1.) | (y[e][k] != 1.) | (z[e][k] != 1.), 'hidden corner is the one far from the view point')


def stays(b, c, dead):
    # the edges that stay are those that touch none of the corners hidden from the view point
    x, y, z = pixel.get_box(*b, steps=24, return_nearest=True, center=c)
    lo = [b[0], b[2], b[4]]; hi = [b[1], b[3], b[5]]
    keep = []
    for ax in range(3):
        for u in (0, 1):
            for v in (0, 1):
                ends = []
                for w in (0, 1):
                    k = [u, v]; k.insert(ax, w); ends.append(tuple(k))
                if ends[0] not in dead and ends[1] not in dead:
                    keep.append(ends)
    equal(np.shape(x), (len(keep), 2), 'exactly the edges without a hidden corner stay')
    for ends in keep:
        n = 0
        for e in range(np.shape(x)[0]):
            m = True
            for w in (0, 1):
                q = ends[w]
                p = [hi[i] if q[i] else lo[i] for i in range(3)]
                m = m & (x[e][w] == p[0]) & (y[e][w] == p[1]) & (z[e][w] == p[2])
            n += 1*m
        equal(n, 1, 'each remaining edge is listed once')


def P09_box_nearest_views():
    b = (1., 2., -1., 3., 0.5, 1.5)
    # in the plane of a face, beside the box: that face is seen edge on and hides nothing
    stays(b, [0., 1., 0.5], [(1, 0, 1), (1, 1, 1)])
    stays(b, [0., -1., 1.], [(1, 1, 0), (1, 1, 1)])
    # straight in front of a face
    stays(b, [1.5, -4., 1.], [(0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)])
    stays(b, [1.5, 9., 1.], [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 0, 1)])
    stays(b, [5., 1., 1.], [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1)])
    stays(b, [1.5, 1., -3.], [(0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1)])
    stays(b, [1.5, 1., 9.], [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0)])
    # facing an edge
    stays(b, [0., -3., 1.], [(1, 1, 0), (1, 1, 1)])
    stays(b, [3., 1., 3.], [(0, 0, 0), (0, 1, 0)])
    # facing a corner
    stays(b, [0., -3., 3.], [(1, 1, 0)])
    stays(b, [4., -3., -2.], [(0, 1, 1)])
    # on the line of an edge
    stays(b, [0., -1., 0.5], [(1, 1, 1)])


def P09_box_nearest_default():
    # seen from the origin when no view point is given
    for b in ((1., 2., -0.5, 0.5, -0.5, 0.5), (-3., -2., 1., 2., 1., 4.), (-1., 1., -1., 1., -5., -4.)):
        x, y, z = pixel.get_box(*b, steps=24, return_nearest=True)
        x1, y1, z1 = pixel.get_box(*b, steps=24, return_nearest=True, center=[0., 0., 0.])
        equal(np.shape(x), np.shape(x1), 'seen from the origin when no view point is given')
        for e in range(np.shape(x1)[0]):
            for k in range(2):
                equal(x[e][k], x1[e][k], 'seen from the origin'); equal(y[e][k], y1[e][k], 'seen from the origin')
                equal(z[e][k], z1[e][k], 'seen from the origin')


def outline(n, p, steps):
    x0, y0 = pixel.healpix_pix2xy(p, n)
    d = PI/(4*n)
    x, y = pixel.healpix_boundary(p, n, steps=steps)
    equal(np.shape(x), (steps,), 'number of outline points')
    q = steps // 4
    for k in range(steps):
        equal(abs(x[k] - x0) + abs(y[k] - y0), d, 'every outline point lies on the diamond around the pixel centre')
    equal(x[0], x0 - d, 'outline starts at the left corner')
    equal(y[0], y0, 'left corner height')
    equal(x[-1], x[0], 'outline closed x')
    equal(y[-1], y[0], 'outline closed y')
    equal(x[q - 1], x0, 'top corner x'); equal(y[q - 1], y0 + d, 'top corner y')
    equal(x[2*q - 1], x0 + d, 'right corner x'); equal(y[2*q - 1], y0, 'right corner y')
    equal(x[3*q - 1], x0, 'bottom corner x'); equal(y[3*q - 1], y0 - d, 'bottom corner y')
    xr, yr = pixel.healpix_boundary(p, n, steps=steps, reverse=True)
    for k in range(steps):
        equal(xr[k], x[steps - 1 - k], 'reversed outline x')
        equal(yr[k], y[steps - 1 - k], 'reversed outline y')


def P09_healpix_outline():
    outline(1, 0, 8)
    outline(1, 5, 12)
    outline(2, 3, 8)
    outline(2, 30, 8)
    outline(4, 190, 12)


def P09_healpix_counts():
    for n, p in ((1, 4), (2, 45)):
        x0, y0 = pixel.healpix_pix2xy(p, n)
        d = PI/(4*n)
        for steps in (9, 10, 11, 13, 21):
            x, y = pixel.healpix_boundary(p, n, steps=steps)
            equal(np.shape(x), (steps,), 'number of outline points, any number')
            equal(np.shape(y), (steps,), 'number of outline points, any number')
            for k in range(min(len(x), steps)):
                equal(abs(x[k] - x0) + abs(y[k] - y0), d, 'every outline point lies on the diamond, any number')
            equal(x[0], x0 - d, 'outline starts at the left corner'); equal(y[0], y0, 'left corner height')
            equal(x[-1], x[0], 'outline closed x'); equal(y[-1], y[0], 'outline closed y')
            holds(max([y[k] for k in range(len(y))]) >= y0 + d, 'top corner visited'); holds(min([y[k] for k in range(len(y))]) <= y0 - d, 'bottom corner visited')
            holds(max([x[k] for k in range(len(x))]) >= x0 + d, 'right corner visited')


def P09_healpix_halves():
    for n, p in ((1, 4), (2, 7), (2, 45)):
        x0, y0 = pixel.healpix_pix2xy(p, n)
        d = PI/(4*n)
        for steps in (6, 7):
            for rev in (False, True):
                x, y = pixel.healpix_boundary_top(p, n, steps=steps, reverse=rev)
                equal(np.shape(x), (steps,), 'number of upper outline points')
                if rev:
                    x = x[::-1]; y = y[::-1]
                for k in range(steps):
                    equal(y[k] - y0, d - abs(x[k] - x0), 'upper outline')
                equal(x[0], x0 - d, 'upper outline from the left corner'); equal(x[-1], x0 + d, 'upper outline to the right corner')
                x, y = pixel.healpix_boundary_bot(p, n, steps=steps, reverse=rev)
                equal(np.shape(x), (steps,), 'number of lower outline points')
                if rev:
                    x = x[::-1]; y = y[::-1]
                for k in range(steps):
                    equal(y[k] - y0, -d + abs(x[k] - x0), 'lower outline')
                equal(x[0], x0 - d, 'lower outline from the left corner'); equal(x[-1], x0 + d, 'lower outline to the right corner')


def P09_healpix_default():
    x, y = pixel.healpix_boundary(3, 1)
    equal(len(x), 40, 'default number of outline points')
    x, y = pixel.healpix_boundary_top(3, 1)
    equal(len(x), 20, 'default number of upper outline points')
    x, y = pixel.healpix_boundary_bot(3, 1)
    equal(len(x), 20, 'default number of lower outline points')
