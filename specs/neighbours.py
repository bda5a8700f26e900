"""The neighbours of a HEALPix pixel in the star index plane."""
import numpy as np
import healpy as hp
from magpie import pixel

TOUCH = 'the neighbours are the pixels that touch the pixel'


def stars(n):
    p = np.arange(12*n*n)
    i, j = pixel.healpix_pix2ij(p, n)
    return pixel.healpix_ijd2ijs(pixel.healpix_i2id(i, n), pixel.healpix_j2jd(i, j, n), n)


def touching(n, p, k, l, x, y):
    """(x[m], y[m]) are the star indices of the pixels around p, each listed once"""
    near = [v for v in hp.get_all_neighbours(n, p) if v >= 0]
    distinct = []
    for v in near:
        if v not in distinct:
            distinct.append(v)
    equal(len(x), len(distinct), TOUCH); equal(len(y), len(distinct), TOUCH)
    for v in distinct:
        found = 0
        for m in range(len(x)):
            found = found + (x[m] == k[v] and y[m] == l[v])
        equal(found, 1, TOUCH)


def around(n):
    k, l = stars(n)
    for p in range(12*n*n):
        x, y = pixel.healpix_ijs_neighbours(k[p], l[p], n)
        touching(n, p, k, l, x, y)


def P32_nside_1():
    around(1)


def P32_nside_2():
    around(2)


def P32_nside_3():
    around(3)


def P32_nside_4():
    around(4)


def P32_nside_5():
    if thorough():
        around(5)


def P32_nside_8():
    if thorough():
        around(8)


def P32_mutual():
    # q is a neighbour of p exactly when p is one of q
    for n in ((2, 3) if thorough() else (2,)):
        k, l = stars(n)
        near = []
        for p in range(12*n*n):
            near.append(pixel.healpix_ijs_neighbours(k[p], l[p], n))
        for p in range(12*n*n):
            x, y = near[p]
            for m in range(len(x)):
                for q in range(12*n*n):
                    if k[q] == x[m] and l[q] == y[m]:
                        u, v = near[q]
                        found = 0
                        for t in range(len(u)):
                            found = found + (u[t] == k[p] and v[t] == l[p])
                        equal(found, 1, 'neighbours are mutual')


def P32_inside():
    # away from the edges of the base pixels, for any size of the map
    n = 1024
    for i, j in ((100, 1500), (700, 1000), (3000, 2500), (4000, 4200)):
        x, y = pixel.healpix_ijs_neighbours(i, j, n)
        equal(len(x), 8, 'eight neighbours inside a base pixel')
        for m in range(8):
            d = abs(x[m] - i); e = abs(y[m] - j)
            holds(d <= 1 and e <= 1 and d + e > 0, 'the neighbours are next to the pixel')
