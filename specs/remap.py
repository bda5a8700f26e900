"""Grid to grid remapping: overlap weights, per-axis behaviour, defaults."""
import numpy as np
from magpie import remap, src


def lap(a, b, i):
    """overlap of [a, b] with cell [i, i + 1]"""
    return max(0, min(b, i + 1) - max(a, i))


# ------------------------------------------------------------------ P11 overlap weights
def cell_check(n, a, b, k=None):
    """new cell [a, b] in units of the old cells"""
    m = real('m'); d = real('d', 0.1, 2)
    lo, hi = m, m + n*d
    f = array('f', n)
    x2 = m + a*d; x3 = m + b*d
    L = src.get_remap_pix_len(lo, hi, n, x2, x3, 1)
    pix, w = src.remap_1d_grid2grid_pixel(lo, hi, n, x2, x3, 1, 0, L)
    equal(np.shape(pix), (L,), 'a list of old cells'); equal(np.shape(w), (L,), 'one weight per old cell')
    got = [0 for i in range(n)]
    for j in range(L):
        holds(pix[j] >= -1, 'cells are listed by index or as none'); holds(pix[j] < n, 'cells are listed by index or as none')
        holds(w[j] >= 0, 'weights are not negative'); holds(w[j] <= 1, 'weights are at most 1')
        for i in range(n):
            if pix[j] == i:
                got[i] = got[i] + w[j]
    e = 0
    for i in range(n):
        c = lap(a, b, i)/(b - a)
        equal(got[i], c, 'weight is the covered fraction of the new cell')
        e = e + c*f[i]
    r = remap.grid2grid1D(f, n*d, 1, origin=m, originout=x2, boxsizeout=x3 - x2)
    equal(np.shape(r), (1,), 'one value per new cell')
    equal(r[0], e, 'remapped value is the sum of the old values weighted by the covered fractions')


def P11_inside_one_cell():
    t = real('t', 0.1, 0.4); u = real('u', 0.1, 0.4)
    for k in (0, 1, 2):
        cell_check(3, k + t, k + t + u)
    cell_check(1, t, t + u)


def P11_two_cells():
    t = real('t', 0.6, 0.9); u = real('u', 0.5, 0.9)
    for k in (0, 1):
        cell_check(3, k + t, k + t + u)


def P11_many_cells():
    t = real('t', 0.6, 0.9); u = real('u', 0.5, 0.9)
    cell_check(4, t, t + 1 + u)
    cell_check(4, t, t + 2 + u)
    t = real('s', 0.1, 0.3); u = real('v', 0.1, 0.6)
    cell_check(4, t, t + 1 + u)
    cell_check(4, t, t + 3 + u)


def P11_aligned():
    cell_check(3, 0, 1); cell_check(3, 1, 3); cell_check(3, 0, 3); cell_check(2, 0, 2); cell_check(4, 1, 2)
    t = real('t', 0.1, 0.9)
    cell_check(3, 1, 1 + t); cell_check(3, 1 - t, 1); cell_check(3, 1, 2 + t)


def P11_over_the_edges():
    t = real('t', 0.6, 0.9); u = real('u', 0.5, 0.9)
    cell_check(3, -1 + t, -1 + t + u)
    cell_check(3, -2 + t, -1 + t + u)
    cell_check(3, -3 + t, t + u)
    cell_check(3, 2 + t, 2 + t + u)
    cell_check(3, 2 + t, 4 + t + u)
    cell_check(2, -1 + t, 2 + t + u)
    cell_check(2, -2 + t, 3 + t + u)


def P11_outside():
    t = real('t', 0.1, 0.4); u = real('u', 0.1, 0.4)
    for k in (-3, -2, -1, 3, 4, 5):
        cell_check(3, k + t, k + t + u)
    cell_check(3, -4 + t, -2 + t + u)
    cell_check(3, 3 + t, 5 + t + u)
    cell_check(3, -2, -1); cell_check(3, -1, 0); cell_check(3, 3, 4); cell_check(3, -3, 0); cell_check(3, 3, 5)


def frac_(p, q, n, g, off, size):
    """expected new values: g cells over [off, off + size] in old-cell units"""


def grid_check(n, g, off, size):
    m = real('m'); d = real('d', 0.1, 2)
    f = array('f', n)
    r = frozen(remap.grid2grid1D, f, n*d, g, origin=m, originout=m + off*d, boxsizeout=size*d)
    equal(np.shape(r), (g,), 'one value per new cell')
    s = size/g
    for j in range(g):
        e = 0
        for i in range(n):
            e = e + lap(off + j*s, off + (j + 1)*s, i)/s*f[i]
        equal(r[j], e, 'remapped value is the sum of the old values weighted by the covered fractions')


def P11_coarser():
    grid_check(4, 2, 0, 4); grid_check(4, 3, 0, 4); grid_check(5, 2, 0, 5); grid_check(5, 1, 0, 5)


def P11_finer():
    grid_check(2, 4, 0, 2); grid_check(2, 3, 0, 2); grid_check(3, 5, 0, 3); grid_check(1, 3, 0, 1)


def P11_same():
    for n in (1, 2, 4):
        m = real('m'); d = real('d', 0.1, 2)
        f = array('f', n)
        equal(remap.grid2grid1D(f, n*d, n, origin=m, originout=m, boxsizeout=n*d), f, 'remapping onto the same grid changes nothing')


def P11_shifted():
    grid_check(4, 4, 0.5, 4); grid_check(4, 4, -0.25, 4); grid_check(3, 4, -1.5, 5); grid_check(3, 2, 1.25, 3)
    grid_check(3, 3, -3.5, 3); grid_check(3, 2, 3.5, 2); grid_check(3, 6, -1.75, 6)


def P11_thorough():
    if thorough():
        for n in (1, 2, 3, 5):
            for g in (1, 2, 3, 5, 7):
                for off in (-1.25, -0.5, 0, 0.75):
                    for size in (1, 2.5, 4):
                        grid_check(n, g, off, size)


def P11_constant():
    c = real('c'); m = real('m'); d = real('d', 0.1, 2); t = real('t', 0.1, 0.2)
    f = np.array([c, c, c, c])
    r = remap.grid2grid1D(f, 4*d, 2, origin=m, originout=m + t*d, boxsizeout=3.5*d)
    for j in range(2):
        equal(r[j], c, 'a constant grid stays constant inside')


def P11_pixlen():
    m = real('m'); d = real('d', 0.1, 2)
    for n, g, s in ((4, 4, 4), (4, 2, 4), (4, 3, 4), (2, 5, 2), (6, 1, 6), (3, 1, 7.5)):
        L = src.get_remap_pix_len(m, m + n*d, n, m, m + s*d, g)
        holds(L >= np.ceil(s/g) + 1, 'room for every old cell a new cell can touch')


# ------------------------------------------------------------------ P12 remapping is separable, per axis, with documented defaults
def w1(n, g, off, size):
    """expected 1-D matrix"""
    s = size/g
    return [[lap(off + j*s, off + (j + 1)*s, i)/s for i in range(n)] for j in range(g)]


def two_check(n1, n2, g1, g2, o1, o2, s1, s2):
    p = real('p'); q = real('q'); a = real('a', 0.1, 2); b = real('b', 0.1, 2)
    f = array('f', (n1, n2))
    r = frozen(remap.grid2grid2D, f, [n1*a, n2*b], [g1, g2], origin=[p, q], originout=[p + o1*a, q + o2*b], boxsizeout=[s1*a, s2*b])
    equal(np.shape(r), (g1, g2), 'shape of the new grid')
    A = w1(n1, g1, o1, s1); B = w1(n2, g2, o2, s2)
    for j in range(g1):
        for k in range(g2):
            e = 0
            for i in range(n1):
                for l in range(n2):
                    e = e + A[j][i]*B[k][l]*f[i, l]
            equal(r[j, k], e, 'weights are products of the one-dimensional ones, axis by axis')


def P12_two():
    two_check(2, 3, 2, 2, 0, 0, 2, 3)
    two_check(3, 2, 2, 3, 0.5, -0.25, 2, 2.5)
    two_check(2, 2, 1, 2, -1.5, 1.5, 3, 2)


def P12_unequal():
    two_check(1, 7, 1, 2, 0, 0, 1, 7)
    two_check(7, 1, 2, 1, 0, 0.25, 7, 0.5)
    two_check(6, 2, 1, 4, -0.5, 0, 7, 2)
    two_check(2, 6, 5, 1, 0, 0, 2, 6)


def P12_turned():
    # maps whose axes have been swapped or reversed are the maps they look like
    a = real('a', 0.1, 2); f = array('f', (3, 2)); g = array('g', (2, 3, 4))
    for h in (f.T, f[::-1], f[:, ::-1]):
        equal(remap.grid2grid2D(h, [a, 2*a], [2, 2]), remap.grid2grid2D(np.array([[h[i, j] for j in range(np.shape(h)[1])] for i in range(np.shape(h)[0])]), [a, 2*a], [2, 2]), 'a turned map is the map it looks like')
    for h in (g.T, np.swapaxes(g, 0, 1), g[:, :, ::2]):
        n = np.shape(h)
        equal(remap.grid2grid3D(h, [a, 2*a, 3*a], [1, 2, 1]), remap.grid2grid3D(np.array([[[h[i, j, k] for k in range(n[2])] for j in range(n[1])] for i in range(n[0])]), [a, 2*a, 3*a], [1, 2, 1]), 'a turned cube is the cube it looks like')


def three_check(n, g, o, sz):
    p = real('p'); q = real('q'); s = real('s'); a = real('a', 0.1, 2); b = real('b', 0.1, 2); c = real('c', 0.1, 2)
    f = array('f', n)
    r = remap.grid2grid3D(f, [n[0]*a, n[1]*b, n[2]*c], [g[0], g[1], g[2]], origin=[p, q, s],
                          originout=[p + o[0]*a, q + o[1]*b, s + o[2]*c], boxsizeout=[sz[0]*a, sz[1]*b, sz[2]*c])
    equal(np.shape(r), g, 'shape of the new grid')
    A = w1(n[0], g[0], o[0], sz[0]); B = w1(n[1], g[1], o[1], sz[1]); C = w1(n[2], g[2], o[2], sz[2])
    for j in range(g[0]):
        for k in range(g[1]):
            for l in range(g[2]):
                e = 0
                for x in range(n[0]):
                    for y in range(n[1]):
                        for z in range(n[2]):
                            e = e + A[j][x]*B[k][y]*C[l][z]*f[x, y, z]
                equal(r[j, k, l], e, 'weights are products of the one-dimensional ones, axis by axis')


def P12_three_unequal():
    three_check((6, 1, 2), (1, 2, 3), (0, 0, 0), (6, 1, 2))
    three_check((1, 6, 2), (3, 1, 2), (0, 0, 0.5), (1, 6, 1))
    three_check((2, 1, 6), (2, 3, 1), (-0.5, 0, 0), (2, 1, 6))
    three_check((1, 5, 4), (1, 1, 1), (0, 0.5, 0), (1, 4, 4))


def P12_three():
    p = real('p'); q = real('q'); s = real('s'); a = real('a', 0.1, 2); b = real('b', 0.1, 2); c = real('c', 0.1, 2)
    f = array('f', (2, 3, 1))
    A = w1(2, 1, 0.5, 1.5); B = w1(3, 2, -0.5, 3); C = w1(1, 3, 0, 1)
    r = frozen(remap.grid2grid3D, f, [2*a, 3*b, c], [1, 2, 3], origin=[p, q, s], originout=[p + a/2, q - b/2, s], boxsizeout=[1.5*a, 3*b, c])
    equal(np.shape(r), (1, 2, 3), 'shape of the new grid')
    for j in range(1):
        for k in range(2):
            for l in range(3):
                e = 0
                for x in range(2):
                    for y in range(3):
                        for z in range(1):
                            e = e + A[j][x]*B[k][y]*C[l][z]*f[x, y, z]
                equal(r[j, k, l], e, 'weights are products of the one-dimensional ones, axis by axis')


def P12_three_cube():
    p = real('p'); a = real('a', 0.1, 2)
    f = array('f', (2, 2, 2))
    A = w1(2, 3, 0, 2)
    r = frozen(remap.grid2grid3D, f, 2*a, 3, origin=p, originout=p, boxsizeout=2*a)
    r2 = remap.grid2grid3D(f, 2*a, 3, origin=p, originout=p)
    equal(r2, r, 'output box defaults to the input box')
    for j in range(3):
        for k in range(3):
            for l in range(3):
                e = 0
                for x in range(2):
                    for y in range(2):
                        for z in range(2):
                            e = e + A[j][x]*A[k][y]*A[l][z]*f[x, y, z]
                equal(r[j, k, l], e, 'one size, origin and division for all axes')


def P12_defaults():
    a = real('a', 0.1, 4); b = real('b', 0.1, 4)
    f = array('f', (2, 3))
    r = remap.grid2grid2D(f, [a, b], [3, 2])
    equal(r, remap.grid2grid2D(f, [a, b], [3, 2], origin=0, originout=[0, 0], boxsizeout=[a, b]), 'origins at 0 and the same box by default')
    g = array('g', 3)
    r = remap.grid2grid1D(g, a, 2)
    equal(r, remap.grid2grid1D(g, a, 2, origin=0, originout=0, boxsizeout=a), 'origins at 0 and the same box by default')
    h = array('h', (2, 1, 2))
    r = remap.grid2grid3D(h, [a, b, a], [1, 2, 3])
    equal(r, remap.grid2grid3D(h, [a, b, a], [1, 2, 3], origin=[0, 0, 0], originout=0, boxsizeout=[a, b, a]), 'origins at 0 and the same box by default')
    equal(remap.grid2grid2D(f, a, 2), remap.grid2grid2D(f, [a, a], [2, 2], origin=[0, 0], originout=[0, 0], boxsizeout=[a, a]), 'one number stands for every axis')
    p = real('p'); q = real('q')
    equal(remap.grid2grid2D(f, a, 2, origin=p, originout=p, boxsizeout=2*a), remap.grid2grid2D(f, [a, a], [2, 2], origin=[p, p], originout=[p, p], boxsizeout=[2*a, 2*a]), 'one number stands for every axis')
    equal(remap.grid2grid3D(h, a, 2, origin=p, originout=p, boxsizeout=2*a), remap.grid2grid3D(h, [a, a, a], [2, 2, 2], origin=[p, p, p], originout=[p, p, p], boxsizeout=[2*a, 2*a, 2*a]), 'one number stands for every axis')


def P12_default_box():
    # sides in fixed proportion, so that a wrong side is a wrong number of cells and not an open question
    a = real('a', 0.1, 2); p = real('p'); f = array('f', (2, 3)); h = array('h', (2, 3, 4))
    equal(remap.grid2grid2D(f, [2*a, 3*a], [1, 2]), remap.grid2grid2D(f, [2*a, 3*a], [1, 2], boxsizeout=[2*a, 3*a]), 'the new box is the old one by default')
    equal(remap.grid2grid2D(f, [4*a, 3*a], 2, origin=[p, p + a], originout=[p, p + a]), remap.grid2grid2D(f, [4*a, 3*a], [2, 2], origin=[p, p + a], originout=[p, p + a], boxsizeout=[4*a, 3*a]), 'the new box is the old one by default')
    equal(remap.grid2grid3D(h, [2*a, 3*a, 4*a], [1, 2, 1]), remap.grid2grid3D(h, [2*a, 3*a, 4*a], [1, 2, 1], boxsizeout=[2*a, 3*a, 4*a]), 'the new box is the old one by default')
    equal(remap.grid2grid3D(h, [4*a, 3*a, 2*a], 1, origin=p, originout=[p, p, p + a]), remap.grid2grid3D(h, [4*a, 3*a, 2*a], [1, 1, 1], origin=[p, p, p], originout=[p, p, p + a], boxsizeout=[4*a, 3*a, 2*a]), 'the new box is the old one by default')
    equal(remap.grid2grid2D(f, [2*a, 3*a], [1, 2], originout=a), remap.grid2grid2D(f, [2*a, 3*a], [1, 2], origin=[0, 0], originout=[a, a], boxsizeout=[2*a, 3*a]), 'origins default to zero, one number stands for every axis')
    equal(remap.grid2grid2D(f, [2*a, 3*a], [1, 2], origin=a), remap.grid2grid2D(f, [2*a, 3*a], [1, 2], origin=[a, a], originout=[0, 0], boxsizeout=[2*a, 3*a]), 'origins default to zero, one number stands for every axis')
    equal(remap.grid2grid2D(f, [2*a, 3*a], [1, 2], boxsizeout=2*a), remap.grid2grid2D(f, [2*a, 3*a], [1, 2], origin=[0, 0], originout=[0, 0], boxsizeout=[2*a, 2*a]), 'one number stands for every axis')
    equal(remap.grid2grid3D(h, 2*a, [1, 2, 1], boxsizeout=[2*a, 3*a, 4*a]), remap.grid2grid3D(h, [2*a, 2*a, 2*a], [1, 2, 1], boxsizeout=[2*a, 3*a, 4*a]), 'one number stands for every axis')
    equal(remap.grid2grid3D(h, [2*a, 3*a, 4*a], [1, 2, 1], originout=a), remap.grid2grid3D(h, [2*a, 3*a, 4*a], [1, 2, 1], origin=[0, 0, 0], originout=[a, a, a], boxsizeout=[2*a, 3*a, 4*a]), 'origins default to zero, one number stands for every axis')
    g = array('g', 3)
    equal(remap.grid2grid1D(g, 3*a, 2, originout=a), remap.grid2grid1D(g, 3*a, 2, origin=0, originout=a, boxsizeout=3*a), 'origins default to zero, the new box is the old one')
    equal(remap.grid2grid1D(g, 3*a, 2, origin=a), remap.grid2grid1D(g, 3*a, 2, origin=a, originout=0, boxsizeout=3*a), 'origins default to zero, the new box is the old one')


def P12_index():
    x = np.array([1, -1, 0]); y = np.array([2, 0])
    p = src.pix1dto2d(x, y, 5)
    equal(np.shape(p), (6,), 'one index per pair')
    k = 0
    for i in range(3):
        for j in range(2):
            equal(p[k], -1 if x[i] == -1 else y[j] + 5*x[i], 'flat index of the pair, none if either is none')
            k = k + 1
    z = np.array([3, -1])
    p = src.pix1dto3d(x, y, z, 5, 7)
    equal(np.shape(p), (12,), 'one index per triple')
    k = 0
    for i in range(3):
        for j in range(2):
            for l in range(2):
                equal(p[k], -1 if x[i] == -1 or z[l] == -1 else z[l] + 7*(y[j] + 5*x[i]), 'flat index of the triple, none if any is none')
                k = k + 1


def P12_which():
    m = real('m'); d = real('d', 0.1, 2); t = real('t', 0.1, 0.9)
    for k in (-2, -1, 0, 3):
        equal(src.which_pix(m, d, m + (k + t)*d), k, 'index of the cell that holds the point')
        equal(src.which_pix(m, d, m + k*d), k, 'a lower edge belongs to its cell')
