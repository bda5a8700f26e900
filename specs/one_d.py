"""One-dimensional rebinning."""
import numpy as np
from magpie import one_d


def frac(e, k, a, b):
    """covered fraction of old bin k"""
    lo = max(e[k], a)
    hi = min(e[k + 1], b)
    return max(0, hi - lo)/(e[k + 1] - e[k])


def edges_at(e, pos):
    """new edges placed relative to the old ones: (k, t) -> e[k] + t (e[k+1] - e[k])"""
    out = []
    for k, t in pos:
        if k < 0:
            out.append(e[0] - t)
        elif k >= len(e) - 1:
            out.append(e[-1] + t)
        else:
            out.append(e[k] + t*(e[k + 1] - e[k]))
    return np.array(out)


def rebin_check(n, pos):
    e = increasing('e', n + 1)
    d = array('d', n); s = array('s', n, 0.1, 2); w = array('w', n, 0.1, 2)
    b = edges_at(e, pos)
    m = len(pos) - 1
    g = one_d.rebin_1d(e, d, b)
    equal(np.shape(g), (m,), 'one value per new bin')
    g1, sg = one_d.rebin_1d(e, d, b, sigma=s)
    equal(g1, g, 'errors leave the data')
    gw = one_d.rebin_1d(e, d, b, w=w)
    gw1, sw = one_d.rebin_1d(e, d, b, w=w, sigma=s)
    equal(gw1, gw, 'errors leave the weighted data')
    for j in range(m):
        t = 0; W = 0; v = 0; tw = 0; Ww = 0; vw = 0
        for k in range(n):
            c = frac(e, k, b[j], b[j + 1])
            t += c*d[k]; W += c; v += c*s[k]**2
            tw += c*w[k]*d[k]; Ww += c*w[k]; vw += c*(w[k]*s[k])**2
        equal(g[j], t/W, 'new value is the mean of the old bins weighted by their covered fraction')
        equal(sg[j]**2, v/W**2, 'new error')
        equal(gw[j], tw/Ww, 'weighted new value')
        equal(sw[j]**2, vw/Ww**2, 'weighted new error')
    one = np.ones(n)
    equal(one_d.rebin_1d(e, d, b, w=one), g, 'unit weights change nothing')
    a, c = one_d.rebin_1d(e, d, b, w=one, sigma=s)
    equal(c, sg, 'unit weights leave the error')
    c0 = real('c0')
    equal(one_d.rebin_1d(e, c0 + np.zeros(n), b), c0 + np.zeros(m), 'constant data stay constant')


def P13_inside_one_bin():
    t = real('t', 0.1, 0.4); u = real('u', 0.5, 0.9)
    rebin_check(3, [(1, t), (1, u)])
    rebin_check(3, [(0, t), (0, u)])
    rebin_check(3, [(2, t), (2, u)])


def P13_across_one_edge():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9)
    rebin_check(4, [(1, t), (2, u)])
    rebin_check(4, [(0, t), (1, u)])
    rebin_check(4, [(2, t), (3, u)])


def P13_across_two_edges():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9)
    rebin_check(4, [(0, t), (2, u)])
    rebin_check(4, [(1, t), (3, u)])


def P13_across_all_inner_edges():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9)
    rebin_check(4, [(0, t), (3, u)])


def P13_two_new_bins():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9); v = real('v', 0.1, 0.9)
    rebin_check(4, [(0, t), (1, u), (3, v)])


def P13_past_the_left_end():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9)
    rebin_check(3, [(-1, t), (0, u)])
    rebin_check(3, [(-1, t), (1, u)])


def P13_past_the_right_end():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9)
    rebin_check(3, [(2, u), (3, t)])
    rebin_check(3, [(1, u), (3, t)])


def P13_covering_everything():
    t = real('t', 0.1, 0.9); u = real('u', 0.1, 0.9)
    rebin_check(3, [(-1, t), (3, u)])


def P13_aligned():
    u = real('u', 0.1, 0.9)
    rebin_check(3, [(0, 0), (1, 0), (2, 0)])
    rebin_check(4, [(0, 0), (2, 0), (3, u)])
    rebin_check(4, [(0, u), (2, 0), (3, 0)])


def P13_sharing_an_edge():
    # a new bin inside an old one that starts or ends where the old one does
    u = real('u', 0.1, 0.9)
    for k in (0, 1, 2):
        rebin_check(3, [(k, 0), (k, u)])
        rebin_check(3, [(k, u), (k + 1, 0)])
    rebin_check(3, [(0, 0), (1, u)])
    rebin_check(3, [(1, u), (3, 0)])
    rebin_check(3, [(-1, u), (1, 0)])
    rebin_check(3, [(2, 0), (3, u)])
    rebin_check(1, [(0, 0), (0, u)])
    rebin_check(1, [(0, u), (1, 0)])
    rebin_check(1, [(-1, u), (1, u)])


def P13_identity():
    e = increasing('e', 5); d = array('d', 4); s = array('s', 4, 0.1, 2)
    g, sg = one_d.rebin_1d(e, d, e, sigma=s)
    equal(g, d, 'rebinning to the same bins returns the data')
    equal(sg, s, 'rebinning to the same bins returns the errors')


def P13_outside():
    e = increasing('e', 4); d = array('d', 3); s = array('s', 3, 0.1, 2)
    t = real('t', 0.1, 0.9)
    for b in (np.array([e[0] - 2 - t, e[0] - t]), np.array([e[3] + t, e[3] + 2])):
        g = one_d.rebin_1d(e, d, b)
        holds(np.isnan(g[0]), 'a new bin outside the old range has no value')
        g, sg = one_d.rebin_1d(e, d, b, sigma=s)
        holds(np.isnan(sg[0]), 'a new bin outside the old range has no error')


def weights_check(n, pos):
    e = increasing('e', n + 1)
    b = edges_at(e, pos)
    w = one_d.rebin_1d_single_bin_weights(e, b[0], b[1])
    equal(np.shape(w), (n,), 'one weight per old bin')
    d = array('d', n)
    t = 0; W = 0
    for k in range(n):
        t += w[k]*d[k]; W += w[k]
    g = one_d.rebin_1d(e, d, b)
    equal(t/W, g[0], 'weights reproduce the rebinned value')
    for k in range(n):
        if frac(e, k, b[0], b[1]) == 0:
            equal(w[k], 0, 'old bins outside the new bin have no weight')


def P13_weights():
    t = real('t', 0.1, 0.4); u = real('u', 0.5, 0.9)
    for pos in ([(1, t), (1, u)], [(1, t), (2, u)], [(0, t), (2, u)], [(0, t), (3, u)], [(-1, t), (0, u)], [(3, t), (4, u)],
                [(-1, t), (4, u)], [(-1, t), (2, u)], [(1, t), (4, u)]):
        weights_check(4, pos)


def P13_weights_aligned():
    u = real('u', 0.1, 0.9)
    for pos in ([(0, 0), (1, 0)], [(1, 0), (2, 0)], [(3, 0), (4, 0)], [(0, 0), (4, 0)], [(1, 0), (3, 0)], [(1, 0), (2, u)], [(1, u), (3, 0)],
                [(0, 0), (1, u)], [(2, u), (4, 0)], [(0, 0), (0, u)], [(3, u), (4, 0)]):
        weights_check(4, pos)


def P13_weights_outside():
    e = increasing('e', 4)
    t = real('t', 0.1, 0.9)
    holds(np.isnan(np.sum(one_d.rebin_1d_single_bin_weights(e, e[0] - 2 - t, e[0] - t))), 'no weights below the old range')
    holds(np.isnan(np.sum(one_d.rebin_1d_single_bin_weights(e, e[3] + t, e[3] + 2))), 'no weights above the old range')


def P13_small_overlaps():
    # however small a share is, it counts
    u = real('u', 0.3, 0.9); t = real('t', 0.1, 0.7)
    for s in (1e-2, 1e-4):
        rebin_check(4, [(1, 1 - s), (2, u)])
        rebin_check(4, [(1, t), (2, s)])
        rebin_check(4, [(0, 1 - s), (2, u)])
        rebin_check(4, [(0, t), (2, s)])
        rebin_check(3, [(-1, t), (0, s)])
        rebin_check(3, [(2, 1 - s), (3, t)])
        rebin_check(3, [(1, t), (1, t + s)])
        rebin_check(3, [(-1, t), (2, s)])
        rebin_check(3, [(0, 1 - s), (3, t)])


def P13_refused():
    e = increasing('e', 4); d = array('d', 3)
    b = increasing('b', 3)
    equal(raises(one_d.rebin_1d, e, array('d4', 4), b), True, 'data of the wrong length are refused')
    equal(raises(one_d.rebin_1d, e[::-1], d, b), True, 'decreasing edges are refused')
    equal(raises(one_d.rebin_1d, e, d, b[::-1]), True, 'decreasing new edges are refused')
    equal(raises(one_d.rebin_1d, e, d, b, w=array('w4', 4)), True, 'weights of the wrong length are refused')
    equal(raises(one_d.rebin_1d, e, d, b, sigma=array('s4', 4)), True, 'errors of the wrong length are refused')
