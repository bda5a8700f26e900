"""Constant folding of HEALPix indexing for numeric arguments (ring and nested numbering)."""
import math
from fractions import Fraction as F

_JR = (2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4)
_JP = (1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7)


def pix2zphi(ns, p):
    """(z, phi / pi) of the centre of ring pixel p, as fractions"""
    ncap = 2 * ns * (ns - 1)
    npix = 12 * ns * ns
    if p < ncap:
        i = (1 + math.isqrt(1 + 2 * p)) // 2
        j = p + 1 - 2 * i * (i - 1)
        return 1 - F(i * i, 3 * ns * ns), F(2 * j - 1, 4 * i)
    if p < npix - ncap:
        q = p - ncap
        i = q // (4 * ns) + ns
        j = q % (4 * ns) + 1
        fo = F(1) if (i + ns) % 2 else F(1, 2)
        return F(2 * (2 * ns - i), 3 * ns), (j - fo) / (2 * ns)
    q = npix - p
    i = (1 + math.isqrt(2 * q - 1)) // 2
    j = 4 * i + 1 - (q - 2 * i * (i - 1))
    return -1 + F(i * i, 3 * ns * ns), F(2 * j - 1, 4 * i)


def xyf2ring(ns, x, y, f):
    jr = _JR[f] * ns - x - y - 1
    npix = 12 * ns * ns
    if jr < ns:
        nr, before, k = jr, 2 * jr * (jr - 1), 0
    elif jr > 3 * ns:
        nr = 4 * ns - jr
        before, k = npix - 2 * (nr + 1) * nr, 0
    else:
        nr, before, k = ns, 2 * ns * (ns - 1) + (jr - ns) * 4 * ns, (jr - ns) & 1
    jp = (_JP[f] * nr + x - y + 1 + k) // 2
    if jp > 4 * ns:
        jp -= 4 * ns
    elif jp < 1:
        jp += 4 * ns
    return before + jp - 1


_TAB = {}


def ringtab(ns):
    """ring pixel -> (x, y, face)"""
    if ns not in _TAB:
        _TAB[ns] = {xyf2ring(ns, x, y, f): (x, y, f) for f in range(12) for x in range(ns) for y in range(ns)}
    return _TAB[ns]


def ring2nest(ns, p):
    x, y, f = ringtab(ns)[p]
    n, b = 0, 0
    while x or y:
        n |= (x & 1) << (2 * b) | (y & 1) << (2 * b + 1)
        x >>= 1
        y >>= 1
        b += 1
    return f * ns * ns + n


def nest2ring(ns, p):
    f, n = divmod(p, ns * ns)
    x = y = b = 0
    while n:
        x |= (n & 1) << b
        y |= ((n >> 1) & 1) << b
        n >>= 2
        b += 1
    return xyf2ring(ns, x, y, f)


def children(ns_out, ns_in):
    """ring pixels of ns_in inside each ring pixel of ns_out (ns_in > ns_out)"""
    k = ns_in // ns_out
    out = [[] for _ in range(12 * ns_out * ns_out)]
    for p, (x, y, f) in ringtab(ns_in).items():
        out[xyf2ring(ns_out, x // k, y // k, f)].append(p)
    return [sorted(c) for c in out]


def parents(ns_out, ns_in):
    """ring pixel of ns_in containing each ring pixel of ns_out (ns_in < ns_out)"""
    k = ns_out // ns_in
    t = ringtab(ns_out)
    return [xyf2ring(ns_in, t[p][0] // k, t[p][1] // k, t[p][2]) for p in range(12 * ns_out * ns_out)]


def zphi2ring(ns, z, phi, e=1e-7):
    """ring pixel containing the point (floats); None when an edge is within e"""
    tt = (phi / (math.pi / 2)) % 4.0
    za = abs(z)

    def fl(v):
        k = math.floor(v)
        if v - k < e or k + 1 - v < e:
            raise ArithmeticError()
        return k
    try:
        if abs(za - 2 / 3) < e / 10:
            return None
        if za < 2 / 3:
            jp = fl(ns * (0.5 + tt) - ns * z * 0.75)
            jm = fl(ns * (0.5 + tt) + ns * z * 0.75)
            ir = ns + 1 + jp - jm
            k = 1 if ir % 2 == 0 else 0
            ip = ((jp + jm - ns + k + 1) // 2) % (4 * ns)
            return 2 * ns * (ns - 1) + (ir - 1) * 4 * ns + ip
        tp = tt - math.floor(tt)
        if tp < e or tp > 1 - e:
            return None
        tmp = ns * math.sqrt(3 * (1 - za))
        jp = fl(tp * tmp)
        jm = fl((1 - tp) * tmp)
        ir = jp + jm + 1
        ip = fl(tt * ir)
        if z > 0:
            return 2 * ir * (ir - 1) + ip
        return 12 * ns * ns - 2 * ir * (ir + 1) + ip
    except ArithmeticError:
        return None


_XO = (-1, -1, 0, 1, 1, 1, 0, -1)
_YO = (0, 1, 1, 1, 0, -1, -1, -1)
_FN = ((8, 9, 10, 11, -1, -1, -1, -1, 10, 11, 8, 9), (5, 6, 7, 4, 8, 9, 10, 11, 9, 10, 11, 8), (-1, -1, -1, -1, 5, 6, 7, 4, -1, -1, -1, -1),
       (4, 5, 6, 7, 11, 8, 9, 10, 11, 8, 9, 10), tuple(range(12)), (1, 2, 3, 0, 0, 1, 2, 3, 5, 6, 7, 4),
       (-1, -1, -1, -1, 7, 4, 5, 6, -1, -1, -1, -1), (3, 0, 1, 2, 3, 0, 1, 2, 4, 5, 6, 7), (2, 3, 0, 1, -1, -1, -1, -1, 0, 1, 2, 3))
_SW = ((0, 0, 3), (0, 0, 6), (0, 0, 0), (0, 0, 5), (0, 0, 0), (5, 0, 0), (0, 0, 0), (6, 0, 0), (3, 0, 0))


def neighbours(ns, p):
    """the eight neighbours (SW, W, NW, N, NE, E, SE, S) of ring pixel p, -1 where there is none"""
    x0, y0, f0 = ringtab(ns)[p]
    out = []
    for dx, dy in zip(_XO, _YO):
        x, y, k = x0 + dx, y0 + dy, 4
        if x < 0:
            x += ns
            k -= 1
        elif x >= ns:
            x -= ns
            k += 1
        if y < 0:
            y += ns
            k -= 3
        elif y >= ns:
            y -= ns
            k += 3
        f = _FN[k][f0]
        if f < 0:
            out.append(-1)
            continue
        b = _SW[k][f0 >> 2]
        if b & 1:
            x = ns - x - 1
        if b & 2:
            y = ns - y - 1
        if b & 4:
            x, y = y, x
        out.append(xyf2ring(ns, x, y, f))
    return out
