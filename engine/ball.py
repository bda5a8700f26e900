"""Closed terms to about 100 digits: (midpoint, radius) balls of integers over 2**P.

Float intervals lose everything to cancellation (a tiny rotation: a difference
of nearly equal sines, divided by a small number); a closed term denotes one
number, so it is simply evaluated with enough digits.  Every operation keeps a
rigorous radius.  None: not decided.
"""
from math import isqrt
from fractions import Fraction

P = 400
S = 1 << P
TINY = 1 << (P - 330)          # 2**-330: far below anything the sources can tell apart
NANV = 'nan'
_MEMO = {}


class Und(Exception):
    pass


def num(q):
    q = Fraction(q)
    n = q.numerator << P
    m = n // q.denominator
    return (m, 0 if m * q.denominator == n else 1)


def _pi():
    def at(n):
        # arctan(1/n)
        g = P + 32
        x = (1 << g) // n
        s, k, sg = x, 1, 1
        n2 = n * n
        while x:
            x //= n2
            k += 2
            sg = -sg
            s += sg * (x // k)
        return s
    return (4 * (4 * at(5) - at(239))) >> 32


PI = _pi()


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def mul(a, b):
    m = (a[0] * b[0]) >> P
    if a[1] == 0 and b[1] == 0 and (m << P) == a[0] * b[0]:
        return (m, 0)
    return (m, ((abs(a[0]) * b[1] + abs(b[0]) * a[1] + a[1] * b[1]) >> P) + 2)


def inv(a):
    m, r = a
    if abs(m) <= r:
        raise Und('division')
    q = S * S // m
    if r == 0 and q * m == S * S:
        return (q, 0)
    return (q, r * S * S // (abs(m) * (abs(m) - r)) + 2)


def sqrt(a):
    m, r = a
    if m + r < 0:
        return NANV
    if m - r < 0:
        if m + r <= TINY:
            h = isqrt((m + r) << P) + 1
            return (h // 2, h // 2 + 1)
        raise Und('root')
    lo, hi = isqrt((m - r) << P), isqrt((m + r) << P)
    if r == 0 and lo * lo == m << P:
        return (lo, 0)
    return ((lo + hi) // 2, (hi - lo) // 2 + 2)


def iroot(m, n):
    """floor of the n-th root of an integer m >= 0"""
    if m == 0:
        return 0
    x = 1 << -(-m.bit_length() // n)
    while True:
        y = ((n - 1) * x + m // x ** (n - 1)) // n
        if y >= x:
            return x
        x = y


def root(a, n):
    m, r = a
    if m - r <= 0:
        raise Und('root')
    k = P * (n - 1)
    lo, hi = iroot((m - r) << k, n), iroot((m + r) << k, n)
    return ((lo + hi) // 2, (hi - lo) // 2 + 2)


def ipow(a, e):
    e = Fraction(e)
    if 2 < e.denominator <= 12:
        a = root(a, e.denominator)
        e = Fraction(e.numerator)
    if e.denominator == 2:
        a = sqrt(a)
        if a == NANV:
            return a
        e = Fraction(e.numerator)
    if e.denominator != 1 or abs(e) > 64:
        raise Und('power')
    k = int(e)
    if k < 0:
        a, k = inv(a), -k
    r = (S, 0)
    while k:
        if k & 1:
            r = mul(r, a)
        a = mul(a, a) if k > 1 else a
        k >>= 1
    return r


def sincos(a):
    m, r = a
    if r > S:
        raise Und('angle')
    k = (2 * m + PI) // (2 * PI)            # nearest multiple of pi
    x = m - k * PI
    g = 24
    n = 8
    x2 = (x << g) >> n
    T = P + g
    q = (x2 * x2) >> T
    s = t = x2
    c = u = 1 << T
    j = 1
    while t or u:
        u = -((u * q) >> T) // ((2 * j - 1) * (2 * j))
        t = -((t * q) >> T) // ((2 * j) * (2 * j + 1))
        c += u
        s += t
        j += 1
        if abs(t) <= 1 and abs(u) <= 1:
            break
    for _ in range(n):
        s, c = (2 * s * c) >> T, (2 * c * c >> T) - (1 << T)
    s >>= g
    c >>= g
    if k & 1:
        s, c = -s, -c
    e = r + abs(k) + 16
    return (s, e if m or r else 0), (c, e if m or r else 0)


def atan_pos(y, x):
    """arctan(y/x) of integers 0 <= y <= x, x > 0, over 2**P, error a few units"""
    g = 32
    T = P + g
    t = (y << T) // x
    n = 6
    for _ in range(n):
        # tan half: t / (1 + sqrt(1 + t^2))
        t = (t << T) // ((1 << T) + isqrt((1 << (2 * T)) + t * t))
    q = (t * t) >> T
    s, w, k = t, t, 1
    while w:
        w = -((w * q) >> T)
        k += 2
        s += w // k
        if abs(w) <= 1:
            break
    return (s << n) >> g


def atan2(y, x):
    ym, yr = y
    xm, xr = x
    if ym == 0 and yr == 0:
        if xm > xr:
            return (0, 0)
        if xm < -xr:
            return (PI, 2)
        if xm == 0 and xr == 0:
            return (0, 0)
        raise Und('angle of nothing')
    if abs(xm) <= xr and abs(ym) <= yr:
        raise Und('angle of nothing')
    if xm - xr <= 0 and abs(ym) <= yr:
        raise Und('branch cut')
    a, b = abs(ym), abs(xm)
    if a <= b:
        v = atan_pos(a, b)
    else:
        v = PI // 2 - atan_pos(b, a)
    if xm < 0:
        v = PI - v
    if ym < 0:
        v = -v
    # |d angle| <= |d| / distance to the origin of the box
    d2 = max(abs(xm) - xr, 0) ** 2 + max(abs(ym) - yr, 0) ** 2
    h = isqrt(d2)
    if h == 0:
        raise Und('angle of nothing')
    return (v, ((xr + yr) << P) // h + 16)


def arccos(a):
    m, r = a
    if m - r > S or m + r < -S:
        return NANV
    if m + r > S or m - r < -S:
        if r > TINY:
            raise Und('arccos')
        # the end of the range, to within the precision
        h = isqrt((abs(m) + r - S) << P) * 4 + isqrt((2 * r + 1) << P) * 4 + 4
        return (0, h) if m > 0 else (PI, h)
    if r == 0 and abs(m) == S:
        return (0, 0) if m > 0 else (PI, 2)
    w = add((S, 0), mul((-m, r), a))
    if w[0] - w[1] < 0:
        h = isqrt((abs(w[0]) + w[1]) << P) + 2
        return (0, 4 * h) if m > 0 else (PI, 4 * h)
    return atan2(sqrt(w), a)


def val(t):
    r = _MEMO.get(t, 0)
    if r == 0:
        try:
            r = _val(t)
        except (Und, RecursionError, ZeroDivisionError, OverflowError):
            r = None
        if r is not None and r != NANV and r[1] > S:
            r = None
        _MEMO[t] = r
    return r


def need(t):
    r = val(t)
    if r is None:
        raise Und(t.op)
    return r


def sgn(b):
    """-1, 0, 1, or None; a closed number below 2**-330 is zero"""
    if b is None or b == NANV:
        return None
    m, r = b
    if m > r:
        return 1 if m - r > TINY or r == 0 else (0 if m + r <= TINY else None)
    if m < -r:
        return -1 if -m - r > TINY or r == 0 else (0 if -m + r <= TINY else None)
    if abs(m) + r <= TINY:
        return 0
    return None


def _val(t):
    op = t.op
    if op == 'num':
        return num(t.args[0])
    if op == 'pi':
        return (PI, 2)
    if op == 'nan':
        return NANV
    if op == 'poly':
        acc = (0, 0)
        for m, c in t.args:
            x = num(c)
            for a, e in m:
                v = need(a)
                if v == NANV:
                    return NANV
                v = ipow(v, e)
                if v == NANV:
                    return NANV
                x = mul(x, v)
            acc = add(acc, x)
        return acc
    if op == 'ite':
        c = cond(t.args[0])
        if c is None:
            raise Und('condition')
        return need(t.args[1] if c else t.args[2])
    if op == 'let':
        return need(t.args[0])
    if op in ('sin', 'cos', 'arccos', 'abs', 'sign', 'floor', 'trunc'):
        a = need(t.args[0])
        if a == NANV:
            return a
        if op in ('sin', 'cos'):
            return sincos(a)[op == 'cos']
        if op == 'arccos':
            return arccos(a)
        if op == 'abs':
            return (abs(a[0]), a[1])
        if op == 'sign':
            k = sgn(a)
            if k is None:
                raise Und('sign')
            return (k * S, 0)
        lo, hi = a[0] - a[1], a[0] + a[1]
        if a[1] and (lo >> P) != (hi >> P) and hi - lo <= 2 * TINY:
            lo = hi                 # a whole number to within the precision
        if op == 'floor':
            lo, hi = lo >> P, hi >> P
        else:
            lo, hi = (lo >> P if lo >= 0 else -((-lo) >> P)), (hi >> P if hi >= 0 else -((-hi) >> P))
        if lo != hi:
            raise Und('floor')
        return (lo << P, 0)
    if op == 'arctan2':
        y, x = need(t.args[0]), need(t.args[1])
        if y == NANV or x == NANV:
            return NANV
        if y[1] and sgn(y) == 0 and sgn(x) == -1:
            raise Und('branch cut')
        return atan2(y, x)
    raise Und(op)


def cond(t):
    op = t.op
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op in ('lt0', 'eq0'):
        v = val(t.args[0])
        if v == NANV:
            return False
        k = sgn(v)
        if k is None:
            return None
        return k < 0 if op == 'lt0' else k == 0
    if op == 'not':
        c = cond(t.args[0])
        return None if c is None else not c
    if op == 'and':
        r = True
        for x in t.args:
            c = cond(x)
            if c is False:
                return False
            if c is None:
                r = None
        return r
    if op == 'ite':
        c = cond(t.args[0])
        return None if c is None else cond(t.args[1] if c else t.args[2])
    if op == 'isfin':
        v = val(t.args[0])
        return None if v is None else v != NANV
    return None


def interval(t):
    """float interval of a closed term, or None"""
    v = val(t)
    if v is None or v == NANV:
        return v
    lo, hi = v[0] - v[1], v[0] + v[1]
    if lo == hi and lo & (S - 1) == 0 and abs(lo >> P) < 2 ** 52:
        return (float(lo >> P), float(lo >> P))
    a, b = float(Fraction(lo, S)), float(Fraction(hi, S))
    e = max(abs(a), abs(b)) * 4e-16 + 1e-300
    return (a - e, b + e)
