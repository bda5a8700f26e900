"""Interval abstract evaluation of value terms over boxes of the inputs.

Used only to *separate* two terms (show that they differ everywhere on a box)
or to decide a condition on a box; every operation is rounded outwards.
"""
import math
from fractions import Fraction
import hashlib
from . import terms as tm
from . import hpx
from . import ball

INFI = (-math.inf, math.inf)
NANV = 'nan'
UND = 'undef'
UNK = INFI
REL = 4e-16


class Undecided(Exception):
    pass


def out(lo, hi):
    if lo != lo or hi != hi:
        return INFI
    a = abs(lo) if abs(lo) > abs(hi) else abs(hi)
    if a == math.inf:
        return (lo, hi)
    e = a * REL + 1e-300
    return (lo - e, hi + e)


def pt(x):
    return (x, x)


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


def imul(a, b):
    if a == (0.0, 0.0) or b == (0.0, 0.0):
        return (0.0, 0.0)
    if a == (1.0, 1.0):
        return b
    if b == (1.0, 1.0):
        return a
    v = []
    for x in a:
        for y in b:
            p = x * y
            if p != p:
                return INFI
            v.append(p)
    lo, hi = min(v), max(v)
    if a[0] == a[1] and b[0] == b[1] and float(a[0]).is_integer() and float(b[0]).is_integer() and abs(lo) < 2 ** 52:
        return (lo, hi)
    return out(lo, hi)


def iadd(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    if lo != lo or hi != hi:
        return INFI
    if a[0] == a[1] and b[0] == b[1] and float(a[0]).is_integer() and float(b[0]).is_integer() and abs(lo) < 2 ** 52:
        return (lo, hi)
    # include operand magnitude in the rounding slack
    s = max(abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]))
    if s == math.inf:
        return (lo, hi)
    e = s * REL
    return (lo - e, hi + e)


def ipow(a, e):
    lo, hi = a
    if e.denominator == 1:
        k = int(e)
        if k < 0:
            if lo <= 0 <= hi:
                if lo == hi == 0:
                    return INFI
                if lo == 0:
                    r = (1 / hi, math.inf)
                elif hi == 0:
                    r = (-math.inf, 1 / lo)
                else:
                    return INFI
            else:
                try:
                    r = (1 / hi, 1 / lo)
                except ZeroDivisionError:
                    return INFI
                if lo == hi == 1:
                    return (1.0, 1.0)
            return ipow(out(*r), -e)
        if k == 0:
            return (1.0, 1.0)
        if k == 1:
            return a
        try:
            if k % 2 == 0:
                if lo >= 0:
                    r = (lo ** k, hi ** k)
                elif hi <= 0:
                    r = (hi ** k, lo ** k)
                else:
                    r = (0.0, max(-lo, hi) ** k)
            else:
                r = (lo ** k, hi ** k)
        except OverflowError:
            return INFI
        if lo == hi and float(lo).is_integer() and abs(r[0]) < 2 ** 52:
            return r
        return out(*r)
    # fractional power: domain >= 0
    if hi < 0:
        if hi > -1e-12:
            return (0.0, 1e-6)
        return NANV
    if lo < 0:
        lo = 0.0
    ex = float(e)
    if e > 0:
        r = (lo ** ex, hi ** ex if hi < math.inf else math.inf)
    else:
        r = (hi ** ex if hi < math.inf else 0.0, lo ** ex if lo > 0 else math.inf)
    o = out(*r)
    o = (o[0] - abs(o[0]) * 1e-15, o[1] + abs(o[1]) * 1e-15) if o[1] < math.inf else o
    return (max(0.0, o[0]), o[1])


def isin(a):
    lo, hi = a
    if hi - lo > 6.3 or hi == math.inf or lo == -math.inf:
        return (-1.0, 1.0)
    w = (hi - lo)
    if w < 1e-3:
        m = math.sin((lo + hi) / 2)
        e = w / 2 + 2e-16 * (1 + abs(lo))
        return (max(-1.0, m - e), min(1.0, m + e))
    s1, s2 = math.sin(lo), math.sin(hi)
    mn, mx = min(s1, s2), max(s1, s2)
    k = math.ceil((lo - math.pi / 2) / (2 * math.pi))
    if math.pi / 2 + 2 * math.pi * k <= hi:
        mx = 1.0
    k = math.ceil((lo + math.pi / 2) / (2 * math.pi))
    if -math.pi / 2 + 2 * math.pi * k <= hi:
        mn = -1.0
    return (max(-1.0, mn - 1e-15 * (1 + abs(lo))), min(1.0, mx + 1e-15 * (1 + abs(lo))))


def iatan2(y, x):
    if x[0] <= 0 <= x[1] and y[0] <= 0 <= y[1]:
        if y == (0.0, 0.0) and x == (0.0, 0.0):
            return (0.0, 0.0)
        return (-math.pi, math.pi)
    if x[0] < 0 and y[0] < 0 <= y[1]:
        return (-math.pi, math.pi)
    v = [math.atan2(b, a) for a in x for b in y]
    return out(min(v) - 1e-16, max(v) + 1e-16)


class Env:
    """a box: intervals for symbols, element callback for array parameters"""

    def __init__(self, syms, elem, name='', hint=None):
        self.hint = hint or {}
        self.syms = syms
        self.elem = elem
        self.name = name
        self.memo = {}
        self.cost = 0

    def val(self, t, bvs=()):
        if tm.level(t):
            fb = tm.freebv(t)
            if fb:
                bvs = tuple(x for x in bvs if x[0] in fb)
                key = (t, bvs)
            else:
                bvs = ()
                key = t
        else:
            key = t
        r = self.memo.get(key)
        if r is None:
            self.cost += 1
            if self.cost > 3000000:
                raise Undecided('budget')
            r = self._val(t, bvs)
            if t.op in DEEP and isinstance(r, tuple) and r[1] - r[0] > 1e-12 and closed(t):
                r = self.deep(t, r)
            self.memo[key] = r
        return r

    def deep(self, t, r):
        """a closed term that float intervals leave wide, to more digits"""
        v = ball.interval(t)
        return r if v is None else v

    def exact(self, t, bvs):
        """a polynomial of exactly known numbers is exactly known"""
        if not any(e < 0 for m, _ in t.args for _, e in m):
            return None
        acc = Fraction(0)
        for m, c in t.args:
            x = Fraction(c)
            for a, e in m:
                if not isinstance(e, int) and e.denominator != 1:
                    return None
                v = self.val(a, bvs)
                if isinstance(v, bool):
                    v = (1.0, 1.0) if v else (0.0, 0.0)
                if not isinstance(v, tuple) or v in (NANV, UND) or v[0] != v[1] or not math.isfinite(v[0]) or (e < 0 and v[0] == 0):
                    return None
                x *= Fraction(v[0]) ** int(e)
            acc += x
        f = float(acc)
        return (f, f) if Fraction(f) == acc else out(f, f)

    def ints(self, t, bvs):
        r = self.val(t, bvs)
        if r in (NANV, UND) or r is None:
            raise Undecided('int')
        lo, hi = r
        if hi - lo < 1e-6 and abs(lo - round(lo)) < 1e-6:
            return int(round(lo))
        raise Undecided('non-constant bound')

    def _val(self, t, bvs):
        op = t.op
        if op == 'num':
            v = float(t.args[0])
            if v.is_integer():
                return (v, v)
            return out(v, v)
        if op == 'pi':
            return (3.141592653589793, 3.1415926535897936)
        if op == 'e':
            return (2.718281828459045, 2.7182818284590455)
        if op == 'nan':
            return NANV
        if op == 'inf':
            return (math.inf, math.inf)
        if op == 'undef':
            return UND
        if op == 'bv':
            for k, v in bvs:
                if k == t.args[0]:
                    return (float(v), float(v))
            raise Undecided('unbound')
        if op == 'sym':
            r = self.syms.get(t.args[0])
            if r is None:
                raise Undecided('sym %s' % t.args[0])
            return r
        if op == 'poly':
            acc = (0.0, 0.0)
            fr = self.exact(t, bvs)
            if fr is not None:
                return fr
            for m, c in t.args:
                x = (float(c), float(c)) if float(c).is_integer() else out(float(c), float(c))
                zero = False
                for a, e in m:
                    av = self.val(a, bvs)
                    if av in (NANV, UND):
                        return av
                    if isinstance(av, bool):
                        av = (1.0, 1.0) if av else (0.0, 0.0)
                    if av is None:
                        av = (0.0, 1.0)
                    p = ipow(av, e)
                    if p == NANV:
                        return NANV
                    if e < 0 and av == (0.0, 0.0):
                        p = (math.inf, math.inf)
                    x = imul(x, p)
                acc = iadd(acc, x)
            return acc
        if op in tm.BOOL_OPS:
            return self.cond(t, bvs)
        if op == 'ite':
            c = self.cond(t.args[0], bvs)
            if c is True:
                return self.val(t.args[1], bvs)
            if c is False:
                return self.val(t.args[2], bvs)
            a, b = self.val(t.args[1], bvs), self.val(t.args[2], bvs)
            return join(a, b)
        if op in ('el', 'iel'):
            idx = []
            for x in t.args[1:]:
                try:
                    idx.append(self.ints(x, bvs))
                except Undecided:
                    return INFI
            return self.elem(t.args[0], tuple(idx))
        if op == 'draw':
            v = 0.03 + 0.94 * h01('draw', self.name, t.args[0])
            if t in self.hint:
                lo, hi = max(0.0, self.hint[t][0]), min(1.0, self.hint[t][1])
                if hi > lo:
                    v = lo + v * (hi - lo)
            return (v, v + 1e-12)
        if op == 'sum':
            n = self.ints(t.args[0], bvs)
            if n > 4000:
                raise Undecided('sum size')
            acc = (0.0, 0.0)
            for i in range(n):
                v = self.val(t.args[1], bvs + ((t.args[2], i),))
                if v in (NANV, UND):
                    return v
                if isinstance(v, bool):
                    v = (1.0, 1.0) if v else (0.0, 0.0)
                if v is None:
                    v = (0.0, 1.0)
                acc = iadd(acc, v)
            return acc
        if op in ('maxr', 'minr'):
            n = self.ints(t.args[0], bvs)
            vs = [self.val(t.args[1], bvs + ((t.args[2], i),)) for i in range(n)]
            if not vs or any(v in (NANV, UND) or isinstance(v, bool) or v is None for v in vs):
                return INFI
            f = max if op == 'maxr' else min
            return (f(v[0] for v in vs), f(v[1] for v in vs))
        if op == 'argext':
            # n, body, k, 'max'|'min'
            n = self.ints(t.args[0], bvs)
            vs = [self.val(t.args[1], bvs + ((t.args[2], i),)) for i in range(n)]
            if not vs or any(v in (NANV, UND) for v in vs):
                return (0.0, float(max(0, n - 1)))
            best = None
            for i, v in enumerate(vs):
                if t.args[3] == 'min':
                    ok = all(j == i or v[1] < w[0] or (j > i and v[1] <= w[0]) for j, w in enumerate(vs))
                else:
                    ok = all(j == i or v[0] > w[1] or (j > i and v[0] >= w[1]) for j, w in enumerate(vs))
                if ok:
                    best = i
            if best is None:
                return (0.0, float(n - 1))
            return (float(best), float(best))
        if op == 'scat':
            # n, val, k, idxs(tuple), target(tuple), old
            n = self.ints(t.args[0], bvs)
            idxs, tgt, old = t.args[3], t.args[4], t.args[5]
            tv = [self.ints(x, bvs) for x in tgt]
            res = None
            for i in range(n - 1, -1, -1):
                b2 = bvs + ((t.args[2], i),)
                iv = [self.ints(x, b2) for x in idxs[:-1]]
                g = self.cond(idxs[-1], b2)
                if g is False:
                    continue
                if iv == tv:
                    v = self.val(t.args[1], b2)
                    if g is True:
                        return v if res is None else join(res, v)
                    res = v if res is None else join(res, v)
            o = self.val(old, bvs)
            return o if res is None else join(res, o)
        if op in ('sin', 'cos', 'arccos', 'floor', 'trunc', 'abs', 'sign', 'log10', 'pow10', 'sinh'):
            a = self.val(t.args[0], bvs)
            if a in (NANV, UND):
                return a
            if isinstance(a, bool):
                a = (1.0, 1.0) if a else (0.0, 0.0)
            if a is None:
                a = (0.0, 1.0)
            lo, hi = a
            if op == 'sin':
                return isin(a)
            if op == 'cos':
                return isin((lo + math.pi / 2 - 1e-16, hi + math.pi / 2 + 1e-16))
            if op == 'arccos':
                if lo > 1 + 1e-9 or hi < -1 - 1e-9:
                    return NANV
                lo, hi = max(-1.0, min(1.0, lo)), max(-1.0, min(1.0, hi))
                return out(math.acos(hi) - 1e-16, math.acos(lo) + 1e-16)
            if op == 'floor':
                if lo in (math.inf, -math.inf) or hi in (math.inf, -math.inf):
                    return INFI
                return (float(math.floor(lo)), float(math.floor(hi)))
            if op == 'trunc':
                if lo in (math.inf, -math.inf) or hi in (math.inf, -math.inf):
                    return INFI
                return (float(math.trunc(lo)), float(math.trunc(hi)))
            if op == 'abs':
                if lo >= 0:
                    return a
                if hi <= 0:
                    return (-hi, -lo)
                return (0.0, max(-lo, hi))
            if op == 'sign':
                if lo > 0:
                    return (1.0, 1.0)
                if hi < 0:
                    return (-1.0, -1.0)
                if lo == hi == 0:
                    return (0.0, 0.0)
                return (-1.0, 1.0)
            if op == 'log10':
                if hi <= 0:
                    return NANV
                return out(math.log10(lo) - 1e-16 if lo > 0 else -math.inf, math.log10(hi) + 1e-16 if hi < math.inf else math.inf)
            if op == 'pow10':
                try:
                    r = (10 ** lo, 10 ** hi)
                except OverflowError:
                    return INFI
                return (r[0] * (1 - 1e-14), r[1] * (1 + 1e-14))
        if op == 'pow':
            a, b = self.val(t.args[0], bvs), self.val(t.args[1], bvs)
            if a in (NANV, UND) or b in (NANV, UND) or a[0] <= 0:
                return INFI
            try:
                v = [x ** y for x in a for y in b]
            except OverflowError:
                return INFI
            return (min(v) * (1 - 1e-14), max(v) * (1 + 1e-14))
        if op == 'arctan2':
            y, x = self.val(t.args[0], bvs), self.val(t.args[1], bvs)
            if y in (NANV, UND) or x in (NANV, UND):
                return NANV
            return iatan2(y, x)
        if op == 'let':
            return self.val(t.args[0], bvs)
        if op == 'rank':
            acc = (0.0, 0.0)
            for g in t.args[0][:int(t.args[1].args[0])]:
                c = self.cond(g, bvs)
                acc = iadd(acc, (1.0, 1.0) if c is True else (0.0, 0.0) if c is False else (0.0, 1.0))
            return acc
        if op == 'div0':
            a = self.val(t.args[0], bvs)
            if a == (0.0, 0.0):
                return NANV
            return INFI
        if op == 'opq':
            return self.opaque(t, bvs)
        if op == 'top':
            return INFI
        raise Undecided('op ' + op)

    def opaque(self, t, bvs):
        """uninterpreted functions: a fixed smooth function of the arguments"""
        name = t.args[0]
        if name in ('hp.ang2pix', 'hp.ang2pix.nest'):
            return self.ang2pix(t, bvs, name)
        if name in ('hp.pix2ang.theta', 'hp.pix2ang.phi'):
            ns, p = self.val(t.args[1], bvs), self.val(t.args[2], bvs)
            if isinstance(ns, tuple) and ns[0] == ns[1] and isinstance(p, tuple) and p[0] == p[1] and p[0].is_integer() and 0 <= p[0] < 12 * ns[0] ** 2:
                z, f = hpx.pix2zphi(int(ns[0]), int(p[0]))
                if name == 'hp.pix2ang.phi':
                    v = math.pi * float(f)
                else:
                    v = math.acos(float(z))
                return out(v - 1e-15, v + 1e-15)
        if name == 'argsort':
            return self.argsort(t, bvs)
        acc = (0.0, 0.0)
        k = 0
        for a in _flat(t.args[1:]):
            k += 1
            if isinstance(a, tm.T):
                v = self.val(a, bvs)
                if isinstance(v, bool):
                    v = (1.0, 1.0) if v else (0.0, 0.0)
                if v is None:
                    v = (0.0, 1.0)
                if v in (NANV, UND):
                    v = (17.0, 17.0)
                acc = iadd(acc, imul((0.7 + 0.61 * k + h01(name, k),) * 2, v))
            else:
                acc = iadd(acc, pt(6 * h01(name, k, str(a))))
        s = isin(acc)
        if name in ('hp.pix2ang.theta',):
            return (1.6 + s[0] * 1.4, 1.6 + s[1] * 1.4)
        if name in ('hp.pix2ang.phi',):
            return (3.1 + s[0] * 3, 3.1 + s[1] * 3)
        return s

    def argsort(self, t, bvs):
        k = int(t.args[1].args[0])
        v = [self.val(x, bvs) for x in t.args[2]]
        if any(not isinstance(x, tuple) or len(x) != 2 or x in (NANV, UND) for x in v):
            return (0.0, float(len(v) - 1))
        c = []
        for i, x in enumerate(v):
            lo = sum(1 for j, y in enumerate(v) if y[1] < x[0] or (j < i and y == x and x[0] == x[1]))
            hi = sum(1 for j, y in enumerate(v) if j != i and y[0] <= x[1] and not (j > i and y == x and x[0] == x[1]))
            if lo <= k <= hi:
                c.append(i)
        return (float(min(c)), float(max(c))) if c else (0.0, float(len(v) - 1))

    def ang2pix(self, t, bvs, name):
        """the pixel of a small box of directions; the whole range when it meets a pixel edge"""
        n = self.ints(t.args[1], bvs)
        whole = (0.0, 12.0 * n * n - 1)
        th, ph = self.val(t.args[2], bvs), self.val(t.args[3], bvs)
        if not (isinstance(th, tuple) and isinstance(ph, tuple)) or th[1] - th[0] > 3e-8 or ph[1] - ph[0] > 3e-8:
            return whole
        if th[0] < 0 or th[1] > math.pi:
            return whole
        k = hpx.zphi2ring(n, math.cos((th[0] + th[1]) / 2), (ph[0] + ph[1]) / 2)
        if k is None or (name.endswith('nest') and n & (n - 1)):
            return whole
        k = float(k if not name.endswith('nest') else hpx.ring2nest(n, k))
        return (k, k)

    def cond(self, t, bvs=()):
        """True / False / None (undetermined on this box)"""
        r = self._cond(t, bvs)
        if r is None and t.op in ('lt0', 'eq0', 'isfin') and closed(t):
            return ball.cond(t)
        return r

    def _cond(self, t, bvs=()):
        op = t.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'lt0':
            v = self.val(t.args[0], bvs)
            if v == NANV:
                return False
            if v == UND or v is None or isinstance(v, bool):
                return None
            if v[1] < 0:
                return True
            if v[0] >= 0:
                return False
            return None
        if op == 'eq0':
            v = self.val(t.args[0], bvs)
            if v == NANV:
                return False
            if v == UND or v is None or isinstance(v, bool):
                return None
            if v[0] > 0 or v[1] < 0:
                return False
            if v == (0.0, 0.0):
                return True
            return None
        if op == 'not':
            c = self.cond(t.args[0], bvs)
            return None if c is None else not c
        if op == 'and':
            r = True
            for x in t.args:
                c = self.cond(x, bvs)
                if c is False:
                    return False
                if c is None:
                    r = None
            return r
        if op == 'ite':
            c = self.cond(t.args[0], bvs)
            if c is True:
                return self.cond(t.args[1], bvs)
            if c is False:
                return self.cond(t.args[2], bvs)
            a, b = self.cond(t.args[1], bvs), self.cond(t.args[2], bvs)
            return a if a == b else None
        if op == 'isfin':
            v = self.val(t.args[0], bvs)
            if v == NANV:
                return False
            if v == UND or v is None:
                return None
            if v[0] > -math.inf and v[1] < math.inf:
                return True
            if v[0] == math.inf or v[1] == -math.inf:
                return False
            return None
        if op == 'exists':
            n = self.ints(t.args[0], bvs)
            r = False
            for i in range(n):
                c = self.cond(t.args[1], bvs + ((t.args[2], i),))
                if c is True:
                    return True
                if c is None:
                    r = None
            return r
        if op in ('bsym', 'bel'):
            key = [op]
            for a in t.args:
                key.append(a if not isinstance(a, tm.T) else self.val(a, bvs))
            return h01(self.name, *key) < 0.5
        return None


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


def join(a, b):
    if a == b:
        return a
    if isinstance(a, bool):
        a = (1.0, 1.0) if a else (0.0, 0.0)
    if isinstance(b, bool):
        b = (1.0, 1.0) if b else (0.0, 0.0)
    if a is None:
        a = (0.0, 1.0)
    if b is None:
        b = (0.0, 1.0)
    if a in (NANV, UND) or b in (NANV, UND):
        raise Undecided('nan join')
    return (min(a[0], b[0]), max(a[1], b[1]))


def separated(a, b):
    """definitely different on the whole box"""
    if a is None or b is None:
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a != b
        a = ((1.0, 1.0) if a else (0.0, 0.0)) if isinstance(a, bool) else a
        b = ((1.0, 1.0) if b else (0.0, 0.0)) if isinstance(b, bool) else b
    if a == UND or b == UND:
        return (a == UND) != (b == UND)
    if a == NANV or b == NANV:
        if a == b:
            return False
        o = b if a == NANV else a
        return o[0] > -math.inf and o[1] < math.inf
    s = 1 + min(abs(a[0]), abs(b[0]), abs(a[1]), abs(b[1]))
    if s == math.inf:
        # one-sided infinities: inf vs finite
        return a[0] > b[1] or b[0] > a[1]
    return a[0] > b[1] + 1e-6 * s or b[0] > a[1] + 1e-6 * s


_CONST = {}
# operations worth another look when the term is closed and its interval wide
DEEP = {'poly', 'ite', 'sin', 'cos', 'arccos', 'arctan2', 'floor', 'trunc', 'abs', 'sign', 'let'}


CLOSED = {'num', 'let', 'pi', 'e', 'poly', 'cos', 'sin', 'arccos', 'arctan2', 'arcsin', 'floor', 'trunc', 'abs', 'sign', 'pow',
          'log10', 'pow10', 'ite', 'lt0', 'eq0', 'not', 'and', 'or', 'true', 'false'}
_CLOSED = {}


def closed(t):
    """does the term denote one number: no symbol, element, draw, opaque call or unknown in it"""
    r = _CLOSED.get(t)
    if r is None:
        r = t.op in CLOSED and all(_closedarg(a) for a in t.args)
        _CLOSED[t] = r
    return r


def _closedarg(a):
    if isinstance(a, tm.T):
        return closed(a)
    if isinstance(a, tuple):
        return all(_closedarg(x) for x in a)
    return True


def constval(t, wide=1e-9):
    """narrow (lo, hi) of a closed term, or None"""
    r = _CONST.get(t, 0)
    if r == 0:
        if not closed(t):
            _CONST[t] = None
            return None
        try:
            def noelem(a, i):
                raise Undecided('not a constant')
            v = Env({}, noelem).val(t)
            r = v if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, float) for x in v) and v[1] - v[0] < 1e-5 else None
        except (Undecided, RecursionError, OverflowError, ZeroDivisionError, ValueError):
            r = None
        _CONST[t] = r
    return r if r is not None and r[1] - r[0] < wide else None
