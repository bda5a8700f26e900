"""Hash-consed value terms with a canonical (rational-function) normal form.

This is the abstract value domain of the analyser: every scalar that the
analysed source computes is mapped to one canonical term (global value
numbering).  Terms are polynomials with rational coefficients and rational
exponents over atoms; atoms are symbols, input-array elements, gated values
(`ite`), finite sums with symbolic length, and elementary functions.
"""
from fractions import Fraction as F
import itertools
import time

_TABLE = {}
_CNT = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'id', '_syms', '_lvl', '_conds')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


class Whole(T):
    """a scalar known to be a Python or numpy whole number, not a float that happens to have a whole value"""
    __slots__ = ('base',)

    def __eq__(self, o):
        return (o.base if type(o) is Whole else o) is self.base

    def __hash__(self):
        return object.__hash__(self.base)


def whole(t):
    t = plain(t)
    w = Whole.__new__(Whole)
    w.op, w.args, w.id, w._syms, w._lvl, w._conds, w.base = t.op, t.args, t.id, t._syms, t._lvl, t._conds, t
    return w


def plain(t):
    return t.base if type(t) is Whole else t


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        args = tuple([plain(a) for a in args])
        key = (op, args)
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = next(_CNT)
        t._syms = None
        t._lvl = None
        t._conds = None
        _TABLE[key] = t
    return t


def num(x):
    return mk('num', F(x))


ZERO = num(0)
ONE = num(1)
TWO = num(2)
HALF = num(F(1, 2))
MONE = num(-1)
PI = mk('pi')
E = mk('e')
NAN = mk('nan')
INF = mk('inf')
TRUE = mk('true')
FALSE = mk('false')
BOOL_OPS = {'true', 'false', 'lt0', 'eq0', 'not', 'and', 'or', 'bsym', 'isfin', 'bel', 'btop', 'exists'}


def is_bool(t):
    return t.op in BOOL_OPS or (t.op == 'ite' and is_bool(t.args[1]))


def sym(name, kind='real', lo=None, hi=None):
    """kind: 'real' | 'int'.  lo/hi inclusive bounds as terms (or None)."""
    return mk('sym', name, kind, lo, hi)


_fresh = itertools.count(1)


def reset_fresh():
    global _fresh
    _fresh = itertools.count(1)


def fresh_idx(n, tag='i'):
    """fresh integer index variable ranging over [0, n)"""
    return mk('sym', '%s~%d' % (tag, next(_fresh)), 'int', ZERO, sub(n, ONE))


def top(tag=''):
    return mk('top', tag, next(_fresh))


def btop(tag=''):
    return mk('btop', tag, next(_fresh))


# --------------------------------------------------------------- polynomials
def P(t):
    """term -> dict(mono -> coef)"""
    if t.op == 'poly':
        return dict(t.args)
    t = plain(t)
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op in BOOL_OPS:
        return {((b2n(t), F(1)),): F(1)} if t.op not in ('true', 'false') else ({(): F(1)} if t is TRUE else {})
    return {((t, F(1)),): F(1)}


def b2n(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if not is_bool(t):
        return t
    return ite(t, ONE, ZERO)


LETSIZE = 90


def let(t):
    return mk('let', t) if t.op == 'poly' else t


def letfree(t):
    """expand let-bindings (used only on small differences)"""
    m = {a: letfree(a.args[0]) for a in atoms(t) if a.op == 'let'}
    return _replace_atoms(t, m) if m else t


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: mono_key(mc[0]))
    return mk('poly', *items)


def _padd(d, m, c):
    v = d.get(m, 0) + c
    if v:
        d[m] = v
    else:
        d.pop(m, None)


def special(*ts):
    for t in ts:
        if t is NAN:
            return NAN
    return None


def add(a, b):
    if a is ZERO:
        return b if not is_bool(b) else b2n(b)
    if b is ZERO:
        return a if not is_bool(a) else b2n(a)
    if a is NAN or b is NAN:
        return NAN
    d = P(a)
    for m, c in P(b).items():
        _padd(d, m, c)
    return mkpoly(d)


def neg(a):
    if a is NAN:
        return NAN
    return mkpoly({m: -c for m, c in P(a).items()})


def sub(a, b):
    if a is b and a.op not in ('nan', 'inf'):
        return ZERO
    return add(a, neg(b))


def scale(a, q):
    if a is NAN:
        return NAN
    return mkpoly({m: c * q for m, c in P(a).items()}) if q else ZERO


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def _needs_fix(m):
    for a, e in m:
        if a.op == 'poly' and e >= 1:
            return True
        if a.op == 'sin' and e.denominator == 1 and e >= 2:
            return True
        if a.op == 'num' and (e >= 1 or e < 0):
            return True
        if a.op == 'sign' and e.denominator == 1 and e >= 2:
            return False
        if a.op == 'abs' and e.denominator == 1 and e >= 2:
            return True
    return False


def _fix(m, c):
    """expand monomial entries that must be expanded; returns term"""
    res = num(c)
    rest = []
    for a, e in m:
        if a.op == 'poly' and e >= 1:
            k = e.numerator // e.denominator
            fr = e - k
            if k <= 6:
                for _ in range(k):
                    res = mul(res, a)
                if fr:
                    rest.append((a, fr))
            else:
                rest.append((a, e))
        elif a.op == 'num':
            k = e.numerator // e.denominator
            fr = e - k
            res = scale(res, a.args[0] ** k)
            if fr:
                rest.append((a, fr))
        elif a.op == 'sin' and e.denominator == 1 and e >= 2:
            k = int(e) // 2
            s2 = sub(ONE, mkpoly({((mk('cos', a.args[0]), F(2)),): F(1)}))
            for _ in range(k):
                res = mul(res, s2)
            if int(e) % 2:
                rest.append((a, F(1)))
        elif a.op == 'abs' and e.denominator == 1 and e >= 2:
            k = int(e) // 2
            for _ in range(k):
                res = mul(res, mul(a.args[0], a.args[0]))
            if int(e) % 2:
                rest.append((a, F(1)))
        else:
            rest.append((a, e))
    if rest:
        rt = mkpoly({tuple(sorted(rest, key=lambda x: x[0].id)): F(1)})
        res = mul(res, rt)
    return res


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a is ONE:
        return b2n(b) if is_bool(b) else b
    if b is ONE:
        return b2n(a) if is_bool(a) else a
    if a is ZERO or b is ZERO:
        return ZERO
    pa, pb = P(a), P(b)
    if len(pa) * len(pb) > LETSIZE:
        if len(pa) >= len(pb) and len(pa) > 1:
            pa = {((mk('let', a), F(1)),): F(1)}
        elif len(pb) > 1:
            pb = {((mk('let', b), F(1)),): F(1)}
        if len(pa) * len(pb) > LETSIZE:
            if len(pa) > 1:
                pa = {((mk('let', a), F(1)),): F(1)}
            elif len(pb) > 1:
                pb = {((mk('let', b), F(1)),): F(1)}
    d = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            if _needs_fix(m):
                extra.append(_fix(m, c1 * c2))
            else:
                _padd(d, m, c1 * c2)
    r = mkpoly(d)
    for x in extra:
        r = add(r, x)
    return r


def _isqrt_exact(n):
    import math
    if n < 0:
        return None
    s = math.isqrt(n)
    return s if s * s == n else None


_FACT = {}


def _factors(n):
    """prime powers of n by trial division (a large cofactor stays whole)"""
    if n in _FACT:
        return _FACT[n]
    out, m, q = [], n, 2
    while q * q <= m and q < 2000:
        k = 0
        while m % q == 0:
            m //= q
            k += 1
        if k:
            out.append((q, k))
        q += 1 if q == 2 else 2
    if m > 1:
        s = _isqrt_exact(m)
        out.append((s, 2) if s is not None else (m, 1))
    _FACT[n] = out
    return out


def powq(a, e):
    """a ** e for rational e"""
    e = F(e)
    if a is NAN:
        return NAN
    if is_bool(a):
        a = b2n(a)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'ite' and e.denominator == 1 and e > 0:
        x, y = powq(a.args[1], e), powq(a.args[2], e)
        if x is y:
            return x
    if a.op == 'num':
        v = a.args[0]
        if e.denominator == 1:
            if v == 0:
                return ZERO if e > 0 else INF
            return num(v ** int(e))
        if v == 0:
            return ZERO if e > 0 else INF
        if v == 1:
            return ONE
        if v > 0 and e.denominator == 2:
            n_, d_ = _isqrt_exact(v.numerator), _isqrt_exact(v.denominator)
            if n_ is not None and d_ is not None:
                return num(F(n_, d_) ** int(e.numerator))
        if v > 0:
            # canonical radical: prime bases, exponents in (0, 1)
            c, ex = F(1), {}
            for n, sgn in ((v.numerator, 1), (v.denominator, -1)):
                for q, k in _factors(n):
                    ex[q] = ex.get(q, F(0)) + sgn * k * e
            mono = {}
            for q, x in ex.items():
                k = x.numerator // x.denominator
                c *= F(q) ** k
                if x != k:
                    mono[num(q)] = x - k
            return mkpoly({tuple(sorted(mono.items(), key=lambda z: z[0].id)): c})
        return mkpoly({((a, e),): F(1)})
    if a.op == 'ite':
        # lift: keeps case structure visible
        return ite(a.args[0], powq(a.args[1], e), powq(a.args[2], e))
    if a.op != 'poly':
        if a.op == 'inf':
            return ZERO if e < 0 else a
        m = ((a, e),)
        return _fix(m, F(1)) if _needs_fix(m) else mkpoly({m: F(1)})
    items = a.args
    if len(items) == 1:
        m, c = items[0]
        if e.denominator == 1:
            mm = tuple((x, k * e) for x, k in m)
            cc = c ** int(e)
            return _fix(mm, cc) if _needs_fix(mm) else mkpoly({mm: cc})
        # fractional power of a single monomial
        if c > 0 and all(k.denominator > 1 or known_nonneg(x) or True if False else known_nonneg(x) for x, k in m):
            mm = tuple((x, k * e) for x, k in m)
            return mul(powq(num(c), e), _fix(mm, F(1)) if _needs_fix(mm) else mkpoly({mm: F(1)}))
        if e == F(1, 2) and c > 0:
            # sqrt(c x^2 y) -> |x| ... only even integer powers
            out = powq(num(c), e)
            inner = {}
            rest = []
            for x, k in m:
                if known_nonneg(x):
                    out = mul(out, mkpoly({((x, k * e),): F(1)}))
                elif k.denominator == 1 and k % 2 == 0:
                    out = mul(out, powq(absv(x), k / 2))
                else:
                    rest.append((x, k))
            if not rest:
                return out
            if len(rest) < len(m) or c != 1:
                base = mkpoly({tuple(rest): F(1)})
                return mul(out, mkpoly({((base, e),): F(1)}))
        return mkpoly({((a, e),): F(1)})
    if e.denominator == 1 and 0 < e <= 6 and len(items) ** int(e) <= 4 * LETSIZE:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    if e.denominator == 1 and e > 0:
        return powq(mk('let', a), e)
    # negative or fractional power of a genuine polynomial: make primitive
    content = None
    for m, c in items:
        content = abs(c) if content is None else _fgcd(content, abs(c))
    lead = items[0][1]
    if e.denominator == 1 and lead < 0:
        content = -content
    if e.denominator != 1 and e.denominator % 2 == 0 or True:
        pass
    prim = mkpoly({m: c / content for m, c in items})
    if e.denominator == 2 and prim.op == 'poly' and len(prim.args) == 2:
        # 1 - cos(t)^2 = sin(t)^2
        d = dict(prim.args)
        for m, c in prim.args:
            if len(m) == 1 and m[0][0].op == 'cos' and m[0][1] == 2 and c == -1 and d.get((), 0) == 1:
                return mul(powq(absv(sin(m[0][0].args[0])), 2 * e), powq(num(content), e))
    if e.denominator != 1 and prim.op == 'poly':
        negs = {}
        for m, c in prim.args:
            for x, k in m:
                if k < 0 and known_nonneg(x):
                    negs[x] = min(negs.get(x, F(0)), k)
        com = None
        for m, c in prim.args:
            dm = {x: k for x, k in m if k > 0 and known_nonneg(x)}
            com = dm if com is None else {x: min(k, dm[x]) for x, k in com.items() if x in dm}
        for x, k in (com or {}).items():
            negs.setdefault(x, k)
        if negs:
            q, out = prim, ONE
            for x, k in negs.items():
                d = ZERO
                for m, c in P(q).items():
                    m2 = mkpoly({tuple(w for w in m if w[0] is not x): c})
                    d = add(d, mul(m2, powq(x, dict(m).get(x, F(0)) - k)))
                q = d
                out = mul(out, powq(x, k * e))
            if q is not prim and not (q.op == 'poly' and any(k < 0 and x in negs for m, c in q.args for x, k in m)):
                return mul(mul(out, powq(q, e)), powq(num(content), e))
    # common monomial factor (integer powers only when exponent is integer)
    outm = {}
    if e.denominator == 1:
        common = None
        for m, c in prim.args if prim.op == 'poly' else [((((prim), F(1)),), F(1))]:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {x: min(k, dm[x]) for x, k in common.items() if x in dm and (k > 0) == (dm[x] > 0)}
        # also pull out negative exponents (clear denominators)
        negs = {}
        for m, c in prim.args if prim.op == 'poly' else []:
            for x, k in m:
                if k < 0:
                    negs[x] = min(negs.get(x, F(0)), k)
        fac = dict(common or {})
        for x, k in negs.items():
            fac[x] = k
        if fac:
            inv = tuple(sorted(((x, -k) for x, k in fac.items()), key=lambda z: z[0].id))
            invt = _fix(inv, F(1)) if _needs_fix(inv) else mkpoly({inv: F(1)})
            prim = mul(prim, invt)
            outm = fac
            if prim.op == 'poly' and len(prim.args) > 1:
                lead2 = prim.args[0][1]
                cont2 = None
                for m, c in prim.args:
                    cont2 = abs(c) if cont2 is None else _fgcd(cont2, abs(c))
                if lead2 < 0:
                    cont2 = -cont2
                if cont2 != 1:
                    prim = scale(prim, 1 / cont2)
                    content *= cont2
            else:
                r = powq(prim, e)
                r = mul(r, powq(num(content), e))
                mm = tuple(sorted(((x, k * e) for x, k in outm.items()), key=lambda z: z[0].id))
                return mul(r, _fix(mm, F(1)) if _needs_fix(mm) else mkpoly({mm: F(1)}))
    r = mkpoly({((prim, e),): F(1)})
    if content != 1:
        r = mul(r, powq(num(content), e))
    if outm:
        mm = tuple(sorted(((x, k * e) for x, k in outm.items()), key=lambda z: z[0].id))
        r = mul(r, _fix(mm, F(1)) if _needs_fix(mm) else mkpoly({mm: F(1)}))
    return r


def _fgcd(a, b):
    from math import gcd
    return F(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


def div(a, b):
    if b.op == 'num' and b.args[0] == 0:
        if a is ZERO:
            return NAN
        return mk('div0', a)
    if a is b and a.op not in ('nan', 'inf', 'ite'):
        return ONE
    return mul(a, powq(b, -1))


def nonfinite(t):
    """a number divided by exactly zero, or a sum or product with one"""
    if t.op == 'poly':
        return any(e > 0 and nonfinite(x) for m, _ in t.args for x, e in m)
    return t.op in ('div0', 'nan', 'inf')


def sqrt(a):
    return powq(a, F(1, 2))


def exp(x):
    return power(num(10), mul(x, mk('log10', E)))


def log(x):
    return ONE if x is E else div(log10(x), mk('log10', E))


def cbrt(x):
    return ite(lt0(x), neg(powq(neg(x), F(1, 3))), powq(x, F(1, 3)))


def power(a, b):
    if a is E:
        return exp(b)
    if b.op == 'num':
        return powq(a, b.args[0])
    if a.op == 'num' and a.args[0] == 10 and b.op == 'log10':
        return b.args[0]
    if a.op == 'num' and a.args[0] == 10:
        if b.op == 'poly' and all(not m and (2 * c).denominator == 1 and abs(c) < 20 or len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log10' and positive(m[0][0].args[0])
                                  and (6 * c).denominator == 1 for m, c in b.args):
            r = ONE
            for m, c in b.args:
                r = mul(r, powq(m[0][0].args[0] if m else num(10), c))
            return r
        return mk('pow10', b)
    return mk('pow', a, b)


def known_nonneg(t):
    r = nonneg(t)
    return r is True


# ----------------------------------------------------------- range reasoning
def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'sym':
        return t.args[1] == 'int'
    if t.op in ('floor', 'trunc', 'iel', 'bv', 'ceil', 'sign', 'count', 'argext', 'bitand', 'perm', 'rank'):
        return True
    if t.op == 'opq':
        return t.args[0] in INT_OPAQUE
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ('sum', 'maxr', 'minr'):
        return is_int(t.args[1])
    if t.op == 'let':
        return is_int(t.args[0])
    if t.op == 'abs':
        return is_int(t.args[0])
    if t.op == 'poly':
        return all(c.denominator == 1 and all(is_int(a) and e.denominator == 1 and e > 0 for a, e in m)
                   for m, c in t.args)
    return is_bool(t)


INT_OPAQUE = {'hp.ang2pix', 'bitand', 'argsort', 'hp.vec2pix', 'perm'}

_RANGE = {}


def atom_range(t):
    """numeric lower/upper Fractions or None, for atoms (coarse)"""
    if t.op == 'num':
        return t.args[0], t.args[0]
    if t.op == 'pi':
        return F(314159, 100000), F(314160, 100000)
    if t.op == 'e':
        return F(271828, 100000), F(271829, 100000)
    if t.op == 'sym':
        lo = t.args[2].args[0] if t.args[2] is not None and t.args[2].op == 'num' else None
        hi = t.args[3].args[0] if t.args[3] is not None and t.args[3].op == 'num' else None
        if lo is None and t.args[2] is not None:
            lo = bounds(t.args[2])[0]
        if hi is None and t.args[3] is not None:
            hi = bounds(t.args[3])[1]
        return lo, hi
    if t.op == 'bv':
        return F(0), None
    if t.op in ('sin', 'cos'):
        lo, hi = bounds(t.args[0])
        if t.args[0].op == 'poly' and all((PI, F(1)) in m for m, c in t.args[0].args):
            ql, qh = bounds(mkpoly({tuple(x for x in m if x != (PI, F(1))): c for m, c in t.args[0].args}))
            if ql is not None and qh is not None and t.op == 'cos' and F(-1, 2) <= ql and qh <= F(1, 2):
                return F(0), F(1)
            if ql is not None and qh is not None and t.op == 'cos' and F(1, 2) <= ql and qh <= F(3, 2):
                return F(-1), F(0)
            if ql is not None and qh is not None and t.op == 'sin' and 0 <= ql and qh <= 1:
                return F(0), F(1)
            if ql is not None and qh is not None and t.op == 'sin' and 1 <= ql and qh <= 2:
                return F(-1), F(0)
        if lo is not None and hi is not None and abs(lo) < 100 and abs(hi) < 100:
            import math
            f = math.cos if t.op == 'cos' else math.sin
            a, b = float(lo), float(hi)
            z = 0. if t.op == 'cos' else math.pi / 2
            # maxima at z + 2 k pi, minima half a turn later
            most = math.floor((b - z) / (2 * math.pi) + 1e-9) >= math.ceil((a - z) / (2 * math.pi) - 1e-9)
            least = math.floor((b - z) / (2 * math.pi) - 0.5 + 1e-9) >= math.ceil((a - z) / (2 * math.pi) - 0.5 - 1e-9)
            e = F(1, 10 ** 12)
            return (F(-1) if least else max(F(-1), F(min(f(a), f(b))) - e)), (F(1) if most else min(F(1), F(max(f(a), f(b))) + e))
        return F(-1), F(1)
    if t.op == 'sign':
        return F(-1), F(1)
    if t.op == 'draw':
        return F(0), F(1)
    if t.op == 'rank':
        return F(0), t.args[1].args[0]
    if t.op == 'opq' and t.args[0] == 'hp.ang2pix' and t.args[1].op == 'num':
        return F(0), 12 * t.args[1].args[0] ** 2 - 1
    if t.op == 'opq' and t.args[0] == 'hp.pix2ang.theta':
        return F(0), F(314160, 100000)
    if t.op == 'opq' and t.args[0] == 'hp.pix2ang.phi':
        return F(0), F(628319, 100000)
    if t.op == 'opq' and t.args[0] == 'argsort':
        return F(0), F(len(t.args[2]) - 1)
    if t.op == 'sqrt2':
        return F(0), None
    if t.op in ('arctan2', 'arccos', 'arcsin', 'pow10', 'log10'):
        from . import interval
        r = interval.constval(t)
        if r is not None:
            return F(r[0]) - F(1, 10 ** 9), F(r[1]) + F(1, 10 ** 9)
    if t.op == 'arctan2':
        yb, xb = bounds(t.args[0]), bounds(t.args[1])
        full, half = F(314160, 100000), F(157080, 100000)
        right = xb[0] is not None and xb[0] > 0
        if yb[0] is not None and yb[0] >= 0 or nonneg(t.args[0]):
            return F(0), half if right else full
        if right:
            return -half, (F(0) if yb[1] is not None and yb[1] <= 0 else half)
        return -full, (F(0) if yb[1] is not None and yb[1] < 0 else full)
    if t.op == 'arccos':
        return F(0), F(314160, 100000)
    if t.op == 'arcsin':
        return F(-157080, 100000), F(157080, 100000)
    if t.op == 'abs':
        return F(0), None
    if t.op == 'pow10':
        return F(0), None
    if t.op == 'floor':
        lo, hi = bounds(t.args[0])
        import math
        return (F(math.floor(lo)) if lo is not None else None), (F(math.floor(hi)) if hi is not None else None)
    if t.op == 'ite':
        a, b = bounds(t.args[1]), bounds(t.args[2])
        lo = min(a[0], b[0]) if a[0] is not None and b[0] is not None else None
        hi = max(a[1], b[1]) if a[1] is not None and b[1] is not None else None
        return lo, hi
    if t.op == 'sum':
        b = bounds(t.args[1])
        if b[0] is not None and b[0] >= 0:
            return F(0), None
        return None, None
    if t.op == 'iel':
        return t.args[3] if len(t.args) > 3 and False else (None, None)
    if t.op == 'maxr' or t.op == 'minr':
        return bounds(t.args[1])
    if t.op == 'let':
        return bounds(t.args[0])
    return None, None


_BCACHE = {}


def bounds(t):
    """(lo, hi) rational bounds of t (None = unbounded), interval domain"""
    r = _BCACHE.get(t)
    if r is None:
        r = _bounds(t)
        _BCACHE[t] = r
    return r


def _imul(a, b):
    if a == (F(0), F(0)) or b == (F(0), F(0)):
        return (F(0), F(0))
    # with None as infinities
    if None in a or None in b:
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            return (a[0] * b[0], None if a[1] is None or b[1] is None else a[1] * b[1])
        return (None, None)
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(v), max(v))


def _ipow(r, e):
    if e.denominator == 1 and e > 0:
        if int(e) % 2 == 0:
            lo, hi = r
            if lo is not None and lo >= 0:
                return (lo ** int(e), hi ** int(e) if hi is not None else None)
            if hi is not None and hi <= 0:
                return (hi ** int(e), lo ** int(e) if lo is not None else None)
            m = None
            if lo is not None and hi is not None:
                m = max(abs(lo), abs(hi)) ** int(e)
            return (F(0), m)
        return (r[0] ** int(e) if r[0] is not None else None, r[1] ** int(e) if r[1] is not None else None)
    if e.denominator == 1 and e < 0:
        k = int(-e)
        lo, hi = r
        if lo is not None and lo > 0:
            return ((F(1) / hi) ** k if hi is not None else F(0), (F(1) / lo) ** k)
        if hi is not None and hi < 0 and lo is not None:
            a, b = (F(1) / hi) ** k, (F(1) / lo) ** k
            return (min(a, b), max(a, b))
        if lo is not None and lo >= 0 and k >= 1:
            return (F(0), None)
        if k % 2 == 0:
            return (F(0), None)
        return (None, None)
    # fractional
    lo, hi = r
    ef = float(e)

    def up(v):
        return F(float(v) ** ef * (1 + 1e-9) + 1e-300).limit_denominator(10 ** 12) + F(1, 10 ** 11)

    def dn(v):
        w = F(float(v) ** ef * (1 - 1e-9)).limit_denominator(10 ** 12) - F(1, 10 ** 11)
        return w if w > 0 else F(0)
    big = F(10) ** 100
    if e > 0:
        if lo is not None and hi is not None and lo == hi == 1:
            return (F(1), F(1))
        return (dn(lo) if lo is not None and lo > 0 and lo < big else F(0),
                (F(1) if hi == 1 else up(hi)) if hi is not None and 0 <= hi < big else None)
    return (dn(hi) if hi is not None and 0 < hi < big else F(0), up(lo) if lo is not None and 0 < lo < big else None)


def _bounds(t):
    if t.op == 'poly':
        lo, hi = F(0), F(0)
        for m, c in t.args:
            r = (F(1), F(1))
            for a, e in m:
                ra = bounds(a)
                r = _imul(r, _ipow(ra, e))
            r = _imul(r, (c, c))
            if c < 0 and None in r:
                # scale handled by _imul only for nonneg; redo
                pass
            lo = None if lo is None or r[0] is None else lo + r[0]
            hi = None if hi is None or r[1] is None else hi + r[1]
        # second chance: scale by constants with infinities
        if lo is None or hi is None:
            lo, hi = F(0), F(0)
            for m, c in t.args:
                r = (F(1), F(1))
                for a, e in m:
                    r = _imul(r, _ipow(bounds(a), e))
                if c < 0:
                    r = (None if r[1] is None else r[1] * c, None if r[0] is None else r[0] * c)
                else:
                    r = (None if r[0] is None else r[0] * c, None if r[1] is None else r[1] * c)
                lo = None if lo is None or r[0] is None else lo + r[0]
                hi = None if hi is None or r[1] is None else hi + r[1]
        if 3 <= len(t.args) <= 8:
            # distributive grouping: a*s + b*s + c -> (a + b)*s + c
            cnt = {}
            for m, c in t.args:
                for ae in m:
                    cnt[ae] = cnt.get(ae, 0) + 1
            for ae, n in cnt.items():
                if not 2 <= n < len(t.args) or ae[0] is PI:
                    continue
                grp, rest = {}, {}
                for m, c in t.args:
                    if ae in m:
                        grp[tuple(x for x in m if x != ae)] = c
                    else:
                        rest[m] = c
                rg, rr = _imul(bounds(mkpoly(grp)), _ipow(bounds(ae[0]), ae[1])), bounds(mkpoly(rest))
                if rg[0] is not None and rr[0] is not None and (lo is None or rg[0] + rr[0] > lo):
                    lo = rg[0] + rr[0]
                if rg[1] is not None and rr[1] is not None and (hi is None or rg[1] + rr[1] < hi):
                    hi = rg[1] + rr[1]
        return lo, hi
    return atom_range(t)


_NNCACHE = {}


def nonneg(t, depth=0):
    """True if t >= 0 proven, None otherwise (affine elimination of bounded
    symbols + coefficient positivity)."""
    key = t
    if key in _NNCACHE:
        return _NNCACHE[key]
    r = _nonneg(t, depth)
    if depth == 0 or r:
        _NNCACHE[key] = r
    return r


def _sign_of_coeff(t):
    """+1/-1/0/None sign (>=0 / <=0)"""
    if t.op == 'num':
        v = t.args[0]
        return 1 if v > 0 else (-1 if v < 0 else 0)
    if nonneg(t, 1):
        return 1
    if nonneg(neg(t), 1):
        return -1
    return None


def _nonneg(t, depth):
    lo, hi = bounds(t)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return None
    if t.op == 'ite':
        return True if nonneg(t.args[1], depth) and nonneg(t.args[2], depth) else None
    if depth > 6 or t.op != 'poly':
        if t.op == 'sym' and t.args[2] is not None and depth <= 6 and nonneg(t.args[2], depth + 1):
            return True
        return None
    # cos falls on [0, pi]
    if len(t.args) == 2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'cos' for m, c in t.args) and t.args[0][1] == -t.args[1][1]:
        x, y = (t.args if t.args[0][1] > 0 else t.args[::-1])
        x, y = x[0][0][0].args[0], y[0][0][0].args[0]
        if bounds(y)[1] is not None and bounds(y)[1] <= F(31415, 10000) and nonneg(x, depth + 1) and nonneg(sub(y, x), depth + 1):
            return True
    # eliminate a bounded symbol that occurs linearly: latest created first
    syms = sorted(poly_bounded(t), key=lambda s: -s.id)
    # index-like symbols (both bounds) first
    syms.sort(key=lambda s: 2 if s.op == 'floor' else 0 if (tbounds(s)[1] is not None) else 1)
    for s in syms:
        tb = tbounds(s)
        co, rest = linear_in(t, s)
        if co is None:
            continue
        sg = _sign_of_coeff(co) if depth <= 4 else None
        if sg is None:
            continue
        if sg >= 0 and tb[0] is not None:
            v = tb[0]
        elif sg <= 0 and tb[1] is not None:
            v = tb[1]
        else:
            continue
        if nonneg(add(mul(co, v), rest), depth + 1):
            return True
        if s.op != 'floor':
            return None
    return None


def tbounds(a):
    """symbolic (lower, upper) bound of an atom, or None"""
    if a.op == 'sym':
        return (a.args[2], a.args[3])
    if a.op == 'floor':
        return (sub(a.args[0], ONE), a.args[0])
    if a.op == 'arccos':
        return (ZERO, PI)
    if a.op == 'draw':
        return (ZERO, ONE)
    if a.op == 'arctan2':
        return (neg(PI), PI)
    if a.op == 'opq' and a.args[0] == 'hp.pix2ang.theta':
        return (ZERO, PI)
    if a.op == 'opq' and a.args[0] == 'hp.pix2ang.phi':
        return (ZERO, scale(PI, 2))
    return (None, None)


def contains(t, a):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is a:
            return True
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            st.extend(x.args)
    return False


def poly_bounded(t):
    out = set()
    for m, c in P(t).items():
        for a, e in m:
            if a.op in ('sym', 'arccos', 'arctan2', 'floor', 'draw') or a.op == 'opq' and a.args[0].startswith('hp.pix2ang'):
                if any(x is not None for x in tbounds(a)):
                    out.add(a)
    return out


def poly_syms(t):
    out = set()
    if t.op == 'sym':
        out.add(t)
    elif t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                if a.op == 'sym':
                    out.add(a)
    return out


def linear_in(t, s):
    """t = co*s + rest with co, rest free of s, else (None, None)"""
    co, rest = {}, {}
    for m, c in P(t).items():
        e = dict(m).get(s)
        if e is None:
            for a, _ in m:
                if (s in free_syms(a)) if s.op == 'sym' else contains(a, s):
                    return None, None
            _padd(rest, m, c)
        elif e == 1:
            m2 = tuple(x for x in m if x[0] is not s)
            for a, _ in m2:
                if (s in free_syms(a)) if s.op == 'sym' else contains(a, s):
                    return None, None
            _padd(co, m2, c)
        else:
            return None, None
    return mkpoly(co), mkpoly(rest)


def free_syms(t):
    r = t._syms
    if r is not None:
        return r
    if t.op == 'sym':
        s = {t}
        for x in t.args[2:4]:
            if x is not None:
                s |= free_syms(x)
        r = frozenset(s)
    else:
        s = set()
        for a in t.args:
            _collect(a, s)
        r = frozenset(s)
    t._syms = r
    return r


def _collect(a, s):
    if isinstance(a, T):
        s |= free_syms(a)
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, s)


# ------------------------------------------------------------------ booleans
def _closedsign(p):
    """sign (-1, 1) of a closed term known not to be zero, else None"""
    from . import interval, ball
    if p.op not in ('poly', 'arctan2', 'sin', 'cos') or not interval.closed(p):
        return None
    return ball.sgn(ball.val(p)) or None


def lt0(p):
    if is_bool(p):
        p = b2n(p)
    if p.op == 'num':
        return TRUE if p.args[0] < 0 else FALSE
    if p is NAN:
        return FALSE
    if p.op == 'ite':
        return bite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    if p.op == 'arctan2':
        return lt0(p.args[0])
    k = _closedsign(p)
    if k:
        return TRUE if k < 0 else FALSE
    pp = _prim(p)
    if pp.op == 'num':
        return TRUE if pp.args[0] < 0 else FALSE
    if pp.op == 'arctan2':
        return lt0(pp.args[0])
    if pp.op == 'poly' and len(pp.args) == 1 and pp.args[0][1] < 0 and len(pp.args[0][0]) == 1:
        g, e = pp.args[0][0][0]
        if g.op == 'arctan2' and e == 1:
            return bor(lt0(neg(g.args[0])), band(eq0(g.args[0]), lt0(g.args[1])))
    if pp.op == 'poly' and len(pp.args) <= 4:
        # one gated summand: the gate decides when it settles at least one side
        its = [(m, c) for m, c in pp.args if any(a.op == 'ite' for a, e in m)]
        if len(its) == 1 and len(its[0][0]) == 1 and its[0][0][0][1] == 1:
            (m, c), g = its[0], its[0][0][0][0]
            base = sub(pp, scale(g, c))
            arms = []
            for h, v in ((g.args[0], g.args[1]), (bnot(g.args[0]), g.args[2])):
                l = lt0(add(base, scale(v, c)))
                arms.append(FALSE if band(h, l) is FALSE else TRUE if band(h, bnot(l)) is FALSE else l)
            if arms[0] in (TRUE, FALSE) or arms[1] in (TRUE, FALSE):
                return bite(g.args[0], *arms)
    # decide by range domain
    if nonneg(pp):
        return FALSE
    lo, hi = bounds(pp)
    if hi is not None and hi < 0:
        return TRUE
    if nonneg(sub(neg(pp), ONE)) and is_int(pp):
        return TRUE
    if is_int(pp) and nonneg(neg(add(pp, ONE))):
        return TRUE
    if pp.op == 'poly' and len(pp.args) <= 6:
        # uniform numbers lie in [0, 1)
        for m, c in pp.args:
            if len(m) == 1 and c > 0 and m[0][1] == 1 and m[0][0].op == 'draw':
                co, rest = linear_in(pp, m[0][0])
                if co is not None and nonneg(neg(add(co, rest))):
                    return TRUE
    return mk('lt0', pp)


def _prim(p):
    """scale by a positive rational"""
    if p.op != 'poly':
        return p
    content = None
    for m, c in p.args:
        content = abs(c) if content is None else _fgcd(content, abs(c))
    # divide by positive common atoms
    pr = mkpoly({m: c / content for m, c in p.args}) if content != 1 else p
    if pr.op == 'poly':
        common = None
        for m, c in pr.args:
            dm = {x: k for x, k in m if k.denominator == 1}
            common = dict(dm) if common is None else {x: min(k, dm[x]) if k > 0 else max(k, dm[x])
                                                       for x, k in common.items()
                                                       if x in dm and (k > 0) == (dm[x] > 0)}
        for x, k in (common or {}).items():
            if positive(x):
                inv = ((x, -k),)
                pr = mul(pr, mkpoly({inv: F(1)}))
        # clear negative powers of positive atoms
        if pr.op == 'poly':
            negs = {}
            for m, c in pr.args:
                for x, k in m:
                    if k < 0 and positive(x):
                        negs[x] = min(negs.get(x, F(0)), k)
            for x, k in negs.items():
                if x.op != 'poly' or -k < 1:
                    pr = mul(pr, mkpoly({((x, -k),): F(1)}))
                    continue
                d = ZERO
                for m, c in P(pr).items():
                    e = dict(m).get(x, F(0)) - k
                    d = add(d, mul(mkpoly({tuple(y for y in m if y[0] is not x): c}), powq(x, e)))
                pr = d
    return pr


def positive(x):
    if x is PI:
        return True
    if x.op == 'sin':
        lo, hi = bounds(x.args[0])
        if lo is not None and hi is not None and lo > 0 and hi < F(31415, 10000):
            return True
    lo, hi = bounds(x)
    if lo is not None and lo > 0:
        return True
    if x.op == 'sym' and x.args[2] is not None:
        lo = bounds(x.args[2])[0]
        return lo is not None and lo > 0
    return False


def le0(p):
    r = bnot(lt0(neg(p)))
    return band(r, bnot(nanc(p))) if has_nan(p) else r


_HASNAN = {}


def has_nan(t):
    """does the constant nan occur in an arm of t"""
    r = _HASNAN.get(t)
    if r is None:
        if t is NAN:
            r = True
        elif t.op == 'poly':
            r = any(has_nan(a) for m, _ in t.args for a, _ in m)
        elif t.op in BINDERS or is_bool(t) or t.op == 'sym':
            r = False
        elif t.op == 'ite':
            r = has_nan(t.args[1]) or has_nan(t.args[2])
        else:
            r = any(isinstance(a, T) and has_nan(a) for a in t.args)
        _HASNAN[t] = r
    return r


def nanc(t):
    """the condition under which t is the constant nan"""
    if t is NAN:
        return TRUE
    if not has_nan(t):
        return FALSE
    if t.op == 'ite':
        return bite(t.args[0], nanc(t.args[1]), nanc(t.args[2]))
    if t.op == 'poly':
        return bor(*[nanc(a) for m, _ in t.args for a, _ in m])
    return bor(*[nanc(a) for a in t.args if isinstance(a, T)])


def eq0(p):
    if is_bool(p):
        return bnot(p)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if p is NAN:
        return FALSE
    if p.op == 'ite':
        return bite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if p.op == 'poly':
        lead = p.args[0][1]
        pp = _prim(p)
        if pp.op == 'poly' and pp.args[0][1] < 0:
            pp = neg(pp)
        p = pp
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if _closedsign(p):
        return FALSE
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if p.op == 'poly':
        if nonneg(sub(p, ONE)) and is_int(p) or nonneg(sub(neg(p), ONE)) and is_int(p):
            return FALSE
        # integrality: gcd obstruction  2k+1 == 0
        if all(all(is_int(a) and e.denominator == 1 and e > 0 for a, e in m) for m, c in p.args):
            from math import gcd
            den = 1
            for m, c in p.args:
                den = den * c.denominator // gcd(den, c.denominator)
            g = 0
            k0 = 0
            for m, c in p.args:
                v = int(c * den)
                if m:
                    g = gcd(g, abs(v))
                else:
                    k0 = v
            if g and k0 % g:
                return FALSE
    return mk('eq0', p)


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return bor(*[bnot(x) for x in c.args])
    if c.op == 'ite':
        return bite(c.args[0], bnot(c.args[1]), bnot(c.args[2]))
    if not is_bool(c):
        return eq0(c)
    return mk('not', c)


def truth(t):
    if is_bool(t):
        return t
    return bnot(eq0(t))


def band(*cs):
    s = {}
    for c in cs:
        c = truth(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            for x in c.args:
                s[x] = 1
        else:
            s[c] = 1
    ops = {(c.op, c.args[0]) for c in s if c.op in ('lt0', 'eq0')}
    for c in s:
        if bnot(c) in s:
            return FALSE
        if c.op == 'lt0' and len(s) > 1:
            q = _prim(neg(c.args[0]))
            for o in ('lt0', 'eq0'):
                if (o, q) in ops or (o, c.args[0]) in ops and o == 'eq0':
                    return FALSE
    negs = [c for c in s if c.op == 'not' and c.args[0].op == 'and']
    if negs and len(s) > 1:
        # a negated conjunction: false when every conjunct holds, true (dropped) when one is contradicted, a unit when one is open
        for c in negs:
            rest = []
            for x in c.args[0].args:
                if x in s:
                    continue
                if bnot(x) in s:
                    rest = None
                    break
                rest.append(x)
            if rest is None:
                del s[c]
            elif not rest:
                return FALSE
            elif len(rest) < len(c.args[0].args):
                del s[c]
                return band(*s, bnot(rest[0] if len(rest) == 1 else mk('and', *rest)))
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    lst = sorted(s, key=lambda x: x.id)
    # x==0 and x<0 style contradictions and subsumption
    return mk('and', *lst)


def bor(*cs):
    # or is represented through De Morgan: not(and(not ..))
    flat = []
    for c in cs:
        flat.append(bnot(truth(c)) if not (c.op == 'not') else c.args[0])
    r = band(*flat)
    if r.op == 'and':
        return mk('not', r)
    return bnot(r)


def bite(c, a, b):
    """boolean if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    if c.op == 'not':
        return bite(c.args[0], b, a)
    return mk('ite', c, a, b)


_ITE_D = 0


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return bite(c, a, b)
    if is_bool(a):
        a = b2n(a)
    if is_bool(b):
        b = b2n(b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'and' and False:
        pass
    a2 = assume(a, c, True)
    b2 = assume(b, c, False)
    if a2 is b2:
        return a2
    if a2.op == 'num' and b.op in ('poly', 'ite') and assume(b, c, True) is a2:
        return b
    if b2.op == 'num' and a.op in ('poly', 'ite') and assume(a, c, False) is b2:
        return a
    if _iscount(a2) and _iscount(b2):
        d = sub(a2, b2)
        if d.op == 'num':
            return add(b2, scale(mk('ite', c, ONE, ZERO), d.args[0]))
    return mk('ite', c, a2, b2)


def _iscount(t):
    """c0 + sum of c_k*[condition k], at least one condition"""
    if t.op == 'ite':
        return t.args[1] is ONE and t.args[2] is ZERO
    return t.op == 'poly' and all(not m or len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and m[0][0].args[1] is ONE and m[0][0].args[2] is ZERO
                                  for m, _ in t.args)


def assume(t, c, val, memo=None):
    """simplify t under the assumption that atom condition c has truth val"""
    if c not in conds_of(t):
        if c.op == 'and' and val:
            for x in c.args:
                t = assume(t, x, True)
            return t
        if c.op == 'not':
            return assume(t, c.args[0], not val)
        return t
    memo = {}
    r = _rebuild(t, memo, {c: TRUE if val else FALSE})
    if c.op == 'and' and val:
        for x in c.args:
            r = assume(r, x, True)
    return r


def conds_of(t):
    """all boolean sub-terms occurring in t (excluding under binders of their own)"""
    r = t._conds
    if r is not None:
        return r
    s = set()
    if is_bool(t) and t.op not in ('true', 'false'):
        s.add(t)
    for a in t.args:
        _cc(a, s)
    r = frozenset(s)
    t._conds = r
    return r


def _cc(a, s):
    if isinstance(a, T):
        s |= conds_of(a)
    elif isinstance(a, tuple):
        for x in a:
            _cc(x, s)


# ------------------------------------------------------------ elem. functions
def lift(fn):
    def g(a, *rest):
        if isinstance(a, T) and a.op == 'ite' and not is_bool(a):
            return ite(a.args[0], g(a.args[1], *rest), g(a.args[2], *rest))
        return fn(a, *rest)
    return g


def _pi_split(t):
    """t = q*pi + rest"""
    q = F(0)
    d = P(t)
    m = ((PI, F(1)),)
    if m in d:
        q = d.pop(m)
    return q, mkpoly(d)


def _lead_neg(t):
    if t.op == 'poly':
        return t.args[0][1] < 0
    if t.op == 'num':
        return t.args[0] < 0
    return False


def _angle_sum(t):
    """t = u + v with v one inverse function (coefficient 1 or -1): the addition theorem applies"""
    if t.op != 'poly' or len(t.args) > 3:
        return None
    inv, rest, n = None, {}, 0
    for m, c in t.args:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in ('arctan2', 'arccos', 'arcsin'):
            n += 1
            if inv is None:
                inv = mkpoly({m: c})
                continue
        elif not (len(m) == 1 and m[0][0] is PI and m[0][1] == 1):
            return None
        rest[m] = c
    if inv is None or not rest or n > 2:
        return None
    return mkpoly(rest), inv


@lift
def cos(t):
    if is_bool(t):
        t = b2n(t)
    if t is NAN:
        return NAN
    uv = _angle_sum(t)
    if uv is not None:
        return sub(mul(cos(uv[0]), cos(uv[1])), mul(sin(uv[0]), sin(uv[1])))
    q, r = _pi_split(t)
    k = q % 2
    # integer multiples of 2*pi*int
    r = _drop_2pi(r)
    if r is ZERO:
        tab = {F(0): ONE, F(1, 2): ZERO, F(1): MONE, F(3, 2): ZERO}
        if k in tab:
            return tab[k]
        if k > 1:
            k = 2 - k
        if k > F(1, 2):
            return neg(cos(scale(PI, 1 - k)))
        if k in (F(1, 6), F(1, 4), F(1, 3)):
            return scale(powq(num({F(1, 6): 3, F(1, 4): 2, F(1, 3): 1}[k]), F(1, 2)), F(1, 2))
        return mk('cos', scale(PI, k))
    if k >= 1:
        return neg(cos(add(r, scale(PI, k - 1))))
    if k == F(1, 2):
        return neg(sin(r))
    if k == 0:
        if r.op == 'arctan2':
            y, x = r.args
            return div(x, sqrt(add(mul(x, x), mul(y, y))))
        if r.op == 'arccos':
            return r.args[0]
        if r.op == 'arcsin':
            return sqrt(sub(ONE, mul(r.args[0], r.args[0])))
        if _lead_neg(r):
            return cos(neg(r))
        return mk('cos', r)
    a = add(r, scale(PI, k))
    return mk('cos', a)


@lift
def sin(t):
    if is_bool(t):
        t = b2n(t)
    if t is NAN:
        return NAN
    uv = _angle_sum(t)
    if uv is not None:
        return add(mul(sin(uv[0]), cos(uv[1])), mul(cos(uv[0]), sin(uv[1])))
    q, r = _pi_split(t)
    k = q % 2
    r = _drop_2pi(r)
    if r is ZERO:
        tab = {F(0): ZERO, F(1, 2): ONE, F(1): ZERO, F(3, 2): MONE}
        if k in tab:
            return tab[k]
        if k > 1:
            return neg(sin(scale(PI, 2 - k)))
        if k.denominator in (3, 4, 6):
            return cos(scale(PI, F(1, 2) - k))
        return mk('sin', scale(PI, k))
    if k >= 1:
        return neg(sin(add(r, scale(PI, k - 1))))
    if k == F(1, 2):
        return cos(r)
    if k == 0:
        if r.op == 'arctan2':
            y, x = r.args
            return div(y, sqrt(add(mul(x, x), mul(y, y))))
        if r.op == 'arccos':
            return sqrt(sub(ONE, mul(r.args[0], r.args[0])))
        if r.op == 'arcsin':
            return r.args[0]
        if _lead_neg(r):
            return neg(sin(neg(r)))
        return mk('sin', r)
    return mk('sin', add(r, scale(PI, k)))


def _drop_2pi(r):
    d = P(r)
    out = {}
    for m, c in d.items():
        dm = dict(m)
        if dm.get(PI) == 1 and c.denominator == 1 and c % 2 == 0:
            rest = mkpoly({tuple(x for x in m if x[0] is not PI): F(1)})
            if is_int(rest):
                continue
        out[m] = c
    return mkpoly(out)


@lift
def arccos(t):
    if t is NAN:
        return NAN
    if t.op == 'num':
        tab = {F(1): ZERO, F(-1): PI, F(0): scale(PI, F(1, 2)), F(1, 2): scale(PI, F(1, 3)), F(-1, 2): scale(PI, F(2, 3))}
        if t.args[0] in tab:
            return tab[t.args[0]]
    if t.op == 'poly':
        k = _const_angle(sqrt(sub(ONE, mul(t, t))), t)
        if k is not None:
            return k
    if t.op == 'cos' and nonneg(t.args[0]) and nonneg(sub(PI, t.args[0])):
        return t.args[0]
    if _lead_neg(t):
        return sub(PI, arccos(neg(t)))
    return mk('arccos', t)


@lift
def arcsin(t):
    if t is NAN:
        return NAN
    if t.op == 'num':
        tab = {F(1): scale(PI, F(1, 2)), F(-1): scale(PI, F(-1, 2)), F(0): ZERO}
        if t.args[0] in tab:
            return tab[t.args[0]]
    return sub(scale(PI, F(1, 2)), arccos(t))


def _const_angle(y, x):
    """exact angle of a constant point whose angle is a multiple of pi/4 or pi/6 (checked exactly)"""
    from . import interval
    for t in (y, x):
        if t.op != 'num' and (t.op != 'poly' or any(a.op != 'num' for m, c in t.args for a, e in m)):
            return None
    a, b = interval.constval(y), interval.constval(x)
    if a is None or b is None:
        return None
    import math
    q = math.atan2((a[0] + a[1]) / 2, (b[0] + b[1]) / 2) * 12 / math.pi
    k = round(q)
    if abs(q - k) > 1e-9 or k % 2 and k % 3:
        return None
    t = scale(PI, F(k, 12))
    return t if sub(mul(y, cos(t)), mul(x, sin(t))) is ZERO else None


def _polar_angle(y, x):
    """arctan2(A sin t, A cos t), A > 0, 0 <= t <= 2 pi"""
    dy, dx = list(P(y).items()), list(P(x).items())
    if len(dy) != 1 or len(dx) != 1 or dy[0][1] != dx[0][1]:
        return None
    (my, c), (mx, _) = dy[0], dx[0]
    sy = [a for a, e in my if a.op == 'sin' and e == 1]
    for a in sy:
        t = a.args[0]
        ct = mk('cos', t)
        ry = sorted(((b, e) for b, e in my if b is not a), key=lambda z: z[0].id)
        rx = sorted(((b, e) for b, e in mx if b is not ct), key=lambda z: z[0].id)
        if ry != rx or len(rx) == len(mx):
            continue
        if c <= 0 or not all(positive(b) for b, e in ry):
            continue
        if nonneg(t) and nonneg(sub(scale(PI, 2), t)):
            return ite(bnot(lt0(sub(PI, t))), t, sub(t, scale(PI, 2)))
        if nonneg(add(t, PI)) and nonneg(sub(PI, t)):
            return t
    return None


def arctan2(y, x):
    if y is NAN or x is NAN:
        return NAN
    if y.op == 'ite':
        return ite(y.args[0], arctan2(y.args[1], x), arctan2(y.args[2], x))
    if x.op == 'ite':
        return ite(x.args[0], arctan2(y, x.args[1]), arctan2(y, x.args[2]))
    if y is ZERO and x.op == 'num' and x.args[0] >= 0:
        return ZERO
    r = _polar_angle(y, x)
    if r is None and y is not ZERO:
        r = _const_angle(y, x)
    if r is not None:
        return r
    if y is ZERO:
        if positive(x):
            return ZERO
        if positive(neg(x)):
            return PI
    if x is ZERO:
        if positive(y):
            return scale(PI, F(1, 2))
        if positive(neg(y)):
            return scale(PI, F(-1, 2))
    if y is not ZERO and x is not ZERO:
        # positive factors common to both arguments do not change the angle
        ms = [m for t in (y, x) for m in P(t)]
        com = None
        for m in ms:
            dm = dict(m)
            if com is None:
                com = dm
            else:
                com = {a: (min(k, dm[a]) if k > 0 else max(k, dm[a])) for a, k in com.items() if a in dm and (k > 0) == (dm[a] > 0)}
        out = ONE
        for a, k in com.items():
            if a.op == 'num' or positive(a) or a.op == 'poly' and k.denominator == 2 and k < 0:
                out = mul(out, powq(a, -k))
        c = None
        for t in (y, x):
            for k in P(t).values():
                c = abs(k) if c is None else _fgcd(c, abs(k))
        if out is not ONE or c != 1:
            return arctan2(scale(mul(y, out), 1/c), scale(mul(x, out), 1/c))
    return mk('arctan2', y, x)


@lift
def floor(t):
    if is_bool(t):
        t = b2n(t)
    if t is NAN:
        return NAN
    if is_int(t):
        return t
    if t.op == 'num':
        import math
        return num(math.floor(t.args[0]))
    # split integer-valued monomials
    ip, fp = {}, {}
    d = P(t)
    for m, c in d.items():
        tm = mkpoly({m: c})
        if is_int(tm):
            ip[m] = c
        else:
            fp[m] = c
    rest = mkpoly(fp)
    base = mkpoly(ip)
    if rest.op == 'num':
        import math
        return add(base, num(math.floor(rest.args[0])))
    # constant fractional offset: move integer part of the constant
    if () in fp and fp[()].denominator != 1:
        import math
        k = math.floor(fp[()])
        if k:
            fp[()] = fp[()] - k
            base = add(base, num(k))
            rest = mkpoly(fp)
    q = _idiv(rest)
    if q is not None:
        return add(base, q)
    lo, hi = bounds(rest)
    if lo is not None and hi is not None:
        import math
        if math.floor(lo) == math.floor(hi):
            return add(base, num(math.floor(lo)))
    if rest.op == 'poly':
        from . import interval
        r = interval.constval(rest)
        if r is not None:
            import math
            if math.floor(r[0] - 1e-9) == math.floor(r[1] + 1e-9):
                return add(base, num(math.floor(r[0])))
    # 0 <= rest < 1 ?
    if nonneg(rest) and nonneg_strict(sub(ONE, rest)):
        return base
    return add(base, mk('floor', rest))


def nonneg_strict(t):
    lo, hi = bounds(t)
    if lo is not None and lo > 0:
        return True
    if t.op == 'draw1':
        return True
    return None


def _idiv(t):
    """floor(a/b) with integer polynomial a and common integer denominator b."""
    # common denominator: collect negative powers
    dens = {}
    for m, c in P(t).items():
        for a, e in m:
            if e < 0:
                if e.denominator != 1:
                    return None
                dens[a] = min(dens.get(a, F(0)), e)
    cd = 1
    for m, c in P(t).items():
        cd = cd * c.denominator // __import__('math').gcd(cd, c.denominator)
    den = num(cd)
    for a, e in dens.items():
        den = mul(den, powq(a, -e))
    if not is_int(den) or not nonneg(sub(den, ONE)):
        return None
    numr = mul(t, den)
    if not is_int(numr):
        return None
    # split numerator into multiple of den + remainder
    if den.op == 'poly' and len(den.args) > 1:
        # try exact: numr = q*den + r with q a monomial-free guess is hard
        if nonneg(numr) and nonneg(sub(sub(den, ONE), numr)):
            return ZERO
        return None
    dm, dc = (den.args[0] if den.op == 'poly' else (((den, F(1)),), F(1))) if den.op != 'num' else ((), den.args[0])
    ddm = dict(dm)
    q, r = {}, {}
    for m, c in P(numr).items():
        mm = dict(m)
        if all(mm.get(a, 0) >= e for a, e in ddm.items()):
            k = c / dc
            import math
            kf = math.floor(k)
            rest = {a: e - ddm.get(a, 0) for a, e in mm.items()}
            rm = tuple(sorted(((a, e) for a, e in rest.items() if e), key=lambda x: x[0].id))
            if m == () and dm == ():
                if kf:
                    _padd(q, rm, F(kf))
                rr = c - kf * dc
                if rr:
                    _padd(r, m, rr)
            elif k.denominator == 1:
                _padd(q, rm, k)
            else:
                if abs(kf) >= 1 and k > 0:
                    _padd(q, rm, F(kf))
                    _padd(r, m, c - kf * dc)
                else:
                    _padd(r, m, c)
        else:
            _padd(r, m, c)
    rt = mkpoly(r)
    if nonneg(rt) and nonneg(sub(sub(den, ONE), rt)):
        return mkpoly(q)
    if nonneg(add(rt, den)) and nonneg(sub(MONE, rt)):
        return sub(mkpoly(q), ONE)
    if q:
        return add(mkpoly(q), mk('floor', div(rt, den)))
    return None


def mod(a, m):
    """python / numpy floor-mod"""
    return sub(a, mul(m, floor(div(a, m))))


@lift
def ceil(t):
    return neg(floor(neg(t)))


@lift
def trunc(t):
    if is_bool(t):
        return b2n(t)
    if t is NAN:
        return NAN
    if is_int(t):
        return t
    if nonneg(t):
        return floor(t)
    if t.op == 'num':
        return num(int(t.args[0]))
    return mk('trunc', t)


@lift
def absv(t):
    if is_bool(t):
        return b2n(t)
    if t is NAN:
        return NAN
    if t.op == 'num':
        return num(abs(t.args[0]))
    if nonneg(t):
        return t
    if nonneg(neg(t)):
        return neg(t)
    if t.op == 'poly':
        c = None
        for m, k in t.args:
            c = abs(k) if c is None else _fgcd(c, abs(k))
        if t.args[0][1] < 0:
            c = -c
        if c != 1:
            return scale(absv(scale(t, 1 / c)), abs(c))
        if len(t.args) == 1:
            r = ONE
            m, k = t.args[0]
            rest = []
            for a, e in m:
                if known_nonneg(a):
                    r = mul(r, mkpoly({((a, e),): F(1)}))
                else:
                    rest.append((a, e))
            if len(rest) < len(m):
                return mul(r, absv(mkpoly({tuple(rest): F(1)})))
    return mk('abs', t)


@lift
def sign(t):
    if t.op == 'num':
        v = t.args[0]
        return num(1 if v > 0 else (-1 if v < 0 else 0))
    if t.op == 'poly':
        p = _prim(t)
        if p.op == 'poly' and p.args[0][1] < 0:
            return neg(sign(neg(p)))
        if p is not t:
            return sign(p)
        if len(p.args) == 1:
            m, c = p.args[0]
            rest = [(a, e) for a, e in m if not positive(a)]
            if len(rest) < len(m):
                return sign(mkpoly({tuple(rest): c}))
    return mk('sign', t)


@lift
def log10(t):
    if t is ONE:
        return ZERO
    if t.op == 'num' and t.args[0] > 0:
        import math
        k = round(math.log10(float(t.args[0])))
        if t.args[0] == F(10) ** k:
            return num(k)
    return mk('log10', t)


def fmax(a, b):
    return ite(lt0(sub(a, b)), b, a)


def fmin(a, b):
    return ite(lt0(sub(b, a)), b, a)


def isfin(t):
    if t is NAN or t.op in ('inf', 'div0'):
        return FALSE
    if t.op == 'num':
        return TRUE
    if t.op == 'ite':
        return bite(t.args[0], isfin(t.args[1]), isfin(t.args[2]))
    if t.op in ('sym', 'pi', 'e', 'floor', 'draw', 'el', 'iel', 'cos', 'sin'):
        return TRUE
    if t.op in ('arctan2', 'sign', 'abs') and all(isfin(a) is TRUE for a in t.args):
        return TRUE
    if t.op == 'opq' and t.args[0] in ('hp.ang2pix', 'hp.pix2ang.theta', 'hp.pix2ang.phi'):
        return TRUE
    if t.op == 'arccos' and isfin(t.args[0]) is TRUE:
        lo, hi = bounds(t.args[0])
        if lo is not None and hi is not None and lo >= -1 and hi <= 1:
            return TRUE
    if t.op == 'poly' and all(_finpow(a, e) for m, c in t.args for a, e in m):
        return TRUE
    return mk('isfin', t)


def _finpow(a, e):
    if a.op != 'num' and isfin(a) is not TRUE:
        return False
    if e > 0 and e.denominator == 1:
        return True
    if e > 0:
        return bool(nonneg(a))
    lo, hi = bounds(a)
    return (lo is not None and lo > 0) or (e.denominator == 1 and hi is not None and hi < 0)


def el(name, *idx):
    return mk('el', name, *idx)


def draw(site, *idx):
    return mk('draw', site, *idx)


def opq(name, *args):
    return mk('opq', name, *args)


# -------------------------------------------------------------------- binders
def level(t):
    r = t._lvl
    if r is not None:
        return r
    if t.op == 'bv':
        r = t.args[0]
    else:
        r = 0
        for a in t.args:
            r = max(r, _lv(a))
        if t.op in BINDERS:
            pass
    t._lvl = r
    return r


def _lv(a):
    if isinstance(a, T):
        return level(a)
    if isinstance(a, tuple):
        m = 0
        for x in a:
            m = max(m, _lv(x))
        return m
    return 0


_FBV = {}


def freebv(t):
    r = _FBV.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t.args[0],))
        else:
            s = set()
            if level(t):
                for a in t.args:
                    _fb(a, s)
                if t.op in BINDERS:
                    s.discard(t.args[2])
            r = frozenset(s)
        _FBV[t] = r
    return r


def _fb(a, s):
    if isinstance(a, T):
        s |= freebv(a)
    elif isinstance(a, tuple):
        for x in a:
            _fb(x, s)


BINDERS = {'sum', 'maxr', 'minr', 'exists', 'scat', 'argext'}
_BV = {}


def bv(k, n):
    return mk('bv', k, n)


def close(op, n, v, body, *extra):
    """bind index symbol v (range [0,n)) in body"""
    k = max(level(body), level(n), max([_lv(x) for x in extra], default=0)) + 1
    b = bv(k, n)
    # note: bv is not a sym, so its range is found through args[1]
    body2 = subst(body, {v: b})
    ex = tuple(substany(x, {v: b}) for x in extra)
    return mk(op, n, body2, k, *ex)


def open_(t):
    """returns fresh var and opened body (and extras)"""
    n, body, k = t.args[0], t.args[1], t.args[2]
    v = fresh_idx(n)
    m = {bv(k, n): v}
    return v, n, subst(body, m), tuple(substany(x, m) for x in t.args[3:])


def summ(n, v, body):
    """sum_{v=0}^{n-1} body"""
    if body is NAN:
        return NAN
    if is_bool(body):
        body = b2n(body)
    if n.op == 'num' and n.args[0].denominator == 1 and n.args[0] <= 64:
        r = ZERO
        for i in range(int(n.args[0])):
            r = add(r, subst(body, {v: num(i)}))
        return r
    if v not in free_syms(body):
        return mul(n, body)
    d = P(body)
    # group by monomial parts not containing v
    groups = {}
    for m, c in d.items():
        inn = tuple(x for x in m if v in free_syms(x[0]))
        out = tuple(x for x in m if v not in free_syms(x[0]))
        g = groups.setdefault(out, {})
        _padd(g, inn, c)
    res = ZERO
    for out, g in groups.items():
        # telescoping
        tele = ZERO
        changed = True
        while changed:
            changed = False
            for m, c in list(g.items()):
                if not m:
                    continue
                tm = mkpoly({m: F(1)})
                sh = subst(tm, {v: add(v, ONE)})
                shd = P(sh)
                if len(shd) == 1:
                    (m2, c2), = shd.items()
                    if m2 != m and m2 in g and (g[m2] / c2) * c < 0:
                        # c*tm(i) + c'*tm(i+1)
                        k = min(abs(c), abs(g[m2] / c2))
                        s = 1 if c > 0 else -1
                        # remove s*k*tm and -s*k*sh
                        _padd(g, m, -s * k)
                        _padd(g, m2, s * k * c2)
                        tele = add(tele, scale(sub(subst(tm, {v: ZERO}), subst(tm, {v: n})), s * k))
                        changed = True
                        break
        inner = tele
        body1 = {}
        for m, c in g.items():
            if m == ():
                inner = add(inner, scale(n, c))
            elif m == ((v, F(1)),):
                inner = add(inner, scale(mul(n, sub(n, ONE)), c / 2))
            elif m == ((v, F(2)),):
                inner = add(inner, scale(mul(mul(n, sub(n, ONE)), sub(scale(n, 2), ONE)), c / 6))
            else:
                inner = add(inner, scale(_sum1(n, v, mkpoly({m: F(1)})), c))
        res = add(res, mul(mkpoly({out: F(1)}), inner))
    return res


def _sum1(n, v, body):
    # body: single monomial containing v.  pick delta: ite(eq0(v - e), a, 0)
    if body.op == 'ite':
        c, a, b = body.args
        if a is ZERO or b is ZERO:
            cc = c if b is ZERO else bnot(c)
            val = a if b is ZERO else b
            parts = list(cc.args) if cc.op == 'and' else [cc]
            for p in parts:
                if p.op == 'eq0':
                    co, rest = linear_in(p.args[0], v)
                    if co is not None and co in (ONE, MONE):
                        e = neg(rest) if co is ONE else rest
                        others = band(*[x for x in parts if x is not p])
                        g = band(bnot(lt0(e)), lt0(sub(e, n)), subst(others, {v: e}))
                        if is_int(e):
                            return ite(g, subst(val, {v: e}), ZERO)
            # v-independent conjuncts lift out
            ind = [x for x in parts if v not in free_syms(x)]
            if ind:
                dep = [x for x in parts if v in free_syms(x)]
                return ite(band(*ind), summ(n, v, ite(band(*dep), val, ZERO) if dep else val), ZERO)
        elif v not in free_syms(c):
            return ite(c, summ(n, v, a), summ(n, v, b))
    return close('sum', n, v, body)


def extremum(op, n, v, body):
    if n.op == 'num' and n.args[0] <= 64:
        r = subst(body, {v: ZERO})
        for i in range(1, int(n.args[0])):
            x = subst(body, {v: num(i)})
            r = fmax(r, x) if op == 'maxr' else fmin(r, x)
        return r
    if v not in free_syms(body):
        return body
    # monotone in v (cumulative sums of unknown sign are not) -> endpoints
    d = sub(subst(body, {v: add(v, ONE)}), body)
    if nonneg(d):
        return subst(body, {v: sub(n, ONE) if op == 'maxr' else ZERO})
    if nonneg(neg(d)):
        return subst(body, {v: ZERO if op == 'maxr' else sub(n, ONE)})
    return close(op, n, v, body)


def exists(n, v, c):
    if c in (TRUE, FALSE):
        return c
    if n.op == 'num' and n.args[0] <= 64:
        return bor(*[subst(c, {v: num(i)}) for i in range(int(n.args[0]))])
    if v not in free_syms(c):
        return c
    return close('exists', n, v, c)


# --------------------------------------------------------------- substitution
def substany(a, m, memo=None):
    if isinstance(a, T):
        return subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(substany(x, m, memo) for x in a)
    return a


def subst(t, m, memo=None):
    """capture-avoiding substitution of symbols by terms (re-normalising)"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _rebuild(t, memo, m)


_CONS = {}


def _touches(t, m):
    fs = free_syms(t)
    cs = None
    for k in m:
        if k.op == 'sym':
            if k in fs:
                return True
        elif k.op == 'bv':
            if level(t) >= k.args[0]:
                return True
        else:
            if cs is None:
                cs = conds_of(t)
            if k in cs or k is t or k.op not in BOOL_OPS:
                return True
    return False


def _rebuild(t, memo, m):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not _touches(t, m):
        memo[t] = t
        return t
    op = t.op
    if op in ('num', 'pi', 'e', 'nan', 'inf', 'true', 'false', 'bv', 'top', 'btop', 'bsym'):
        r = t
    elif op == 'sym':
        lo, hi = t.args[2], t.args[3]
        lo2 = _rebuild(lo, memo, m) if lo is not None else None
        hi2 = _rebuild(hi, memo, m) if hi is not None else None
        r = mk('sym', t.args[0], t.args[1], lo2, hi2)
    elif op == 'poly':
        # fast path accumulate
        r = ZERO
        for mono, c in t.args:
            x = num(c)
            for a, e in mono:
                if x is ZERO:
                    break
                x = mul(x, powq(_rebuild(a, memo, m), e))
            r = add(r, x)
    elif op in BINDERS:
        # bound variable is bv(k,n); open, substitute, close
        v, n, body, ex = open_(t)
        memo2 = {}
        n2 = _rebuild(n, memo, m)
        v2 = v
        if n2 is not n:
            v2 = fresh_idx(n2)
            body = subst(body, {v: v2})
            ex = substany(ex, {v: v2})
        body2 = _rebuild(body, memo2, m)
        ex2 = tuple(_rb_any(x, memo2, m) for x in ex)
        r = rebind(op, n2, v2, body2, ex2)
    else:
        args = tuple(_rb_any(a, memo, m) for a in t.args)
        r = cons(op, args)
    memo[t] = r
    return r


def _rb_any(a, memo, m):
    if isinstance(a, T):
        return _rebuild(a, memo, m)
    if isinstance(a, tuple):
        return tuple(_rb_any(x, memo, m) for x in a)
    return a


def rebind(op, n, v, body, ex):
    if op == 'sum':
        return summ(n, v, body)
    if op in ('maxr', 'minr'):
        return extremum(op, n, v, body)
    if op == 'exists':
        return exists(n, v, body)
    return close(op, n, v, body, *ex)


def cons(op, a):
    if op == 'ite':
        return ite(*a)
    if op == 'lt0':
        return lt0(*a)
    if op == 'eq0':
        return eq0(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'and':
        return band(*a)
    if op == 'cos':
        return cos(*a)
    if op == 'sin':
        return sin(*a)
    if op == 'arccos':
        return arccos(*a)
    if op == 'arctan2':
        return arctan2(*a)
    if op == 'floor':
        return floor(*a)
    if op == 'trunc':
        return trunc(*a)
    if op == 'abs':
        return absv(*a)
    if op == 'sign':
        return sign(*a)
    if op == 'log10':
        return log10(*a)
    if op == 'isfin':
        return isfin(*a)
    if op == 'pow10':
        return power(num(10), a[0])
    if op == 'pow':
        return power(*a)
    if op == 'div0':
        return div(a[0], ZERO)
    if op == 'let':
        return a[0] if len(P(a[0])) * 4 < LETSIZE else mk('let', a[0])
    return mk(op, *a)


# ------------------------------------------------------------------ equality
def clear_denominators(t):
    """multiply t by all its denominators; returns expanded numerator"""
    for _ in range(12):
        worst = {}
        for m, c in P(t).items():
            for a, e in m:
                if e < 0:
                    worst[a] = min(worst.get(a, F(0)), e)
        if not worst:
            return t
        a, e = min(worst.items(), key=lambda x: x[0].id)
        k = -e
        # multiply by a^ceil(k)
        import math
        kk = F(math.ceil(k))
        d = ZERO
        for m, c in P(t).items():
            dm = dict(m)
            ne = dm.get(a, F(0)) + kk
            m2 = tuple(x for x in m if x[0] is not a)
            base = mkpoly({m2: c})
            d = add(d, mul(base, powq(a, ne)))
        t = d
    return t


def expand_trig(t):
    """expand sin/cos of sums into products over the argument's monomials"""
    def ex(kind, arg):
        items = list(P(arg).items())
        if len(items) <= 1:
            return None
        a = mkpoly(dict(items[:1]))
        b = mkpoly(dict(items[1:]))
        ca, sa = cos(a), sin(a)
        cb = ex('cos', b) or cos(b)
        sb = ex('sin', b) or sin(b)
        if kind == 'cos':
            return sub(mul(ca, cb), mul(sa, sb))
        return add(mul(sa, cb), mul(ca, sb))
    m = {}
    for a in atoms(t):
        if a.op in ('sin', 'cos'):
            r = ex(a.op, a.args[0])
            if r is not None:
                m[a] = r
    if not m:
        return t
    return _replace_atoms(t, m)


def _replace_atoms(t, m):
    r = ZERO
    for mono, c in P(t).items():
        x = num(c)
        for a, e in mono:
            b = m.get(a)
            if b is None and a.op == 'poly':
                b = _replace_atoms(a, m)
            x = mul(x, powq(b if b is not None else a, e))
        r = add(r, x)
    return r


def atoms(t):
    s = set()
    for mono, c in P(t).items():
        for a, e in mono:
            if a.op == 'poly':
                s |= atoms(a)
            else:
                s.add(a)
    return s


def zero_nf(t):
    """True if t normalises to 0"""
    if t is ZERO:
        return True
    t = clear_denominators(t)
    if t is ZERO:
        return True
    if any(a.op in ('sin', 'cos') for a in atoms(t)):
        t = expand_trig(t)
        if t is ZERO:
            return True
        t = clear_denominators(t)
        if t is ZERO:
            return True
    # factor through eliminate sqrt: group by fractional monomials is automatic
    return False


def split_conds(t):
    """atomic conditions (no bound variables) gating t"""
    out = []
    for c in conds_of(t):
        if c.op in ('lt0', 'eq0', 'bsym', 'isfin', 'bel', 'exists', 'btop') and not freebv(c):
            out.append(c)
    out.sort(key=lambda c: c.id)
    return out


class Ctx:
    """conjunction of assumed atomic conditions, with pairwise contradiction test"""

    def __init__(self, facts=()):
        self.facts = list(facts)

    def plus(self, c, val):
        out = []
        for f, v in self.facts:
            if f is not c and c in conds_of(f):
                f2 = assume(f, c, val)
                if f2 is TRUE or f2 is FALSE:
                    if f2 is not (TRUE if v else FALSE):
                        return Ctx([(TRUE, False)])
                    continue
                while f2.op == 'not':
                    f2, v = f2.args[0], not v
                f = f2
            out.append((f, v))
        return Ctx(out + [(c, val)])

    def linear(self):
        lin = []
        for c, v in self.facts:
            if c.op == 'lt0':
                if v:
                    lin.append((c.args[0], True))
                else:
                    lin.append((neg(c.args[0]), False))
            elif c.op == 'eq0' and v:
                lin.append((c.args[0], False))
                lin.append((neg(c.args[0]), False))
        return lin

    def env(self, lin):
        """numeric bounds of atoms implied by facts  c*atom + rest <(=) 0  (rest bounded)"""
        env = {}
        for _ in range(3):
            ch = False
            for p, s in lin:
                items = P(p)
                if len(items) > 5:
                    continue
                for m, c in items.items():
                    if len(m) != 1:
                        continue
                    a, e = m[0]
                    if e not in (1, F(1, 2)) or a is PI:
                        continue
                    rest = dict(items)
                    del rest[m]
                    lo = bounds_env(mkpoly(rest), env)[0]
                    if lo is None:
                        continue
                    old = env.get(a) or bounds(a)
                    v = -lo / c
                    if e != 1:
                        if c > 0 and v >= 0:
                            v = v * v
                        elif c < 0:
                            v = v * v if v > 0 else F(0)
                        else:
                            continue
                    new = (old[0], v if old[1] is None or v < old[1] else old[1]) if c > 0 else (v if old[0] is None or v > old[0] else old[0], old[1])
                    if new != old:
                        env[a] = new
                        ch = True
            if not ch:
                break
        return env

    def contradictory(self):
        for c, v in self.facts:
            if c is TRUE and not v or c is FALSE and v:
                return True
        # linear facts as  p < 0  (strict) or p <= 0
        lin = self.linear()
        for i, (p, s) in enumerate(lin):
            lo, hi = bounds(p)
            if lo is not None and (lo > 0 or (lo == 0 and s)):
                return True
            if s and nonneg(p):
                return True
            for q, s2 in lin[:i]:
                r = add(p, q)
                if r.op == 'num':
                    if r.args[0] > 0 or (r.args[0] == 0 and (s or s2)):
                        return True
                else:
                    if bounds(r)[0] is not None and (bounds(r)[0] > 0 or (bounds(r)[0] == 0 and (s or s2))):
                        return True
                    if nonneg(r) and (s or s2):
                        return True
        # triples
        n = len(lin)
        if n <= 10:
            for i in range(n):
                for j in range(i):
                    for k in range(j):
                        r = add(add(lin[i][0], lin[j][0]), lin[k][0])
                        if r.op == 'num' and (r.args[0] > 0 or (r.args[0] == 0 and (lin[i][1] or lin[j][1] or lin[k][1]))):
                            return True
        # pairs with symbolic multipliers: bound an atom by one fact, substitute it in the other
        if n <= 8:
            for i, (q, s2) in enumerate(lin):
                qi = P(q)
                if len(qi) > 5:
                    continue
                for m, k in qi.items():
                    if len(m) != 1 or m[0][1] != 1 or m[0][0] is PI:
                        continue
                    a = m[0][0]
                    rq = scale(sub(q, scale(a, k)), F(-1) / k)
                    for j, (p, s) in enumerate(lin):
                        if j == i or not s or len(P(p)) > 8:
                            continue
                        co, rest = linear_in(p, a)
                        if co is None or co is ZERO or co.op == 'num':
                            continue
                        if not (nonneg(co) if k < 0 else nonneg(neg(co))):
                            continue
                        if nonneg(add(mul(co, rq), rest)):
                            return True
        env = self.env(lin)
        if env:
            for a, (lo, hi) in env.items():
                if lo is not None and hi is not None and lo > hi:
                    return True
            for p, s in lin:
                lo, hi = bounds_env(p, env)
                if lo is not None and (lo > 0 or (lo == 0 and s)):
                    return True
            for c, v in self.facts:
                if c.op == 'eq0' and not v:
                    lo, hi = bounds_env(c.args[0], env)
                    if lo is not None and lo == hi == 0:
                        return True
        return False


def bounds_env(t, env):
    if not env:
        return bounds(t)
    if t in env:
        return env[t]
    if t.op == 'poly':
        lo, hi = F(0), F(0)
        for m, c in t.args:
            r = (F(1), F(1))
            for a, e in m:
                r = _imul(r, _ipow(bounds_env(a, env), e))
            if c < 0:
                r = (None if r[1] is None else r[1] * c, None if r[0] is None else r[0] * c)
            else:
                r = (None if r[0] is None else r[0] * c, None if r[1] is None else r[1] * c)
            lo = None if lo is None or r[0] is None else lo + r[0]
            hi = None if hi is None or r[1] is None else hi + r[1]
        b = bounds(t)
        if b[0] is not None and (lo is None or b[0] > lo):
            lo = b[0]
        if b[1] is not None and (hi is None or b[1] < hi):
            hi = b[1]
        return lo, hi
    if t.op == 'abs':
        lo, hi = bounds_env(t.args[0], env)
        b = bounds(t)
        if lo is not None and lo >= 0:
            return lo, hi
        if lo is not None and hi is not None:
            m = max(abs(lo), abs(hi))
            return (b[0] if hi > 0 else -hi), m
        return b
    return bounds(t)


DEADLINE = [None]


def expired():
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]



def prove_zero(t, ctx=None, depth=0, budget=None):
    """True if t == 0 for every truth assignment of its gates."""
    if budget is None:
        budget = [4000]
    if zero_nf(t):
        return True
    if depth > 24 or budget[0] <= 0 or expired():
        return False
    budget[0] -= 1
    ctx = ctx or Ctx()
    sg = sign_atom((t,), ctx)
    if sg is not None:
        for nctx, (t2,) in sign_cases(sg, (t,), ctx):
            if nctx.contradictory():
                continue
            if not prove_zero(t2, nctx, depth + 1, budget):
                return False
        return True
    conds = split_conds(t)
    if not conds:
        fs = {c for c, v in ctx.facts}
        conds = sorted({c for f in fs for c in split_conds(f)} - fs, key=lambda c: c.id)
        if not conds or depth > 16:
            return False
    # equalities implied by facts: substitute
    c = conds[0]
    for val in (True, False):
        nctx = ctx.plus(c, val)
        if nctx.contradictory():
            continue
        t2 = assume(t, c, val)
        if val and c.op == 'eq0':
            t2 = use_equality(t2, c.args[0])
        if not prove_zero(t2, nctx, depth + 1, budget):
            return False
    return True


def sign_atom(ts, ctx):
    """an innermost sign/abs atom of the terms or facts"""
    best = None
    seen = set()
    st = list(ts) + [c for c, v in ctx.facts]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ('sign', 'abs') and not freebv(x) and (best is None or x.id < best.id):
                best = x
            st.extend(x.args)
    return best


def sign_cases(at, ts, ctx):
    u = at.args[0]
    for fs, sv in (([(lt0(u), True)], MONE), ([(lt0(neg(u)), True)], ONE), ([(eq0(u), True)], ZERO)):
        if any(c is FALSE for c, v in fs):
            continue
        m = {mk('sign', u): sv, mk('abs', u): mul(sv, u)}
        memo = {}
        facts = []
        bad = False
        for c, v in ctx.facts + fs:
            c2 = _rebuild(c, memo, m)
            if c2 is (FALSE if v else TRUE):
                bad = True
                break
            if c2 in (TRUE, FALSE):
                continue
            if c2.op == 'and' and v:
                facts += [(x.args[0], False) if x.op == 'not' and x.args[0].op != 'and' else (x, True) for x in c2.args]
            elif c2.op == 'not':
                facts.append((c2.args[0], not v))
            else:
                facts.append((c2, v))
        if bad:
            continue
        t2 = [_rebuild(t, memo, m) for t in ts]
        for c, v in facts:
            t2 = [assume(t, c, v) for t in t2]
        if sv is ZERO:
            t2 = [use_equality(t, u) for t in t2]
        yield Ctx(facts), t2


def use_equality(t, p):
    """p == 0: eliminate a symbol linear with constant coefficient"""
    for s in sorted(poly_syms(p) | {a for a in atoms(p) if a.op in ('el', 'iel')}, key=lambda x: -x.id):
        if s.op == 'sym':
            co, rest = linear_in(p, s)
            if co is not None and co.op == 'num' and co.args[0] != 0:
                e = scale(rest, -1 / co.args[0])
                return subst(t, {s: e})
    return t


def prove_equal(a, b, facts=()):
    if a is b:
        return True
    if is_bool(a) and is_bool(b):
        return prove_zero(sub(b2n(a), b2n(b)), Ctx(facts))
    if (a is NAN) != (b is NAN):
        a2, b2 = a, b
        if a.op != 'ite' and b.op != 'ite':
            return False
    return prove_eq2(a, b, Ctx(facts), 0, [3000])


def prove_eq2(a, b, ctx, depth, budget):
    """case split handling NaN leaves"""
    if a is b:
        return True
    if budget[0] <= 0 or depth > 24 or expired():
        return False
    budget[0] -= 1
    sg = sign_atom((a, b), ctx)
    if sg is not None:
        for nctx, (a2, b2) in sign_cases(sg, (a, b), ctx):
            if nctx.contradictory():
                continue
            if not prove_eq2(a2, b2, nctx, depth + 1, budget):
                return False
        return True
    if a.op == 'ite' and not freebv(a.args[0]) or b.op == 'ite' and not freebv(b.args[0]):
        src = a if a.op == 'ite' and not freebv(a.args[0]) else b
        c = pick_atom(src.args[0])
        if c is not None:
            for val in (True, False):
                n = ctx.plus(c, val)
                if n.contradictory():
                    continue
                a2, b2 = assume(a, c, val), assume(b, c, val)
                if val and c.op == 'eq0':
                    a2, b2 = use_equality(a2, c.args[0]), use_equality(b2, c.args[0])
                if not prove_eq2(a2, b2, n, depth + 1, budget):
                    return False
            return True
    if a is NAN or b is NAN:
        return False
    return prove_zero(sub(a, b), ctx, depth, budget)


def pick_atom(c):
    if c.op in ('lt0', 'eq0', 'bsym', 'isfin', 'bel', 'exists', 'btop'):
        if c.op in ('lt0', 'eq0') and any(a.op == 'ite' for a in atoms(c.args[0])):
            inner = [x for x in split_conds(c) if x is not c]
            if inner:
                return inner[0]
        return c
    for x in c.args:
        if isinstance(x, T) and is_bool(x):
            r = pick_atom(x)
            if r is not None:
                return r
    return None


# ---------------------------------------------------------------------- show
def show(t, d=0):
    if d > 14:
        return '…'
    o = t.op
    if o == 'num':
        return str(t.args[0])
    if o == 'sym':
        return t.args[0]
    if o in ('pi', 'e', 'nan', 'inf', 'true', 'false'):
        return o
    if o == 'poly':
        out = []
        for m, c in t.args:
            fs = []
            for a, e in m:
                s = show(a, d + 1)
                if a.op == 'poly':
                    s = '(%s)' % s
                if e != 1:
                    s += '^%s' % e
                fs.append(s)
            if not fs:
                out.append(str(c))
            elif c == 1:
                out.append('*'.join(fs))
            elif c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append('%s*%s' % (c, '*'.join(fs)))
        return ' + '.join(out).replace('+ -', '- ')
    if o == 'lt0':
        return '(%s < 0)' % show(t.args[0], d + 1)
    if o == 'eq0':
        return '(%s == 0)' % show(t.args[0], d + 1)
    if o == 'not':
        return '!%s' % show(t.args[0], d + 1)
    if o == 'and':
        return '(' + ' & '.join(show(x, d + 1) for x in t.args) + ')'
    if o == 'ite':
        return '[%s ? %s : %s]' % tuple(show(x, d + 1) for x in t.args)
    if o == 'bv':
        return '#%d' % t.args[0]
    if o in ('sum', 'maxr', 'minr', 'exists'):
        return '%s{#%d<%s}(%s)' % (o, t.args[2], show(t.args[0], d + 1), show(t.args[1], d + 1))
    if o in ('el', 'iel', 'draw', 'opq'):
        return '%s%s[%s]' % ('' if o in ('el', 'iel') else o + ':', t.args[0],
                             ', '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.args[1:]))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.args))


# ------------------------------------------------------- partition of unity
def _indicator(a):
    """[v == k] -> (v, k)"""
    if a.op != 'ite' or a.args[1] is not ONE or a.args[2] is not ZERO or a.args[0].op != 'eq0':
        return None
    d = P(a.args[0].args[0])
    k = d.pop((), F(0))
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    v = m[0][0]
    if not (v.op == 'opq' and v.args[0].startswith('hp.ang2pix')):
        return None
    return v, -k / c


def _unity(t):
    """sum over all values k of v of [v == k]*x  ->  x"""
    groups = {}
    for m, c in t.args:
        for a, e in m:
            if e == 1:
                r = _indicator(a)
                if r is not None:
                    rest = tuple(x for x in m if x[0] is not a)
                    groups.setdefault((r[0], rest, c), {})[r[1]] = m
    d = None
    for (v, rest, c), ks in groups.items():
        lo, hi = bounds(v)
        if lo is None or hi is None or len(ks) != hi - lo + 1 or not all(lo <= k <= hi for k in ks):
            continue
        if d is None:
            d = dict(t.args)
        if not all(m in d for m in ks.values()):
            continue
        for m in ks.values():
            del d[m]
        d[rest] = d.get(rest, F(0)) + c
    return None if d is None else mkpoly(d)


def partition(t):
    """use that the conditions v == 0, ..., v == n-1 of a pixel number are a partition"""
    for _ in range(6):
        m, seen, st = {}, set(), [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == 'poly' and len(x.args) >= 12:
                    r = _unity(x)
                    if r is not None:
                        m[x] = r
                st.extend(x.args)
        if not m:
            return t
        t2 = _rebuild(t, {}, m)
        if t2 is t:
            return t
        t = t2
    return t


# ------------------------------------------- pixels compared by direction
def _split_trig(a):
    """sin/cos(q*pi + r) with q a multiple of 1/6 or 1/4 -> in sin r, cos r"""
    q, r = _pi_split(a.args[0])
    if q == 0 or r is ZERO or (q * 12).denominator != 1:
        return None
    s, c, cq, sq = sin(r), cos(r), cos(scale(PI, q)), sin(scale(PI, q))
    if a.op == 'cos':
        return sub(mul(cq, c), mul(sq, s))
    return add(mul(sq, c), mul(cq, s))


def _subterms(t, pred):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if pred(x):
                out.append(x)
            st.extend(x.args)
    return out


def split_trig(t):
    m = {}
    for a in _subterms(t, lambda x: x.op in ('sin', 'cos')):
        r = _split_trig(a)
        if r is not None:
            m[a] = r
    return _rebuild(t, {}, m) if m else t


def directions(t):
    """ang2pix(theta, phi) depends on cos theta, cos phi and sin phi only"""
    m = {}
    for a in _subterms(t, lambda x: x.op == 'opq' and x.args[0].startswith('hp.ang2pix')):
        if len(a.args) == 4 and a.args[2].op not in ('sym', 'el') and not freebv(a):
            m[a] = opq('pix' + a.args[0][10:], a.args[1], *(split_trig(x) for x in (cos(a.args[2]), cos(a.args[3]), sin(a.args[3]))))
    return _rebuild(t, {}, m) if m else t


_CANON = {}


def canon(t):
    r = _CANON.get(t)
    if r is None:
        r = directions(partition(t))
        _CANON[t] = r
    return r
