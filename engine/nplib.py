"""Models of builtins, numpy, healpy and scipy operations over abstract values."""
import ast
import itertools
import struct
from fractions import Fraction as F
from . import terms as tm
from . import ball, hpx, interval
from .terms import T, num, TRUE, FALSE, ZERO, ONE, band, bnot, bor, ite, add, sub, mul, div, eq0, lt0
from .values import *

UNDEFT = tm.mk('undef')
UNSEEN = num(F('-1.6375e+30'))


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def unravel(k, shape):
    out = []
    for s in reversed(shape):
        out.append(k % s)
        k //= s
    return tuple(reversed(out))


def ravel(ix, shape):
    k = 0
    for i, s in zip(ix, shape):
        k = k * s + i
    return k


def n2(t):
    return tm.b2n(t) if tm.is_bool(t) else t


def cmp_lt(a, b):
    d = sub(n2(a), n2(b))
    r = lt0(d)
    return band(r, bnot(tm.nanc(d))) if tm.has_nan(d) else r


def cmp_eq(a, b):
    if tm.is_bool(a) and tm.is_bool(b):
        return tm.bite(a, b, bnot(b))
    return eq0(sub(n2(a), n2(b)))


def isnan(x):
    if x is tm.NAN:
        return TRUE
    if x.op == 'ite' and not tm.is_bool(x):
        return tm.bite(x.args[0], isnan(x.args[1]), isnan(x.args[2]))
    if tm.isfin(x) is TRUE:
        return FALSE
    return bnot(tm.isfin(x))


def rint(x):
    if tm.is_int(x):
        return x
    if x.op == 'num':
        return num(round(x.args[0]))
    return tm.floor(add(x, tm.HALF))


def rounded(x, d):
    """to d decimals"""
    if d.op != 'num':
        return tm.opq('round', x, d)
    s = num(F(10)**int(d.args[0]))
    return div(rint(mul(x, s)), s)


def logical(t):
    return tm.truth(t)


def atan(x):
    return tm.arctan2(x, ONE)


def fmod(a, b):
    return sub(a, mul(b, tm.trunc(div(a, b))))


def opq1(name):
    return lambda *a: tm.opq(name, *[n2(x) for x in a])


RAD = div(tm.PI, num(180))
DEG = div(num(180), tm.PI)

# name -> (arity, fn, result dtype ('f','b','i','p' = promote))
UF = {
    'sin': (1, tm.sin, 'f'), 'cos': (1, tm.cos, 'f'), 'tan': (1, lambda x: div(tm.sin(x), tm.cos(x)), 'f'),
    'arcsin': (1, tm.arcsin, 'f'), 'arccos': (1, tm.arccos, 'f'), 'arctan': (1, atan, 'f'),
    'arctan2': (2, tm.arctan2, 'f'), 'sqrt': (1, tm.sqrt, 'f'), 'square': (1, lambda x: mul(x, x), 'p'),
    'abs': (1, tm.absv, 'p'), 'absolute': (1, tm.absv, 'p'), 'fabs': (1, tm.absv, 'f'),
    'floor': (1, tm.floor, 'f'), 'ceil': (1, tm.ceil, 'f'), 'trunc': (1, tm.trunc, 'f'), 'rint': (1, rint, 'f'),
    'fix': (1, tm.trunc, 'f'), 'sign': (1, tm.sign, 'p'), 'negative': (1, tm.neg, 'p'), 'positive': (1, lambda x: x, 'p'),
    'log10': (1, tm.log10, 'f'), 'log': (1, tm.log, 'f'), 'exp': (1, tm.exp, 'f'), 'log2': (1, lambda x: div(tm.log10(x), tm.log10(num(2))), 'f'),
    'log1p': (1, lambda x: tm.log(add(ONE, x)), 'f'), 'cosh': (1, lambda x: tm.scale(add(tm.exp(x), tm.exp(tm.neg(x))), F(1, 2)), 'f'), 'sinh': (1, lambda x: tm.scale(sub(tm.exp(x), tm.exp(tm.neg(x))), F(1, 2)), 'f'), 'tanh': (1, lambda x: div(sub(tm.exp(x), tm.exp(tm.neg(x))), add(tm.exp(x), tm.exp(tm.neg(x)))), 'f'),
    'cbrt': (1, tm.cbrt, 'f'), 'expm1': (1, lambda x: sub(tm.exp(x), ONE), 'f'), 'exp2': (1, lambda x: tm.power(num(10), mul(x, tm.log10(num(2)))), 'f'),
    'deg2rad': (1, lambda x: mul(x, RAD), 'f'), 'radians': (1, lambda x: mul(x, RAD), 'f'),
    'rad2deg': (1, lambda x: mul(x, DEG), 'f'), 'degrees': (1, lambda x: mul(x, DEG), 'f'),
    'add': (2, add, 'p'), 'subtract': (2, sub, 'p'), 'multiply': (2, mul, 'p'), 'divide': (2, div, 'f'),
    'true_divide': (2, div, 'f'), 'floor_divide': (2, lambda a, b: tm.floor(div(a, b)), 'p'),
    'mod': (2, tm.mod, 'p'), 'remainder': (2, tm.mod, 'p'), 'fmod': (2, fmod, 'p'), 'power': (2, tm.power, 'p'),
    'float_power': (2, tm.power, 'f'), 'hypot': (2, lambda a, b: tm.sqrt(add(mul(a, a), mul(b, b))), 'f'),
    'maximum': (2, tm.fmax, 'p'), 'minimum': (2, tm.fmin, 'p'), 'fmax': (2, tm.fmax, 'p'), 'fmin': (2, tm.fmin, 'p'),
    'isnan': (1, isnan, 'b'), 'isfinite': (1, tm.isfin, 'b'), 'isinf': (1, lambda x: band(bnot(tm.isfin(x)), bnot(isnan(x))), 'b'),
    'logical_and': (2, lambda a, b: band(a, b), 'b'), 'logical_or': (2, lambda a, b: bor(a, b), 'b'),
    'logical_not': (1, lambda a: bnot(tm.truth(a)), 'b'),
    'logical_xor': (2, lambda a, b: bnot(cmp_eq(tm.truth(a), tm.truth(b))), 'b'),
    'equal': (2, cmp_eq, 'b'), 'not_equal': (2, lambda a, b: bnot(cmp_eq(a, b)), 'b'), 'less': (2, cmp_lt, 'b'),
    'less_equal': (2, lambda a, b: tm.le0(sub(n2(a), n2(b))), 'b'), 'greater': (2, lambda a, b: cmp_lt(b, a), 'b'),
    'greater_equal': (2, lambda a, b: tm.le0(sub(n2(b), n2(a))), 'b'),
    'conj': (1, lambda x: x, 'p'), 'reciprocal': (1, lambda x: div(ONE, x), 'f'), 'nan_to_num': (1, lambda x: ite(isnan(x), ZERO, x), 'p'),
    'round_': (1, rint, 'p'),
}
CMP = {'Eq': 'equal', 'NotEq': 'not_equal', 'Lt': 'less', 'LtE': 'less_equal', 'Gt': 'greater', 'GtE': 'greater_equal'}
BIN = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide', 'FloorDiv': 'floor_divide', 'Mod': 'mod', 'Pow': 'power'}

KNOWN_NP_CONST = {'pi': tm.PI, 'nan': tm.NAN, 'NaN': tm.NAN, 'inf': tm.INF, 'newaxis': None, 'e': tm.E}


class Args(list):
    """positional arguments; records which were looked at"""
    def __init__(self, a):
        list.__init__(self, a)
        self.seen = set()

    def __getitem__(self, k):
        if isinstance(k, slice):
            self.seen.update(range(*k.indices(len(self))))
        else:
            self.seen.add(k % len(self) if len(self) else k)
        return list.__getitem__(self, k)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)


class Kw(dict):
    """keyword arguments; records which were looked at"""
    def __init__(self, a):
        dict.__init__(self, a)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)


def I_strip(lib, v):
    return lib.I.strip(v)


def I_(lib, a):
    return lib.I.dtype(a) == 'i'


class Narrow(str):
    """kind of a type that cannot hold every value of its kind: bits of an integer type, or a short float"""
    def __new__(cls, kind, name):
        r = str.__new__(cls, kind)
        r.name = name
        r.bits = int(''.join(ch for ch in name if ch.isdigit()))
        return r

    def fit(self, v):
        if not isinstance(v, T) or v.op == 'bool':
            return v
        if self == 'f':
            if v.op == 'num' and v.args[0].denominator & (v.args[0].denominator - 1) == 0 and abs(v.args[0].numerator) < 2**11:
                return v
            if v.op == 'num':
                try:
                    return num(F(struct.unpack('<' + 'ef'[self.bits == 32], struct.pack('<' + 'ef'[self.bits == 32], float(v.args[0])))[0]))
                except (OverflowError, ValueError):
                    return tm.INF
            return v
        n = 2**self.bits
        h = 0 if self.name[0] == 'u' else n // 2
        if v.op == 'num':
            return num((int(v.args[0]) + h) % n - h)
        if self.bits > 16:
            return v
        return sub(v, mul(num(n), tm.floor(div(add(v, num(h)), num(n)))))


DTYPES = {'float64': 'f', 'float32': 'f', 'float': 'f', 'double': 'f', 'int': 'i', 'int64': 'i', 'int32': 'i', 'intp': 'i',
          'bool': 'b', 'bool_': 'b', 'object': 'o', 'object_': 'o', 'uint8': 'i', 'int8': 'i', 'integer': 'i', 'floating': 'f', 'longlong': 'i',
          'uint32': 'i', 'uint64': 'i', 'int16': 'i', 'float16': 'f', 'uint16': 'i', 'half': 'f', 'single': 'f', 'byte': 'i', 'ubyte': 'i', 'short': 'i', 'ushort': 'i', 'intc': 'i',
          'int_': 'i', 'float_': 'f'}
ALIAS = {'half': 'float16', 'single': 'float32', 'byte': 'int8', 'ubyte': 'uint8', 'short': 'int16', 'ushort': 'uint16', 'intc': 'int32',
         'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'f2': 'float16', 'f4': 'float32', 'B': 'uint8', 'b': 'int8', 'h': 'int16'}
for _n in list(DTYPES) + list(ALIAS):
    _m = ALIAS.get(_n, _n)
    if _m[-2:] in ('16', '32') or _m[-1] == '8':
        DTYPES[_n] = Narrow('f' if _m[0] == 'f' else 'i', _m)


def one_atom(c):
    """the draw or symbol of a condition  k*symbol + number < 0"""
    if c.op != 'lt0':
        return None
    r = None
    for m in tm.P(c.args[0]):
        if not m:
            continue
        if r is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].op not in ('sym', 'draw'):
            return None
        r = m[0][0]
    return r


class Lib:
    def __init__(self, I):
        self.I = I
        self.driver = {}
        self.envs = {}
        self.stream = None      # numbers the generator yields, if given
        self.extents = {}       # number of elements -> presence of the slots it was counted from

    # ------------------------------------------------------------ conversions
    def cint(self, t):
        if isinstance(t, Arr) and len(t.pos) == 1 and t.guards is None:
            t = self.I.vals(t)[0]
        if isinstance(t, T):
            if t is TRUE or t is FALSE:
                return 1 if t is TRUE else 0
            if t.op == 'num' and t.args[0].denominator == 1:
                return int(t.args[0])
            if t.op == 'num':
                raise PyRaise('TypeError', 'non-integer size / index')
            raise Unsup('symbolic extent %s' % str(t)[:80])
        if isinstance(t, (tuple, ListV)):
            raise Unsup('sequence where an integer was expected')
        if t is None or isinstance(t, str):
            raise PyRaise('TypeError', 'integer expected')
        if isinstance(t, Choice):
            t2 = self.I.strip(t)
            if not isinstance(t2, Choice):
                return self.cint(t2)
        raise Unsup('extent')

    def dt_of_vals(self, vals):
        if any(not isinstance(v, T) for v in vals):
            return 'o'
        if vals and all(tm.is_bool(v) for v in vals):
            return 'b'
        if len(vals) == 1 and type(vals[0]) is tm.Whole:
            return 'i'
        if vals and all(tm.is_int(v) for v in vals):
            return 'u'
        return 'f'

    def asarr(self, v, copy=False):
        I = self.I
        v = I.strip(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, T):
            return I.new_arr((), (tm.plain(v),), self.dt_of_vals((v,)))
        if isinstance(v, RangeV):
            v = I.iterate(v)
            return I.new_arr((len(v),), v, 'i')
        if isinstance(v, (ListV, tuple)):
            its = I.items(v) if isinstance(v, ListV) else v
            return self.stack_list([I.strip(x) for x in its])
        if isinstance(v, Choice):
            a, b = self.asarr(v.a), self.asarr(v.b)
            if a.shape != b.shape or a.guards != b.guards:
                raise Unsup('gated arrays of different shape')
            va, vb = I.vals(a), I.vals(b)
            return I.new_arr(a.shape, [I.merge_val(v.c, x, y) for x, y in zip(va, vb)], I.dtype(a) if I.dtype(a) == I.dtype(b) else 'f', a.guards)
        if v is None or isinstance(v, (str, Obj, DictV)):
            return I.new_arr((), (v,), 'o')
        if isinstance(v, OpqObj):
            raise Unsup('external object as array')
        raise Unsup('array of %s' % type(v).__name__)

    def stack_list(self, its):
        I = self.I
        if not its:
            return I.new_arr((0,), (), 'f')
        if all(isinstance(x, T) for x in its):
            return I.new_arr((len(its),), its, self.dt_of_vals(its))
        subs = []
        for x in its:
            if isinstance(x, (T, Arr, ListV, tuple, RangeV, Choice)):
                subs.append(self.asarr(x))
            else:
                return I.new_arr((len(its),), its, 'o')
        if any(s.guards is not None for s in subs):
            raise Unsup('stacking arrays of unknown length')
        if any(s.shape != subs[0].shape for s in subs):
            raise PyRaise('ValueError', 'inhomogeneous array')
        vals = []
        dts = []
        for s in subs:
            vals += I.vals(s)
            dts.append(I.dtype(s))
        dt = dts[0] if len(set(dts)) == 1 else ('o' if 'o' in dts else 'f' if 'f' in dts else 'u')
        return I.new_arr((len(its),) + subs[0].shape, vals, dt)

    def shape_of(self, a):
        s = [num(x) for x in a.shape]
        if a.guards is not None:
            n = ZERO
            for g in a.guards:
                n = add(n, tm.b2n(g))
            s[0] = n
            if n.op != 'num':
                self.extents.setdefault(n, a.guards)
        return tuple(s)

    # --------------------------------------------------------------- broadcast
    def bshape(self, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for k in range(nd):
            d = 1
            for s in shapes:
                j = k - (nd - len(s))
                if j >= 0 and s[j] != 1:
                    if d != 1 and d != s[j]:
                        raise PyRaise('ValueError', 'operands could not be broadcast together with shapes %s' % (shapes,))
                    d = s[j]
            if any((k - (nd - len(s))) >= 0 and s[k - (nd - len(s))] == 0 for s in shapes):
                d = 0
            out.append(d)
        return tuple(out)

    def bpos(self, shape, target):
        """flat indices of an array of `shape` broadcast to target"""
        if shape == target:
            return range(prod(shape))
        nd = len(target)
        off = nd - len(shape)
        st = []
        acc = 1
        for s in reversed(shape):
            st.append(acc)
            acc *= s
        st = list(reversed(st))
        res = []
        for ix in itertools.product(*[range(d) for d in target]):
            k = 0
            for j, s in enumerate(shape):
                if s != 1:
                    k += ix[off + j] * st[j]
            res.append(k)
        return res

    def bguards(self, arrs, shape):
        g = None
        for a in arrs:
            if a.guards is not None:
                if len(a.shape) != len(shape):
                    raise Unsup('broadcast of compressed array')
                if g is None:
                    g = a.guards
                elif g != a.guards:
                    raise Unsup('arrays of different unknown length')
        if g is not None:
            for a in arrs:
                if a.guards is None and len(a.shape) == len(shape) and a.shape and a.shape[0] != 1:
                    raise Unsup('array of fixed length against array of unknown length')
        return g

    def ufunc(self, fn, args, dt='p'):
        I = self.I
        args = [I.strip(a) for a in args]
        if any(isinstance(a, Choice) for a in args):
            for k, a in enumerate(args):
                if isinstance(a, Choice):
                    def f(x, k=k):
                        return self.ufunc(fn, args[:k] + [x] + args[k + 1:], dt)
                    return I.over(a, f)
        if all(isinstance(a, T) for a in args):
            return fn(*args)
        for a in args:
            if a is None or isinstance(a, (str, Obj, DictV, FuncV, DtypeV)):
                raise PyRaise('TypeError', 'unsupported operand (%s)' % ('None' if a is None else type(a).__name__))
            if isinstance(a, (OpqObj,)):
                return OpqObj('expr')
        arrs = [self.asarr(a) for a in args]
        shape = self.bshape([a.shape for a in arrs])
        g = self.bguards(arrs, shape)
        cols = []
        for a in arrs:
            v = I.vals(a)
            cols.append([v[k] for k in self.bpos(a.shape, shape)])
        dts = [I.dtype(a) for a in arrs]
        out = []
        if 'o' in dts:
            for xs in zip(*cols):
                if all(isinstance(x, T) for x in xs):
                    out.append(fn(*xs))
                else:
                    out.append(self.ufunc(fn, [x.arr if False else x for x in xs], dt))
        else:
            for xs in zip(*cols):
                out.append(fn(*xs))
        if dt == 'p':
            if 'o' in dts:
                dt = 'o'
            elif 'f' in dts:
                dt = 'f'
            elif 'u' in dts:
                dt = 'u' if all(tm.is_int(x) for x in out) else 'f'
            elif all(d == 'b' for d in dts):
                dt = 'b' if all(tm.is_bool(x) for x in out) else 'i'
            else:
                dt = 'i' if all(tm.is_int(x) for x in out) else 'f'
        if shape == () and g is None and dt != 'o':
            return out[0]
        return I.new_arr(shape, out, dt, g)

    def seqlike(self, v):
        return isinstance(v, (ListV, tuple))

    def binop(self, op, a, b):
        I = self.I
        a, b = I.strip(a), I.strip(b)
        if isinstance(a, T) and isinstance(b, T):
            r = self.scalar_bin(op, tm.plain(a), tm.plain(b))
            return tm.whole(r) if type(a) is tm.Whole and type(b) is tm.Whole and op in ('Add', 'Sub', 'Mult') and isinstance(r, T) else r
        if isinstance(a, Choice):
            return I.over(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Choice):
            return I.over(b, lambda x: self.binop(op, a, x))
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Mod' and isinstance(a, str):
                return self.formatted(a, b)
            if op == 'Mult' and isinstance(a, (str, T)) and isinstance(b, (str, T)):
                return Text(written(*(x for x in (a, b) if isinstance(x, str))))
            if op == 'Add' and isinstance(a, str) and isinstance(b, str):
                return Text(written(a, b)) if isinstance(a, Text) or isinstance(b, Text) else a + b
            if isinstance(a, OpqObj) or isinstance(b, OpqObj):
                return Text()
            raise PyRaise('TypeError', 'unsupported string operand')
        if isinstance(a, SetV) and isinstance(b, SetV) and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            if op == 'BitOr':
                return self.method(a, 'union', [b], {})
            if op == 'BitXor':
                return self.method(self.method(a, 'difference', [b], {}), 'union', [self.method(b, 'difference', [a], {})], {})
            return self.method(a, 'intersection' if op == 'BitAnd' else 'difference', [b], {})
        if op == 'Add' and isinstance(a, ListV) and isinstance(b, ListV):
            return I.new_list(tuple(I.items(a)) + tuple(I.items(b)))
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'Mult' and isinstance(a, (ListV, tuple)) and isinstance(b, T):
            n = self.cint(b)
            return I.new_list(tuple(I.items(a)) * n) if isinstance(a, ListV) else a * n
        if op == 'Mult' and isinstance(b, (ListV, tuple)) and isinstance(a, T):
            return self.binop(op, b, a)
        if isinstance(a, Obj):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
            m = I.find_attr(a.cls, nm) if nm else None
            if m is not None:
                return I.call_func(m, [a, b], {})
        if op == 'MatMult':
            return self.np_dot([a, b], {})
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            if isinstance(a, OpqObj) or isinstance(b, OpqObj):
                return OpqObj('expr')
            raise PyRaise('TypeError', 'unsupported operand types for %s' % op)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.ufunc(lambda x, y: self.scalar_bin(op, x, y), [a, b], 'p')
        if op not in BIN:
            raise Unsup('operator ' + op)
        ar, fn, dt = UF[BIN[op]]
        if op == 'Add':
            fn = lambda x, y: bor(x, y) if tm.is_bool(x) and tm.is_bool(y) else add(n2(x), n2(y))
        elif op == 'Mult':
            fn = lambda x, y: band(x, y) if tm.is_bool(x) and tm.is_bool(y) else mul(n2(x), n2(y))
        else:
            f0 = fn
            fn = lambda x, y: f0(n2(x), n2(y))
        return self.ufunc(fn, [a, b], dt)

    @staticmethod
    def formatted(a, b):
        """'...' % values"""
        v = []
        for x in b if isinstance(b, tuple) else (b,):
            if isinstance(x, T) and x.op == 'num' and x.args[0].denominator == 1 and '%s' not in a:
                x = int(x.args[0])
            elif not isinstance(x, str) or isinstance(x, Text):
                return Text(written(a, b))
            v.append(x)
        try:
            return a % tuple(v)
        except (TypeError, ValueError):
            return Text(written(a, b))

    def scalar_bin(self, op, a, b):
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if tm.is_bool(a) and tm.is_bool(b):
                return band(a, b) if op == 'BitAnd' else bor(a, b) if op == 'BitOr' else bnot(cmp_eq(a, b))
            if a.op == 'num' and b.op == 'num' and tm.is_int(a) and tm.is_int(b):
                x, y = int(a.args[0]), int(b.args[0])
                return num(x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y)
            raise Unsup('bit operation')
        if op in ('LShift', 'RShift') and a.op == 'num' and b.op == 'num' and tm.is_int(a) and tm.is_int(b):
            x, y = int(a.args[0]), int(b.args[0])
            return num(x << y if op == 'LShift' else x >> y)
        a, b = n2(a), n2(b)
        if op in BIN:
            if op in ('Div', 'FloorDiv', 'Mod') and b is ZERO:
                # python scalars raise, numpy scalars give nan/inf: keep as a value
                return div(a, b)
            return UF[BIN[op]][1](a, b)
        if op in ('LShift', 'RShift') and b.op == 'num':
            k = num(2 ** int(b.args[0]))
            return mul(a, k) if op == 'LShift' else tm.floor(div(a, k))
        raise Unsup('operator ' + op)

    def unop(self, o, x):
        if o == 'USub':
            if isinstance(x, T):
                return tm.neg(n2(x))
            return self.ufunc(lambda v: tm.neg(n2(v)), [x])
        if o == 'UAdd':
            return x
        if o == 'Invert':
            if isinstance(x, T) and not tm.is_bool(x):
                return sub(num(-1), x)
            return self.ufunc(lambda v: bnot(v) if tm.is_bool(v) else sub(num(-1), v), [x])
        raise Unsup('unary ' + o)

    def compare(self, op, a, b):
        I = self.I
        a, b = I.strip(a), I.strip(b)
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else bnot(r)
        if isinstance(a, Choice):
            return I.over(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return I.over(b, lambda x: self.compare(op, a, x))
        if op in ('In', 'NotIn'):
            if isinstance(b, DictV):
                r = TRUE if I.dkey(a) in I.S.heap[b.loc] else FALSE
            elif isinstance(b, str):
                if isinstance(a, Text) or isinstance(b, Text):
                    raise Unsup('characters of a text')
                r = TRUE if isinstance(a, str) and a in b else FALSE
            else:
                r = FALSE
                for x in (I.S.heap[b.loc] if isinstance(b, SetV) else I.iterate(b) if not isinstance(b, Arr) else I.vals(b)):
                    c = self.compare('Eq', a, x)
                    r = bor(r, I.truth(c))
            return r if op == 'In' else bnot(r)
        if isinstance(a, T) and isinstance(b, T):
            return self.settle(UF[CMP[op]][1](a, b))
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if op in ('Eq', 'NotEq'):
                if isinstance(a, OpqObj) or isinstance(b, OpqObj):
                    raise Unsup('comparison with external object')
                if (isinstance(a, Text) and isinstance(b, str) or isinstance(b, Text) and isinstance(a, str)) and a is not b:
                    raise Unsup('characters of a text')
                r = TRUE if type(a) is type(b) and a == b else FALSE
                return r if op == 'Eq' else bnot(r)
            if isinstance(a, Text) or isinstance(b, Text):
                raise Unsup('characters of a text')
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op] else FALSE
            raise PyRaise('TypeError', "'%s' not supported with None/str" % op)
        if isinstance(a, DtypeV) or isinstance(b, DtypeV):
            k = [x.kind if isinstance(x, DtypeV) else {'int': 'i', 'float': 'f', 'bool': 'b', 'object': 'o', 'np.int64': 'i', 'np.float64': 'f', 'np.bool_': 'b'}.get(
                x.name, '?') if isinstance(x, LibF) else '?' for x in (a, b)]
            if a is not b and ('u' in k or '?' in k):
                raise Unsup('comparison of types')
            r = TRUE if a is b or k[0] == k[1] and type(k[0]) is type(k[1]) and getattr(k[0], 'name', 0) == getattr(k[1], 'name', 0) else FALSE
            return r if op == 'Eq' else bnot(r)
        if (isinstance(a, tuple) or isinstance(a, ListV)) and (isinstance(b, tuple) or isinstance(b, ListV)):
            if op in ('Eq', 'NotEq'):
                if type(a) is not type(b):
                    r = FALSE
                else:
                    x, y = I.iterate(a), I.iterate(b)
                    if len(x) != len(y):
                        r = FALSE
                    else:
                        r = band(*[I.truth(self.compare('Eq', p, q)) for p, q in zip(x, y)])
                return r if op == 'Eq' else bnot(r)
            return self.seq_order(op, I.iterate(a), I.iterate(b))
        if isinstance(a, (tuple, ListV)) and isinstance(b, T) or isinstance(b, (tuple, ListV)) and isinstance(a, T):
            if op == 'Eq':
                return FALSE
            if op == 'NotEq':
                return TRUE
            raise PyRaise('TypeError', "'%s' not supported between sequence and number" % op)
        if isinstance(a, Arr) or isinstance(b, Arr):
            ar, fn, dt = UF[CMP[op]]
            if self.I.nassume:
                return self.ufunc(lambda x, y: self.settle(fn(x, y)), [a, b], 'b')
            return self.ufunc(fn, [a, b], 'b')
        if isinstance(a, OpqObj) or isinstance(b, OpqObj):
            raise Unsup('comparison with external object')
        if isinstance(a, SetV) and isinstance(b, SetV):
            sub_, sup = self.method(a, 'issubset', [b], {}), self.method(a, 'issuperset', [b], {})
            if op in ('Eq', 'NotEq'):
                r = band(sub_, sup)
                return r if op == 'Eq' else bnot(r)
            return {'LtE': sub_, 'GtE': sup, 'Lt': band(sub_, bnot(sup)), 'Gt': band(sup, bnot(sub_))}[op]
        if isinstance(a, DictV) and isinstance(b, DictV) and a.loc != b.loc:
            raise Unsup('comparison of dictionaries')
        for x in (a, b):
            if isinstance(x, Obj) and any(I.special(x, n) for n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')):
                raise Unsup('comparison of objects')
        if op in ('Eq', 'NotEq'):
            r = self.identical(a, b)
            return r if op == 'Eq' else bnot(r)
        raise Unsup('comparison')

    def seq_order(self, op, x, y):
        n = min(len(x), len(y))
        r = TRUE if {'Lt': len(x) < len(y), 'LtE': len(x) <= len(y), 'Gt': len(x) > len(y), 'GtE': len(x) >= len(y)}[op] else FALSE
        for p, q in list(zip(x, y))[::-1]:
            r = tm.bite(self.I.truth(self.compare('Eq', p, q)), r, self.I.truth(self.compare(op[:2], p, q)))
        return r

    def settle(self, c):
        """decide a comparison of one quantity with a number from assumed bounds of that quantity"""
        if not self.I.nassume or not isinstance(c, T):
            return c
        x, v = (c.args[0], False) if c.op == 'not' else (c, True)
        at = one_atom(x)
        if at is None:
            return c
        g = self.I.full_guard()
        if g is TRUE:
            return c
        env = self.envs.get(g)
        if env is None:
            fs = [(f.args[0], False) if f.op == 'not' else (f, True) for f in (g.args if g.op == 'and' else (g,))]
            ctx = tm.Ctx([f for f in fs if one_atom(f[0]) is not None])
            env = self.envs[g] = ctx.env(ctx.linear())
        if at not in env:
            return c
        lo, hi = tm.bounds_env(x.args[0], env)
        if hi is not None and hi < 0:
            return TRUE if v else FALSE
        if lo is not None and lo > 0:
            return FALSE if v else TRUE
        return c

    def identical(self, a, b):
        if isinstance(a, Choice):
            return tm.bite(a.c, self.identical(a.a, b), self.identical(a.b, b))
        if isinstance(b, Choice):
            return tm.bite(b.c, self.identical(a, b.a), self.identical(a, b.b))
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if isinstance(a, T) and isinstance(b, T):
            if tm.is_bool(a) and tm.is_bool(b):
                return cmp_eq(a, b)
            if tm.is_bool(a) != tm.is_bool(b):
                return FALSE
            return eq0(sub(a, b))
        if type(a) is not type(b):
            return FALSE
        if isinstance(a, LibF):
            return TRUE if a.name == b.name else FALSE
        if isinstance(a, (Arr,)):
            return TRUE if a.loc == b.loc and a.pos == b.pos and a.shape == b.shape else FALSE
        if isinstance(a, (ListV, DictV, Obj)):
            return TRUE if a.loc == b.loc else FALSE
        if isinstance(a, (str,)):
            return TRUE if a == b else FALSE
        if isinstance(a, DtypeV):
            return TRUE if a.kind == b.kind else FALSE
        return TRUE if a is b else FALSE

    # ---------------------------------------------------------------- indexing
    def nonzero(self, m):
        """index arrays of a mask (list of Arr)"""
        I = self.I
        vals = [tm.truth(v) for v in I.vals(m)]
        g = I.full_guard()
        if g is not TRUE and len(vals) <= 64:
            vals = [v if v in (TRUE, FALSE) else FALSE if band(g, v) is FALSE else TRUE if band(g, tm.bnot(v)) is FALSE else v for v in vals]
        if m.guards is not None:
            if len(m.shape) != 1:
                raise Unsup('nonzero of compressed nd array')
            g = [band(a, b) for a, b in zip(m.guards, vals)]
            idx = [tm.mk('rank', m.guards, num(k)) for k in range(len(vals))]
            return [I.new_arr((len(vals),), idx, 'i', g)]
        out = []
        if m.shape == ():
            raise Unsup('nonzero of scalar')
        for ax in range(len(m.shape)):
            idx = [num(unravel(k, m.shape)[ax]) for k in range(len(vals))]
            out.append(I.new_arr((len(vals),), idx, 'i', vals))
        return out

    def select(self, a, ix):
        """-> (shape, cands (list per element of [(cond, flat index into a.pos)]), guards, basic)"""
        I = self.I
        items = list(ix) if isinstance(ix, tuple) else [ix]
        norm = []
        for x in items:
            x = I.strip(x)
            if isinstance(x, Choice):
                x = self.asarr(x) if not (isinstance(x.a, T) and isinstance(x.b, T)) else ite(x.c, x.a, x.b)
            if isinstance(x, (ListV, RangeV)):
                x = self.asarr(x)
            if isinstance(x, tuple):
                x = self.asarr(x)
            if isinstance(x, Arr):
                dt = I.dtype(x)
                if dt == 'b' or (dt == 'o' and len(x.pos) and all(isinstance(v, T) and tm.is_bool(v) for v in I.vals(x))):
                    if x.shape == ():
                        raise Unsup('scalar mask')
                    off = sum(1 for n in norm if not (n is None))
                    for k, s in enumerate(x.shape):
                        if off + k < len(a.shape) and a.shape[off + k] != s:
                            raise PyRaise('IndexError', 'boolean index did not match indexed array along axis %d' % (off + k))
                    norm.extend(self.nonzero(x))
                    continue
                if dt == 'f':
                    if len(x.pos) == 0:
                        pass
                    elif x.shape == ():
                        x = I.vals(x)[0]
                        norm.append(x)
                        continue
                    else:
                        raise PyRaise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
                if x.shape == ():
                    norm.append(I.vals(x)[0])
                    continue
                norm.append(x)
                continue
            if isinstance(x, T) and tm.is_bool(x):
                raise Unsup('boolean scalar index')
            if x is not None and not isinstance(x, (T, SliceV, Ell)):
                raise PyRaise('IndexError', 'invalid index')
            norm.append(x)
        nreal = sum(1 for x in norm if x is not None and not isinstance(x, Ell))
        if nreal > len(a.shape):
            raise PyRaise('IndexError', 'too many indices for array: array is %d-dimensional, but %d were indexed' % (len(a.shape), nreal))
        full = []
        seen = False
        for x in norm:
            if isinstance(x, Ell):
                full += [SliceV(None, None, None)] * (len(a.shape) - nreal)
                seen = True
            else:
                full.append(x)
        if not seen:
            full += [SliceV(None, None, None)] * (len(a.shape) - nreal)
        # classify
        specs = []
        ax = 0
        hasadv = any(isinstance(x, Arr) for x in full)
        for x in full:
            if x is None:
                specs.append(('new', None, None))
                continue
            n = a.shape[ax]
            if isinstance(x, SliceV):
                lo, hi, st = [None if v is None else self.cint(v) for v in (x.lo, x.hi, x.step)]
                if a.guards is not None and ax == 0 and not (lo in (None, 0) and hi is None and st in (None, 1)):
                    if lo in (None, 0) and st in (None, 1) or hi is None and st in (None, 1) and lo == 1:
                        raise Unsup('slice of array of unknown length')
                    raise Unsup('slice of array of unknown length')
                specs.append(('slice', list(range(n))[slice(lo, hi, st)], ax))
            elif isinstance(x, Arr):
                specs.append(('adv', x, ax))
            else:
                specs.append(('adv' if hasadv else 'int', x, ax))
            ax += 1
        rguards = None
        if a.guards is not None:
            s0 = [s for s in specs if s[2] == 0][0]
            if s0[0] == 'slice':
                rguards = a.guards
                if specs[0][0] == 'new':
                    raise Unsup('newaxis before compressed axis')
                if hasadv:
                    raise Unsup('advanced index with compressed axis')
        if hasadv:
            advs = [(s[1] if isinstance(s[1], Arr) else self.asarr(s[1])) for s in specs if s[0] == 'adv']
            bsh = self.bshape([x.shape for x in advs])
            g = self.bguards(advs, bsh)
            cols = []
            for x in advs:
                v = I.vals(x)
                cols.append([v[k] for k in self.bpos(x.shape, bsh)])
            advpos = [k for k, s in enumerate(specs) if s[0] == 'adv']
            contig = advpos == list(range(advpos[0], advpos[-1] + 1))
            place = advpos[0] if contig else 0
            if g is not None:
                before = [s for s in specs[:place] if s[0] in ('slice', 'new')]
                if before and contig:
                    raise Unsup('compressed axis not leading')
                rguards = g
        # build result dims
        dims = []
        kinds = []   # per result dim: ('s', spec index) / ('n',) / ('a', j)
        done = False
        for k, s in enumerate(specs):
            if hasadv and not contig and not done:
                for j, d in enumerate(bsh):
                    dims.append(d)
                    kinds.append(('a', j))
                done = True
            if s[0] == 'new':
                dims.append(1)
                kinds.append(('n',))
            elif s[0] == 'slice':
                dims.append(len(s[1]))
                kinds.append(('s', k))
            elif s[0] == 'adv' and not done and k == place:
                for j, d in enumerate(bsh):
                    dims.append(d)
                    kinds.append(('a', j))
                done = True
        cands = []
        basic = not hasadv
        gidx = a.guards
        cache = {}

        def axis_cands(t, axn, n, g=TRUE):
            key = (t, axn, g)
            if key in cache:
                return cache[key]
            if g is TRUE:
                r = self.idx_cands(a, t, axn, n)
            else:
                # an element that is only there when its mask holds
                I.gstack.append(g)
                try:
                    r = self.idx_cands(a, t, axn, n)
                except PyRaise as e:
                    I.oblige('index', FALSE, str(e.msg) if hasattr(e, 'msg') else 'index within axis of size %d' % n)
                    r = []
                finally:
                    I.gstack.pop()
            cache[key] = r
            return r
        for ixr in itertools.product(*[range(d) for d in dims]):
            cur = [(TRUE, [])]
            sl = {}
            av = []
            for kd, i in zip(kinds, ixr):
                if kd[0] == 's':
                    sl[kd[1]] = i
                elif kd[0] == 'a':
                    av.append(i)
            if hasadv:
                flat = ravel(av, bsh)
            c_adv = 0
            per = []
            for k, s in enumerate(specs):
                if s[0] == 'slice':
                    per.append([(TRUE, s[1][sl[k]])])
                elif s[0] == 'int':
                    per.append(axis_cands(s[1], s[2], a.shape[s[2]]))
                elif s[0] == 'adv':
                    per.append(axis_cands(cols[c_adv][flat], s[2], a.shape[s[2]], TRUE if g is None or not av else g[av[0]]))
                    c_adv += 1
            res = []
            for combo in itertools.product(*per):
                c = TRUE
                for cc, _ in combo:
                    c = band(c, cc)
                if c is FALSE:
                    continue
                res.append((c, ravel([p for _, p in combo], a.shape)))
            cands.append(res)
        if basic and any(len(c) != 1 or c[0][0] is not TRUE for c in cands):
            basic = False
        allint = all(s[0] == 'int' for s in specs)
        return tuple(dims), cands, rguards, basic, allint

    def idx_cands(self, a, t, ax, n):
        I = self.I
        t = n2(t)
        if not isinstance(t, T):
            raise Unsup('index value')
        if t.op == 'undef':
            I.oblige('undefined', FALSE, 'uninitialised value used as an index')
            return [(TRUE, 0)] if n else []
        if a.guards is not None and ax == 0:
            if t.op == 'rank' and t.args[0] == a.guards:
                return [(TRUE, int(t.args[1].args[0]))]
            out = []
            tot = ZERO
            cnts = []
            for g in a.guards:
                cnts.append(tot)
                tot = add(tot, tm.b2n(g))
            if t.op == 'num' and t.args[0] < 0:
                t = add(tot, t)
            I.oblige('index', band(bnot(lt0(t)), lt0(sub(t, tot))), 'index into array of data-dependent length')
            for k, g in enumerate(a.guards):
                c = band(g, eq0(sub(cnts[k], t)))
                if c is not FALSE:
                    out.append((c, k))
            return out
        if t.op == 'num':
            if t.args[0].denominator != 1:
                raise PyRaise('IndexError', 'non-integer index')
            k = int(t.args[0])
            if k >= n or k < -n:
                raise PyRaise('IndexError', 'index %d is out of bounds for axis %d with size %d' % (k, ax, n))
            return [(TRUE, k % n)]
        if t.op == 'ite' and not tm.is_bool(t):
            x = self.idx_quiet(a, t, ax, n)
        else:
            x = self.idx_quiet(a, t, ax, n)
        neg_ok = not tm.nonneg(t)
        cond = lt0(sub(t, num(n)))
        if neg_ok:
            cond = band(cond, bnot(lt0(add(t, num(n)))))
        I.oblige('index', cond, 'index within axis of size %d' % n)
        return x

    def idx_quiet(self, a, t, ax, n):
        out = []
        neg_ok = not tm.nonneg(t)
        for k in range(n):
            c = eq0(sub(t, num(k)))
            if neg_ok:
                c = bor(c, eq0(add(t, num(n - k))))
            if c is TRUE:
                return [(TRUE, k)]
            if c is not FALSE:
                out.append((c, k))
        return out

    def fold(self, cands, vals):
        """gated value of candidates"""
        I = self.I
        if not cands:
            return UNDEFT
        if cands[0][0] is TRUE:
            return vals[cands[0][1]]
        r = vals[cands[-1][1]]
        for c, p in reversed(cands[:-1]):
            r = I.merge_val(c, vals[p], r)
        return r

    def getitem(self, a, ix):
        I = self.I
        shape, cands, g, basic, allint = self.select(a, ix)
        if basic:
            pos = tuple(a.pos[c[0][1]] for c in cands)
            if allint:
                v = I.S.heap[a.loc].vals[pos[0]]
                v = I.strip(v)
                if v is UNDEF:
                    return UNDEFT
                return v
            return Arr(a.loc, shape, pos, g)
        vals = I.vals(a)
        out = [self.fold(c, vals) for c in cands]
        if allint:
            return out[0]
        return I.new_arr(shape, out, I.dtype(a), g)

    def store(self, dst, src, inplace=False):
        """dst[...] = src"""
        I = self.I
        src = self.asarr(src)
        if dst.guards != src.guards and src.guards is not None:
            raise Unsup('store of compressed array')
        if dst.guards is not None and src.guards is None and src.shape != () and prod(src.shape) != 1:
            if src.shape[0] != 1 and len(src.shape) == len(dst.shape):
                raise Unsup('store into compressed array')
        sh = self.bshape([dst.shape, src.shape])
        if sh != dst.shape:
            raise PyRaise('ValueError', 'could not broadcast input array from shape %s into shape %s' % (src.shape, dst.shape))
        sv = I.vals(src)
        b = list(I.S.heap[dst.loc].vals)
        dt = I.S.heap[dst.loc].dtype
        sd = I.dtype(src)
        for p, k in zip(dst.pos, self.bpos(src.shape, dst.shape)):
            v = sv[k]
            b[p] = self.cast(v, dt, sd)
        I.S.heap[dst.loc] = Buf(dt, tuple(b))

    def cast(self, v, dt, sd):
        if isinstance(dt, Narrow) and isinstance(v, T):
            return dt.fit(tm.trunc(v) if dt == 'i' and sd in ('f', 'u') else n2(v))
        if dt == 'i' and sd in ('f', 'u') and isinstance(v, T):
            return tm.trunc(v)
        if dt == 'b' and isinstance(v, T):
            return tm.truth(v)
        if dt in ('f', 'u') and isinstance(v, T) and tm.is_bool(v):
            return tm.b2n(v)
        if dt in ('f', 'i', 'u') and v is None:
            raise PyRaise('TypeError', 'None stored in numeric array')
        return v

    def setitem(self, a, ix, v):
        I = self.I
        shape, cands, g, basic, allint = self.select(a, ix)
        buf = I.S.heap[a.loc]
        v = I.strip(v)
        if buf.dtype == 'o' and allint:
            src = [v]
            ssh, sg, sd = (), None, 'o'
        else:
            s = self.asarr(v)
            src, ssh, sg, sd = I.vals(s), s.shape, s.guards, I.dtype(s)
        if buf.dtype != 'o' and allint and ssh != () and prod(ssh) != 1:
            raise PyRaise('ValueError', 'setting an array element with a sequence')
        if allint and prod(ssh) == 1:
            ssh = ()
        sh = self.bshape([shape, ssh]) if ssh != () else shape
        if sh != shape:
            if len(ssh) > len(shape) and ssh[:len(ssh) - len(shape)] == (1,) * (len(ssh) - len(shape)):
                ssh = ssh[len(ssh) - len(shape):]
                sh = self.bshape([shape, ssh])
            if sh != shape:
                raise PyRaise('ValueError', 'could not broadcast input array from shape %s into shape %s' % (ssh, shape))
        if sg is not None and sg != g:
            raise Unsup('assignment of array of different unknown length')
        if g is not None and sg is None and ssh and len(ssh) == len(shape) and ssh[0] != 1:
            raise Unsup('fixed-length value assigned to compressed selection')
        b = list(buf.vals)
        per = prod(shape[1:]) if shape else 1
        for e, k in enumerate(self.bpos(ssh, shape)):
            val = self.cast(src[k], buf.dtype, sd)
            gg = g[e // per] if g is not None else TRUE
            for c, p in cands[e]:
                cc = band(gg, c)
                q = a.pos[p]
                if cc is TRUE:
                    b[q] = val
                elif cc is not FALSE:
                    b[q] = I.merge_val(cc, val, b[q])
        I.S.heap[a.loc] = Buf(buf.dtype, tuple(b))

    # --------------------------------------------------------------- utilities
    def arg(self, args, kw, k, name, default=None, req=False):
        if len(args) > k:
            return args[k]
        if name in kw:
            return kw[name]
        if req:
            raise PyRaise('TypeError', 'missing argument ' + name)
        return default

    def chk(self, kw, *names):
        for k in dict.keys(kw):
            if k not in names:
                raise Unsup('keyword ' + k)

    def looked(self, n, args, kw):
        """an argument that the model of a function did not look at must not be ignored"""
        for k, v in enumerate(list.__iter__(args)):
            if k not in args.seen and v is not None:
                raise Unsup('argument %d of %s' % (k, n))
        for k, v in dict.items(kw):
            if k not in kw.seen and v is not None and k not in ('casting', 'subok', 'copy', 'check_finite', 'sparse', 'sorted', 'kind', 'optimize'):
                if k == 'dtype' and isinstance(v, LibF) and v.name in ('float', 'np.float64', 'np.double'):
                    continue
                raise Unsup('keyword %s of %s' % (k, n))

    def flat(self, a):
        return self.I.vals(a)

    def shape_arg(self, s):
        I = self.I
        s = I.strip(s)
        if isinstance(s, T):
            return (self.cint(s),)
        if isinstance(s, (tuple, ListV, Arr)):
            return tuple(self.cint(x) for x in I.iterate(s))
        if isinstance(s, Choice):
            raise Unsup('gated shape')
        raise PyRaise('TypeError', 'shape expected')

    def dtype_arg(self, d, default='f'):
        if d is None:
            return default
        if isinstance(d, DtypeV):
            return d.kind
        if isinstance(d, LibF) and d.name in ('int', 'float', 'bool', 'object', 'complex', 'str'):
            return {'int': 'i', 'float': 'f', 'bool': 'b', 'object': 'o', 'complex': 'f', 'str': 'o'}[d.name]
        if isinstance(d, str):
            if d in DTYPES:
                return DTYPES[d]
            d = d.lstrip('<=>')
            if d in DTYPES:
                return DTYPES[d]
            if d in ('i', 'i4', 'i8'):
                return 'i'
            if d in ('f', 'f4', 'f8', 'd'):
                return 'f'
        raise Unsup('dtype')

    def astype(self, a, kind):
        I = self.I
        a = self.asarr(a)
        sd = I.dtype(a)
        vs = I.vals(a)
        if kind == 'i':
            vs = [tm.trunc(v) if isinstance(v, T) else v for v in vs]
        elif kind == 'b':
            vs = [tm.truth(v) for v in vs]
        elif kind == 'f':
            vs = [n2(v) if isinstance(v, T) else v for v in vs]
        if isinstance(kind, Narrow):
            vs = [kind.fit(v) for v in vs]
        return I.new_arr(a.shape, vs, kind, a.guards)

    def axis_groups(self, a, axis, keepdims=False):
        """list of element groups (each list of (guard, value)) and result shape/guards"""
        I = self.I
        v = I.vals(a)
        nd = len(a.shape)
        if axis is None:
            per = prod(a.shape[1:]) if a.shape else 1
            grp = [[(a.guards[k // per] if a.guards is not None else TRUE, x) for k, x in enumerate(v)]]
            return grp, (1,) * nd if keepdims else (), None
        axes = [axis] if isinstance(axis, int) else list(axis)
        axes = [x % nd if -nd <= x < nd else None for x in axes]
        if None in axes:
            raise PyRaise('AxisError', 'axis out of bounds for array of dimension %d' % nd)
        keep = [k for k in range(nd) if k not in axes]
        rs = tuple(a.shape[k] for k in keep)
        grp = [[] for _ in range(prod(rs))]
        for k, x in enumerate(v):
            ix = unravel(k, a.shape)
            r = ravel([ix[j] for j in keep], rs)
            g = a.guards[ix[0]] if a.guards is not None and 0 in axes else TRUE
            grp[r].append((g, x))
        g = a.guards if a.guards is not None and 0 not in axes else None
        if keepdims:
            rs = tuple(1 if k in axes else a.shape[k] for k in range(nd))
        return grp, rs, g

    def axis_arg(self, ax):
        if ax is None:
            return None
        if isinstance(ax, (tuple, ListV)):
            return tuple(self.cint(x) for x in self.I.iterate(ax))
        return self.cint(ax)

    def reduce(self, args, kw, fn, dt=None, where_ok=False):
        I = self.I
        self.chk(kw, 'axis', 'keepdims', 'a', 'dtype', 'initial', 'out')
        a = self.arg(args, kw, 0, 'a', req=True)
        if isinstance(a, T):
            return fn([(TRUE, a)])
        if a is None or isinstance(a, str):
            raise PyRaise('TypeError', 'reduction of None')
        a = self.asarr(a)
        if kw.get('out') is not None:
            raise Unsup('out=')
        if kw.get('initial') is not None:
            v0 = n2(I.strip(kw['initial']))
            fn0 = fn
            fn = lambda g: fn0([(TRUE, v0)] + list(g))
        axis = self.axis_arg(self.arg(args, kw, 1, 'axis'))
        kd = kw.get('keepdims') is TRUE
        grp, rs, g = self.axis_groups(a, axis, kd)
        if I.dtype(a) == 'o' and any(not isinstance(x, T) for gr in grp for _, x in gr):
            out = []
            for gr in grp:
                acc = None
                for gg, x in gr:
                    acc = x if acc is None else self.binop('Add', acc, x)
                out.append(acc)
            if fn is not _sum:
                raise Unsup('reduction of object array')
        else:
            out = [fn(gr) for gr in grp]
        d = dt or ('u' if I.dtype(a) in 'ibu' and all(tm.is_int(x) for x in out) else 'f')
        if rs == () and g is None:
            return out[0]
        return I.new_arr(rs, out, d, g)

    def draw_site(self, n=1):
        """advance the global stream by n numbers; position of the first"""
        I = self.I
        k = I.S.heap['rng']
        if not isinstance(k, T) or k.op != 'num':
            raise Unsup('number of draws depends on the values')
        I.S.heap['rng'] = add(k, num(n))
        return int(k.args[0])

    def draws(self, shape, integer=None):
        I = self.I
        n = 1 if shape is None else prod(shape)
        s = self.draw_site(n)
        I.effect('rng', 'draw %s' % (shape,))
        if shape is None:
            return self.drawn(s)
        return I.new_arr(shape, [self.drawn(s + k) for k in range(n)], 'f')

    def drawn(self, k):
        if self.stream is None:
            return tm.draw(k)
        return self.stream[k % len(self.stream)]

    # -------------------------------------------------------------- name lookup
    BUILTINS = {'len', 'range', 'abs', 'int', 'float', 'min', 'max', 'sum', 'any', 'all', 'enumerate', 'zip', 'list', 'tuple',
                'isinstance', 'print', 'round', 'str', 'bool', 'dict', 'set', 'sorted', 'reversed', 'map', 'filter', 'divmod',
                'pow', 'hasattr', 'getattr', 'setattr', 'callable', 'type', 'object', 'open', 'repr', 'iter', 'next', 'super',
                'slice', 'id', 'staticmethod', 'classmethod', 'property', 'hash', 'frozenset', 'vars', 'complex', 'input', 'format', 'issubclass'}
    EXCS = {'ValueError', 'TypeError', 'Exception', 'IndexError', 'KeyError', 'AttributeError', 'RuntimeError', 'AssertionError',
            'NotImplementedError', 'ZeroDivisionError', 'ImportError', 'StopIteration', 'Warning', 'UserWarning', 'NameError',
            'RuntimeWarning', 'DeprecationWarning', 'BaseException', 'OSError', 'FileNotFoundError', 'LookupError', 'ArithmeticError', 'FutureWarning'}

    def builtin(self, n):
        if n in self.driver and self.I.frames and self.I.frames[-1].mod == '<driver>':
            return LibF('driver.' + n)
        if n in ('int', 'float', 'bool', 'object', 'str'):
            return LibF(n)
        if n in self.BUILTINS or n in self.EXCS:
            return LibF(n)
        if n.startswith('__f_') or n in ('__real__', '__idiv__'):
            return LibF(n)
        if n == '__name__':
            return 'module'
        if n == '__file__':
            return 'file'
        return None

    def attr(self, m, name):
        n = m.name
        if n == 'np':
            if name in KNOWN_NP_CONST:
                return KNOWN_NP_CONST[name]
            if name in DTYPES:
                return DtypeV(DTYPES[name])
            if name in ('random', 'linalg', 'ma', 'fft', 'testing', 'errstate'):
                return LibMod('np.' + name)
            if name == 'ndarray':
                return LibF('np.ndarray')
            if name in REMOVED_NP:
                raise PyRaise('AttributeError', "module 'numpy' has no attribute '%s'" % name)
            return LibF('np.' + name)
        if n == 'np.random':
            return LibF('np.random.' + name)
        if n == 'hp':
            if name == 'UNSEEN':
                return UNSEEN
            return LibF('hp.' + name)
        if n == 'math':
            if name == 'pi':
                return tm.PI
            if name == 'inf':
                return tm.INF
            if name == 'nan':
                return tm.NAN
            if name == 'e':
                return tm.E
            if name == 'tau':
                return tm.scale(tm.PI, 2)
            return LibF('math.' + name)
        if n == 'scipy':
            return LibMod('scipy.' + name)
        if n in ('plt', 'mpl') or n.startswith('plt.') or n.startswith('mpl.') or n.startswith('matplotlib'):
            return OpqObj(n + '.' + name)
        if n == 'sys' and name in ('stdout', 'stderr'):
            return LibMod('sys.' + name)
        if n == 'os' and name == 'path':
            return LibMod('os.path')
        return LibF(n + '.' + name)

    def value_attr(self, o, name):
        I = self.I
        if isinstance(o, Arr):
            if name == 'shape':
                return self.shape_of(o)
            if name == 'ndim':
                return num(len(o.shape))
            if name == 'size':
                r = ONE
                for x in self.shape_of(o):
                    r = mul(r, x)
                return r
            if name == 'T':
                return self.transpose(o, None)
            if name == 'dtype':
                return DtypeV(I.dtype(o))
            if name == 'flat':
                return self.reshape(o, (len(o.pos),))
            if name == 'real':
                return o
            if name in ('nbytes', 'itemsize'):
                raise Unsup('ndarray.' + name)
            return MethV(o, name)
        if isinstance(o, (ListV, DictV, SetV, str, tuple)):
            return MethV(o, name)
        if isinstance(o, T):
            if name in ('shape',):
                return ()
            if name == 'ndim':
                return ZERO
            if name == 'size':
                return ONE
            if name == 'dtype':
                return DtypeV('i' if tm.is_int(o) else 'f')
            if name in ('T', 'real'):
                return o
            if name in ('is_integer', 'astype', 'item', 'copy', 'sum', 'mean', 'min', 'max', 'any', 'all', 'round', 'flatten', 'ravel', 'tolist', 'reshape'):
                return MethV(o, name)
            raise PyRaise('AttributeError', "number has no attribute '%s'" % name)
        if isinstance(o, DtypeV):
            if name == 'kind':
                return o.kind
            raise Unsup('dtype attribute')
        if isinstance(o, LibF):
            if o.name == 'np.ndarray':
                return LibF('np.ndarray.' + name)
            return LibF(o.name + '.' + name)
        if isinstance(o, InterpF):
            raise Unsup('interpolator attribute')
        if isinstance(o, (SliceV, RangeV, MethV, PartialV, FortF)):
            raise Unsup('attribute %s' % name)
        raise Unsup('attribute %s of %s' % (name, type(o).__name__))

    # ------------------------------------------------------------------- calls
    def call(self, name, args, kw):
        I = self.I
        args = [I.strip(a) for a in args]
        if name.startswith('driver.'):
            return self.driver[name[7:]](args, kw)
        if name.startswith('__'):
            return self.fcallb(name, args)
        if name.startswith('np.'):
            n = name[3:]
            if n.startswith('random.'):
                return self.np_random(n[7:], args, kw)
            if n in UF:
                return self.call_uf(n, args, kw)
            m = getattr(self, 'np_' + n.replace('.', '_'), None)
            if m is None:
                return self.prelude(name.replace('.', '_'), args, kw)
            args, kw = Args(args), Kw(kw)
            try:
                r = m(args, kw)
            except PyRaise:
                self.looked(n, args, kw)
                raise
            self.looked(n, args, kw)
            return r
        if name.startswith('itertools.') and name != 'itertools.product':
            return self.prelude(name.replace('.', '_'), args, kw)
        if name.startswith('math.'):
            n = name[5:]
            if n == 'log' and len(args) == 2:
                return self.binop('Div', self.call('math.log', args[:1], {}), self.call('math.log', args[1:], {}))
            n = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power', 'fabs': 'abs'}.get(n, n)
            if n in UF:
                return self.call_uf(n, args, kw)
            if n == 'fsum':
                return self.b_sum([args[0]], {})
            if n in ('gcd', 'comb', 'lcm', 'factorial', 'perm') and not kw:
                import math
                return num(getattr(math, n)(*[self.cint(x) for x in args]))
            if n == 'copysign':
                return self.prelude('np_copysign', args, kw)
            if n == 'modf':
                return self.prelude('np_modf', args, kw)
            if n in ('isclose', 'prod'):
                return getattr(self, 'np_' + n)(args, kw)
            raise Unsup(name)
        if name.startswith('hp.'):
            return self.healpy(name[3:], args, kw)
        if name.startswith('sys.') or name.startswith('time.') or name.startswith('os.') or name.startswith('warnings.'):
            if name in ('sys.stdout.write', 'sys.stderr.write', 'sys.stdout.flush', 'sys.stderr.flush', 'warnings.warn'):
                I.effect('io', name)
                return None
            if name in ('time.time', 'time.perf_counter', 'time.monotonic'):
                return tm.top('time')
            if name == 'warnings.filterwarnings' or name == 'warnings.simplefilter':
                I.effect('global', name)
                return None
            I.effect('os', name)
            raise Unsup(name)
        if name == 'scipy.interpolate.interp1d':
            return self.interp1d(args, kw)
        if name in ('copy.copy', 'copy.deepcopy'):
            v = args[0]
            if isinstance(v, Arr):
                return I.new_arr(v.shape, I.vals(v), I.dtype(v), v.guards)
            if isinstance(v, T) or v is None or isinstance(v, str) or isinstance(v, tuple) and name == 'copy.copy':
                return v
            if isinstance(v, tuple):
                return tuple(self.call(name, [x], {}) for x in v)
            if isinstance(v, ListV):
                return I.new_list(I.items(v) if name == 'copy.copy' else [self.call(name, [x], {}) for x in I.items(v)])
            raise Unsup(name)
        if name == 'collections.namedtuple':
            return I.named_tuple(args, kw)
        if name == 'types.SimpleNamespace' and not args:
            o = self.prelude('Namespace', [], {})
            I.S.heap[o.loc] = dict(kw)
            return o
        if name == 'collections.OrderedDict':
            return self.b_dict(args, kw)
        if name == 'operator.itemgetter':
            return PartialV(I.S.heap[('mod', '__prelude__')]['item_of'], [tuple(args)], {})
        if name in ('operator.lt', 'operator.le', 'operator.gt', 'operator.ge', 'operator.eq', 'operator.ne'):
            return self.compare({'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}[name[9:]], *args)
        if name == 'operator.neg':
            return self.binop('Mult', num(-1), args[0])
        if name == 'operator.getitem':
            return self.getitem(args[0], args[1]) if isinstance(args[0], Arr) else I.getitem(args[0], args[1])
        if name == 'dict.fromkeys':
            return I.new_dict({I.dkey(k): args[1] if len(args) > 1 else None for k in I.iterate(args[0])})
        if name == 'functools.partial':
            return PartialV(args[0], args[1:], kw)
        if name == 'itertools.product':
            its = [I.iterate(a) for a in args]
            rep = self.cint(kw['repeat']) if 'repeat' in kw else 1
            return tuple(itertools.product(*(its * rep)))
        if name == 'functools.reduce':
            its = list(I.iterate(args[1]))
            acc = args[2] if len(args) > 2 else its.pop(0)
            for x in its:
                acc = I.call(args[0], [acc, x], {})
            return acc
        if name.startswith('operator.'):
            o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow'}.get(name[9:])
            if o:
                return self.binop(o, *args)
            raise Unsup(name)
        if name == 'object.__init__':
            return None
        if name.startswith('random.'):
            I.effect('foreign-rng', name)
            n = name[7:]
            if n == 'random':
                return self.draws(None)
            if n == 'uniform':
                return self.binop('Add', args[0], self.binop('Mult', self.binop('Sub', args[1], args[0]), self.draws(None)))
            if n == 'seed':
                return None
            raise Unsup(name)
        if name.startswith('mpl') or name.startswith('plt'):
            return OpqObj(name)
        if '.' in name:
            raise Unsup(name)
        m = getattr(self, 'b_' + name, None)
        if m is None:
            if name in self.EXCS:
                return OpqObj('exception')
            return self.prelude('builtin_' + name, args, kw)
        return m(args, kw)

    def prelude(self, name, args, kw):
        """a library function written in terms of others"""
        f = self.I.S.heap.get(('mod', '__prelude__'), {}).get(name)
        if f is None:
            raise Unsup(name)
        node = getattr(f, 'node', None)
        if isinstance(node, ast.FunctionDef):
            used = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name)}
            ps = [x.arg for x in node.args.args]
            for k, v in list(zip(ps, args)) + list(kw.items()):
                if k not in used and v is not None and k not in ('mode', 'order', 'casting', 'dtype', 'assume_unique') and node.args.kwarg is None:
                    raise Unsup('%s of %s' % (k, name))
                if k not in used and (k == 'mode' and v != 'raise' or k == 'order' and v != 'C'):
                    raise Unsup('%s of %s' % (k, name))
        return self.I.call(f, args, kw)

    def call_uf(self, n, args, kw):
        ar, fn, dt = UF[n]
        self.chk(kw, 'out', 'where', 'dtype', 'x', 'x1', 'x2', 'a')
        if kw.get('out') is not None or 'where' in kw:
            out = kw.get('out')
            if isinstance(out, tuple) and len(out) == 1:
                out = out[0]
            r = self.ufunc(lambda *x: fn(*[n2(y) if n not in ('logical_and', 'logical_or', 'logical_not', 'equal') else y for y in x]), args[:ar], dt)
            if 'where' in kw:
                w = self.asarr(kw['where'])
                if out is None:
                    raise Unsup('ufunc where without out')
                r = self.np_where([w, r, out], {})
            self.store(out, r)
            return out
        if len(args) == ar + 1 and isinstance(args[ar], Arr):
            r = self.call_uf(n, args[:ar], {})
            self.store(args[ar], r)
            return args[ar]
        if len(args) != ar:
            if n == 'round_':
                args = args[:1]
            else:
                raise PyRaise('TypeError', '%s takes %d arguments' % (n, ar))
        f = fn
        if n not in ('logical_and', 'logical_or', 'logical_not', 'logical_xor', 'equal', 'not_equal', 'isfinite', 'isnan'):
            f = lambda *x: fn(*[n2(y) for y in x])
        return self.ufunc(f, args, dt)

    # ---------------------------------------------------------------- builtins
    def b_len(self, a, kw):
        v = a[0]
        I = self.I
        if isinstance(v, Choice):
            return I.over(v, lambda x: self.b_len([x], {}))
        if isinstance(v, Text):
            raise Unsup('characters of a text')
        if isinstance(v, Arr):
            if v.shape == ():
                raise PyRaise('TypeError', 'len() of unsized object')
            return self.shape_of(v)[0]
        if isinstance(v, T) or v is None:
            raise PyRaise('TypeError', 'object has no len()')
        if isinstance(v, DictV):
            return num(len(I.S.heap[v.loc]))
        if I.special(v, '__len__'):
            return I.call_func(I.special(v, '__len__'), [v], {})
        return num(len(I.iterate(v)))

    def b_range(self, a, kw):
        for x in a:
            if isinstance(x, T) and x.op == 'num' and x.args[0].denominator != 1:
                raise PyRaise('TypeError', 'float range')
        if len(a) == 1:
            return RangeV(ZERO, a[0], ONE)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else ONE)

    def b_abs(self, a, kw):
        return self.call_uf('abs', a, {})

    def b_int(self, a, kw):
        v = a[0]
        if isinstance(v, str):
            raise Unsup('int of string')
        if isinstance(v, Arr):
            if len(v.pos) != 1 or v.guards is not None:
                raise PyRaise('TypeError', 'only length-1 arrays can be converted to Python scalars')
            v = self.I.vals(v)[0]
        if isinstance(v, Choice):
            return self.I.over(v, lambda x: self.b_int([x], {}))
        if not isinstance(v, T):
            raise PyRaise('TypeError', 'int() of %s' % type(v).__name__)
        return tm.trunc(n2(v))

    def b_float(self, a, kw):
        v = a[0]
        if isinstance(v, str):
            if v in ('nan', 'inf', '-inf'):
                return {'nan': tm.NAN, 'inf': tm.INF, '-inf': tm.neg(tm.INF)}[v]
            raise Unsup('float of string')
        if isinstance(v, Arr):
            if len(v.pos) != 1 or v.guards is not None:
                raise PyRaise('TypeError', 'only length-1 arrays can be converted to Python scalars')
            v = self.I.vals(v)[0]
        if not isinstance(v, T):
            raise PyRaise('TypeError', 'float() of %s' % type(v).__name__)
        return n2(v)

    def b_bool(self, a, kw):
        return self.I.truth(a[0])

    def b_str(self, a, kw):
        return a[0] if a and isinstance(a[0], str) else Text(written(*a[:1]))

    b_repr = b_format = b_str

    def seq(self, a):
        if len(a) == 1:
            return list(self.I.iterate(a[0]))
        return list(a)

    def b_min(self, a, kw):
        if kw:
            return self.prelude('builtin_min', [self.I.new_list(self.seq(a))], kw)
        xs = self.seq(a)
        if any(not isinstance(x, T) for x in xs):
            raise Unsup('min of sequences')
        if not xs:
            raise PyRaise('ValueError', 'min() of empty sequence')
        r = xs[0]
        for x in xs[1:]:
            r = tm.fmin(r, x)
        return r

    def b_max(self, a, kw):
        if kw:
            return self.prelude('builtin_max', [self.I.new_list(self.seq(a))], kw)
        xs = self.seq(a)
        if any(not isinstance(x, T) for x in xs):
            raise Unsup('max of sequences')
        if not xs:
            raise PyRaise('ValueError', 'max() of empty sequence')
        r = xs[0]
        for x in xs[1:]:
            r = tm.fmax(r, x)
        return r

    def b_sum(self, a, kw):
        acc = a[1] if len(a) > 1 else ZERO
        for x in self.I.iterate(a[0]):
            acc = self.binop('Add', acc, x)
        return acc

    def b_any(self, a, kw):
        v = self.I.strip(a[0])
        if isinstance(v, Arr) and v.guards is not None and len(v.shape) == 1:
            return self.np_any([v], {})
        return bor(*[self.I.truth(x) for x in self.I.iterate(a[0])])

    def b_all(self, a, kw):
        v = self.I.strip(a[0])
        if isinstance(v, Arr) and v.guards is not None and len(v.shape) == 1:
            return self.np_all([v], {})
        return band(*[self.I.truth(x) for x in self.I.iterate(a[0])])

    def b_enumerate(self, a, kw):
        s = self.cint(self.arg(a, kw, 1, 'start', ZERO))
        return tuple((num(k + s), x) for k, x in enumerate(self.I.iterate(a[0])))

    def b_zip(self, a, kw):
        return tuple(zip(*[self.I.iterate(x) for x in a]))

    def b_list(self, a, kw):
        return self.I.new_list(self.I.iterate(a[0]) if a else ())

    def b_tuple(self, a, kw):
        return tuple(self.I.iterate(a[0])) if a else ()

    def b_dict(self, a, kw):
        d = {}
        if a:
            v = a[0]
            if isinstance(v, DictV):
                d.update(self.I.S.heap[v.loc])
            else:
                for p in self.I.iterate(v):
                    k, x = self.I.iterate(p)
                    d[self.I.dkey(k)] = x
        d.update(kw)
        return self.I.new_dict(d)

    def b_vars(self, a, kw):
        if len(a) == 1 and isinstance(I_strip(self, a[0]), Obj):
            return DictV(I_strip(self, a[0]).loc)
        raise Unsup('vars')

    def b_set(self, a, kw):
        return self.I.new_set(self.I.iterate(a[0]) if a else ())

    b_frozenset = b_set

    def b_sorted(self, a, kw):
        if kw:
            return self.prelude('builtin_sorted', a, kw)
        xs = list(self.I.iterate(a[0]))
        if all(isinstance(x, T) and x.op == 'num' for x in xs):
            return self.I.new_list(sorted(xs, key=lambda t: t.args[0]))
        if all(isinstance(x, T) for x in xs):
            return self.I.new_list(self.netsort(xs))
        raise Unsup('sorted')

    def netsort(self, xs):
        xs = list(xs)
        n = len(xs)
        if n > 6:
            raise Unsup('symbolic sort')
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = xs[j], xs[j + 1]
                xs[j], xs[j + 1] = tm.fmin(a, b), tm.fmax(a, b)
        return xs

    def b_reversed(self, a, kw):
        return tuple(reversed(self.I.iterate(a[0])))

    def b_map(self, a, kw):
        its = [self.I.iterate(x) for x in a[1:]]
        return tuple(self.I.call(a[0], list(xs), {}) for xs in zip(*its))

    def b_divmod(self, a, kw):
        return (self.binop('FloorDiv', a[0], a[1]), self.binop('Mod', a[0], a[1]))

    def b_pow(self, a, kw):
        return self.binop('Pow', a[0], a[1])

    def b_round(self, a, kw):
        if len(a) > 1 and not (isinstance(a[1], T) and a[1] is ZERO):
            return self.ufunc(lambda x: rounded(x, a[1]), [a[0]], 'f')
        return self.ufunc(rint, [a[0]], 'p')

    def b_print(self, a, kw):
        self.I.effect('io', 'print')
        return None

    def b_open(self, a, kw):
        self.I.effect('file', 'open')
        return OpqObj('file')

    def b_input(self, a, kw):
        self.I.effect('io', 'input')
        return Text()

    def b_callable(self, a, kw):
        v = a[0]
        if isinstance(v, Choice):
            return tm.bite(v.c, self.b_callable([v.a], {}), self.b_callable([v.b], {}))
        return TRUE if isinstance(v, (FuncV, BoundV, LibF, ClassV, MethV, PartialV, InterpF, FortF)) else FALSE

    def b_hasattr(self, a, kw):
        if isinstance(a[0], Obj):
            d = self.I.S.heap[a[0].loc]
            if a[1] in d:
                v = d[a[1]]
                if isinstance(v, Choice):
                    if v.b is UNDEF:
                        return v.c
                    if v.a is UNDEF:
                        return bnot(v.c)
                return FALSE if v is UNDEF else TRUE
            return TRUE if self.I.find_attr(a[0].cls, a[1]) is not None else FALSE
        if isinstance(a[0], (Arr, T)):
            v = a[0]
            if a[1] in ('__len__', '__iter__', '__getitem__'):
                return TRUE if isinstance(v, Arr) and v.shape != () else FALSE
            if a[1] in ('shape', 'ndim', 'dtype'):
                if isinstance(v, Arr):
                    return TRUE
                raise Unsup('hasattr of scalar')
        if isinstance(a[0], (ListV, tuple)) and a[1] in ('__len__', '__iter__', '__getitem__'):
            return TRUE
        raise Unsup('hasattr')

    def b_getattr(self, a, kw):
        if not isinstance(a[1], str):
            raise Unsup('getattr name')
        if len(a) > 2:
            h = self.b_hasattr(a[:2], {})
            k = self.I.known(h)
            if k is True:
                return self.I.getattr(a[0], a[1])
            if k is False:
                return a[2]
            return self.I.branch(h, lambda: self.I.getattr(a[0], a[1]), lambda: a[2])
        return self.I.getattr(a[0], a[1])

    def b_setattr(self, a, kw):
        if not isinstance(a[1], str):
            raise Unsup('setattr name')
        self.I.setattr(a[0], a[1], a[2])

    def b_slice(self, a, kw):
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_type(self, a, kw):
        v = a[0]
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Arr):
            return LibF('np.ndarray')
        if isinstance(v, ListV):
            return LibF('list')
        if isinstance(v, tuple):
            return LibF('tuple')
        if isinstance(v, str):
            return LibF('str')
        if isinstance(v, T):
            if tm.is_bool(v):
                return LibF('bool')
            raise Unsup('type of number')
        if v is None:
            return LibF('NoneType')
        raise Unsup('type()')

    def b_isinstance(self, a, kw):
        v, c = a
        if isinstance(v, Choice):
            return tm.bite(v.c, self.b_isinstance([v.a, c], {}), self.b_isinstance([v.b, c], {}))
        cs = self.I.iterate(c) if isinstance(c, tuple) else (c,)
        r = whole_or_not = False
        for x in cs:
            if isinstance(x, ClassV):
                r = r or (isinstance(v, Obj) and self.subclass(v.cls, x))
                continue
            n = x.name if isinstance(x, LibF) else ('dt' + x.kind if isinstance(x, DtypeV) else '?')
            if n in ('np.ndarray',):
                r = r or isinstance(v, Arr)
            elif n == 'list':
                r = r or isinstance(v, ListV)
            elif n == 'tuple':
                r = r or isinstance(v, tuple)
            elif n == 'dict':
                r = r or isinstance(v, DictV)
            elif n == 'str':
                r = r or isinstance(v, str)
            elif n == 'bool':
                r = r or (isinstance(v, T) and tm.is_bool(v))
            elif n in ('int', 'np.integer', 'dti', 'numbers.Integral'):
                r = r or (isinstance(v, T) and tm.is_int(v))
            elif n in ('float', 'np.floating', 'dtf'):
                if isinstance(v, T) and type(v) is not tm.Whole and tm.is_int(v) and not tm.is_bool(v) and not r:
                    whole_or_not = True
                r = r or (isinstance(v, T) and not tm.is_int(v))
            elif n in ('numbers.Number', 'numbers.Real', 'np.number', 'np.generic', 'complex'):
                r = r or isinstance(v, T)
            elif n in ('NoneType',):
                r = r or v is None
            else:
                raise Unsup('isinstance ' + n)
        if whole_or_not and not r:
            raise Unsup('isinstance of a whole value that may be a float')
        return TRUE if r else FALSE

    def subclass(self, c, d):
        if c is d or (c.name == d.name and c.mod == d.mod):
            return True
        return any(self.subclass(b, d) for b in c.bases)

    def b_next(self, a, kw):
        raise Unsup('next')


    # ------------------------------------------------------------ value methods
    def method(self, r, name, args, kw):
        I = self.I
        if isinstance(r, Arr):
            if name in ('sum', 'mean', 'min', 'max', 'prod', 'any', 'all', 'argmin', 'argmax', 'cumsum', 'cumprod', 'std', 'var',
                        'argsort', 'round', 'dot', 'repeat', 'take', 'nonzero', 'clip', 'squeeze', 'ptp', 'searchsorted', 'swapaxes', 'trace', 'diagonal', 'compress'):
                return self.call('np.' + name, [r] + args if name != 'compress' else [args[0], r] + args[1:], kw)
            if name == 'copy':
                return I.new_arr(r.shape, I.vals(r), I.dtype(r), r.guards)
            if name in ('flatten', 'ravel'):
                if args or kw:
                    o = args[0] if args else kw.get('order')
                    if o not in ('C', None):
                        r = self.in_order(r, o)
                if name == 'flatten':
                    r2 = I.new_arr(r.shape, I.vals(r), I.dtype(r), r.guards)
                    return self.np_ravel([r2], {})
                return self.np_ravel([r], {})
            if name == 'reshape':
                s = args[0] if len(args) == 1 and not isinstance(args[0], T) else tuple(args)
                return self.np_reshape([r, s], kw)
            if name == 'astype':
                return self.astype(r, self.dtype_arg(args[0] if args else kw.get('dtype')))
            if name == 'tolist':
                return self.tolist(r)
            if name == 'item':
                if args:
                    if len(args) > 1 or not isinstance(args[0], T):
                        return self.getitem(r, tuple(args) if len(args) > 1 else args[0])
                    return I.vals(r)[self.cint(args[0])]
                if len(r.pos) != 1:
                    raise PyRaise('ValueError', 'item() of array of size != 1')
                return I.vals(r)[0]
            if name == 'transpose':
                return self.transpose(r, args[0] if len(args) == 1 else (tuple(args) if args else None))
            if name == 'fill':
                self.store(r, args[0])
                return None
            if name == 'sort':
                s = self.np_sort([r], kw)
                self.store(r, s)
                return None
            if name == 'view':
                return r
            if name == 'setflags':
                return None
            raise PyRaise('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name) if name not in NDATTR and not name.startswith('__') else Unsup('ndarray.' + name)
        if isinstance(r, ListV):
            its = I.items(r)
            if name == 'append':
                I.S.heap[r.loc] = its + (args[0],)
                return None
            if name == 'extend':
                I.S.heap[r.loc] = its + tuple(I.iterate(args[0]))
                return None
            if name == 'copy':
                return I.new_list(its)
            if name == 'insert':
                l = list(its)
                l.insert(self.cint(args[0]), args[1])
                I.S.heap[r.loc] = tuple(l)
                return None
            if name == 'pop':
                l = list(its)
                if not l:
                    raise PyRaise('IndexError', 'pop from empty list')
                v = l.pop(self.cint(args[0]) if args else -1)
                I.S.heap[r.loc] = tuple(l)
                return v
            if name == 'reverse':
                I.S.heap[r.loc] = tuple(reversed(its))
                return None
            if name == 'clear':
                I.S.heap[r.loc] = ()
                return None
            if name == 'sort':
                s = self.b_sorted([r], kw)
                I.S.heap[r.loc] = I.items(s)
                return None
            if name == 'index':
                for k, x in enumerate(its):
                    c = I.known(I.truth(self.compare('Eq', x, args[0])))
                    if c:
                        return num(k)
                    if c is None:
                        raise Unsup('list.index')
                raise PyRaise('ValueError', 'not in list')
            if name == 'count':
                return tm.add(ZERO, self.b_sum([tuple(tm.b2n(I.truth(self.compare('Eq', x, args[0]))) for x in its)], {}))
            raise PyRaise('AttributeError', "'list' object has no attribute '%s'" % name)
        if isinstance(r, DictV):
            d = I.S.heap[r.loc]
            if name == 'get':
                k = I.dkey(args[0])
                return I.strip(d[k]) if k in d and d[k] is not UNDEF else (args[1] if len(args) > 1 else None)
            if name == 'keys':
                return tuple(d.keys())
            if name == 'values':
                return tuple(I.strip(x) for x in d.values())
            if name == 'items':
                return tuple((k, I.strip(x)) for k, x in d.items())
            if name == 'update':
                n = dict(d)
                if args:
                    n.update(I.S.heap[args[0].loc] if isinstance(args[0], DictV) else I.S.heap[self.b_dict(args, {}).loc])
                n.update(kw)
                I.S.heap[r.loc] = n
                return None
            if name == 'pop':
                n = dict(d)
                k = I.dkey(args[0])
                if k not in n:
                    if len(args) > 1:
                        return args[1]
                    raise PyRaise('KeyError', str(k))
                v = n.pop(k)
                I.S.heap[r.loc] = n
                return v
            if name == 'setdefault':
                k = I.dkey(args[0])
                if k not in d:
                    n = dict(d)
                    n[k] = args[1] if len(args) > 1 else None
                    I.S.heap[r.loc] = n
                return I.S.heap[r.loc][k]
            if name == 'copy':
                return I.new_dict(d)
            if name == 'clear':
                I.S.heap[r.loc] = {}
                return None
            raise Unsup('dict.' + name)
        if isinstance(r, str):
            if isinstance(r, Text) or any(isinstance(x, Text) for x in args) or name == 'format':
                if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'find', 'index', 'count'):
                    raise Unsup('characters of a text')
                return Text(written(r, tuple(args), tuple(kw.values())))
            if name in ('lower', 'upper', 'strip'):
                return getattr(r, name)()
            if name in ('startswith', 'endswith') and isinstance(args[0], str):
                return TRUE if getattr(r, name)(args[0]) else FALSE
            return Text()
        if isinstance(r, tuple):
            if name == 'index':
                for k, x in enumerate(r):
                    c = I.known(I.truth(self.compare('Eq', x, args[0])))
                    if c:
                        return num(k)
                    if c is None:
                        raise Unsup('tuple.index')
                raise PyRaise('ValueError', 'not in tuple')
            raise Unsup('tuple.' + name)
        if isinstance(r, SetV):
            its = I.S.heap[r.loc]
            if name == 'add':
                I.S.heap[r.loc] = I.distinct(its + (args[0],))
                return None
            if name == 'update':
                for x in args:
                    I.S.heap[r.loc] = I.distinct(I.S.heap[r.loc] + tuple(I.iterate(x)))
                return None
            if name == 'union':
                return I.new_set(its + tuple(y for x in args for y in I.iterate(x)))
            if name in ('intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'discard', 'remove', 'copy'):
                its = I.iterate(r)
                o = [args[0]] if name in ('discard', 'remove') else list(I.iterate(args[0])) if args else []
                if not all(I.fixed(x) for x in o) or not all(I.fixed(x) for x in its) or len(args) > 1:
                    raise Unsup('set.' + name)
                both = [x for x in its if x in o]
                only = [x for x in its if x not in o]
                if name in ('discard', 'remove'):
                    if name == 'remove' and not both:
                        raise PyRaise('KeyError', 'not in set')
                    I.S.heap[r.loc] = tuple(only)
                    return None
                if name == 'intersection':
                    return I.new_set(both)
                if name in ('difference', 'copy'):
                    return I.new_set(only)
                return tm.TRUE if {'issubset': not only, 'issuperset': all(x in its for x in o), 'isdisjoint': not both}[name] else tm.FALSE
            raise Unsup('set.' + name)
        if isinstance(r, T):
            if name == 'astype':
                k = self.dtype_arg(args[0])
                return tm.trunc(r) if k == 'i' else r
            if name in ('item', 'copy', 'sum', 'mean', 'min', 'max', 'tolist'):
                return r
            if name == 'is_integer':
                return eq0(sub(r, tm.floor(r)))
            if name in ('any', 'all'):
                return tm.truth(r)
            if name == 'round':
                return rint(r)
            if name in ('flatten', 'ravel'):
                return self.I.new_arr((1,), (r,), 'f')
            if name == 'reshape':
                return self.np_reshape([self.asarr(r), args[0] if len(args) == 1 and not isinstance(args[0], T) else tuple(args)], kw)
        raise Unsup('method ' + name)

    def tolist(self, a):
        I = self.I
        if a.guards is not None:
            raise Unsup('tolist of unknown length')
        if a.shape == ():
            return I.vals(a)[0]
        return I.new_list([self.tolist(x) if isinstance(x, Arr) else x for x in I.iterate(a)])

    def transpose(self, a, axes):
        nd = len(a.shape)
        ax = list(reversed(range(nd))) if axes is None else [self.cint(x) % nd for x in self.I.iterate(axes)]
        if a.guards is not None and nd > 1:
            raise Unsup('transpose of compressed array')
        sh = tuple(a.shape[k] for k in ax)
        pos = []
        for k in range(prod(sh)):
            ix = unravel(k, sh)
            src = [0] * nd
            for j, x in enumerate(ax):
                src[x] = ix[j]
            pos.append(a.pos[ravel(src, a.shape)])
        return Arr(a.loc, sh, tuple(pos), a.guards)

    def reshape(self, a, shape):
        n = len(a.pos)
        if a.guards is not None:
            if tuple(shape) == (-1,) and len(a.shape) == 1:
                return a
            raise Unsup('reshape of array of unknown length')
        shape = list(shape)
        if shape.count(-1) > 1:
            raise PyRaise('ValueError', 'can only specify one unknown dimension')
        if -1 in shape:
            k = prod([s for s in shape if s != -1])
            if k == 0 or n % k:
                raise PyRaise('ValueError', 'cannot reshape array of size %d into shape %s' % (n, tuple(shape)))
            shape[shape.index(-1)] = n // k
        if prod(shape) != n:
            raise PyRaise('ValueError', 'cannot reshape array of size %d into shape %s' % (n, tuple(shape)))
        return Arr(a.loc, tuple(shape), a.pos)

    # -------------------------------------------------------------------- numpy
    def np_array(self, args, kw):
        I = self.I
        self.chk(kw, 'dtype', 'copy', 'object', 'ndmin')
        v = self.arg(args, kw, 0, 'object', req=True)
        d = self.arg(args, kw, 1, 'dtype')
        dk = self.dtype_arg(d, None) if d is not None else None
        if dk == 'o':
            return self.objarray(v)
        a = self.asarr(v)
        a = I.new_arr(a.shape, I.vals(a), I.dtype(a), a.guards)
        if dk is not None:
            a = self.astype(a, dk)
        if 'ndmin' in kw and self.cint(kw['ndmin']) > len(a.shape):
            a = Arr(a.loc, (1,)*(self.cint(kw['ndmin']) - len(a.shape)) + tuple(a.shape), a.pos)
        if I.dtype(a) == 'u' and any(not tm.is_int(x) for x in I.vals(a)):
            I.S.heap[a.loc] = Buf('f', I.S.heap[a.loc].vals)
        return a

    def objarray(self, v):
        """np.array(seq, dtype=object): equal-length members merge into extra axes"""
        I = self.I
        if isinstance(v, Arr):
            return I.new_arr(v.shape, I.vals(v), 'o', v.guards)
        its = [I.strip(x) for x in I.iterate(v)]

        def shp(x):
            x = I.strip(x)
            if isinstance(x, Arr):
                return x.shape if x.guards is None else ('?',)
            if isinstance(x, (ListV, tuple)):
                sub_ = [shp(y) for y in I.iterate(x)]
                if not sub_:
                    return (0,)
                if any('?' in s for s in sub_):
                    common = ()
                    return (len(sub_),) + ('?',)
                c = 0
                m = min(len(s) for s in sub_)
                while c < m and all(s[c] == sub_[0][c] for s in sub_):
                    c += 1
                return (len(sub_),) + sub_[0][:c]
            return ()
        shps = [shp(x) for x in its]
        if not its:
            return I.new_arr((0,), (), 'o')
        if any('?' in s for s in shps):
            I.effect('ragged', 'object array of members whose lengths depend on the data')
            return I.new_arr((len(its),), its, 'o')
        m = min(len(s) for s in shps)
        c = 0
        while c < m and all(s[c] == shps[0][c] for s in shps):
            c += 1
        if c == 0 and m and len({s[0] for s in shps}) == 1:
            c = 1
        if c and any(len(s) > c for s in shps) and False:
            pass
        common = shps[0][:c]
        if not common:
            return I.new_arr((len(its),), its, 'o')
        vals = []

        def get(x, ix):
            for i in ix:
                x = I.getitem(x, num(i))
            return x
        for x in its:
            for ix in itertools.product(*[range(d) for d in common]):
                vals.append(get(x, ix))
        return I.new_arr((len(its),) + tuple(common), vals, 'o')

    def np_asarray(self, args, kw):
        d = self.arg(args, kw, 1, 'dtype')
        v = args[0]
        if isinstance(v, Arr) and d is None:
            return v
        if isinstance(v, Arr):
            k = self.dtype_arg(d)
            if self.I.dtype(v) == k:
                return v
        return self.np_array(args, kw)

    np_asanyarray = np_ascontiguousarray = np_asfarray = np_asarray

    def np_copy(self, args, kw):
        a = self.asarr(args[0])
        return self.I.new_arr(a.shape, self.I.vals(a), self.I.dtype(a), a.guards)

    def filled(self, args, kw, v, dt='f'):
        self.chk(kw, 'shape', 'dtype', 'order')
        s = self.arg(args, kw, 0, 'shape', req=True)
        d = self.dtype_arg(self.arg(args, kw, 1, 'dtype'), dt)
        s = self.I.strip(s)
        if isinstance(s, tuple) and len(s) == 1 and isinstance(s[0], T):
            s = s[0]
        if isinstance(s, T) and s in self.extents:
            # as many as the elements of an array of data-dependent length: the same slots
            g = self.extents[s]
            if d == 'b':
                v = tm.truth(v)
            r = self.I.new_arr((len(g),), (v,) * len(g), d)
            return Arr(r.loc, r.shape, r.pos, g)
        sh = self.shape_arg(s)
        if any(x < 0 for x in sh):
            raise PyRaise('ValueError', 'negative dimensions')
        if d == 'b':
            v = tm.truth(v)
        return self.I.new_arr(sh, (v,) * prod(sh), d)

    def np_zeros(self, args, kw):
        return self.filled(args, kw, ZERO)

    def np_ones(self, args, kw):
        return self.filled(args, kw, ONE)

    def np_empty(self, args, kw):
        return self.filled(args, kw, UNDEFT)

    def np_full(self, args, kw):
        v = self.arg(args, kw, 1, 'fill_value', req=True)
        d = self.arg(args, kw, 2, 'dtype')
        sh = self.shape_arg(self.arg(args, kw, 0, 'shape', req=True))
        dk = self.dtype_arg(d) if d is not None else self.dt_of_vals((v,)) if isinstance(v, T) else 'f'
        a = self.I.new_arr(sh, (ZERO,) * prod(sh), dk)
        self.store(a, v)
        return a

    def like(self, args, kw, v):
        a = self.asarr(args[0])
        d = self.arg(args, kw, 1, 'dtype')
        k = self.dtype_arg(d) if d is not None else self.I.dtype(a)
        if k == 'b':
            v = tm.truth(v)
        return self.I.new_arr(a.shape, (v,) * len(a.pos), k, a.guards)

    def np_zeros_like(self, args, kw):
        return self.like(args, kw, ZERO)

    def np_ones_like(self, args, kw):
        return self.like(args, kw, ONE)

    def np_empty_like(self, args, kw):
        return self.like(args, kw, UNDEFT)

    def np_full_like(self, args, kw):
        a = self.like(args[:1], {k: v for k, v in kw.items() if k == 'dtype'}, ZERO)
        self.store(a, self.arg(args, kw, 1, 'fill_value'))
        return a

    def np_identity(self, args, kw):
        n = self.cint(args[0])
        return self.I.new_arr((n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)], 'f')

    np_eye = np_identity

    def np_diag(self, args, kw):
        a = self.asarr(args[0])
        v = self.I.vals(a)
        n = a.shape[0]
        if len(a.shape) == 1:
            return self.I.new_arr((n, n), [v[i] if i == j else ZERO for i in range(n) for j in range(n)], 'f')
        return self.I.new_arr((n,), [v[i * a.shape[1] + i] for i in range(n)], 'f')

    def np_arange(self, args, kw):
        self.chk(kw, 'dtype', 'start', 'stop', 'step')
        if len(args) == 1 and 'start' not in kw and 'stop' not in kw:
            lo, hi, st = ZERO, args[0], ONE
        else:
            lo = self.arg(args, kw, 0, 'start', ZERO)
            hi = self.arg(args, kw, 1, 'stop')
            st = self.arg(args, kw, 2, 'step', ONE)
        n = tm.ceil(div(sub(hi, lo), st))
        n = max(0, self.cint(n))
        vals = [add(lo, mul(num(k), st)) for k in range(n)]
        d = self.dtype_arg(kw.get('dtype'), None) if kw.get('dtype') is not None else None
        dt = d or ('u' if any(not isinstance(x, T) or not x.op == 'num' for x in (lo, hi, st)) else 'i' if all(tm.is_int(x) for x in (lo, st, hi)) else 'f')
        if dt == 'u' and not all(tm.is_int(x) for x in vals):
            dt = 'f'
        return self.I.new_arr((n,), vals, dt)

    def np_linspace(self, args, kw):
        self.chk(kw, 'start', 'stop', 'num', 'endpoint', 'retstep', 'dtype')
        lo = self.arg(args, kw, 0, 'start', req=True)
        hi = self.arg(args, kw, 1, 'stop', req=True)
        nt = self.arg(args, kw, 2, 'num', num(50))
        if isinstance(nt, Arr) and self.I.dtype(nt) == 'f':
            raise PyRaise('TypeError', 'float number of samples')
        n = self.cint(nt)
        if n < 0:
            raise PyRaise('ValueError', 'negative number of samples')
        ep = self.arg(args, kw, 3, 'endpoint', TRUE) is not FALSE
        if isinstance(lo, (Arr, ListV, tuple)) or isinstance(hi, (Arr, ListV, tuple)):
            if kw.get('retstep') is TRUE:
                raise Unsup('linspace of arrays with retstep')
            k = n - 1 if ep else n
            rows = []
            for i in range(n):
                if k <= 0:
                    rows.append(self.ufunc(lambda a, b: a, [lo, hi], 'f'))
                else:
                    f = div(num(i), num(k))
                    rows.append(self.ufunc(lambda a, b: add(a, mul(sub(b, a), f)), [lo, hi], 'f'))
            return self.np_stack([tuple(rows)], {})
        if lo is None or hi is None:
            raise PyRaise('TypeError', 'linspace of None')
        k = n - 1 if ep else n
        step = div(sub(hi, lo), num(k)) if k > 0 else tm.NAN
        vals = [add(lo, mul(num(i), step)) if i else lo for i in range(n)]
        r = self.I.new_arr((n,), vals, 'f')
        if kw.get('retstep') is TRUE:
            return (r, step)
        return r

    def np_logspace(self, args, kw):
        base = self.arg(args, kw, 4, 'base', num(10))
        kk = {k: v for k, v in kw.items() if k in ('start', 'stop', 'num', 'endpoint')}
        e = self.np_linspace(args[:4], kk)
        return self.ufunc(lambda x: tm.power(base, x), [e], 'f')

    def np_geomspace(self, args, kw):
        lo, hi = args[0], args[1]
        e = self.np_linspace([tm.log10(lo), tm.log10(hi)] + list(args[2:]), kw)
        r = self.ufunc(lambda x: tm.power(num(10), x), [e], 'f')
        return r

    def np_meshgrid(self, args, kw):
        I = self.I
        self.chk(kw, 'indexing', 'sparse', 'copy')
        if kw.get('sparse') is TRUE:
            raise Unsup('sparse meshgrid')
        ij = kw.get('indexing', 'xy') == 'ij'
        arrs = [self.asarr(a) for a in args]
        arrs = [self.np_ravel([a], {}) for a in arrs]
        if any(a.guards is not None for a in arrs):
            raise Unsup('meshgrid of compressed arrays')
        dims = [len(a.pos) for a in arrs]
        order = list(range(len(arrs)))
        if not ij and len(arrs) >= 2:
            order[0], order[1] = 1, 0
        sh = tuple(dims[k] for k in order)
        out = []
        for k, a in enumerate(arrs):
            ax = order.index(k)
            v = I.vals(a)
            out.append(I.new_arr(sh, [v[unravel(f, sh)[ax]] for f in range(prod(sh))], I.dtype(a)))
        return I.new_list(out)

    def np_indices(self, args, kw):
        sh = self.shape_arg(args[0])
        vals = []
        for ax in range(len(sh)):
            vals += [num(unravel(k, sh)[ax]) for k in range(prod(sh))]
        return self.I.new_arr((len(sh),) + sh, vals, 'i')

    def np_shape(self, args, kw):
        v = args[0]
        if isinstance(v, Choice):
            return self.I.over(v, lambda x: self.np_shape([x], {}))
        if isinstance(v, T) or v is None:
            return ()
        return self.shape_of(self.asarr(v))

    def np_ndindex(self, args, kw):
        a = args
        if len(a) == 1 and not isinstance(a[0], T):
            a = list(self.I.iterate(a[0]))
        return tuple(tuple(num(k) for k in ix) for ix in itertools.product(*[range(self.cint(n)) for n in a]))

    def np_ndenumerate(self, args, kw):
        a = self.asarr(args[0])
        if a.guards is not None:
            raise Unsup('ndenumerate of an array of unknown length')
        v = self.I.vals(a)
        return tuple((tuple(num(k) for k in ix), x) for ix, x in zip(itertools.product(*[range(n) for n in a.shape]), v))

    def np_ndim(self, args, kw):
        return num(len(self.np_shape(args, kw)))

    def np_size(self, args, kw):
        s = self.np_shape(args[:1], {})
        ax = self.arg(args, kw, 1, 'axis')
        if ax is not None:
            return s[self.cint(ax)]
        r = ONE
        for x in s:
            r = mul(r, x)
        return r

    def np_isscalar(self, args, kw):
        v = args[0]
        if isinstance(v, Choice):
            return tm.bite(v.c, self.np_isscalar([v.a], {}), self.np_isscalar([v.b], {}))
        return TRUE if isinstance(v, (T, str)) else FALSE

    def axes_in_memory(self, a):
        """axes from the slowest to the fastest in memory"""
        st = []
        for k, n in enumerate(a.shape):
            if n <= 1:
                st.append(None)
                continue
            ix = [0] * len(a.shape)
            ix[k] = 1
            st.append(abs(a.pos[ravel(ix, a.shape)] - a.pos[0]))
        big = [k for k, x in enumerate(st) if x is not None]
        return sorted(big, key=lambda k: -st[k]), [k for k, x in enumerate(st) if x is None]

    def fortran_only(self, a):
        if not a.pos or a.guards is not None:
            return False
        big, one = self.axes_in_memory(a)
        return len(big) > 1 and big == sorted(big, reverse=True) and max(a.pos) - min(a.pos) == len(a.pos) - 1

    def in_order(self, a, o):
        if o in ('C', None) or len(a.shape) < 2:
            return a
        if a.guards is not None or o not in ('F', 'A', 'K'):
            raise Unsup('order')
        if o == 'F' or o == 'A' and self.fortran_only(a):
            return self.transpose(a, None)
        if o == 'K' and a.pos:
            big, one = self.axes_in_memory(a)
            return self.transpose(a, tuple(num(k) for k in one + big))
        return a

    def np_isfortran(self, args, kw):
        return TRUE if self.fortran_only(self.asarr(args[0])) else FALSE

    def np_ravel(self, args, kw):
        self.chk(kw, 'order')
        a = self.in_order(self.asarr(args[0]), self.arg(args, kw, 1, 'order'))
        if a.guards is not None:
            if len(a.shape) == 1:
                return a
            per = prod(a.shape[1:])
            return Arr(a.loc, (len(a.pos),), a.pos, tuple(g for g in a.guards for _ in range(per)))
        return Arr(a.loc, (len(a.pos),), a.pos)

    def np_reshape(self, args, kw):
        a = self.asarr(args[0])
        self.chk(kw, 'order', 'newshape', 'shape')
        s = args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape'))
        sh = self.shape_arg(s)
        o = kw.get('order', args[2] if len(args) > 2 else 'C')
        if o == 'F':
            t = self.reshape(self.np_ravel([self.transpose(a, None)], {}), tuple(reversed(sh)))
            return self.transpose(t, None)
        if o not in ('C', 'A') or o == 'A' and self.fortran_only(a):
            raise Unsup('order')
        return self.reshape(a, sh)

    def np_transpose(self, args, kw):
        return self.transpose(self.asarr(args[0]), self.arg(args, kw, 1, 'axes'))

    def np_swapaxes(self, args, kw):
        a = self.asarr(args[0])
        ax = list(range(len(a.shape)))
        i, j = self.cint(args[1]), self.cint(args[2])
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(a, tuple(num(x) for x in ax))

    def np_moveaxis(self, args, kw):
        a = self.asarr(args[0])
        nd = len(a.shape)
        s, d = self.cint(args[1]) % nd, self.cint(args[2]) % nd
        ax = [k for k in range(nd) if k != s]
        ax.insert(d, s)
        return self.transpose(a, tuple(num(x) for x in ax))

    def np_squeeze(self, args, kw):
        a = self.asarr(args[0])
        return Arr(a.loc, tuple(s for s in a.shape if s != 1), a.pos, a.guards if a.guards and a.shape[0] != 1 else None)

    def np_expand_dims(self, args, kw):
        a = self.asarr(args[0])
        k = self.cint(self.arg(args, kw, 1, 'axis'))
        if k < 0:
            k += len(a.shape) + 1
        sh = list(a.shape)
        sh.insert(k, 1)
        if a.guards is not None and k == 0:
            raise Unsup('expand compressed')
        return Arr(a.loc, tuple(sh), a.pos, a.guards)

    def np_atleast_1d(self, args, kw):
        if len(args) != 1:
            return self.I.new_list([self.np_atleast_1d([x], {}) for x in args])
        a = self.asarr(args[0])
        return a if a.shape else Arr(a.loc, (1,), a.pos)

    def np_atleast_2d(self, args, kw):
        a = self.asarr(args[0])
        if len(a.shape) >= 2:
            return a
        return Arr(a.loc, (1, len(a.pos)), a.pos)

    def np_broadcast_to(self, args, kw):
        a = self.asarr(args[0])
        sh = self.shape_arg(args[1])
        if self.bshape([a.shape, sh]) != sh:
            raise PyRaise('ValueError', 'broadcast_to')
        v = self.I.vals(a)
        return self.I.new_arr(sh, [v[k] for k in self.bpos(a.shape, sh)], self.I.dtype(a))

    def np_broadcast_arrays(self, args, kw):
        arrs = [self.asarr(a) for a in args]
        sh = self.bshape([a.shape for a in arrs])
        return self.I.new_list([self.np_broadcast_to([a, tuple(num(x) for x in sh)], {}) for a in arrs])

    def np_flip(self, args, kw):
        a = self.asarr(args[0])
        ax = self.arg(args, kw, 1, 'axis')
        r = SliceV(None, None, num(-1))
        if ax is None:
            return self.getitem(a, tuple(r for _ in a.shape))
        k = self.cint(ax) % len(a.shape)
        return self.getitem(a, tuple(r if j == k else SliceV(None, None, None) for j in range(len(a.shape))))

    def np_flipud(self, args, kw):
        return self.np_flip([args[0], ZERO], {})

    def np_fliplr(self, args, kw):
        return self.np_flip([args[0], ONE], {})

    def np_roll(self, args, kw):
        a = self.asarr(args[0])
        I = self.I
        sh = self.arg(args, kw, 1, 'shift', req=True)
        ax = self.arg(args, kw, 2, 'axis')
        if isinstance(ax, tuple) and ax:
            sh = list(I.iterate(sh)) if isinstance(sh, (tuple, ListV, Arr)) else [sh] * len(ax)
            for x, y in zip(sh, ax):
                a = self.np_roll([a, x, y], {})
            return a
        if a.guards is not None or not isinstance(sh, T):
            raise Unsup('roll')
        v = I.vals(a)
        if ax is None:
            shape, axis = (len(v),), 0
        else:
            shape, axis = a.shape, self.cint(ax) % len(a.shape)
        n = shape[axis]
        sh = tm.trunc(sh)

        def rolled(s):
            out = []
            for k in range(len(v)):
                ix = list(unravel(k, shape))
                ix[axis] = (ix[axis] - s) % n
                out.append(v[ravel(ix, shape)])
            return out
        if sh.op == 'num':
            out = rolled(int(sh.args[0]))
        else:
            m = tm.mod(sh, num(n))
            opts = [rolled(s) for s in range(n)]
            out = []
            for k in range(len(v)):
                r = opts[-1][k]
                for s in range(n - 2, -1, -1):
                    r = I.merge_val(eq0(sub(m, num(s))), opts[s][k], r)
                out.append(r)
        return I.new_arr(a.shape, out, I.dtype(a))

    def np_where(self, args, kw):
        I = self.I
        if len(args) == 1:
            m = self.asarr(args[0])
            if m.shape == ():
                m = Arr(m.loc, (1,), m.pos)
            return tuple(self.nonzero(m))
        c, x, y = args
        return self.ufunc(lambda c, a, b: I.merge_val(tm.truth(c), a, b), [c, x, y], self.promote([x, y]))

    def promote(self, vs):
        I = self.I
        ds = []
        for v in vs:
            if isinstance(v, T):
                ds.append(self.dt_of_vals((v,)))
            elif isinstance(v, Arr):
                ds.append(I.dtype(v))
            else:
                ds.append(I.dtype(self.asarr(v)))
        if 'o' in ds:
            return 'o'
        if 'f' in ds:
            return 'f'
        if 'u' in ds:
            return 'u'
        if 'i' in ds:
            return 'i'
        return 'b'

    def np_nonzero(self, args, kw):
        return tuple(self.nonzero(self.asarr(args[0])))

    def np_flatnonzero(self, args, kw):
        return self.nonzero(self.np_ravel([args[0]], {}))[0]

    def np_argwhere(self, args, kw):
        ix = self.nonzero(self.asarr(args[0]))
        if len(ix) == 1:
            a = ix[0]
            return Arr(a.loc, (len(a.pos), 1), a.pos, a.guards)
        if all(a.guards is None for a in ix):
            return self.np_stack([tuple(ix)], {'axis': ONE})
        raise Unsup('argwhere')

    def np_count_nonzero(self, args, kw):
        m = self.ufunc(lambda x: tm.b2n(tm.truth(x)), [args[0]], 'i')
        return self.np_sum([m] + list(args[1:]), kw)

    def np_select(self, args, kw):
        cs, xs = self.I.iterate(args[0]), self.I.iterate(args[1])
        r = self.arg(args, kw, 2, 'default', ZERO)
        for c, x in reversed(list(zip(cs, xs))):
            r = self.np_where([c, x, r], {})
        return r

    def np_clip(self, args, kw):
        lo = self.arg(args, kw, 1, 'a_min', kw.get('min'))
        hi = self.arg(args, kw, 2, 'a_max', kw.get('max'))
        r = args[0]
        if lo is not None:
            r = self.ufunc(tm.fmax, [r, lo])
        if hi is not None:
            r = self.ufunc(tm.fmin, [r, hi])
        return r

    def np_round(self, args, kw):
        d = self.arg(args, kw, 1, 'decimals', ZERO)
        if d is ZERO:
            return self.ufunc(rint, [args[0]], 'p')
        return self.ufunc(lambda x: rounded(x, d), [args[0]], 'f')

    np_around = np_round

    def np_sum(self, args, kw):
        if 'where' in kw:
            kw = dict(kw)
            w = kw.pop('where')
            return self.reduce([self.np_where([w, args[0], ZERO], {})] + list(args[1:]), kw, _sum)
        return self.reduce(args, kw, _sum)

    def np_nansum(self, args, kw):
        return self.reduce(args, kw, lambda g: _sum([(band(c, bnot(isnan(x))), x) for c, x in g]))

    def np_mean(self, args, kw):
        if 'where' in kw:
            k2 = {k: v for k, v in kw.items() if k != 'where'}
            w = self.binop('Mult', kw['where'], self.np_ones_like([args[0]], {}))
            return self.binop('Div', self.np_sum(args, kw), self.reduce([w] + list(args[1:]), k2, _sum))
        return self.reduce(args, kw, _mean, 'f')

    def np_nanmean(self, args, kw):
        return self.reduce(args, kw, lambda g: _mean([(band(c, bnot(isnan(x))), x) for c, x in g]), 'f')

    def np_var(self, args, kw):
        if 'ddof' in kw:
            raise Unsup('ddof')

        def f(g):
            m = _mean(g)
            return _mean([(c, mul(sub(x, m), sub(x, m))) for c, x in g])
        return self.reduce(args, kw, f, 'f')

    def np_std(self, args, kw):
        r = self.np_var(args, kw)
        return self.ufunc(tm.sqrt, [r], 'f')

    def np_average(self, args, kw):
        w = self.arg(args, kw, 2, 'weights')
        if w is None:
            return self.np_mean(args[:1], {k: v for k, v in kw.items() if k == 'axis'})
        self.chk(kw, 'axis', 'weights')
        ax = {k: v for k, v in kw.items() if k == 'axis'}
        if len(args) > 1:
            ax['axis'] = args[1]
        a, w = self.asarr(args[0]), self.asarr(w)
        if a.shape != w.shape:
            if not isinstance(I_ax := self.I.strip(ax.get('axis')), T) or len(w.shape) != 1 or a.guards is not None or w.guards is not None:
                raise Unsup('average')
            k = self.cint(I_ax) % len(a.shape)
            if a.shape[k] != w.shape[0]:
                raise PyRaise('ValueError', 'Shape of weights must be consistent with shape of a along specified axis')
            w = self.np_broadcast_to([self.reshape(w, tuple(w.shape[0] if j == k else 1 for j in range(len(a.shape)))), tuple(num(x) for x in a.shape)], {})
            args = [a]
        return self.binop('Div', self.np_sum([self.binop('Mult', args[0], w)], ax), self.np_sum([w], dict(ax)))

    def np_prod(self, args, kw):
        def f(g):
            r = ONE
            for c, x in g:
                r = mul(r, ite(c, n2(x), ONE))
            return r
        return self.reduce(args, kw, f)

    def np_max(self, args, kw):
        return self.reduce(args, kw, lambda g: self.ext(g, tm.fmax))

    def np_min(self, args, kw):
        return self.reduce(args, kw, lambda g: self.ext(g, tm.fmin))

    np_amax, np_amin = np_max, np_min
    np_nanmax, np_nanmin = np_max, np_min

    def ext(self, g, f):
        if not g:
            raise PyRaise('ValueError', 'zero-size array to reduction operation')
        r = None
        anyg = FALSE
        for c, x in g:
            x = n2(x)
            if r is None:
                r = x
            else:
                # only elements present take part
                r = ite(anyg, ite(c, f(r, x), r), x)
            anyg = bor(anyg, c)
        self.I.oblige('empty reduction', anyg, 'reduction of a possibly empty array')
        return r

    def np_ptp(self, args, kw):
        return self.binop('Sub', self.np_max(args, kw), self.np_min(args, kw))

    def argext(self, args, kw, isless):
        a = self.asarr(args[0])
        I = self.I
        ax = self.arg(args, kw, 1, 'axis')
        if a.guards is not None:
            raise Unsup('argmin of compressed array')
        grp, rs, _ = self.axis_groups(a, self.axis_arg(ax))
        out = []
        for g in grp:
            if not g:
                raise PyRaise('ValueError', 'attempt to get argmin of an empty sequence')
            best, bi = n2(g[0][1]), ZERO
            for k in range(1, len(g)):
                x = n2(g[k][1])
                c = lt0(sub(x, best)) if isless else lt0(sub(best, x))
                bi = ite(c, num(k), bi)
                best = ite(c, x, best)
            out.append(bi)
        if rs == ():
            return out[0]
        return I.new_arr(rs, out, 'i')

    def np_argmin(self, args, kw):
        return self.argext(args, kw, True)

    def np_argmax(self, args, kw):
        a = self.asarr(args[0])
        if self.I.dtype(a) == 'b' and a.guards is None and len(a.shape) == 1:
            v = self.I.vals(a)
            r = ZERO
            for k in range(len(v) - 1, -1, -1):
                r = ite(tm.truth(v[k]), num(k), r)
            return r
        return self.argext(args, kw, False)

    def scan(self, args, kw, f, init):
        I = self.I
        a = self.asarr(args[0])
        ax = self.arg(args, kw, 1, 'axis')
        v = I.vals(a)
        if ax is None:
            if a.guards is not None and len(a.shape) > 1:
                raise Unsup('cumsum')
            out = []
            acc = init
            for k, x in enumerate(v):
                acc = f(acc, ite(a.guards[k], n2(x), init) if a.guards is not None else n2(x))
                out.append(acc)
            return I.new_arr((len(v),), out, 'f' if I.dtype(a) == 'f' else 'u', a.guards)
        k = self.cint(ax) % len(a.shape)
        out = list(v)
        for p in range(len(v)):
            ix = unravel(p, a.shape)
            if ix[k]:
                jx = list(ix)
                jx[k] -= 1
                out[p] = f(out[ravel(jx, a.shape)], n2(v[p]))
        if a.guards is not None:
            raise Unsup('cumsum axis of compressed')
        return I.new_arr(a.shape, out, 'f' if I.dtype(a) == 'f' else 'u')

    def np_cumsum(self, args, kw):
        return self.scan(args, kw, add, ZERO)

    def np_cumprod(self, args, kw):
        return self.scan(args, kw, mul, ONE)

    def np_diff(self, args, kw):
        a = self.asarr(args[0])
        ax = self.cint(self.arg(args, kw, 2, 'axis', num(-1)))
        n = len(a.shape)
        ax %= n
        for k, name in ((3, 'prepend'), (4, 'append')):
            x = self.arg(args, kw, k, name)
            if x is not None:
                x = self.asarr(x)
                if x.shape == ():
                    x = self.np_broadcast_to([x, tuple(num(1 if j == ax else m) for j, m in enumerate(a.shape))], {})
                a = self.np_concatenate([(x, a) if name == 'prepend' else (a, x)], {'axis': num(ax)})
        times = self.cint(self.arg(args, kw, 1, 'n', ONE))
        if times != 1:
            for _ in range(times):
                a = self.np_diff([a], {'axis': num(ax)})
            return a
        if a.guards is not None:
            raise Unsup('diff of compressed array')
        full = SliceV(None, None, None)
        hi = tuple(SliceV(ONE, None, None) if k == ax else full for k in range(n))
        lo = tuple(SliceV(None, num(-1), None) if k == ax else full for k in range(n))
        return self.binop('Sub', self.getitem(a, hi), self.getitem(a, lo))

    def np_any(self, args, kw):
        return self.reduce(args, kw, lambda g: bor(*[band(c, tm.truth(x)) for c, x in g]) if g else FALSE, 'b')

    def np_all(self, args, kw):
        return self.reduce(args, kw, lambda g: band(*[bor(bnot(c), tm.truth(x)) for c, x in g]) if g else TRUE, 'b')

    def np_concatenate(self, args, kw):
        I = self.I
        arrs = [self.asarr(x) for x in I.iterate(args[0])]
        ax = self.arg(args, kw, 1, 'axis', ZERO)
        if ax is None:
            arrs = [self.np_ravel([a], {}) for a in arrs]
            axis = 0
        else:
            axis = self.cint(ax)
        if any(a.shape == () for a in arrs):
            raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
        if not arrs:
            raise PyRaise('ValueError', 'need at least one array to concatenate')
        nd = len(arrs[0].shape)
        axis %= nd
        for a in arrs:
            if len(a.shape) != nd or any(a.shape[k] != arrs[0].shape[k] for k in range(nd) if k != axis):
                raise PyRaise('ValueError', 'concatenation dimensions must match')
        dts = [I.dtype(a) for a in arrs]
        dt = dts[0] if len(set(dts)) == 1 else 'o' if 'o' in dts else 'f' if 'f' in dts else 'u'
        if any(a.guards is not None for a in arrs):
            if axis != 0:
                raise Unsup('concatenate compressed')
            g = []
            v = []
            for a in arrs:
                g += list(a.guards) if a.guards is not None else [TRUE] * a.shape[0]
                v += I.vals(a)
            return I.new_arr((len(g),) + arrs[0].shape[1:], v, dt, g)
        tot = sum(a.shape[axis] for a in arrs)
        sh = tuple(tot if k == axis else arrs[0].shape[k] for k in range(nd))
        vals = [None] * prod(sh)
        off = 0
        for a in arrs:
            for k, x in enumerate(I.vals(a)):
                ix = list(unravel(k, a.shape))
                ix[axis] += off
                vals[ravel(ix, sh)] = x
            off += a.shape[axis]
        return I.new_arr(sh, vals, dt)

    def np_hstack(self, args, kw):
        arrs = [self.np_atleast_1d([x], {}) for x in self.I.iterate(args[0])]
        return self.np_concatenate([tuple(arrs), ZERO if len(arrs[0].shape) == 1 else ONE], {})

    def np_vstack(self, args, kw):
        return self.np_concatenate([tuple(self.np_atleast_2d([x], {}) for x in self.I.iterate(args[0])), ZERO], {})

    def np_column_stack(self, args, kw):
        arrs = [self.asarr(x) for x in self.I.iterate(args[0])]
        if all(len(a.shape) == 1 for a in arrs) and all(a.guards == arrs[0].guards for a in arrs) and arrs[0].guards is not None:
            n = len(arrs[0].pos)
            cols = [self.I.vals(a) for a in arrs]
            if any(len(a.pos) != n for a in arrs):
                raise Unsup('column_stack')
            return self.I.new_arr((n, len(arrs)), [c[k] for k in range(n) for c in cols], 'f', arrs[0].guards)
        return self.np_stack([tuple(arrs)], {'axis': num(-1)}) if all(len(a.shape) == 1 for a in arrs) else self.np_concatenate([tuple(arrs), ONE], {})

    def np_stack(self, args, kw):
        arrs = [self.asarr(x) for x in self.I.iterate(args[0])]
        ax = self.cint(self.arg(args, kw, 1, 'axis', ZERO))
        nd = len(arrs[0].shape) + 1
        ax %= nd
        return self.np_concatenate([tuple(self.np_expand_dims([a, num(ax)], {}) for a in arrs), num(ax)], {})

    np_vstack_ = np_vstack


    def np_append(self, args, kw):
        ax = self.arg(args, kw, 2, 'axis')
        if ax is None:
            a, b = self.np_ravel([self.np_atleast_1d([args[0]], {})], {}), self.np_ravel([self.np_atleast_1d([args[1]], {})], {})
            return self.np_concatenate([(a, b)], {})
        return self.np_concatenate([(args[0], args[1]), ax], {})

    def np_insert(self, args, kw):
        a = self.asarr(args[0])
        k = self.cint(args[1])
        v = self.np_atleast_1d([args[2]], {})
        if len(a.shape) != 1:
            raise Unsup('insert')
        return self.np_concatenate([(self.getitem(a, SliceV(None, num(k), None)), v, self.getitem(a, SliceV(num(k), None, None)))], {})

    def np_delete(self, args, kw):
        a = self.asarr(args[0])
        ax = self.arg(args, kw, 2, 'axis')
        if len(a.shape) != 1 or not isinstance(args[1], T):
            return self.prelude('delete_some', [a, args[1], ax], {})
        k = self.cint(args[1]) % a.shape[0]
        return self.np_concatenate([(self.getitem(a, SliceV(None, num(k), None)), self.getitem(a, SliceV(num(k + 1), None, None)))], {})

    def np_repeat(self, args, kw):
        a = self.asarr(args[0])
        ax = self.arg(args, kw, 2, 'axis')
        n = self.arg(args, kw, 1, 'repeats')
        if not isinstance(n, T):
            return self.prelude('repeat_each', [a, n, ax], {})
        n = self.cint(n)
        I = self.I
        v = I.vals(a)
        if a.guards is not None:
            if len(a.shape) != 1:
                raise Unsup('repeat')
            return I.new_arr((len(v) * n,), [x for x in v for _ in range(n)], I.dtype(a), [g for g in a.guards for _ in range(n)])
        if ax is None:
            return I.new_arr((len(v) * n,), [x for x in v for _ in range(n)], I.dtype(a))
        k = self.cint(ax) % len(a.shape)
        sh = tuple(s * n if j == k else s for j, s in enumerate(a.shape))
        out = []
        for p in range(prod(sh)):
            ix = list(unravel(p, sh))
            ix[k] //= n
            out.append(v[ravel(ix, a.shape)])
        return I.new_arr(sh, out, I.dtype(a))

    def np_tile(self, args, kw):
        a = self.asarr(args[0])
        r = self.arg(args, kw, 1, 'reps')
        reps = self.shape_arg(r)
        I = self.I
        if a.guards is not None:
            raise Unsup('tile')
        sh = (1,) * (len(reps) - len(a.shape)) + a.shape
        reps = (1,) * (len(sh) - len(reps)) + reps
        out_sh = tuple(s * k for s, k in zip(sh, reps))
        v = I.vals(a)
        out = []
        for p in range(prod(out_sh)):
            ix = unravel(p, out_sh)
            out.append(v[ravel([i % s for i, s in zip(ix, sh)], sh)])
        return I.new_arr(out_sh, out, I.dtype(a))

    def np_split(self, args, kw):
        a = self.asarr(args[0])
        if not isinstance(args[1], T) or len(a.shape) != 1:
            if a.guards is not None:
                raise Unsup('split')
            return self.prelude('split_at', [a, args[1], self.arg(args, kw, 2, 'axis', ZERO)], {})
        self.arg(args, kw, 2, 'axis')
        n = self.cint(args[1])
        if a.guards is not None:
            raise Unsup('split')
        if a.shape[0] % n:
            raise PyRaise('ValueError', 'array split does not result in an equal division')
        k = a.shape[0] // n
        return self.I.new_list([self.getitem(a, SliceV(num(i * k), num((i + 1) * k), None)) for i in range(n)])

    def np_take(self, args, kw):
        ax = self.arg(args, kw, 2, 'axis')
        self.chk(kw, 'axis', 'indices', 'a', 'mode')
        if kw.get('mode', 'raise') != 'raise':
            if ax is not None:
                raise Unsup('take mode')
            a = self.np_ravel([self.asarr(args[0])], {})
            return self.prelude('take_' + kw['mode'], [a, args[1]], {})
        a = self.asarr(args[0])
        if ax is None:
            return self.getitem(self.np_ravel([a], {}), args[1])
        k = self.cint(ax) % len(a.shape)
        return self.getitem(a, tuple(args[1] if j == k else SliceV(None, None, None) for j in range(len(a.shape))))

    def np_compress(self, args, kw):
        return self.getitem(self.asarr(args[1]), self.asarr(args[0]))

    def np_outer(self, args, kw):
        a, b = [self.np_ravel([self.np_atleast_1d([x], {})], {}) for x in args]
        va, vb = self.I.vals(a), self.I.vals(b)
        if a.guards is not None or b.guards is not None:
            raise Unsup('outer')
        return self.I.new_arr((len(va), len(vb)), [mul(n2(x), n2(y)) for x in va for y in vb], 'i' if I_(self, a) and I_(self, b) else 'f')

    def np_dot(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        I = self.I
        if a.shape == () or b.shape == ():
            return self.binop('Mult', args[0], args[1])
        va, vb = I.vals(a), I.vals(b)
        if a.guards is not None or b.guards is not None:
            if len(a.shape) == 1 and a.guards == b.guards and len(b.shape) == 1:
                return self.np_sum([self.binop('Mult', a, b)], {})
            raise Unsup('dot of compressed arrays')
        ar = a.shape if len(a.shape) > 1 else (1,) + a.shape
        br = b.shape if len(b.shape) > 1 else b.shape + (1,)
        if len(ar) > 2 or len(br) > 2:
            raise Unsup('dot nd')
        if ar[1] != br[0]:
            raise PyRaise('ValueError', 'shapes %s and %s not aligned' % (a.shape, b.shape))
        out = []
        for i in range(ar[0]):
            for j in range(br[1]):
                s = ZERO
                for k in range(ar[1]):
                    s = add(s, mul(n2(va[i * ar[1] + k]), n2(vb[k * br[1] + j])))
                out.append(s)
        sh = ((ar[0],) if len(a.shape) > 1 else ()) + ((br[1],) if len(b.shape) > 1 else ())
        if sh == ():
            return out[0]
        return I.new_arr(sh, out, 'f')

    np_matmul = np_dot

    def np_inner(self, args, kw):
        a, b = [x if isinstance(x, T) else self.asarr(x) for x in args]
        if isinstance(a, Arr) and isinstance(b, Arr) and len(b.shape) == 2:
            return self.np_dot([a, self.transpose(b, None)], kw)
        if isinstance(b, Arr) and len(b.shape) > 2:
            raise Unsup('inner')
        return self.np_dot([a, b], kw)

    def np_vdot(self, args, kw):
        return self.np_dot([self.np_ravel([self.asarr(x)], {}) for x in args], kw)

    def np_einsum(self, args, kw):
        spec = args[0]
        ops = [self.asarr(x) for x in args[1:]]
        if not isinstance(spec, str) or '...' in spec:
            raise Unsup('einsum')
        spec = spec.replace(' ', '')
        if '->' in spec:
            ins, out = spec.split('->')
        else:
            ins = spec
            cnt = {}
            for c in ins.replace(',', ''):
                cnt[c] = cnt.get(c, 0) + 1
            out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
        ins = ins.split(',')
        ext = {}
        for s, a in zip(ins, ops):
            if len(s) != len(a.shape) or a.guards is not None:
                raise PyRaise('ValueError', 'einsum operand') if a.guards is None else Unsup('einsum')
            for c, n in zip(s, a.shape):
                if ext.setdefault(c, n) != n:
                    raise PyRaise('ValueError', 'einsum extents')
        rest = [c for c in ext if c not in out]
        sh = tuple(ext[c] for c in out)
        vals = [self.I.vals(a) for a in ops]
        res = []
        for ix in itertools.product(*[range(n) for n in sh]):
            e = dict(zip(out, ix))
            s = ZERO
            for jx in itertools.product(*[range(ext[c]) for c in rest]):
                e2 = dict(e)
                e2.update(zip(rest, jx))
                p = ONE
                for sp, a, v in zip(ins, ops, vals):
                    p = mul(p, n2(v[ravel([e2[c] for c in sp], a.shape)]))
                s = add(s, p)
            res.append(s)
        return res[0] if sh == () else self.I.new_arr(sh, res, 'f')

    def np_cross(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        if a.shape != (3,) or b.shape != (3,):
            raise Unsup('cross nd')
        x, y = [n2(v) for v in self.I.vals(a)], [n2(v) for v in self.I.vals(b)]
        r = [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]
        return self.I.new_arr((3,), r, 'f')

    def np_linalg_norm(self, args, kw):
        self.chk(kw, 'axis', 'keepdims', 'x')
        if len(args) > 1 and args[1] is not None:
            raise Unsup('order of a norm')
        a = self.asarr(args[0])
        ax = self.arg(args, kw, 2, 'axis')
        sq = self.ufunc(lambda x: mul(n2(x), n2(x)), [a], 'f')
        k2 = {'keepdims': kw['keepdims']} if 'keepdims' in kw else {}
        s = self.np_sum([sq], dict(k2, axis=ax) if ax is not None else k2)
        return self.ufunc(tm.sqrt, [s], 'f')

    def minor(self, m, n):
        if n == 1:
            return m[0][0]
        s = ZERO
        for j in range(n):
            sub_ = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
            t = mul(m[0][j], self.minor(sub_, n - 1))
            s = add(s, t) if j % 2 == 0 else sub(s, t)
        return s

    def np_linalg_det(self, args, kw):
        a = self.asarr(args[0])
        n = a.shape[0]
        v = self.I.vals(a)
        if a.shape != (n, n) or n > 3:
            raise Unsup('det')
        return self.minor([[v[i * n + j] for j in range(n)] for i in range(n)], n)

    def np_linalg_inv(self, args, kw):
        a = self.asarr(args[0])
        n = a.shape[0]
        if a.shape != (n, n):
            raise PyRaise('LinAlgError', 'must be square')
        if n > 3:
            raise Unsup('inv')
        v = self.I.vals(a)
        m = [[v[i * n + j] for j in range(n)] for i in range(n)]
        d = self.minor(m, n)
        out = []
        for i in range(n):
            for j in range(n):
                sub_ = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                c = self.minor(sub_, n - 1) if n > 1 else ONE
                if (i + j) % 2:
                    c = tm.neg(c)
                out.append(div(c, d))
        return self.I.new_arr((n, n), out, 'f')

    def np_linalg_solve(self, args, kw):
        return self.np_dot([self.np_linalg_inv(args[:1], {}), args[1]], {})

    def np_sort(self, args, kw):
        a = self.asarr(args[0])
        if a.guards is None and len(a.shape) > 1:
            return self.prelude('sort_along', [a, self.arg(args, kw, 1, 'axis', num(-1))], {})
        self.arg(args, kw, 1, 'axis')
        if a.guards is not None or len(a.shape) != 1:
            raise Unsup('sort')
        v = self.I.vals(a)
        if all(x.op == 'num' for x in v):
            out = sorted(v, key=lambda t: t.args[0])
        elif self.ordered(v):
            out = v
        else:
            out = self.netsort(v)
        return self.I.new_arr(a.shape, out, self.I.dtype(a))

    def ordered(self, v):
        return all(self.I.known(bnot(lt0(sub(y, x)))) is True for x, y in zip(v, v[1:]))

    def np_argsort(self, args, kw):
        a = self.asarr(args[0])
        if a.guards is None and len(a.shape) > 1:
            return self.prelude('argsort_along', [a, self.arg(args, kw, 1, 'axis', num(-1))], {})
        self.arg(args, kw, 1, 'axis')
        if a.guards is not None or len(a.shape) != 1:
            raise Unsup('argsort')
        v = self.I.vals(a)
        if all(x.op == 'num' for x in v):
            idx = sorted(range(len(v)), key=lambda k: (v[k].args[0], k))
            return self.I.new_arr(a.shape, [num(k) for k in idx], 'i')
        return self.I.new_arr(a.shape, [tm.opq('argsort', num(k), tuple(v)) for k in range(len(v))], 'i')

    def np_unique(self, args, kw):
        I = self.I
        self.chk(kw, 'return_counts', 'return_index', 'return_inverse', 'axis')
        if kw.get('return_index') is TRUE:
            raise Unsup('unique index')
        a = self.asarr(args[0])
        ax = I.strip(kw.get('axis'))
        if ax is not None:
            return self.unique_rows(a, self.cint(ax), kw)
        a = self.np_ravel([a], {})
        v = [n2(x) for x in I.vals(a)]
        gs = a.guards if a.guards is not None else (TRUE,) * len(v)
        lo = hi = None
        if all(x.op == 'num' for x in v):
            dom = sorted({x.args[0] for x in v})
        else:
            for x in v:
                b = tm.bounds(x)
                if b[0] is None or b[1] is None or not tm.is_int(x):
                    raise Unsup('unique of unbounded values')
                lo = b[0] if lo is None else min(lo, b[0])
                hi = b[1] if hi is None else max(hi, b[1])
            if hi - lo > 60:
                raise Unsup('unique over a large range')
            dom = [F(k) for k in range(int(lo), int(hi) + 1)]
        guards, cnts = [], []
        for d in dom:
            n = ZERO
            ex = FALSE
            for x, g in zip(v, gs):
                c = band(g, eq0(sub(x, num(d))))
                n = add(n, tm.b2n(c))
                ex = bor(ex, c)
            guards.append(ex)
            cnts.append(n)
        u = I.new_arr((len(dom),), [num(d) for d in dom], 'i' if I.dtype(a) in 'iub' else 'f', guards)
        out = [u]
        if kw.get('return_inverse') is TRUE:
            if a.guards is not None or not all(x.op == 'num' for x in v):
                raise Unsup('unique inverse')
            out.append(I.new_arr((len(v),), [num(dom.index(x.args[0])) for x in v], 'i'))
        if kw.get('return_counts') is TRUE:
            out.append(I.new_arr((len(dom),), cnts, 'i', guards))
        return tuple(out) if len(out) > 1 else u

    def unique_rows(self, a, ax, kw):
        """distinct slices along an axis of an array of numbers"""
        I = self.I
        v = [n2(x) for x in I.vals(a)]
        if a.guards is not None or len(a.shape) != 2 or any(x.op != 'num' for x in v) or any(kw.get(k) is TRUE for k in ('return_counts', 'return_inverse')):
            raise Unsup('unique along an axis')
        n, m = a.shape
        sl = [tuple(v[i * m + j].args[0] for i in range(n)) for j in range(m)] if ax in (1, -1) else [tuple(x.args[0] for x in v[i * m:(i + 1) * m]) for i in range(n)]
        sl = sorted(set(sl))
        out = [x[i] for i in range(n) for x in sl] if ax in (1, -1) else [y for x in sl for y in x]
        sh = (n, len(sl)) if ax in (1, -1) else (len(sl), m)
        return I.new_arr(sh, [num(x) for x in out], 'i' if I.dtype(a) in 'iub' else 'f')

    def np_bincount(self, args, kw):
        I = self.I
        a = self.asarr(args[0])
        w = self.arg(args, kw, 1, 'weights')
        ml = self.arg(args, kw, 2, 'minlength')
        v = I.vals(a)
        if ml is None:
            if all(x.op == 'num' for x in v) and a.guards is None:
                n = max([int(x.args[0]) for x in v] + [-1]) + 1
            else:
                raise Unsup('bincount length')
        else:
            n = self.cint(ml)
            for x in v:
                if x.op == 'num' and x.args[0] >= n:
                    n = int(x.args[0]) + 1
                elif x.op != 'num':
                    b = tm.bounds(x)
                    if b[1] is None or b[1] >= n:
                        # longer result for larger values: only the first n are modelled
                        I.oblige('bincount range', lt0(sub(x, num(n))), 'bincount value beyond minlength')
        ws = I.vals(self.asarr(w)) if w is not None else [ONE] * len(v)
        if len(ws) != len(v):
            raise PyRaise('ValueError', 'weights and list do not have the same length')
        gs = a.guards if a.guards is not None else (TRUE,) * len(v)
        out = []
        for k in range(n):
            s = ZERO
            for x, y, g in zip(v, ws, gs):
                s = add(s, ite(band(g, eq0(sub(x, num(k)))), n2(y), ZERO))
            out.append(s)
        return I.new_arr((n,), out, 'i' if w is None else 'f')

    def np_histogramdd(self, args, kw):
        I = self.I
        self.chk(kw, 'bins', 'weights', 'range', 'density')
        s = args[0]
        bins = self.arg(args, kw, 1, 'bins')
        w = kw.get('weights')
        cols = None
        s = I.strip(s)
        if isinstance(s, Arr):
            if len(s.shape) == 1:
                cols = [s]
            else:
                if s.guards is not None:
                    cols = [self.getitem(s, (SliceV(None, None, None), num(k))) for k in range(s.shape[1])]
                else:
                    cols = [self.getitem(s, (SliceV(None, None, None), num(k))) for k in range(s.shape[1])]
        else:
            # sequence of D coordinate arrays: numpy stacks them as (D, N).T
            cols = [self.asarr(x) for x in I.iterate(s)]
        g = cols[0].guards
        N = len(cols[0].pos)
        if any(len(c.pos) != N or c.guards != g for c in cols):
            raise Unsup('histogramdd sample')
        gs = g if g is not None else (TRUE,) * N
        rng = kw.get('range')
        edges = []
        if isinstance(bins, T):
            bins = tuple(bins for _ in cols)
        bl = I.iterate(bins) if not isinstance(bins, Arr) else I.iterate(bins)
        if len(bl) != len(cols):
            raise PyRaise('ValueError', 'The dimension of bins must be equal to the dimension of the sample x.')
        for d, b in enumerate(bl):
            if isinstance(b, T):
                if rng is None:
                    raise Unsup('histogramdd without range')
                r = I.iterate(I.iterate(rng)[d])
                edges.append(I.vals(self.np_linspace([r[0], r[1], add(b, ONE)], {})))
            else:
                edges.append(I.vals(self.asarr(b)))
        ws = I.vals(self.asarr(w)) if w is not None else [ONE] * N
        vs = [I.vals(c) for c in cols]
        sh = tuple(len(e) - 1 for e in edges)
        inb = []
        for d in range(len(cols)):
            e = edges[d]
            row = []
            for x in vs[d]:
                cells = []
                for k in range(len(e) - 1):
                    lo = bnot(lt0(sub(x, e[k])))
                    up = lt0(sub(x, e[k + 1])) if k < len(e) - 2 else tm.le0(sub(x, e[k + 1]))
                    cells.append(band(lo, up))
                row.append(cells)
            inb.append(row)
        out = []
        for ix in itertools.product(*[range(n) for n in sh]):
            acc = ZERO
            for p in range(N):
                c = gs[p]
                for d, k in enumerate(ix):
                    c = band(c, inb[d][p][k])
                acc = add(acc, ite(c, n2(ws[p]), ZERO))
            out.append(acc)
        if kw.get('density') is TRUE:
            raise Unsup('density')
        H = I.new_arr(sh, out, 'f')
        return (H, I.new_list([I.new_arr((len(e),), e, 'f') for e in edges]))

    def np_histogram2d(self, args, kw):
        k2 = {k: v for k, v in kw.items() if k in ('weights', 'range', 'density')}
        b = self.arg(args, kw, 2, 'bins', num(10))
        H, e = self.np_histogramdd([(args[0], args[1])], dict(k2, bins=b))
        ee = self.I.items(e)
        return (H, ee[0], ee[1])

    def np_histogram(self, args, kw):
        k2 = {k: v for k, v in kw.items() if k in ('weights', 'density')}
        b = self.arg(args, kw, 1, 'bins', num(10))
        if 'range' in kw:
            k2['range'] = (kw['range'],)
        if isinstance(b, T):
            bb = (b,)
        else:
            bb = (self.asarr(b),)
        H, e = self.np_histogramdd([(self.np_ravel([args[0]], {}),)], dict(k2, bins=bb))
        return (H, self.I.items(e)[0])

    def np_digitize(self, args, kw):
        b = self.I.vals(self.asarr(args[1]))
        right = kw.get('right', FALSE) is TRUE

        def f(x):
            s = ZERO
            for e in b:
                c = lt0(sub(e, x)) if right else tm.le0(sub(e, x))
                s = add(s, tm.b2n(c))
            return s
        return self.ufunc(f, [args[0]], 'i')

    def np_searchsorted(self, args, kw):
        b = self.I.vals(self.asarr(args[0]))
        right = self.arg(args, kw, 2, 'side', 'left') == 'right'

        def f(x):
            s = ZERO
            for e in b:
                c = tm.le0(sub(e, x)) if right else lt0(sub(e, x))
                s = add(s, tm.b2n(c))
            return s
        return self.ufunc(f, [args[1]], 'i')

    def np_interp(self, args, kw):
        xp, fp = [self.I.vals(self.asarr(v)) for v in args[1:3]]
        if len(xp) != len(fp):
            raise PyRaise('ValueError', 'fp and xp are not of the same length.')
        if 'period' in kw:
            raise Unsup('interp period')
        lo = self.arg(args, kw, 3, 'left', fp[0])
        hi = self.arg(args, kw, 4, 'right', fp[-1])
        return self.ufunc(lambda x: self.plin(x, xp, fp, lo, hi), [args[0]], 'f')

    def plin(self, x, xp, fp, lo, hi):
        n = len(xp)
        r = ite(lt0(sub(xp[-1], x)), hi, fp[-1])
        for k in range(n - 2, -1, -1):
            v = add(fp[k], mul(div(sub(fp[k + 1], fp[k]), sub(xp[k + 1], xp[k])), sub(x, xp[k])))
            r = ite(lt0(sub(x, xp[k + 1])), v, r)
        return ite(lt0(sub(x, xp[0])), lo, r)

    def interp1d(self, args, kw):
        self.chk(kw, 'kind', 'bounds_error', 'fill_value', 'x', 'y', 'axis', 'assume_sorted', 'copy')
        x = self.arg(args, kw, 0, 'x', req=True)
        y = self.arg(args, kw, 1, 'y', req=True)
        kind = self.arg(args, kw, 2, 'kind', 'linear')
        x, y = self.asarr(x), self.asarr(y)
        if x.guards is not None or y.guards is not None:
            raise Unsup('interp1d of compressed arrays')
        if len(y.shape) != 1:
            raise Unsup('interp1d nd')
        if x.shape != y.shape:
            raise PyRaise('ValueError', 'x and y arrays must be equal in length along interpolation axis.')
        xs, ys = tuple(self.I.vals(x)), tuple(self.I.vals(y))
        if kind == 'linear':
            xs, ys = self.ascending(xs, ys)
        return InterpF((xs, ys, kind, kw.get('fill_value'), kw.get('bounds_error')))

    def ascending(self, xs, ys):
        """interp1d puts the points in order of x"""
        if all(tm.nonneg(sub(q, p)) for p, q in zip(xs, xs[1:])):
            return xs, ys
        iv_ = [ball.interval(x) if interval.closed(x) else None for x in xs]
        if any(v is None or v == ball.NANV for v in iv_):
            if all(tm.prove_zero(tm.b2n(lt0(sub(q, p))), self.ctx()) for p, q in zip(xs, xs[1:])):
                return xs, ys
            raise Unsup('interpolation points in no known order')
        o = sorted(range(len(xs)), key=lambda k: iv_[k][0])
        if any(not iv_[p][1] < iv_[q][0] for p, q in zip(o, o[1:])):
            raise Unsup('interpolation points in no known order')
        return tuple(xs[k] for k in o), tuple(ys[k] for k in o)

    def ctx(self):
        g = self.I.full_guard()
        if g is TRUE:
            return tm.Ctx()
        return tm.Ctx([(f.args[0], False) if f.op == 'not' else (f, True) for f in (g.args if g.op == 'and' else (g,))])

    def call_interp(self, f, args):
        xs, ys, kind, fill, be = f.args
        if kind == 'linear':
            lo = hi = None
            if fill is None:
                lo, hi = tm.NAN, tm.NAN
            elif fill == 'extrapolate':
                def g(x):
                    n = len(xs)
                    r = None
                    for k in range(n - 2, -1, -1):
                        v = add(ys[k], mul(div(sub(ys[k + 1], ys[k]), sub(xs[k + 1], xs[k])), sub(x, xs[k])))
                        r = v if r is None else ite(lt0(sub(x, xs[k + 1])), v, r)
                    return r
                return self.ufunc(g, [args[0]], 'f')
            elif isinstance(fill, tuple):
                lo, hi = fill
            else:
                lo = hi = fill
            return self.ufunc(lambda x: self.plin(x, xs, ys, lo, hi), [args[0]], 'f')
        k = kind if isinstance(kind, str) else 'k'
        return self.ufunc(lambda x: tm.opq('interp1d', k, xs, ys, n2(x)), [args[0]], 'f')

    def np_isclose(self, args, kw):
        return self.ufunc(lambda a, b, *r: tm.le0(sub(tm.absv(sub(n2(a), n2(b))), num(F(1, 10 ** 8)))), args[:2], 'b')

    def np_allclose(self, args, kw):
        return self.np_all([self.np_isclose(args, kw)], {})

    def np_array_equal(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        if a.shape != b.shape:
            return FALSE
        return self.np_all([self.compare('Eq', a, b)], {})

    def np_isin(self, args, kw):
        b = self.I.vals(self.asarr(args[1]))
        return self.ufunc(lambda x: bor(*[cmp_eq(x, y) for y in b]) if b else FALSE, [args[0]], 'b')

    np_in1d = np_isin

    def np_vectorize(self, args, kw):
        fn = args[0]
        return PartialV(LibF('np.vectorized'), [fn], {})

    def np_vectorized(self, args, kw):
        fn = args[0]
        return self.ufunc(lambda *x: self.I.call(fn, list(x), {}), args[1:], 'f')

    def np_fromiter(self, args, kw):
        return self.asarr(self.I.new_list(self.I.iterate(args[0])))

    def np_ix_(self, args, kw):
        n = len(args)
        out = []
        for k, a in enumerate(args):
            a = self.asarr(a)
            sh = [1] * n
            sh[k] = len(a.pos)
            out.append(Arr(a.loc, tuple(sh), a.pos))
        return tuple(out)

    def np_ndarray_tolist(self, args, kw):
        return self.tolist(args[0])

    def np_add_at(self, args, kw):
        a, ix, v = args[0], args[1], args[2] if len(args) > 2 else ONE
        I = self.I
        shape, cands, g, basic, allint = self.select(a, ix)
        s = self.asarr(v)
        src = I.vals(s)
        if s.guards is not None and s.guards != g:
            raise Unsup('add.at')
        b = list(I.S.heap[a.loc].vals)
        per = prod(shape[1:]) if shape else 1
        for e, k in enumerate(self.bpos(s.shape, shape)):
            gg = g[e // per] if g is not None else TRUE
            for c, p in cands[e]:
                cc = band(gg, c)
                q = a.pos[p]
                b[q] = ite(cc, add(b[q], n2(src[k])), b[q])
        I.S.heap[a.loc] = Buf(I.S.heap[a.loc].dtype, tuple(b))
        return None

    def np_add_reduce(self, args, kw):
        if len(args) == 1 and 'axis' not in kw:
            kw = dict(kw, axis=ZERO)
        return self.np_sum(args, kw)

    def np_logical_and_reduce(self, args, kw):
        if len(args) == 1 and 'axis' not in kw:
            kw = dict(kw, axis=ZERO)
        return self.np_all(args, kw)

    def np_logical_or_reduce(self, args, kw):
        if len(args) == 1 and 'axis' not in kw:
            kw = dict(kw, axis=ZERO)
        return self.np_any(args, kw)

    def np_maximum_reduce(self, args, kw):
        return self.np_max(args, dict(kw, axis=kw.get('axis', ZERO)))

    def np_minimum_reduce(self, args, kw):
        return self.np_min(args, dict(kw, axis=kw.get('axis', ZERO)))

    def np_add_outer(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        if a.guards is not None or b.guards is not None:
            raise Unsup('outer')
        return self.I.new_arr(tuple(a.shape) + tuple(b.shape), [add(n2(x), n2(y)) for x in self.I.vals(a) for y in self.I.vals(b)],
                              'i' if I_(self, a) and I_(self, b) else 'f')

    def np_multiply_outer(self, args, kw):
        a, b = self.asarr(args[0]), self.asarr(args[1])
        return self.reshape(self.np_outer([a, b], kw), tuple(a.shape) + tuple(b.shape))

    def np_trapz(self, args, kw):
        y = self.asarr(args[0])
        x = self.arg(args, kw, 1, 'x')
        v = self.I.vals(y)
        if len(y.shape) != 1 or y.guards is not None or x is None:
            raise Unsup('trapz')
        xv = self.I.vals(self.asarr(x))
        s = ZERO
        for k in range(len(v) - 1):
            s = add(s, mul(sub(xv[k + 1], xv[k]), tm.scale(add(v[k], v[k + 1]), F(1, 2))))
        return s

    np_trapezoid = np_trapz

    def np_seterr(self, args, kw):
        self.I.effect('global', 'np.seterr')
        return None

    def np_set_printoptions(self, args, kw):
        self.I.effect('global', 'np.set_printoptions')
        return None

    def np_can_cast(self, args, kw):
        raise Unsup('can_cast')

    def np_save(self, args, kw):
        self.I.effect('file', 'np.save')
        return None

    np_savetxt = np_savez = np_save

    # ------------------------------------------------------------------ random
    def np_random(self, n, args, kw):
        I = self.I
        if n in ('random_sample', 'random', 'sample', 'ranf'):
            s = self.arg(args, kw, 0, 'size')
            return self.draws(None if s is None else self.shape_arg(s))
        if n == 'rand':
            return self.draws(None if not args else tuple(self.cint(x) for x in args))
        if n == 'uniform':
            lo = self.arg(args, kw, 0, 'low', ZERO)
            hi = self.arg(args, kw, 1, 'high', ONE)
            s = self.arg(args, kw, 2, 'size')
            if s is None and (isinstance(lo, Arr) or isinstance(hi, Arr)):
                a = self.asarr(lo) if isinstance(lo, Arr) else self.asarr(hi)
                u = self.draws(a.shape)
            else:
                u = self.draws(None if s is None else self.shape_arg(s))
            return self.binop('Add', lo, self.binop('Mult', self.binop('Sub', hi, lo), u))
        if n == 'permutation' or n == 'shuffle':
            a = args[0]
            if isinstance(a, T):
                a = self.np_arange([a], {})
            a = self.asarr(a)
            I.effect('rng', n)
            v = I.vals(a)
            if a.guards is not None or len(a.shape) != 1:
                raise Unsup('permutation')
            s = self.draw_site(len(v))
            if self.stream is not None:
                raise Unsup('permutation by given numbers')
            key = tuple(tm.draw(s + k) for k in range(len(v)))
            idx = I.new_arr((len(v),), [tm.opq('argsort', num(k), key) for k in range(len(v))], 'i')
            r = self.getitem(a, idx)
            if n == 'shuffle':
                self.store(a, r)
                return None
            return r
        if n == 'choice':
            a = args[0]
            size = self.arg(args, kw, 1, 'size')
            rep = self.arg(args, kw, 2, 'replace', TRUE)
            p = self.arg(args, kw, 3, 'p')
            if isinstance(a, T):
                a = self.np_arange([a], {})
            a = self.asarr(a)
            if p is not None:
                raise Unsup('choice with p')
            if rep is FALSE:
                r = self.np_random('permutation', [a], {})
                if size is None:
                    return self.getitem(r, ZERO)
                k = self.shape_arg(size)
                return self.getitem(r, SliceV(None, num(k[0]), None))
            u = self.draws(None if size is None else self.shape_arg(size))
            idx = self.ufunc(lambda x: tm.floor(mul(x, num(a.shape[0]))), [u], 'i')
            return self.getitem(a, idx)
        if n in ('randint', 'integers'):
            lo = self.arg(args, kw, 0, 'low')
            hi = self.arg(args, kw, 1, 'high')
            size = self.arg(args, kw, 2, 'size')
            if hi is None:
                lo, hi = ZERO, lo
            u = self.draws(None if size is None else self.shape_arg(size))
            return self.ufunc(lambda x, a, b: add(a, tm.floor(mul(x, sub(b, a)))), [u, lo, hi], 'i')
        if n in ('normal', 'randn', 'standard_normal', 'exponential', 'poisson'):
            s = None
            if n == 'normal':
                s = self.arg(args, kw, 2, 'size')
            elif n == 'standard_normal':
                s = self.arg(args, kw, 0, 'size')
            elif n == 'randn':
                s = tuple(args) if args else None
            else:
                raise Unsup(n)
            u = self.draws(None if s is None else self.shape_arg(s))
            z = self.ufunc(lambda x: tm.opq('invnorm', x), [u], 'f')
            if n == 'normal':
                return self.binop('Add', self.arg(args, kw, 0, 'loc', ZERO), self.binop('Mult', self.arg(args, kw, 1, 'scale', ONE), z))
            return z
        if n in ('seed', 'set_state'):
            I.effect('rng-state', 'np.random.' + n)
            return None
        if n == 'get_state':
            return OpqObj('rngstate')
        if n in ('default_rng', 'RandomState', 'Generator', 'PCG64', 'SeedSequence'):
            I.effect('private-rng', 'np.random.' + n)
            return LibMod('np.random')
        raise Unsup('np.random.' + n)

    # ------------------------------------------------------------------ healpy
    def ang2pix(self, tag, ns, th, ph):
        if ns.op == 'num' and th.op not in ('sym', 'el', 'draw'):
            a, b = interval.constval(th, 1e-5), interval.constval(ph, 1e-5)
            if a is not None and b is not None and 0 <= a[0] and a[1] <= 3.1415926536:
                n = int(ns.args[0])
                import math
                k = hpx.zphi2ring(n, math.cos((a[0] + a[1]) / 2), (b[0] + b[1]) / 2, max(1e-7, 4 * n * (a[1] - a[0] + b[1] - b[0])))
                if k is not None and (tag == '' or n & (n - 1) == 0):
                    return num(k if tag == '' else hpx.ring2nest(n, k))
        return tm.opq('hp.ang2pix' + tag, ns, th, ph)

    def pix2ang(self, tag, which, ns, ip):
        if ns.op == 'num' and ip.op == 'num' and 0 <= ip.args[0] < 12 * ns.args[0] ** 2 and (tag == '' or int(ns.args[0]) & (int(ns.args[0]) - 1) == 0):
            n, k = int(ns.args[0]), int(ip.args[0])
            z, f = hpx.pix2zphi(n, k if tag == '' else hpx.nest2ring(n, k))
            return tm.arccos(num(z)) if which == 0 else tm.scale(tm.PI, f)
        return tm.opq('hp.pix2ang.theta' + tag if which == 0 else 'hp.pix2ang.phi' + tag, ns, ip)

    @staticmethod
    def ordering(o):
        o = o.upper()[:4] if isinstance(o, str) else o
        if o not in ('RING', 'NEST'):
            raise Unsup('pixel ordering')
        return o

    @staticmethod
    def reorder(v, i, o):
        if i == o:
            return list(v)
        ns = int(round((len(v) / 12) ** 0.5))
        go = hpx.nest2ring if o == 'NEST' else hpx.ring2nest
        return [v[go(ns, k)] for k in range(len(v))]

    def ud_grade(self, args, kw):
        I = self.I
        m = self.asarr(self.arg(args, kw, 0, 'map_in'))
        ns = self.cint(self.arg(args, kw, 1, 'nside_out'))
        pess = self.arg(args, kw, 2, 'pess', FALSE)
        oi = self.ordering(self.arg(args, kw, 3, 'order_in', 'RING'))
        oo = self.arg(args, kw, 4, 'order_out')
        oo = oi if oo is None else self.ordering(oo)
        power = self.arg(args, kw, 5, 'power')
        dt = self.arg(args, kw, 6, 'dtype')
        self.chk(kw, 'map_in', 'nside_out', 'pess', 'order_in', 'order_out', 'power', 'dtype')
        if pess not in (TRUE, FALSE):
            raise Unsup('ud_grade pess')
        v = tuple(I.vals(m))
        nin = len(v)
        # the map handed back has the element type of the map that came in
        kd = 'i' if I.S.heap[m.loc].dtype in 'ib' else 'f'
        if dt is not None:
            kd = self.dtype_arg(dt)
            if kd not in ('i', 'f'):
                raise Unsup('ud_grade dtype')
        cast = (lambda x: tm.trunc(x)) if kd == 'i' else (lambda x: x)
        if nin == 12 * ns * ns:
            if oi != oo:
                v = self.reorder(v, oi, oo)
            return I.new_arr((nin,), [cast(x) for x in v], kd)
        nsi = int(round((nin / 12) ** 0.5))
        p2 = lambda k: k > 0 and k & (k - 1) == 0
        if nin == 12 * nsi * nsi and p2(nsi) and p2(ns):
            if power is None or power is ZERO or power is FALSE:
                ratio = ONE
            else:
                ratio = tm.power(num(F(ns, nsi)), n2(power))
            if oi == 'NEST':
                v = self.reorder(v, 'NEST', 'RING')
            if ns > nsi:
                out = [mul(v[q], cast(ratio)) for q in hpx.parents(ns, nsi)]
            else:
                out = []
                for ch in hpx.children(ns, nsi):
                    # healpy averages the children that are not UNSEEN; symbols of a driver are not UNSEEN
                    seen = [v[q] for q in ch if v[q] is not UNSEEN]
                    acc = ZERO
                    for x in seen:
                        acc = add(acc, x)
                    acc = mul(tm.scale(acc, F(1, len(seen))), ratio) if seen and (pess is FALSE or len(seen) == len(ch)) else UNSEEN
                    out.append(cast(acc))
            if oo == 'NEST':
                out = self.reorder(out, 'RING', 'NEST')
            return I.new_arr((12 * ns * ns,), out, kd)
        return I.new_arr((12 * ns * ns,), [tm.opq('hp.ud_grade', num(k), num(ns), v) for k in range(12 * ns * ns)], 'f')

    def healpy(self, n, args, kw):
        I = self.I
        if args and args[0] is None:
            raise PyRaise('TypeError', 'healpy needs a number, not None')
        if n == 'nside2npix':
            return mul(num(12), mul(args[0], args[0]))
        if n == 'npix2nside':
            return tm.sqrt(div(args[0], num(12)))
        if n == 'nside2pixarea':
            r = div(tm.scale(tm.PI, 4), mul(num(12), mul(args[0], args[0])))
            if kw.get('degrees', args[1] if len(args) > 1 else FALSE) is TRUE:
                r = mul(r, mul(DEG, DEG))
            return r
        if n == 'nside2resol':
            return tm.sqrt(div(tm.scale(tm.PI, 4), mul(num(12), mul(args[0], args[0]))))
        if n == 'isnsideok':
            v = args[0]
            if isinstance(v, T) and v.op == 'num':
                return TRUE if v.args[0].denominator == 1 and v.args[0] > 0 and (not (kw.get('nest') is TRUE) or (int(v.args[0]) & (int(v.args[0]) - 1)) == 0) else FALSE
            return TRUE
        if n == 'isnpixok':
            return TRUE
        if n == 'get_all_neighbours' and len(args) == 2 and not kw and all(isinstance(v, T) and v.op == 'num' for v in args):
            ns, k = int(args[0].args[0]), int(args[1].args[0])
            if 0 < ns and 0 <= k < 12 * ns * ns:
                return I.new_arr((8,), [num(v) for v in hpx.neighbours(ns, k)], 'i')
        if n == 'get_nside':
            a = self.asarr(args[0])
            return tm.sqrt(div(num(len(a.pos)), num(12)))
        if n in ('ang2pix', 'vec2pix', 'pix2ang', 'pix2vec', 'ang2vec', 'vec2ang'):
            nest = kw.get('nest', FALSE) is TRUE
            lonlat = kw.get('lonlat', FALSE) is TRUE
            tag = '' if not nest else '.nest'
            if n == 'ang2pix':
                a = [self.arg(args, kw, k, nm) for k, nm in enumerate(('nside', 'theta', 'phi'))]
                if len(args) > 3:
                    tag = '.nest' if args[3] is TRUE else ''

                def f(ns, th, ph):
                    if lonlat:
                        th, ph = sub(tm.scale(tm.PI, F(1, 2)), mul(ph, RAD)), mul(th, RAD)
                    return self.ang2pix(tag, ns, th, ph)
                return self.ufunc(f, a, 'i')
            if n == 'pix2ang':
                ns = self.arg(args, kw, 0, 'nside')
                ip = self.arg(args, kw, 1, 'ipix')
                th = self.ufunc(lambda a, b: self.pix2ang(tag, 0, a, b), [ns, ip], 'f')
                ph = self.ufunc(lambda a, b: self.pix2ang(tag, 1, a, b), [ns, ip], 'f')
                if lonlat:
                    return (self.binop('Mult', ph, DEG), self.binop('Mult', self.binop('Sub', tm.scale(tm.PI, F(1, 2)), th), DEG))
                return (th, ph)
            if n == 'ang2vec':
                th, ph = args[0], args[1]
                if lonlat:
                    raise Unsup('ang2vec lonlat')
                xs = [self.ufunc(f, [th, ph], 'f') for f in (lambda t, p: mul(tm.sin(t), tm.cos(p)), lambda t, p: mul(tm.sin(t), tm.sin(p)), lambda t, p: tm.cos(t))]
                if isinstance(xs[0], T):
                    return self.stack_list(xs)
                return self.np_stack([tuple(xs)], {'axis': num(-1)})
            if n == 'vec2ang':
                v = self.asarr(args[0])
                if v.shape != (3,):
                    raise Unsup('vec2ang nd')
                x, y, z = I.vals(v)
                r = tm.sqrt(add(mul(x, x), add(mul(y, y), mul(z, z))))
                th = tm.arccos(div(z, r))
                ph = tm.arctan2(y, x)
                ph = ite(lt0(ph), add(ph, tm.scale(tm.PI, 2)), ph)
                return (I.new_arr((1,), [th], 'f'), I.new_arr((1,), [ph], 'f'))
            if n == 'pix2vec':
                ns, ip = args[0], args[1]
                th, ph = self.healpy('pix2ang', [ns, ip], kw)
                return tuple(self.ufunc(f, [th, ph], 'f') for f in (lambda t, p: mul(tm.sin(t), tm.cos(p)), lambda t, p: mul(tm.sin(t), tm.sin(p)), lambda t, p: tm.cos(t)))
            if n == 'vec2pix':
                ns, x, y, z = args[:4]

                def f(ns, x, y, z):
                    r = tm.sqrt(add(mul(x, x), add(mul(y, y), mul(z, z))))
                    ph = tm.arctan2(y, x)
                    return self.ang2pix(tag, ns, tm.arccos(div(z, r)), ite(lt0(ph), add(ph, tm.scale(tm.PI, 2)), ph))
                return self.ufunc(f, [ns, x, y, z], 'i')
        if n == 'ud_grade':
            return self.ud_grade(args, kw)
        if n == 'reorder':
            m = self.asarr(self.arg(args, kw, 0, 'map_in'))
            self.chk(kw, 'map_in', 'inp', 'out', 'r2n', 'n2r')
            i, o = self.arg(args, kw, 1, 'inp'), self.arg(args, kw, 2, 'out')
            if self.arg(args, kw, 3, 'r2n') is TRUE:
                i, o = 'RING', 'NEST'
            if self.arg(args, kw, 4, 'n2r') is TRUE:
                i, o = 'NEST', 'RING'
            v = list(I.vals(m))
            return I.new_arr((len(v),), self.reorder(v, self.ordering(i), self.ordering(o)), 'i' if I.S.heap[m.loc].dtype in 'ib' else 'f')
        if n in ('ring2nest', 'nest2ring'):
            go = hpx.ring2nest if n == 'ring2nest' else hpx.nest2ring

            def f(ns, ip):
                if ns.op == 'num' and ip.op == 'num' and 0 <= ip.args[0] < 12 * ns.args[0] ** 2:
                    return num(go(int(ns.args[0]), int(ip.args[0])))
                return tm.opq('hp.' + n, ns, ip)
            return self.ufunc(f, [self.arg(args, kw, 0, 'nside'), self.arg(args, kw, 1, 'ipix')], 'i')
        if n in ('nside2order', 'order2nside') and isinstance(args[0], T) and args[0].op == 'num':
            k = int(args[0].args[0])
            return num(k.bit_length() - 1 if n == 'nside2order' else 2 ** k)
        if n == 'boundaries':
            raise Unsup('hp.boundaries')
        raise Unsup('hp.' + n)

    # ------------------------------------------------------- fortran intrinsics
    def fcallb(self, name, a):
        I = self.I
        if name == '__real__':
            return a[0] if not isinstance(a[0], T) else n2(a[0])
        if name == '__idiv__':
            return tm.trunc(div(a[0], a[1]))
        if name == '__f_alloc__':
            dims = [self.cint(x) for x in a[1:]]
            return I.new_arr(dims, (UNDEFT,) * prod(dims), 'i' if a[0] == 'int' else 'f')
        n = name[4:-2]
        if n == 'sum':
            return self.np_sum(a[:1], {})
        if n == 'mod':
            return self.ufunc(fmod, a)
        if n == 'modulo':
            return self.ufunc(tm.mod, a)
        if n == 'size':
            s = self.shape_of(self.asarr(a[0]))
            if len(a) > 1:
                return s[self.cint(a[1]) - 1]
            r = ONE
            for x in s:
                r = mul(r, x)
            return r
        if n == 'ceiling':
            n = 'ceil'
        if n == 'nint':
            return self.ufunc(lambda x: tm.ite(lt0(x), tm.neg(tm.floor(add(tm.neg(x), tm.HALF))), tm.floor(add(x, tm.HALF))), a)
        if n == 'atan2':
            n = 'arctan2'
        n = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan'}.get(n, n)
        if n in ('max', 'min'):
            r = a[0]
            for x in a[1:]:
                r = self.ufunc(tm.fmax if n == 'max' else tm.fmin, [r, x])
            return r
        if n == 'int':
            return self.ufunc(tm.trunc, a)
        if n == 'count':
            return self.np_count_nonzero(a, {})
        if n in UF:
            return self.call_uf(n, a, {})
        raise Unsup('fortran intrinsic ' + n)


def _sum(g):
    r = ZERO
    for c, x in g:
        r = add(r, ite(c, n2(x), ZERO))
    return r


def _mean(g):
    n = ZERO
    for c, x in g:
        n = add(n, tm.b2n(c))
    return div(_sum(g), n)


REMOVED_NP = {'int0', 'float_', 'product', 'cumproduct', 'alltrue', 'sometrue', 'row_stack', 'asfarray', 'Inf', 'infty', 'round_', 'msort',
              'find_common_type', 'cast', 'unicode_', 'complex_', 'mat'}
NDATTR = {'byteswap', 'choose', 'conj', 'conjugate', 'dump', 'partition', 'put', 'resize', 'tobytes', 'tofile', 'var', 'flags', 'strides', 'itemsize', 'nbytes', 'imag', 'base', 'data', 'ctypes', 'argpartition', 'newbyteorder'}
