"""Abstract values of the interpreter.  Array extents are concrete (each driver
fixes a configuration of extents); element values are symbolic terms."""


class Unsup(Exception):
    """construct outside the analysed fragment (result: undecided)"""


class PyRaise(Exception):
    """the analysed operation fails for every input reaching it"""

    def __init__(self, exc, msg=''):
        Exception.__init__(self, '%s: %s' % (exc, msg))
        self.exc, self.msg = exc, msg


class Undef:
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class Text(str):
    """a text whose characters are not tracked; nums: the numbers written into it"""
    __slots__ = ('nums',)

    def __new__(cls, nums=()):
        r = str.__new__(cls, '\x00')
        r.nums = tuple(nums)
        return r

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)


def written(*vs):
    """numbers written into the texts and numbers given"""
    out = []
    for v in vs:
        if isinstance(v, tuple):
            out += written(*v)
        elif isinstance(v, Text):
            out += v.nums
        elif not isinstance(v, str):
            out.append(v)
    return tuple(out)


class Buf:
    """immutable contents of one allocation"""
    __slots__ = ('dtype', 'vals')

    def __init__(self, dtype, vals):
        self.dtype, self.vals = dtype, vals


class Arr:
    """handle: allocation, shape, flat positions; guards = presence condition of
    each slot along axis 0 (arrays of data-dependent length) or None"""
    __slots__ = ('loc', 'shape', 'pos', 'guards')

    def __init__(self, loc, shape, pos, guards=None):
        self.loc, self.shape, self.pos, self.guards = loc, tuple(shape), pos, guards

    def __repr__(self):
        return 'Arr#%s%s%s' % (self.loc, list(self.shape), 'g' if self.guards else '')


class ListV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class DictV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class SetV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Obj:
    __slots__ = ('loc', 'cls')

    def __init__(self, loc, cls):
        self.loc, self.cls = loc, cls


class ModV:
    def __init__(self, name):
        self.name = name


class LibMod:
    def __init__(self, name):
        self.name = name


class LibF:
    def __init__(self, name):
        self.name = name


class FortMod:
    def __init__(self, name, units):
        self.name, self.units = name, units


class FortF:
    def __init__(self, unit, units):
        self.unit, self.units = unit, units


class FuncV:
    def __init__(self, node, mod, name, cls=None, closure=None, defaults=None, file=None):
        self.node, self.mod, self.name, self.cls, self.closure = node, mod, name, cls, closure
        self.defaults = defaults or ({}, {})
        self.file = file
        self.units = None
        self.kind = 'plain'      # plain | static | classmethod | property
        self.setter = None
        self.qual = mod + '.' + (cls + '.' if cls else '') + name


class ClassV:
    def __init__(self, name, mod, attrs, bases):
        self.name, self.mod, self.attrs, self.bases = name, mod, attrs, bases


class BoundV:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class MethV:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class PartialV:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Choice:
    """gated non-numeric value"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class DtypeV:
    def __init__(self, kind):
        self.kind = kind


class InterpF:
    """scipy interp1d object: opaque interpolant of (x, y)"""

    def __init__(self, args):
        self.args = args


class OpqObj:
    """external object we know nothing about (figures, axes, ...)"""

    def __init__(self, tag):
        self.tag = tag


class Ell:
    pass


ELLIPSIS = Ell()
