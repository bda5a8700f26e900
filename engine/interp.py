"""Abstract interpreter over the Python (and lowered Fortran) source of the
repository.  Values are canonical terms (terms.py); control-flow joins merge
states into gated values, calls are analysed in context, loops with constant
trip counts are unrolled, anything else is given up on (`Unsup`: undecided)."""
import ast
import builtins
import os
import sys
from fractions import Fraction as F
from . import terms as tm
from .terms import T, num, TRUE, FALSE, ZERO, ONE, band, bnot, bor, ite
from .values import *
from . import fortran

sys.setrecursionlimit(40000)

LIBALIAS = {'numpy': 'np', 'healpy': 'hp', 'matplotlib.pyplot': 'plt', 'scipy': 'scipy', 'math': 'math',
            'sys': 'sys', 'os': 'os', 'time': 'time', 'copy': 'copy', 'functools': 'functools',
            'itertools': 'itertools', 'warnings': 'warnings', 'matplotlib': 'mpl', 'numbers': 'numbers',
            'collections': 'collections', 'numpy.random': 'np.random', 'scipy.interpolate': 'scipy.interpolate',
            'operator': 'operator', 'typing': 'typing', 'random': 'random', 'tqdm': 'tqdm', 'datetime': 'datetime'}


class State:
    __slots__ = ('vars', 'heap', 'guard')

    def __init__(self, vars_, heap, guard):
        self.vars, self.heap, self.guard = vars_, heap, guard

    def clone(self):
        return State(dict(self.vars), dict(self.heap), self.guard)


class Obl:
    """an obligation generated by an operation of the analysed program"""
    __slots__ = ('kind', 'guard', 'cond', 'where', 'msg')

    def __init__(self, kind, guard, cond, where, msg):
        self.kind, self.guard, self.cond, self.where, self.msg = kind, guard, cond, where, msg


class Effect:
    __slots__ = ('kind', 'guard', 'where', 'detail')

    def __init__(self, kind, guard, where, detail):
        self.kind, self.guard, self.where, self.detail = kind, guard, where, detail


class Frame:
    __slots__ = ('func', 'file', 'outs', 'mod', 'closure', 'cls', 'units')

    def __init__(self, func, file, mod, closure=None, cls=None, units=None):
        self.func, self.file, self.mod, self.closure, self.cls, self.units = func, file, mod, closure, cls, units
        self.outs = []


class Interp:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.S = State({}, {}, TRUE)
        self.nloc = 0
        self.frames = []
        self.gstack = []
        self.obls = []
        self.effects = []
        self.lineno = 0
        self.handed = {}          # values a running generator has yielded so far
        self.gens = {}            # function node -> does it yield
        self.visited = set()      # qualified functions analysed
        self.topcalls = []
        self.steps = 0
        self.maxsteps = 4000000
        self.loading = set()
        self.asts = {}
        self.ext = self.extensions()
        self.fort = {}
        self.calledges = set()
        self.loadfail = []
        from . import nplib
        self.lib = nplib.Lib(self)
        self.S.heap['rng'] = num(0)

    # ------------------------------------------------------------- allocation
    def loc(self):
        self.nloc += 1
        return self.nloc

    def new_arr(self, shape, vals, dtype='f', guards=None):
        vals = tuple(vals)
        shape = tuple(shape)
        if guards is not None and all(g in (TRUE, FALSE) for g in guards):
            per = len(vals) // len(guards) if guards else 0
            keep = [k for k, g in enumerate(guards) if g is TRUE]
            vals = tuple(v for k in keep for v in vals[k * per:(k + 1) * per])
            shape = (len(keep),) + shape[1:]
            guards = None
        n = 1
        for s in shape:
            n *= s
        assert n == len(vals), (shape, len(vals))
        l = self.loc()
        self.S.heap[l] = Buf(dtype, vals)
        return Arr(l, shape, tuple(range(n)), tuple(guards) if guards is not None else None)

    def vals(self, a):
        b = self.S.heap[a.loc].vals
        return [b[p] for p in a.pos]

    def dtype(self, a):
        return self.S.heap[a.loc].dtype

    def new_list(self, items):
        l = self.loc()
        self.S.heap[l] = tuple(items)
        return ListV(l)

    def items(self, l):
        v = self.S.heap[l.loc]
        if not isinstance(v, tuple):
            raise Unsup('list of unknown length')
        return v

    def new_dict(self, d):
        l = self.loc()
        self.S.heap[l] = dict(d)
        return DictV(l)

    # -------------------------------------------------------------- reporting
    def where(self):
        f = self.frames[-1] if self.frames else None
        return (f.file if f else '?', f.func if f else '?', self.lineno)

    nassume = 0
    axis = None

    def full_guard(self):
        return band(*self.gstack, self.S.guard)

    def oblige(self, kind, cond, msg):
        if cond is TRUE:
            return
        self.obls.append(Obl(kind, self.full_guard(), cond, self.where(), msg))

    def effect(self, kind, detail):
        self.effects.append(Effect(kind, self.full_guard(), self.where(), detail))

    # ------------------------------------------------------------------ merge
    def merge_val(self, c, a, b):
        """c ? a : b   (a, b values in their respective states)"""
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.loc == b.loc and a.pos == b.pos and a.shape == b.shape and a.guards == b.guards:
            return a
        if type(a) is type(b):
            if isinstance(a, (ListV, DictV, Obj, SetV)) and a.loc == b.loc:
                return a
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
            if isinstance(a, (str, bytes, type(None), LibF, LibMod, ModV)):
                if isinstance(a, (LibF, LibMod, ModV)):
                    if a.name == b.name:
                        return a
                elif a == b:
                    return a
            if isinstance(a, DtypeV) and a.kind == b.kind:
                return a
            if isinstance(a, FuncV) and a.node is b.node:
                return a
            if isinstance(a, BoundV) and a.func is b.func and self.merge_val(c, a.obj, b.obj) is a.obj:
                return a
        return Choice(c, a, b)

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for k in h1.keys() | h2.keys():
            if k not in h1:
                out[k] = h2[k]
                continue
            if k not in h2:
                out[k] = h1[k]
                continue
            x, y = h1[k], h2[k]
            if x is y:
                out[k] = x
            elif isinstance(x, Buf):
                if len(x.vals) == len(y.vals):
                    dt = x.dtype if x.dtype == y.dtype else ('o' if 'o' in (x.dtype, y.dtype) else 'f')
                    out[k] = Buf(dt, tuple(p if p is q else self.merge_val(c, p, q) for p, q in zip(x.vals, y.vals)))
                else:
                    raise Unsup('merge of resized buffers')
            elif isinstance(x, dict):
                d = {}
                for n in list(x.keys()) + [n for n in y.keys() if n not in x]:
                    d[n] = self.merge_val(c, x.get(n, UNDEF), y.get(n, UNDEF))
                out[k] = d
            elif isinstance(x, tuple):
                if len(x) == len(y):
                    out[k] = tuple(p if p is q else self.merge_val(c, p, q) for p, q in zip(x, y))
                else:
                    out[k] = Choice(c, x, y)
            elif k == 'rng':
                out[k] = x if x.args[0] >= y.args[0] else y
            else:
                out[k] = self.merge_val(c, x, y)
        return out

    def merge_state(self, c, a, b):
        """state a under c else b"""
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        vs = {}
        for n in list(a.vars.keys()) + [n for n in b.vars.keys() if n not in a.vars]:
            x, y = a.vars.get(n, UNDEF), b.vars.get(n, UNDEF)
            vs[n] = x if x is y else self.merge_val(c, x, y)
        return State(vs, self.merge_heap(c, a.heap, b.heap), bor(a.guard, b.guard))

    # ------------------------------------------------------------ choice tools
    def strip(self, v):
        """resolve a Choice under the current guard / drop undefined arms"""
        while isinstance(v, Choice):
            if v.b is UNDEF:
                self.oblige('undefined', v.c, 'value may be unset on this path')
                v = v.a
            elif v.a is UNDEF:
                self.oblige('undefined', bnot(v.c), 'value may be unset on this path')
                v = v.b
            elif self.known(v.c) is True:
                v = v.a
            elif self.known(v.c) is False:
                v = v.b
            else:
                break
        return v

    def known(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        g = self.full_guard()
        if band(g, bnot(c)) is FALSE:
            return True
        if band(g, c) is FALSE:
            return False
        return None

    def over(self, v, fn):
        """apply fn to each arm of a Choice"""
        v = self.strip(v)
        if isinstance(v, Choice):
            return self.branch(v.c, lambda: self.over(v.a, fn), lambda: self.over(v.b, fn))
        return fn(v)

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c in forked states; merge"""
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        base = self.S
        g0 = base.guard
        vars0 = base.vars
        s1 = State(base.vars, dict(base.heap), band(g0, c))
        s2 = State(base.vars, dict(base.heap), band(g0, bnot(c)))
        r1 = r2 = None
        e1 = e2 = None
        self.S = s1
        try:
            r1 = fa()
        except PyRaise as e:
            e1 = e
            self.add_raise(e)
        h1 = self.S.heap
        self.S = s2
        try:
            r2 = fb()
        except PyRaise as e:
            e2 = e
            self.add_raise(e)
        h2 = self.S.heap
        if e1 and e2:
            self.S = base
            raise e1
        if e1:
            self.S = State(vars0, h2, band(g0, bnot(c)))
            return r2
        if e2:
            self.S = State(vars0, h1, band(g0, c))
            return r1
        self.S = State(vars0, self.merge_heap(c, h1, h2), g0)
        return self.merge_val(c, r1, r2)

    def add_raise(self, e):
        if isinstance(e, PathEnd):
            return
        self.frames[-1].outs.append(('raise', self.S.clone(), (e.exc, e.msg, self.where())))

    # ---------------------------------------------------------------- modules
    def extensions(self):
        out = {}
        p = os.path.join(self.repo, 'setup.py')
        try:
            tree = ast.parse(open(p).read())
        except (OSError, SyntaxError):
            return out
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'Extension':
                kw = {k.arg: k.value for k in n.keywords}
                name = kw.get('name', n.args[0] if n.args else None)
                src = kw.get('sources', n.args[1] if len(n.args) > 1 else None)
                if isinstance(name, ast.Constant) and isinstance(src, ast.List):
                    out[name.value] = [e.value for e in src.elts if isinstance(e, ast.Constant)]
        return out

    def modfile(self, name):
        if name == '__prelude__':
            return os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py'), False
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def fortmod(self, name):
        if name not in self.fort:
            units = {}
            for s in self.ext[name]:
                units.update(fortran.load_units(os.path.join(self.repo, s)))
            self.fort[name] = FortMod(name, units)
        return self.fort[name]

    def module(self, name):
        """load module; returns value (ModV/FortMod) or None"""
        if name in self.ext:
            return self.fortmod(name)
        if ('mod', name) in self.S.heap:
            return ModV(name)
        f, pkg = self.modfile(name)
        if f is None:
            return None
        if '.' in name:
            self.module(name.rsplit('.', 1)[0])
        if ('mod', name) in self.S.heap:
            return ModV(name)
        src = open(f).read()
        tree = ast.parse(src, f)
        self.asts[name] = (tree, f, pkg)
        self.S.heap[('mod', name)] = {'__name__': name}
        fr = Frame('<module>', os.path.relpath(f, self.repo), name)
        saved = self.S.vars
        sl = self.lineno
        self.frames.append(fr)
        self.S.vars = {'__name__': name}
        self.S = self.S
        try:
            for st in tree.body:
                if not self.exec_stmt(st):
                    for o in fr.outs:
                        if o[0] == 'raise':
                            self.loadfail.append((name, fr.file, o[2]))
                    break
                self.S.heap[('mod', name)] = dict(self.S.vars)
        finally:
            self.frames.pop()
        self.S.heap[('mod', name)] = dict(self.S.vars)
        self.S.vars = saved
        self.lineno = sl
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            d = dict(self.S.heap.get(('mod', par), {}))
            if ch not in d:
                d[ch] = ModV(name)
                self.S.heap[('mod', par)] = d
        return ModV(name)

    def mod_attr(self, name, attr):
        d = self.S.heap.get(('mod', name), {})
        if attr in d:
            return d[attr]
        sub = name + '.' + attr
        if sub in self.ext:
            return self.fortmod(sub)
        if ('mod', sub) in self.S.heap:
            return ModV(sub)
        return None

    def resolve_rel(self, level, modname, cur):
        if not level:
            return modname
        tree, f, pkg = self.asts[cur]
        base = cur.split('.')
        if not pkg:
            base = base[:-1]
        base = base[:len(base) - (level - 1)]
        return '.'.join(base + ([modname] if modname else []))

    # -------------------------------------------------------------- statements
    def tick(self, node):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsup('analysis budget exhausted')
        ln = getattr(node, 'lineno', None)
        if ln:
            self.lineno = ln

    def exec_block(self, stmts):
        """executes in self.S; returns False if control does not fall through"""
        for st in stmts:
            if not self.exec_stmt(st):
                return False
        return True

    def exec_stmt(self, st):
        self.tick(st)
        try:
            return getattr(self, 'st_' + type(st).__name__, self.st_unknown)(st)
        except PyRaise as e:
            self.add_raise(e)
            return False

    def st_unknown(self, st):
        raise Unsup('statement %s' % type(st).__name__)

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return True
        self.ev(st.value)
        return True

    def st_Pass(self, st):
        return True

    def st_Import(self, st):
        for a in st.names:
            if a.name.split('.')[0] == 'magpie':
                m = self.module(a.name)
                if m is None:
                    raise PyRaise('ModuleNotFoundError', a.name)
                self.S.vars[a.asname or 'magpie'] = m if a.asname else ModV('magpie')
            else:
                nm = LIBALIAS.get(a.name)
                if nm is None:
                    nm = a.name
                if a.asname:
                    self.S.vars[a.asname] = LibMod(nm)
                else:
                    self.S.vars[a.name.split('.')[0]] = LibMod(LIBALIAS.get(a.name.split('.')[0], a.name.split('.')[0]))
        return True

    def st_ImportFrom(self, st):
        cur = self.frames[-1].mod
        full = self.resolve_rel(st.level, st.module, cur)
        if full == '__future__':
            return True
        if full.split('.')[0] == 'magpie':
            m = self.module(full)
            if m is None:
                raise PyRaise('ModuleNotFoundError', full)
            for a in st.names:
                if isinstance(m, FortMod):
                    if a.name == full.rsplit('.', 1)[-1] and a.name not in m.units:
                        raise PyRaise('ImportError', a.name)
                    if a.name not in m.units:
                        raise PyRaise('ImportError', '%s from %s' % (a.name, full))
                    self.S.vars[a.asname or a.name] = FortF(m.units[a.name], m.units)
                    continue
                if a.name == '*':
                    for k, v in self.S.heap[('mod', full)].items():
                        if not k.startswith('_'):
                            self.S.vars[k] = v
                    continue
                v = self.mod_attr(full, a.name)
                if v is None:
                    v = self.module(full + '.' + a.name)
                if v is None:
                    raise PyRaise('ImportError', '%s from %s' % (a.name, full))
                self.S.vars[a.asname or a.name] = v
            return True
        base = LIBALIAS.get(full, full)
        for a in st.names:
            nm = LIBALIAS.get(full + '.' + a.name, base + '.' + a.name)
            isMod = (full + '.' + a.name) in LIBALIAS
            self.S.vars[a.asname or a.name] = LibMod(nm) if isMod else self.lib.attr(LibMod(base), a.name)
        return True

    def defaults_of(self, args):
        pos = args.posonlyargs + args.args
        d = {}
        for a, e in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            d[a.arg] = self.ev(e)
        k = {}
        for a, e in zip(args.kwonlyargs, args.kw_defaults):
            if e is not None:
                k[a.arg] = self.ev(e)
        return d, k

    def st_FunctionDef(self, st):
        fr = self.frames[-1]
        clo = None
        if fr.func != '<module>' and not fr.func.startswith('<class'):
            clo = self.S.vars
        f = FuncV(st, fr.mod, st.name, cls=fr.cls if fr.func.startswith('<class') else None, closure=clo,
                  defaults=self.defaults_of(st.args), file=fr.file)
        f.units = fr.units
        for d in st.decorator_list:
            nm = ast.unparse(d)
            if nm == 'staticmethod':
                f.kind = 'static'
            elif nm == 'classmethod':
                f.kind = 'classmethod'
            elif nm == 'property':
                f.kind = 'property'
            elif nm.endswith('.setter'):
                old = self.S.vars.get(nm.split('.')[0])
                g = old
                g.setter = f
                f = g
            elif nm in ('functools.lru_cache', 'lru_cache', 'functools.cache', 'cache') or 'lru_cache' in nm:
                raise Unsup('memoised function')
            elif 'wraps' in nm or nm in ('abstractmethod', 'abc.abstractmethod'):
                pass
            else:
                dv = self.ev(d)
                f = self.call(dv, [f], {})
        self.S.vars[st.name] = f
        return True

    def st_ClassDef(self, st):
        fr = self.frames[-1]
        if st.keywords:
            raise Unsup('class keywords')
        bases = [self.ev(b) for b in st.bases]
        st, bases = self.record_class(st, bases)
        nf = Frame('<class %s>' % st.name, fr.file, fr.mod, closure=self.S.vars, cls=st.name)
        saved = self.S.vars
        self.frames.append(nf)
        self.S.vars = {}
        try:
            self.exec_block(st.body)
        finally:
            self.frames.pop()
        attrs = self.S.vars
        self.S.vars = saved
        l = self.loc()
        self.S.heap[l] = dict(attrs)
        c = ClassV(st.name, fr.mod, l, [b for b in bases if isinstance(b, ClassV)])
        for b in bases:
            if isinstance(b, LibF) and b.name in self.lib.EXCS:
                self.EXC = dict(self.EXC)
                self.EXC[st.name] = b.name
            elif not isinstance(b, ClassV) and not (isinstance(b, LibF) and b.name in ('object', 'abc.ABC')):
                raise Unsup('external base class')
        self.S.vars[st.name] = c
        return True

    def record_class(self, st, bases):
        """a dataclass or a named tuple is a class with the constructor that its fields define"""
        kind = None
        for d in st.decorator_list:
            f = self.ev(d.func if isinstance(d, ast.Call) else d)
            if isinstance(f, LibF) and f.name == 'dataclasses.dataclass' and kind is None and not any(isinstance(b, ClassV) for b in bases):
                kind = 'data'
            else:
                raise Unsup('decorated class')
        for b in bases:
            if isinstance(b, LibF) and b.name == 'typing.NamedTuple' and kind is None:
                kind = 'tuple'
        if kind is None:
            return st, bases
        names, params, lines, body = [], [], [], []
        for x in st.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and 'ClassVar' not in ast.unparse(x.annotation):
                n, v = x.target.id, x.value
                names.append(n)
                if isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] == 'field':
                    k = {q.arg: ast.unparse(q.value) for q in v.keywords}
                    if 'default_factory' in k:
                        params.append(n + '=None')
                        lines.append('self.%s = %s() if %s is None else %s' % (n, k['default_factory'], n, n))
                    elif k.get('init', 'True') != 'True':
                        raise Unsup('field of a dataclass')
                    else:
                        params.append(n + ('=' + k['default'] if 'default' in k else ''))
                        lines.append('self.%s = %s' % (n, n))
                    continue
                params.append(n + ('=' + ast.unparse(v) if v is not None else ''))
                lines.append('self.%s = %s' % (n, n))
                if v is not None:
                    body.append(x)
            else:
                body.append(x)
        have = {x.name for x in body if isinstance(x, ast.FunctionDef)}
        if '__post_init__' in have:
            lines.append('self.__post_init__()')
        text = ''
        if '__init__' not in have:
            text += 'def __init__(self, %s):\n    %s\n' % (', '.join(params), '\n    '.join(lines or ['pass']))
        if kind == 'tuple':
            text += self.tuple_text(names)
        new = ast.parse(text).body
        for f in new:
            for y in ast.walk(f):
                if hasattr(y, 'lineno'):
                    y.lineno = y.end_lineno = st.lineno
        c = ast.ClassDef(name=st.name, bases=[], keywords=[], body=body + new, decorator_list=[])
        c.lineno, c.end_lineno, c.col_offset, c.end_col_offset = st.lineno, st.end_lineno, 0, 0
        if hasattr(st, 'type_params'):
            c.type_params = []
        return c, []

    def tuple_text(self, names):
        t = '(%s)' % ''.join('self.%s, ' % n for n in names)
        return ('def __iter__(self):\n    return %s\ndef __getitem__(self, k):\n    return %s[k]\ndef __len__(self):\n    return %d\n'
                'def _asdict(self):\n    return {%s}\n' % (t, t, len(names), ', '.join('%r: self.%s' % (n, n) for n in names)))

    def named_tuple(self, args, kw):
        f = args[1]
        names = f.replace(',', ' ').split() if isinstance(f, str) else list(self.iterate(f))
        if kw or len(args) != 2 or not all(isinstance(n, str) for n in names):
            raise Unsup('named tuple')
        text = 'class %s:\n    def __init__(self, %s):\n        %s\n' % (args[0], ', '.join(names), '\n        '.join('self.%s = %s' % (n, n) for n in names))
        text += ''.join('    ' + l + '\n' for l in self.tuple_text(names).split('\n') if l)
        old = self.S.vars.get(args[0])
        c = ast.parse(text).body[0]
        for y in ast.walk(c):
            if hasattr(y, 'lineno'):
                y.lineno = y.end_lineno = self.lineno
        self.st_ClassDef(c)
        r = self.S.vars.pop(args[0])
        if old is not None:
            self.S.vars[args[0]] = old
        return r

    def special(self, o, name):
        """method of an object of the package with a name that Python itself calls"""
        m = self.find_attr(o.cls, name) if isinstance(o, Obj) else None
        return m if isinstance(m, FuncV) else None

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)
        return True

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))
        return True

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in getattr(self.frames[-1], 'closure', None).__class__.__dict__ if False else False:
                pass
            g = self.S.vars.get('__globals__')
            if g and t.id in g:
                key = ('mod', self.frames[-1].mod)
                d = dict(self.S.heap[key])
                d[t.id] = v
                self.S.heap[key] = d
                return
            self.S.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            its = self.iterate(v)
            if star:
                k = star[0]
                tail = len(t.elts) - k - 1
                if len(its) < len(t.elts) - 1:
                    raise PyRaise('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:k], its[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, self.new_list(its[k:len(its) - tail]))
                for e, x in zip(t.elts[k + 1:], its[len(its) - tail:]):
                    self.assign(e, x)
                return
            if len(its) != len(t.elts):
                raise PyRaise('ValueError', 'unpack %d values into %d names' % (len(its), len(t.elts)))
            for e, x in zip(t.elts, its):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsup('assignment target')

    def st_Global(self, st):
        g = set(self.S.vars.get('__globals__') or ())
        g |= set(st.names)
        self.S.vars['__globals__'] = frozenset(g)
        return True

    def st_Nonlocal(self, st):
        raise Unsup('nonlocal')

    def st_AugAssign(self, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name(t.id)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
        else:
            o = self.ev(t.value)
            ix = self.index(t.slice)
            cur = self.getitem(o, ix)
        val = self.ev(st.value)
        cur = self.strip(cur)
        if isinstance(cur, Choice):
            new = self.over(cur, lambda c: self.aug(c, op, val))
        else:
            new = self.aug(cur, op, val)
        if isinstance(t, ast.Name):
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, ix, new)
        return True

    def aug(self, cur, op, val):
        if isinstance(cur, Arr):
            r = self.lib.binop(op, cur, val)
            if not isinstance(r, Arr):
                r = self.lib.asarr(r)
            if r.shape != cur.shape and cur.shape != ():
                raise PyRaise('ValueError', 'in-place operand changes shape')
            if self.dtype(cur) == 'i' and self.dtype(r) == 'f':
                raise PyRaise('UFuncTypeError', 'cannot cast float result into integer array')
            self.lib.store(cur, r, inplace=True)
            return cur
        if isinstance(cur, ListV) and op == 'Add':
            self.S.heap[cur.loc] = self.items(cur) + tuple(self.iterate(val))
            return cur
        return self.lib.binop(op, cur, val)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.S.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                d = dict(self.S.heap[o.loc])
                d.pop(t.attr, None)
                self.S.heap[o.loc] = d
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                ix = self.index(t.slice)
                if isinstance(o, DictV):
                    d = dict(self.S.heap[o.loc])
                    d.pop(self.dkey(ix), None)
                    self.S.heap[o.loc] = d
                elif isinstance(o, ListV):
                    its = list(self.items(o))
                    del its[self.lib.cint(ix)]
                    self.S.heap[o.loc] = tuple(its)
                else:
                    raise Unsup('del')
        return True

    def truth(self, v):
        v = self.strip(v)
        if isinstance(v, Choice):
            return tm.bite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, T):
            return tm.truth(v)
        if v is None:
            return FALSE
        if isinstance(v, (str, bytes, tuple)):
            return TRUE if len(v) else FALSE
        if isinstance(v, ListV):
            return TRUE if self.items(v) else FALSE
        if isinstance(v, (DictV, SetV)):
            return TRUE if self.S.heap[v.loc] else FALSE
        if isinstance(v, Arr):
            if len(v.pos) == 1 and v.guards is None:
                return tm.truth(self.vals(v)[0])
            if v.guards is not None:
                raise Unsup('truth of array of unknown length')
            raise PyRaise('ValueError', 'truth value of an array is ambiguous')
        if isinstance(v, RangeV):
            return TRUE if self.iterate(v) else FALSE
        if isinstance(v, OpqObj):
            raise Unsup('truth of external object')
        return TRUE

    def st_If(self, st):
        c = self.truth(self.ev(st.test))
        return self.two_way(c, lambda: self.exec_block(st.body), lambda: self.exec_block(st.orelse))

    def two_way(self, c, fa, fb):
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        base = self.S
        g0 = base.guard
        fr = self.frames[-1]
        n0 = len(fr.outs)
        a = base.clone()
        a.guard = band(g0, c)
        b = base.clone()
        b.guard = band(g0, bnot(c))
        self.S = a
        fa_ok = fa() if a.guard is not FALSE else False
        a = self.S
        self.S = b
        fb_ok = fb() if b.guard is not FALSE else False
        b = self.S
        if not fa_ok and not fb_ok:
            self.S = base
            return False
        if not fa_ok:
            self.S = b
            return True
        if not fb_ok:
            self.S = a
            return True
        m = self.merge_state(c, a, b)
        if len(fr.outs) == n0:
            m.guard = g0
        self.S = m
        return True

    def collect(self, kinds, n0):
        """remove outcomes of given kinds recorded since n0 from the frame"""
        fr = self.frames[-1]
        got = [o for o in fr.outs[n0:] if o[0] in kinds]
        fr.outs[n0:] = [o for o in fr.outs[n0:] if o[0] not in kinds]
        return got

    def join_outs(self, ok, outs, g0=None):
        """merge current state (if ok) with states of the given outcomes"""
        states = [o[1] for o in outs]
        cur = self.S if ok else None
        for s in reversed(states):
            cur = s if cur is None else self.merge_state(s.guard, s, cur)
        if cur is None:
            return False
        self.S = cur
        return True

    def loop(self, st, step):
        """step(): prepares next iteration -> True/False/condition term"""
        fr = self.frames[-1]
        breaks = []
        it = 0
        n_outer = len(fr.outs)
        gstart = self.S.guard
        na = self.nassume
        normal_exit = True
        while True:
            c = step()
            if c is FALSE or c is False:
                break
            if c is not TRUE and c is not True:
                k = self.known(c)
                if k is False:
                    break
                if k is None:
                    raise Unsup('loop with data-dependent trip count')
            it += 1
            if it > 5000:
                raise Unsup('loop bound')
            n0 = len(fr.outs)
            g0 = self.S.guard
            a0 = self.nassume
            ok = self.exec_block(st.body)
            conts = self.collect(('continue',), n0)
            br = self.collect(('break',), n0)
            only_cont = len(fr.outs) == n0 and not br
            breaks += br
            if not self.join_outs(ok, conts):
                normal_exit = False
                break
            if only_cont and a0 == self.nassume:
                self.S.guard = g0
        ok = normal_exit
        if ok and st.orelse:
            ok = self.exec_block(st.orelse)
        if breaks:
            ok = self.join_outs(ok, breaks)
            if ok and len(fr.outs) == n_outer and na == self.nassume:
                self.S.guard = gstart
        return ok

    def st_For(self, st):
        its = list(self.iterate(self.ev(st.iter)))
        pos = [0]

        def step():
            if pos[0] >= len(its):
                return False
            self.assign(st.target, its[pos[0]])
            pos[0] += 1
            return True
        return self.loop(st, step)

    def st_While(self, st):
        def step():
            self.tick(st)
            return self.truth(self.ev(st.test))
        return self.loop(st, step)

    def st_Break(self, st):
        self.frames[-1].outs.append(('break', self.S, None))
        return False

    def st_Continue(self, st):
        self.frames[-1].outs.append(('continue', self.S, None))
        return False

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else None
        self.frames[-1].outs.append(('return', self.S, v))
        return False

    def st_Raise(self, st):
        nm, msg = 'Exception', ''
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                nm = ast.unparse(e.func)
                msg = ' '.join(ast.unparse(a) for a in e.args)
            else:
                nm = ast.unparse(e)
        self.frames[-1].outs.append(('raise', self.S.clone(), (nm, msg, self.where())))
        return False

    def st_Assert(self, st):
        c = self.truth(self.ev(st.test))
        if c is FALSE:
            self.frames[-1].outs.append(('raise', self.S.clone(), ('AssertionError', ast.unparse(st.test)[:120], self.where())))
            return False
        if c is not TRUE:
            s = self.S.clone()
            s.guard = band(s.guard, bnot(c))
            self.frames[-1].outs.append(('raise', s, ('AssertionError', ast.unparse(st.test)[:120], self.where())))
            self.S.guard = band(self.S.guard, c)
        return True

    def st_With(self, st):
        ends = []
        for it in st.items:
            e = it.context_expr
            nm = ast.unparse(e)
            if 'raise' in nm or 'suppress' in nm and 'np' not in nm:
                raise Unsup('with')
            if 'errstate' in nm or 'catch_warnings' in nm or 'suppress' in nm or 'printoptions' in nm:
                continue
            v = self.ev(e)
            if self.special(v, '__enter__') and self.special(v, '__exit__'):
                r = self.call_func(self.special(v, '__enter__'), [v], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, r)
                ends.append(v)
                continue
            if isinstance(v, OpqObj):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                continue
            raise Unsup('with')
        n0 = len(self.frames[-1].outs)
        ok = self.exec_block(st.body)
        if ends and (len(self.frames[-1].outs) > n0 or not ok):
            raise Unsup('leaving a with block early')
        for v in reversed(ends):
            self.call_func(self.special(v, '__exit__'), [v, None, None, None], {})
        return ok

    EXC = {'ZeroDivisionError': 'ArithmeticError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
           'UnboundLocalError': 'NameError', 'ModuleNotFoundError': 'ImportError', 'UFuncTypeError': 'TypeError',
           'AxisError': 'ValueError'}

    def st_Try(self, st):
        fr = self.frames[-1]
        n0 = len(fr.outs)
        o0 = len(self.obls)
        g0 = self.S.guard
        ok = self.exec_block(st.body)
        if ok and st.orelse:
            ok = self.exec_block(st.orelse)
        raises = self.collect(('raise',), n0)
        normal = (ok, self.S)
        done = []
        for o in raises:
            exc = o[2][0]
            handled = False
            for h in st.handlers:
                if h.type is None:
                    names = None
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x) for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type)]
                if names is None or 'Exception' in names or 'BaseException' in names or exc in names or \
                        self.EXC.get(exc) in names or self.EXC.get(self.EXC.get(exc)) in names:
                    handled = True
                    # obligations raised inside are handled, not failures
                    self.obls[o0:] = [b for b in self.obls[o0:] if not (b.where == o[2][2])]
                    self.S = o[1]
                    if h.name:
                        self.S.vars[h.name] = OpqObj('exception')
                    if self.exec_block(h.body):
                        done.append(self.S)
                    break
            if not handled:
                fr.outs.append(o)
        cur = normal[1] if normal[0] else None
        for s in reversed(done):
            cur = s if cur is None else self.merge_state(s.guard, s, cur)
        if cur is None:
            return False
        self.S = cur
        if len(fr.outs) == n0:
            self.S.guard = g0
        if st.finalbody:
            return self.exec_block(st.finalbody)
        return True

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        self.tick(e)
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsup('expression %s' % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v:
                return tm.NAN
            if v in (float('inf'), float('-inf')):
                return tm.INF if v > 0 else tm.neg(tm.INF)
            return num(F(repr(v)))
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            raise Unsup('complex')
        return v

    def name(self, n):
        v = self.S.vars
        if n in v:
            x = v[n]
            g = v.get('__globals__')
            if not (g and n in g):
                if x is UNDEF:
                    raise PyRaise('UnboundLocalError', n)
                if isinstance(x, Choice):
                    x = self.strip(x)
                    if x is UNDEF:
                        raise PyRaise('UnboundLocalError', n)
                return x
        fr = self.frames[-1]
        c = fr.closure
        while c is not None:
            if n in c:
                return self.strip(c[n])
            c = c.get('__closure__')
        if fr.units is not None and n in fr.units:
            return FortF(fr.units[n], fr.units)
        d = self.S.heap.get(('mod', fr.mod))
        if d and n in d:
            return self.strip(d[n])
        if fr.func == '<module>' and n in v:
            return v[n]
        b = self.lib.builtin(n)
        if b is not None:
            return b
        if n in self.fname_locals():
            raise PyRaise('UnboundLocalError', n)
        if hasattr(builtins, n):
            raise Unsup('builtin ' + n)
        raise PyRaise('NameError', "name '%s' is not defined" % n)

    def fname_locals(self):
        return ()

    def ex_Name(self, e):
        return self.name(e.id)

    def ex_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def ex_List(self, e):
        return self.new_list(self.elts(e.elts))

    def ex_Set(self, e):
        return self.new_set(self.elts(e.elts))

    def new_set(self, items):
        l = self.loc()
        self.S.heap[l] = self.distinct(items)
        return SetV(l)

    def distinct(self, items):
        out = []
        for x in items:
            if isinstance(x, (ListV, DictV, SetV, Arr)):
                raise PyRaise('TypeError', 'unhashable type')
            if not any(x is y or (self.fixed(x) and self.fixed(y) and x == y) for y in out):
                out.append(x)
        if all(isinstance(x, T) and x.op == 'num' for x in out):
            out.sort(key=lambda t: t.args[0])
        return tuple(out)

    def fixed(self, k):
        if isinstance(k, tuple):
            return all(self.fixed(x) for x in k)
        return isinstance(k, str) or k is None or isinstance(k, T) and k.op in ('num', 'true', 'false')

    def dkey(self, k):
        if isinstance(k, tuple) and not self.fixed(k):
            raise Unsup('symbolic dict key')
        if isinstance(k, (str, tuple)) or k is None:
            return k
        if isinstance(k, T) and k.op in ('num', 'true', 'false'):
            return k
        raise Unsup('symbolic dict key')

    def ex_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                d.update(self.S.heap[x.loc])
            else:
                d[self.dkey(self.ev(k))] = self.ev(v)
        return self.new_dict(d)

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.lib.binop(type(e.op).__name__, a, b)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        o = type(e.op).__name__
        if o == 'Not':
            return bnot(self.truth(v))
        return self.over(v, lambda x: self.lib.unop(o, x))

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self._boolop(e.values, isand)

    def _boolop(self, vs, isand):
        v = self.ev(vs[0])
        if len(vs) == 1:
            return v
        c = self.truth(v)
        k = self.known(c)
        if k is (not isand):
            return v
        if k is isand:
            return self._boolop(vs[1:], isand)
        if isand:
            return self.branch(c, lambda: self._boolop(vs[1:], isand), lambda: v if not (isinstance(v, T) and tm.is_bool(v)) else FALSE)
        return self.branch(c, lambda: v if not (isinstance(v, T) and tm.is_bool(v)) else TRUE, lambda: self._boolop(vs[1:], isand))

    def ex_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def ex_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            x = self.lib.compare(type(op).__name__, left, right)
            if res is None:
                res = x
            else:
                res = band(self.truth(res), self.truth(x)) if isinstance(x, T) else self.lib.binop('BitAnd', res, x)
            left = right
        return res

    def ex_Lambda(self, e):
        fr = self.frames[-1]
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e.body)],
                               decorator_list=[])
        clo = dict(self.S.vars)
        clo['__closure__'] = fr.closure
        f = FuncV(node, fr.mod, '<lambda>', closure=clo, defaults=self.defaults_of(e.args), file=fr.file)
        f.units = fr.units
        return f

    def comp(self, gens, leaf):
        out = []

        def rec(k):
            if k == len(gens):
                out.append(leaf())
                return
            g = gens[k]
            for x in list(self.iterate(self.ev(g.iter))):
                self.assign(g.target, x)
                okk = True
                for c in g.ifs:
                    t = self.known(self.truth(self.ev(c)))
                    if t is None:
                        raise Unsup('symbolic comprehension filter')
                    if not t:
                        okk = False
                        break
                if okk:
                    rec(k + 1)
        saved = dict(self.S.vars)
        rec(0)
        self.S.vars = saved
        return out

    def ex_ListComp(self, e):
        return self.new_list(self.comp(e.generators, lambda: self.ev(e.elt)))

    def ex_GeneratorExp(self, e):
        return tuple(self.comp(e.generators, lambda: self.ev(e.elt)))

    def ex_SetComp(self, e):
        return self.new_set(self.comp(e.generators, lambda: self.ev(e.elt)))

    def ex_DictComp(self, e):
        return self.new_dict(dict(self.comp(e.generators, lambda: (self.dkey(self.ev(e.key)), self.ev(e.value)))))

    def ex_JoinedStr(self, e):
        vs = [self.ev(v.value) if isinstance(v, ast.FormattedValue) else v.value for v in e.values]
        if all(isinstance(v, str) and not isinstance(v, Text) for v in vs):
            return ''.join(vs)
        return Text(written(*vs))

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ex_Starred(self, e):
        raise Unsup('starred')

    def ex_Slice(self, e):
        return self.index(e)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        return self.ev(s)

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.index(e.slice))

    def getitem(self, o, ix):
        o = self.strip(o)
        if isinstance(o, Choice):
            return self.over(o, lambda x: self.getitem(x, ix))
        if isinstance(ix, Choice):
            return self.over(ix, lambda x: self.getitem(o, x))
        if isinstance(o, Arr):
            return tm.plain(self.lib.getitem(o, ix))
        if isinstance(o, (ListV, tuple, str)):
            its = self.items(o) if isinstance(o, ListV) else o
            if isinstance(o, Text):
                return o
            if isinstance(ix, SliceV):
                lo, hi, st = [None if x is None else self.lib.cint(x) for x in (ix.lo, ix.hi, ix.step)]
                r = its[slice(lo, hi, st)]
                return self.new_list(r) if isinstance(o, ListV) else r
            if not isinstance(ix, T):
                if isinstance(ix, Arr) and ix.shape == ():
                    ix = self.vals(ix)[0]
                else:
                    raise PyRaise('TypeError', 'list indices must be integers')
            if ix.op == 'num':
                k = self.lib.cint(ix)
                if k >= len(its) or k < -len(its):
                    raise PyRaise('IndexError', 'index %d of sequence of length %d' % (k, len(its)))
                return its[k]
            if tm.is_bool(ix):
                ix = tm.b2n(ix)
            r = its[-1]
            for k in range(len(its) - 2, -1, -1):
                r = self.merge_val(tm.eq0(tm.sub(ix, num(k))), its[k], r)
            self.oblige('index', band(bnot(tm.lt0(ix)), tm.lt0(tm.sub(ix, num(len(its))))), 'sequence index range')
            return r
        if isinstance(o, DictV):
            k = self.dkey(ix)
            d = self.S.heap[o.loc]
            if k not in d:
                raise PyRaise('KeyError', str(k))
            r = self.strip(d[k])
            if r is UNDEF:
                raise PyRaise('KeyError', str(k))
            return r
        if isinstance(o, T):
            if tm.is_bool(o) or True:
                raise PyRaise('IndexError', 'subscript of a scalar')
        if o is None:
            raise PyRaise('TypeError', "'NoneType' object is not subscriptable")
        if isinstance(o, RangeV):
            return self.getitem(tuple(self.iterate(o)), ix)
        if isinstance(o, OpqObj):
            return OpqObj(o.tag + '[]')
        if isinstance(o, LibF) and o.name in ('np.s_', 'np.index_exp'):
            return ix
        if isinstance(o, LibF) and o.name in ('np.r_', 'np.c_'):
            return self.lib.prelude(o.name.replace('.', '_'), [ix], {})
        if self.special(o, '__getitem__'):
            return self.call_func(self.special(o, '__getitem__'), [o, ix], {})
        raise Unsup('subscript of %s' % type(o).__name__)

    def setitem(self, o, ix, v):
        o = self.strip(o)
        if isinstance(o, Choice):
            def f(x):
                self.setitem(x, ix, v)
                return None
            self.over(o, f)
            return
        if isinstance(o, Arr):
            self.lib.setitem(o, ix, v)
        elif isinstance(o, ListV):
            its = list(self.items(o))
            if isinstance(ix, SliceV):
                lo, hi, st = [None if x is None else self.lib.cint(x) for x in (ix.lo, ix.hi, ix.step)]
                its[slice(lo, hi, st)] = self.iterate(v)
            elif isinstance(ix, T) and ix.op == 'num':
                k = self.lib.cint(ix)
                if k >= len(its) or k < -len(its):
                    raise PyRaise('IndexError', 'list assignment index out of range')
                its[k] = v
            elif isinstance(ix, T):
                self.oblige('index', band(bnot(tm.lt0(ix)), tm.lt0(tm.sub(ix, num(len(its))))), 'list index range')
                for k in range(len(its)):
                    its[k] = self.merge_val(tm.eq0(tm.sub(ix, num(k))), v, its[k])
            else:
                raise Unsup('list assignment')
            self.S.heap[o.loc] = tuple(its)
        elif isinstance(o, DictV):
            d = dict(self.S.heap[o.loc])
            d[self.dkey(ix)] = v
            self.S.heap[o.loc] = d
        elif isinstance(o, (tuple, str)) or o is None or isinstance(o, T):
            raise PyRaise('TypeError', 'object does not support item assignment')
        elif isinstance(o, OpqObj):
            return
        else:
            if self.special(o, '__setitem__'):
                self.call_func(self.special(o, '__setitem__'), [o, ix, v], {})
                return
            raise Unsup('item assignment to %s' % type(o).__name__)

    def iterate(self, v):
        v = self.strip(v)
        if isinstance(v, tuple):
            return v
        if isinstance(v, ListV):
            return self.items(v)
        if isinstance(v, SetV):
            r = self.S.heap[v.loc]
            if len(r) > 1 and not all(self.fixed(x) for x in r):
                raise Unsup('set of undetermined values')
            return r
        if isinstance(v, RangeV):
            lo, hi, st = self.lib.cint(v.lo), self.lib.cint(v.hi), self.lib.cint(v.step)
            r = range(lo, hi, st)
            if len(r) > 5000:
                raise Unsup('long range')
            return tuple(num(i) for i in r)
        if isinstance(v, Arr):
            if v.guards is not None:
                raise Unsup('iteration over array of unknown length')
            if v.shape == ():
                raise PyRaise('TypeError', 'iteration over a 0-d array')
            return tuple(self.lib.getitem(v, num(k)) for k in range(v.shape[0]))
        if isinstance(v, DictV):
            return tuple(self.S.heap[v.loc].keys())
        if isinstance(v, str):
            if isinstance(v, Text):
                raise Unsup('characters of a text')
            return tuple(v)
        if isinstance(v, T):
            raise PyRaise('TypeError', 'cannot unpack / iterate a scalar')
        if v is None:
            raise PyRaise('TypeError', 'cannot iterate None')
        if isinstance(v, Choice):
            a, b = None, None
            a = self.iterate(v.a)
            b = self.iterate(v.b)
            if len(a) != len(b):
                raise Unsup('iteration over gated sequences of different length')
            return tuple(self.merge_val(v.c, x, y) for x, y in zip(a, b))
        if self.special(v, '__iter__'):
            return self.iterate(self.call_func(self.special(v, '__iter__'), [v], {}))
        raise Unsup('iteration over %s' % type(v).__name__)

    # -------------------------------------------------------------- attributes
    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def find_attr(self, cls, name):
        d = self.S.heap[cls.attrs]
        if name in d:
            return d[name]
        for b in cls.bases:
            r = self.find_attr(b, name)
            if r is not None:
                return r
        return None

    def getattr(self, o, name):
        o = self.strip(o)
        if isinstance(o, Choice):
            return self.over(o, lambda x: self.getattr(x, name))
        if isinstance(o, ModV):
            r = self.mod_attr(o.name, name)
            if r is None:
                raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
            return self.strip(r)
        if isinstance(o, FortMod):
            if name not in o.units:
                raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
            return FortF(o.units[name], o.units)
        if isinstance(o, LibMod):
            return self.lib.attr(o, name)
        if isinstance(o, Obj):
            d = self.S.heap[o.loc]
            m = self.find_attr(o.cls, name)
            if isinstance(m, FuncV) and m.kind == 'property':
                return self.call(m, [o], {})
            if name in d:
                r = self.strip(d[name])
                if r is UNDEF:
                    raise PyRaise('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
                return r
            if name == '__dict__':
                return DictV(o.loc)      # an object keeps its attributes as a dictionary does its entries
            if name == '__class__':
                return o.cls
            if m is None:
                ga = self.find_attr(o.cls, '__getattr__')
                if ga is not None:
                    raise Unsup('__getattr__')
                raise PyRaise('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
            if isinstance(m, FuncV):
                if m.kind == 'static':
                    return m
                if m.kind == 'classmethod':
                    return BoundV(o.cls, m)
                return BoundV(o, m)
            return m
        if isinstance(o, ClassV):
            m = self.find_attr(o, name)
            if m is None:
                if name == '__name__':
                    return o.name
                raise PyRaise('AttributeError', "class '%s' has no attribute '%s'" % (o.name, name))
            if isinstance(m, FuncV) and m.kind == 'classmethod':
                return BoundV(o, m)
            return m
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                m = self.find_attr(b, name)
                if m is not None:
                    return BoundV(o.obj, m) if isinstance(m, FuncV) else m
            if name == '__init__':
                return LibF('object.__init__')
            raise PyRaise('AttributeError', name)
        if isinstance(o, OpqObj):
            return OpqObj(o.tag + '.' + name)
        if isinstance(o, FuncV):
            if name in ('__name__', '__doc__'):
                return o.name
            raise Unsup('function attribute')
        if o is None:
            raise PyRaise('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        return self.lib.value_attr(o, name)

    def setattr(self, o, name, v):
        o = self.strip(o)
        if isinstance(o, Choice):
            def f(x):
                self.setattr(x, name, v)
            self.over(o, f)
            return
        if isinstance(o, Obj):
            m = self.find_attr(o.cls, name)
            if isinstance(m, FuncV) and m.kind == 'property':
                if m.setter is None:
                    raise PyRaise('AttributeError', "can't set attribute " + name)
                self.call(m.setter, [o, v], {})
                return
            d = dict(self.S.heap[o.loc])
            d[name] = v
            self.S.heap[o.loc] = d
        elif isinstance(o, ClassV):
            d = dict(self.S.heap[o.attrs])
            d[name] = v
            self.S.heap[o.attrs] = d
        elif isinstance(o, ModV):
            d = dict(self.S.heap[('mod', o.name)])
            d[name] = v
            self.S.heap[('mod', o.name)] = d
        elif isinstance(o, Arr) and name == 'shape':
            raise Unsup('in-place reshape')
        elif isinstance(o, (LibMod, OpqObj)):
            self.effect('global', 'set attribute %s of external object' % name)
        else:
            raise Unsup('attribute assignment')

    # ------------------------------------------------------------------- calls
    def ex_Call(self, e):
        if isinstance(e.func, ast.Name):
            n = e.func.id
            if n == '__fcall__':
                return self.fcall(e)
            if n == '__ffunc__':
                return self.ffunc(e)
            if n == 'next' and e.args and (isinstance(e.args[0], ast.GeneratorExp) or (isinstance(e.args[0], ast.Call) and isinstance(e.args[0].func, ast.Name) and e.args[0].func.id == 'iter')):
                q = e.args[0] if isinstance(e.args[0], ast.GeneratorExp) else e.args[0].args[0]
                return self.lib.prelude('first_of', [self.ev(q)] + [self.ev(x) for x in e.args[1:]], {})
            if n == 'super' and not e.args:
                fr = self.frames[-1]
                d = self.S.heap.get(('mod', fr.mod), {})
                if fr.cls not in d or self.selfname(fr) not in self.S.vars:
                    raise Unsup('super')
                return SuperV(d[fr.cls], self.S.vars[self.selfname(fr)])
            if n == 'locals':
                raise Unsup('locals()')
        f = self.ev(e.func)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                v = self.strip(v)
                if not isinstance(v, DictV):
                    raise Unsup('**kwargs')
                for a, b in self.S.heap[v.loc].items():
                    kw[a] = b
            else:
                kw[k.arg] = v
        self.lineno = e.lineno if hasattr(e, 'lineno') else self.lineno
        return self.call(f, args, kw)

    def selfname(self, fr):
        return fr.selfname if hasattr(fr, 'selfname') else 'self'

    def call(self, f, args, kw):
        f = self.strip(f)
        if isinstance(f, Choice):
            return self.over(f, lambda x: self.call(x, args, kw))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, ClassV):
            l = self.loc()
            self.S.heap[l] = {}
            o = Obj(l, f)
            init = self.find_attr(f, '__init__')
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
            elif args or kw:
                raise PyRaise('TypeError', '%s() takes no arguments' % f.name)
            return o
        if isinstance(f, LibF):
            r = self.lib.call(f.name, list(args), dict(kw))
            return tm.plain(r) if f.name != 'driver.integer' else r
        if isinstance(f, MethV):
            return self.lib.method(f.recv, f.name, list(args), dict(kw))
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2)
        if isinstance(f, FortF):
            return self.call_fort(f, args, kw)
        if isinstance(f, InterpF):
            return self.lib.call_interp(f, args)
        if isinstance(f, DtypeV):
            return self.lib.astype(args[0], f.kind)
        if isinstance(f, OpqObj):
            self.effect('external', f.tag)
            if self.axis is not None and f.tag.rpartition('.')[0] in ('plt', 'mpl.pylab', 'mpl.pyplot', 'matplotlib.pylab', 'matplotlib.pyplot'):
                # the driver's recorder stands for the current axis
                n = f.tag.rpartition('.')[2]
                if n in ('gca', 'axes', 'subplot'):
                    return self.axis
                return self.call(self.getattr(self.axis, n), list(args), dict(kw))
            return OpqObj(f.tag + '()')
        if isinstance(f, Obj):
            m = self.find_attr(f.cls, '__call__')
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        if isinstance(f, LibMod):
            raise Unsup('call of external ' + f.name)
        raise PyRaise('TypeError', 'object is not callable')

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        env = {}
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qual, len(pos), len(args)))
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                if k in env:
                    raise PyRaise('TypeError', '%s() got multiple values for argument %s' % (f.qual, k))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.qual, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(extra)
        d, kd = f.defaults
        for n in pos:
            if n not in env:
                if n in d:
                    env[n] = d[n]
                else:
                    raise PyRaise('TypeError', "%s() missing required argument '%s'" % (f.qual, n))
        for n in kwo:
            if n not in env:
                if n in kd:
                    env[n] = kd[n]
                else:
                    raise PyRaise('TypeError', "%s() missing keyword argument '%s'" % (f.qual, n))
        return env

    def call_func(self, f, args, kw):
        env = self.bind(f, args, kw)
        if len(self.frames) > 80:
            raise Unsup('recursion depth')
        if self.frames and self.frames[-1].mod == '<driver>' and f.mod != '<driver>':
            self.topcalls.append((f.qual, f.file, f.node.lineno if hasattr(f.node, 'lineno') else 0))
        if f.mod != '__prelude__':
            self.visited.add((f.qual, f.file))
        fr = Frame(f.name if not f.cls else f.cls + '.' + f.name, f.file, f.mod, closure=f.closure, cls=f.cls, units=f.units)
        if self.yields(f):
            got = self.handed[id(fr)] = []
            rng = self.S.heap.get('rng')
            self.run_body(fr, env, f.node.body)
            if self.S.heap.get('rng') is not rng:
                raise Unsup('generator that draws')
            del self.handed[id(fr)]
            return self.new_list(got)
        return self.run_body(fr, env, f.node.body)

    def yields(self, f):
        r = self.gens.get(id(f.node))
        if r is None:
            r, todo = False, list(f.node.body) if isinstance(f.node.body, list) else []
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    todo += list(ast.iter_child_nodes(n))
            self.gens[id(f.node)] = r
        return r

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        fr = self.frames[-1]
        if self.S.guard is not TRUE or id(fr) not in self.handed:
            raise Unsup('conditional yield')
        self.handed[id(fr)].append(v)
        return None

    def ex_YieldFrom(self, e):
        fr = self.frames[-1]
        if self.S.guard is not TRUE or id(fr) not in self.handed:
            raise Unsup('conditional yield')
        self.handed[id(fr)] += list(self.iterate(self.ev(e.value)))
        return None

    def run_body(self, fr, env, body, result=None):
        saved_vars, saved_guard, saved_line = self.S.vars, self.S.guard, self.lineno
        self.frames.append(fr)
        self.gstack.append(saved_guard)
        self.S = State(env, self.S.heap, TRUE)
        try:
            ok = self.exec_block(body)
            if ok:
                fr.outs.append(('return', self.S, None))
            rets = [o for o in fr.outs if o[0] == 'return']
            raises = [o for o in fr.outs if o[0] == 'raise']
            if any(o[0] in ('break', 'continue') for o in fr.outs):
                raise Unsup('stray break')
            val = None
            st = None
            outvals = None
            for o in reversed(rets):
                v = o[2] if result is None else tuple(o[1].vars.get(n, UNDEF) for n in result)
                if st is None:
                    st, val = o[1], v
                else:
                    val = self.merge_val(o[1].guard, v, val)
                    st = self.merge_state(o[1].guard, State({}, o[1].heap, o[1].guard), State({}, st.heap, st.guard))
        finally:
            self.frames.pop()
            self.gstack.pop()
        caller = self.frames[-1] if self.frames else None
        norm_guard = saved_guard
        for o in raises:
            g = band(saved_guard, o[1].guard)
            if g is FALSE:
                continue
            if caller is not None:
                caller.outs.append(('raise', State(dict(saved_vars), o[1].heap, g), o[2]))
        if st is None:
            heap = raises[-1][1].heap if raises else self.S.heap
            self.S = State(saved_vars, heap, saved_guard)
            self.lineno = saved_line
            if raises:
                # already propagated as an outcome: terminate this path quietly
                raise PathEnd(raises[-1][2])
            raise Unsup('function without outcome')
        if raises:
            rg = bor(*[o[1].guard for o in raises])
            norm_guard = band(saved_guard, bnot(rg))
        self.S = State(saved_vars, st.heap, norm_guard)
        self.lineno = saved_line
        return val

    # ----------------------------------------------------------------- fortran
    def call_fort(self, f, args, kw):
        u = f.unit
        env = {}
        # f2py signature: required inputs first, then the optional dimension arguments
        req = [n for n in u.ins if n not in u.optional]
        opt = [n for n in u.ins if n in u.optional]
        order = req + opt
        if len(args) > len(order):
            raise PyRaise('TypeError', '%s() takes at most %d arguments' % (u.name, len(order)))
        for n, v in zip(order, args):
            env[n] = v
        low = {n.lower(): n for n in order}
        for k, v in kw.items():
            if k not in low:
                raise PyRaise('TypeError', "'%s' is an invalid keyword argument for %s()" % (k, u.name))
            if low[k] in env:
                raise PyRaise('TypeError', 'duplicate argument ' + k)
            env[low[k]] = v
        for n in req:
            if n not in env:
                raise PyRaise('TypeError', "%s() missing required argument '%s'" % (u.name, n))
        for n in u.ins:
            if n not in env:
                arrn, ax = u.optional[n]
                env[n] = self.lib.shape_of(self.lib.asarr(env[arrn]))[ax]
        for n in u.ins:
            d = u.decl.get(n, {})
            v = self.strip(env[n])
            if d.get('dims'):
                a = self.lib.asarr(v)
                env[n] = self.new_arr(a.shape, self.vals(a), self.dtype(a), a.guards)
            else:
                if isinstance(v, Arr) and len(v.pos) == 1:
                    v = self.vals(v)[0]
                if v is None or isinstance(v, (str, tuple, ListV, Obj)):
                    raise PyRaise('TypeError', "argument '%s' of %s() is not a number" % (n, u.name))
                if d.get('type') == 'int' and isinstance(v, T):
                    v = tm.trunc(v)
                env[n] = v
        self.visited.add(('fortran:' + u.name, os.path.relpath(u.file, self.repo)))
        r = self.run_fort(u, f.units, env, check=True)
        if u.sub.func or len(u.outs) == 1:
            return r[0]
        return tuple(r) if r else None

    def run_fort(self, u, units, env, check=False):
        fr = Frame(u.name, os.path.relpath(u.file, self.repo), '<fortran>', units=units)
        if check:
            fn = {}
            for n in u.ins:
                d = u.decl.get(n, {})
                if d.get('dims'):
                    fr2 = fr
                    self.frames.append(fr2)
                    saved = self.S.vars
                    self.S.vars = dict(env)
                    try:
                        dims = d['dims']
                        ds = [self.ev(x) if isinstance(x, ast.AST) else None for x in u.dimexprs(n)] if hasattr(u, 'dimexprs') else None
                    finally:
                        self.S.vars = saved
                        self.frames.pop()
                    if ds and all(x is not None for x in ds):
                        tot = ONE
                        for x in ds:
                            tot = tm.mul(tot, x)
                        c = bnot(tm.lt0(tm.sub(num(len(env[n].pos)), tot)))
                        if c is FALSE:
                            raise PyRaise('ValueError', "argument '%s' of %s() is smaller than its declared extent" % (n, u.name))
                        self.oblige('f2py size', c, "argument '%s' of %s() smaller than declared extent" % (n, u.name))
        for n in u.outs:
            env.setdefault(n, UNDEF)
        return self.run_body(fr, env, u.node.body, result=list(u.outs))

    def fcall(self, e):
        """call sub(args): outputs bound back to actual arguments"""
        name = e.args[0].value
        fr = self.frames[-1]
        u = fr.units.get(name)
        if u is None:
            raise PyRaise('NameError', 'subroutine ' + name)
        allargs = u.sub.args
        actual = e.args[1:]
        if len(actual) != len(allargs):
            raise PyRaise('TypeError', 'call %s with %d arguments, expects %d' % (name, len(actual), len(allargs)))
        env = {}
        for n, a in zip(allargs, actual):
            if n in u.ins:
                env[n] = self.ev(a)
        r = self.run_fort(u, fr.units, env)
        byname = dict(zip(u.outs, r))
        for n, a in zip(allargs, actual):
            if n in byname:
                v = byname[n]
                if isinstance(a, ast.Name):
                    old = self.S.vars.get(a.id)
                    if isinstance(old, Arr) and isinstance(v, Arr):
                        # explicit-shape dummy: copy contents back in sequence order
                        ov = list(self.vals(v))
                        b = list(self.S.heap[old.loc].vals)
                        for p, x in zip(old.pos, ov):
                            b[p] = x
                        self.S.heap[old.loc] = Buf(self.S.heap[old.loc].dtype, tuple(b))
                    else:
                        self.S.vars[a.id] = v
                else:
                    self.assign(a, v)
        return None

    def ffunc(self, e):
        name = e.args[0].value
        fr = self.frames[-1]
        u = fr.units[name]
        env = {n: self.ev(a) for n, a in zip(u.ins, e.args[1:])}
        r = self.run_fort(u, fr.units, env)
        return r[0]


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PathEnd(PyRaise):
    """a callee never returns normally; its raise outcomes are already recorded"""

    def __init__(self, info):
        PyRaise.__init__(self, info[0], info[1])
        self.info = info
