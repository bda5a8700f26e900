"""Front end for the Fortran subset: parses free-form subroutines and lowers
them to Python AST so that one interpreter analyses both languages.

 subroutine s(a, b, out)  ->  def s(a, b): ... return out
 x(i)                     ->  x[i - 1]
 integer division         ->  __idiv__(a, b)
"""
import ast
import re


class FErr(Exception):
    pass


TOK = re.compile(r"""
   (?P<num>(\d+\.\d*|\.\d+|\d+)([eEdD][+-]?\d+)?(_\w+)?(?![\w.]*\.(and|or|not|eq|ne|lt|le|gt|ge)\.)|\d+(?=\.(and|or|eq|ne|lt|le|gt|ge)\.))
 | (?P<dot>\.(and|or|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)
 | (?P<name>[A-Za-z_]\w*)
 | (?P<op>\*\*|==|/=|<=|>=|=>|::|//|[-+*/(),=<>:%])
 | (?P<str>'[^']*'|"[^"]*")
 | (?P<ws>\s+)
""", re.X | re.I)


def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        # number followed by .op.
        m = re.match(r'\d+(?=\.(and|or|not|eq|ne|lt|le|gt|ge)\.)', s[i:], re.I)
        if m:
            out.append(('num', m.group(0)))
            i += m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise FErr('cannot tokenise: ' + s[i:i + 30])
        k = m.lastgroup
        for g in ('num', 'dot', 'name', 'op', 'str', 'ws'):
            if m.group(g) is not None:
                k = g
                break
        if k != 'ws':
            out.append((k, m.group(0).lower() if k in ('dot', 'name') else m.group(0)))
        i = m.end()
    return out


def logical_lines(text):
    out = []
    cur, start = '', None
    for ln, raw in enumerate(text.split('\n'), 1):
        line = strip_comment(raw)
        if not line.strip():
            continue
        l = line.strip()
        if cur and l.startswith('&'):
            l = l[1:].lstrip()
        if start is None:
            start = ln
        if l.endswith('&'):
            cur += l[:-1] + ' '
            continue
        cur += l
        for part in split_semi(cur):
            if part.strip():
                out.append((start, part.strip()))
        cur, start = '', None
    return out


def split_semi(s):
    return s.split(';')


def strip_comment(l):
    q = None
    for i, c in enumerate(l):
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '!':
            return l[:i]
    return l


class Sub:
    def __init__(self, name, args, line):
        self.name, self.args, self.line = name, args, line
        self.decl = {}    # name -> dict(type, dims, intent, param)
        self.body = []
        self.func = False
        self.result = None
        self.file = None


class Parser:
    def __init__(self, text, path):
        self.lines = logical_lines(text)
        self.pos = 0
        self.path = path
        self.subs = {}
        self.includes = []

    def parse(self):
        while self.pos < len(self.lines):
            ln, l = self.lines[self.pos]
            low = l.lower()
            m = re.match(r'include\s+["\'](.+)["\']', l, re.I)
            if m:
                self.includes.append(m.group(1))
                self.pos += 1
                continue
            m = re.match(r'(?:pure\s+|elemental\s+|recursive\s+)*subroutine\s+(\w+)\s*(?:\((.*)\))?\s*$', l, re.I)
            if m:
                self.subroutine(ln, m.group(1).lower(), m.group(2) or '', False, None)
                continue
            m = re.match(r'(?:pure\s+|elemental\s+|recursive\s+)*(?:(integer|real\s*\([^)]*\)|real|double precision|logical)\s+)?function\s+(\w+)\s*\((.*?)\)\s*(?:result\s*\((\w+)\))?\s*$', l, re.I)
            if m:
                self.subroutine(ln, m.group(2).lower(), m.group(3) or '', True, (m.group(1), m.group(4)))
                continue
            if low.startswith(('module ', 'end module', 'contains', 'implicit', 'use ')) or low == 'end':
                self.pos += 1
                continue
            raise FErr('%s:%d: unexpected %r' % (self.path, ln, l))
        return self

    def subroutine(self, ln, name, args, isfn, extra):
        s = Sub(name, [a.strip().lower() for a in args.split(',') if a.strip()], ln)
        s.file = self.path
        if isfn:
            s.func = True
            s.result = (extra[1] or name).lower()
            if extra[0]:
                s.decl[s.result] = {'type': 'int' if extra[0].lower().startswith('int') else ('bool' if extra[0].lower().startswith('log') else 'real'), 'dims': None, 'intent': None, 'param': None}
        self.pos += 1
        self.cur = s
        s.body = self.block(('end subroutine', 'end function', 'end'))
        self.pos += 1
        self.subs[name] = s

    def at_end(self, low, ends):
        for e in ends:
            if e == 'end':
                if low == 'end':
                    return True
            elif low == e or low.startswith(e + ' ') or low.startswith(e + '(') or low.replace(' ', '') == e.replace(' ', '') \
                    or (e in ('end subroutine', 'end function', 'end if', 'end do', 'end select') and low.replace(' ', '').startswith(e.replace(' ', ''))):
                return True
        return False

    def block(self, ends):
        out = []
        while True:
            if self.pos >= len(self.lines):
                raise FErr('unexpected end of file')
            ln, l = self.lines[self.pos]
            low = re.sub(r'\s+', ' ', l.lower())
            if self.at_end(low, ends):
                return out
            st = self.stmt(ln, l, low)
            if st is not None:
                out.extend(st if isinstance(st, list) else [st])

    def stmt(self, ln, l, low):
        s = self.cur
        if low.startswith(('implicit', 'use ')) or low == 'continue':
            self.pos += 1
            return None
        m = re.match(r'(integer|real|double precision|logical|character)\b', low)
        if m and ('::' in l or re.match(r'(integer|real|logical|double precision)(\s*\([^)]*\))?\s+\w+', low)) and not re.match(r'(real|integer)\s*\([^)]*\)\s*=', low):
            self.decl(l)
            self.pos += 1
            return None
        m = re.match(r'else ?if\b|else\b', low)
        if m:
            raise FErr('stray else at %d' % ln)
        m = re.match(r'(\w+\s*:\s*)?if\s*\(', l, re.I)
        if m:
            cond, rest = self.paren(l[m.end() - 1:])
            if rest.strip().lower() == 'then':
                return self.ifblock(ln, cond)
            # one-line if
            sub = rest.strip()
            self.lines[self.pos] = (ln, sub)
            body = self.stmt(ln, sub, sub.lower())
            body = body if isinstance(body, list) else ([body] if body is not None else [ast.Pass()])
            return self.loc(ast.If(self.expr(cond), body, []), ln)
        m = re.match(r'do\s+while\s*\(', l, re.I)
        if m:
            cond, rest = self.paren(l[m.end() - 1:])
            self.pos += 1
            body = self.block(('end do',))
            self.pos += 1
            return self.loc(ast.While(self.expr(cond), body, []), ln)
        m = re.match(r'(?:\w+\s*:\s*)?do\s+(\w+)\s*=\s*(.+)$', l, re.I)
        if m:
            parts = self.split_commas(m.group(2))
            var = m.group(1).lower()
            self.pos += 1
            body = self.block(('end do',))
            self.pos += 1
            lo = self.expr(parts[0])
            hi = self.expr(parts[1])
            step = self.expr(parts[2]) if len(parts) > 2 else ast.Constant(1)
            neg = isinstance(step, ast.UnaryOp) and isinstance(step.op, ast.USub)
            hi1 = ast.BinOp(hi, ast.Sub() if neg else ast.Add(), ast.Constant(1))
            it = ast.Call(ast.Name('range', ast.Load()), [lo, hi1, step], [])
            return self.loc(ast.For(ast.Name(var, ast.Store()), it, body or [ast.Pass()], []), ln)
        if low == 'exit':
            self.pos += 1
            return self.loc(ast.Break(), ln)
        if low == 'cycle':
            self.pos += 1
            return self.loc(ast.Continue(), ln)
        if low == 'return':
            self.pos += 1
            return self.loc(ast.Return(ast.Name('__result__', ast.Load())), ln)
        m = re.match(r'call\s+(\w+)\s*(?:\((.*)\))?\s*$', l, re.I)
        if m:
            self.pos += 1
            args = self.split_commas(m.group(2) or '')
            return self.loc(ast.Expr(ast.Call(ast.Name('__fcall__', ast.Load()),
                                              [ast.Constant(m.group(1).lower())] + [self.expr(a) for a in args if a.strip()], [])), ln)
        m = re.match(r'select case\s*\(', low)
        if m:
            raise FErr('select case')
        if low.startswith(('write', 'print', 'stop', 'allocate', 'deallocate')):
            raise FErr('unsupported statement %r' % l)
        # assignment
        i = self.find_assign(l)
        if i is None:
            raise FErr('%s:%d: unsupported statement %r' % (self.path, ln, l))
        tgt = self.expr(l[:i].strip())
        val = self.expr(l[i + 1:].strip())
        self.pos += 1
        return self.assign(tgt, val, ln)

    def assign(self, tgt, val, ln):
        if isinstance(tgt, ast.Name):
            d = self.cur.decl.get(tgt.id)
            if d and d['dims']:
                t = ast.Subscript(ast.Name(tgt.id, ast.Load()), ast.Slice(None, None, None), ast.Store())
                return self.loc(ast.Assign([t], val), ln)
            if d and d['type'] == 'int' and self.typ(val) != 'int':
                val = ast.Call(ast.Name('int', ast.Load()), [val], [])
            return self.loc(ast.Assign([ast.Name(tgt.id, ast.Store())], val), ln)
        if isinstance(tgt, ast.Subscript):
            tgt.ctx = ast.Store()
            n = tgt.value.id
            d = self.cur.decl.get(n)
            if d and d['type'] == 'int' and self.typ(val) != 'int':
                val = ast.Call(ast.Name('int', ast.Load()), [val], [])
            return self.loc(ast.Assign([tgt], val), ln)
        raise FErr('assignment target')

    def loc(self, n, ln):
        n.lineno = ln
        n.col_offset = 0
        for x in ast.walk(n):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                x.lineno = ln
                x.col_offset = 0
        return n

    def ifblock(self, ln, cond):
        self.pos += 1
        ends = ('else if', 'elseif', 'else', 'end if')
        body = self.block(ends)
        l2, t2 = self.lines[self.pos]
        low = re.sub(r'\s+', ' ', t2.lower())
        m = re.match(r'else ?if\s*\(', t2, re.I)
        node = ast.If(self.expr(cond), body or [ast.Pass()], [])
        if m:
            c2, rest = self.paren(t2[m.end() - 1:])
            if rest.strip().lower() != 'then':
                raise FErr('else if without then')
            node.orelse = [self.ifblock(l2, c2)]
            return self.loc(node, ln)
        if low.startswith('else'):
            self.pos += 1
            node.orelse = self.block(('end if',)) or [ast.Pass()]
        self.pos += 1
        return self.loc(node, ln)

    def paren(self, s):
        d = 0
        for i, c in enumerate(s):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return s[1:i], s[i + 1:]
        raise FErr('unbalanced')

    def split_commas(self, s):
        out, d, cur = [], 0, ''
        for c in s:
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
            if c == ',' and d == 0:
                out.append(cur)
                cur = ''
            else:
                cur += c
        out.append(cur)
        return [x.strip() for x in out if x.strip()]

    def find_assign(self, l):
        d = 0
        for i, c in enumerate(l):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
            elif c == '=' and d == 0 and l[i + 1:i + 2] != '=' and l[i - 1] not in '=/<>':
                return i
        return None

    def decl(self, l):
        if '::' in l:
            spec, names = l.split('::', 1)
        else:
            m = re.match(r'(integer|real|logical|double precision)(\s*\([^)]*\))?', l, re.I)
            spec, names = l[:m.end()], l[m.end():]
        sp = self.split_commas(spec)
        ty = sp[0].lower()
        ty = 'int' if ty.startswith('integer') else 'bool' if ty.startswith('logical') else 'real'
        intent, param, dims0 = None, False, None
        single = spec.lower().replace(' ', '').startswith('real') and 'kind' not in spec.lower() and 'dp' not in spec.lower() and '8' not in spec
        for a in sp[1:]:
            al = a.lower().replace(' ', '')
            m = re.match(r'intent\((\w+)\)', al)
            if m:
                intent = m.group(1)
            elif al == 'parameter':
                param = True
            elif al.startswith('dimension'):
                dims0 = self.split_commas(self.paren(a[a.index('('):])[0])
        for nm in self.split_commas(names):
            init = None
            i = self.find_assign(nm)
            if i is not None:
                init = nm[i + 1:].strip()
                nm = nm[:i].strip()
            dims = dims0
            m = re.match(r'(\w+)\s*\(', nm)
            if m:
                dims = self.split_commas(self.paren(nm[nm.index('('):])[0])
                n = m.group(1).lower()
            else:
                n = nm.strip().lower()
            self.cur.decl[n] = {'type': ty, 'dims': dims, 'intent': intent,
                                'param': init if param else None, 'init': init, 'single': single}

    # ------------------------------------------------------------ expressions
    def expr(self, s):
        self.t = tokenize(s)
        self.i = 0
        saved = s
        e = self.p_or()
        if self.i != len(self.t):
            raise FErr('trailing tokens in %r' % saved)
        return e

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def nxt(self):
        x = self.peek()
        self.i += 1
        return x

    def p_or(self):
        a = self.p_and()
        while self.peek() == ('dot', '.or.'):
            self.nxt()
            a = ast.BoolOp(ast.Or(), [a, self.p_and()])
        return a

    def p_and(self):
        a = self.p_not()
        while self.peek() == ('dot', '.and.'):
            self.nxt()
            a = ast.BoolOp(ast.And(), [a, self.p_not()])
        return a

    def p_not(self):
        if self.peek() == ('dot', '.not.'):
            self.nxt()
            return ast.UnaryOp(ast.Not(), self.p_not())
        return self.p_cmp()

    CM = {'.eq.': ast.Eq, '==': ast.Eq, '.ne.': ast.NotEq, '/=': ast.NotEq, '.lt.': ast.Lt, '<': ast.Lt,
          '.le.': ast.LtE, '<=': ast.LtE, '.gt.': ast.Gt, '>': ast.Gt, '.ge.': ast.GtE, '>=': ast.GtE}

    def p_cmp(self):
        a = self.p_add()
        k, v = self.peek()
        if v in self.CM and k in ('dot', 'op'):
            self.nxt()
            return ast.Compare(a, [self.CM[v]()], [self.p_add()])
        return a

    def p_add(self):
        k, v = self.peek()
        if k == 'op' and v in '+-':
            self.nxt()
            a = self.p_mul()
            if v == '-':
                a = ast.UnaryOp(ast.USub(), a)
        else:
            a = self.p_mul()
        while self.peek()[0] == 'op' and self.peek()[1] in ('+', '-'):
            o = self.nxt()[1]
            a = ast.BinOp(a, ast.Add() if o == '+' else ast.Sub(), self.p_mul())
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.peek()[0] == 'op' and self.peek()[1] in ('*', '/'):
            o = self.nxt()[1]
            b = self.p_pow()
            if o == '*':
                a = ast.BinOp(a, ast.Mult(), b)
            elif self.typ(a) == 'int' and self.typ(b) == 'int':
                a = ast.Call(ast.Name('__idiv__', ast.Load()), [a, b], [])
            else:
                a = ast.BinOp(a, ast.Div(), b)
        return a

    def p_pow(self):
        a = self.p_atom()
        if self.peek() == ('op', '**'):
            self.nxt()
            if self.peek() == ('op', '-'):
                self.nxt()
                b = ast.UnaryOp(ast.USub(), self.p_pow())
            else:
                b = self.p_pow()
            return ast.BinOp(a, ast.Pow(), b)
        return a

    def p_atom(self):
        k, v = self.nxt()
        if k == 'op' and v == '(':
            e = self.p_or()
            if self.nxt()[1] != ')':
                raise FErr('paren')
            return e
        if k == 'op' and v in '+-':
            e = self.p_pow()
            return ast.UnaryOp(ast.USub(), e) if v == '-' else e
        if k == 'num':
            x = re.sub(r'_\w+$', '', v)
            if re.search(r'[.eEdD]', x):
                return ast.Constant(float(re.sub('[dD]', 'e', x)))
            return ast.Constant(int(x))
        if k == 'dot' and v in ('.true.', '.false.'):
            return ast.Constant(v == '.true.')
        if k == 'name':
            if self.peek() == ('op', '('):
                self.nxt()
                args = []
                while self.peek() != ('op', ')'):
                    if self.peek()[0] == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
                        # keyword argument (kind=...)
                        self.nxt()
                        self.nxt()
                        self.p_or()
                    elif self.peek() == ('op', ':'):
                        self.nxt()
                        args.append(ast.Slice(None, None, None))
                    else:
                        a = self.p_or()
                        if self.peek() == ('op', ':'):
                            raise FErr('array section')
                        args.append(a)
                    if self.peek() == ('op', ','):
                        self.nxt()
                self.nxt()
                d = self.cur.decl.get(v)
                if d is not None and d['dims']:
                    idx = [x if isinstance(x, ast.Slice) else ast.BinOp(x, ast.Sub(), ast.Constant(1)) for x in args]
                    sl = idx[0] if len(idx) == 1 else ast.Tuple(idx, ast.Load())
                    return ast.Subscript(ast.Name(v, ast.Load()), sl, ast.Load())
                return self.intrinsic(v, args)
            return ast.Name(v, ast.Load())
        raise FErr('bad token %r' % (v,))

    INTR_INT = {'int', 'floor', 'ceiling', 'nint', 'mod', 'size'}

    def intrinsic(self, f, args):
        N = lambda n: ast.Name(n, ast.Load())
        if f in ('real', 'dble', 'float'):
            e = ast.Call(N('__real__'), [args[0]], [])
            return e
        if f == 'kind':
            return ast.Constant(8)
        if f == 'int':
            return ast.Call(N('int'), [args[0]], [])
        if f in ('floor', 'ceiling', 'nint', 'sqrt', 'sin', 'cos', 'abs', 'acos', 'atan2', 'size', 'sum', 'any', 'all', 'count', 'maxval', 'minval', 'epsilon', 'merge', 'dot_product', 'sign', 'modulo'):
            return ast.Call(N('__f_%s__' % f), args, [])
        if f in ('min', 'max', 'amin1', 'amax1', 'dmin1', 'dmax1'):
            return ast.Call(N('min' if 'min' in f else 'max'), args, [])
        if f == 'mod':
            return ast.Call(N('__f_mod__'), args, [])
        return ast.Call(ast.Name('__ffunc__', ast.Load()), [ast.Constant(f)] + args, [])

    def typ(self, e):
        if isinstance(e, ast.Constant):
            return 'int' if isinstance(e.value, int) and not isinstance(e.value, bool) else 'real'
        if isinstance(e, ast.Name):
            d = self.cur.decl.get(e.id)
            if d is None:
                return 'int' if e.id[:1] in 'ijklmn' else 'real'
            return d['type']
        if isinstance(e, ast.Subscript):
            return self.cur.decl[e.value.id]['type']
        if isinstance(e, ast.BinOp):
            return 'int' if self.typ(e.left) == 'int' and self.typ(e.right) == 'int' else 'real'
        if isinstance(e, ast.UnaryOp):
            return self.typ(e.operand)
        if isinstance(e, ast.Call):
            n = e.func.id
            if n in ('int', '__idiv__', '__f_floor__', '__f_ceiling__', '__f_nint__', '__f_size__', '__f_count__'):
                return 'int'
            if n in ('min', 'max', '__f_mod__', '__f_abs__', '__f_modulo__', '__f_sum__'):
                return 'int' if all(self.typ(a) == 'int' for a in e.args) else 'real'
            return 'real'
        return 'real'


class Unit:
    """lowered subroutine"""

    def __init__(self, s, parser):
        self.sub = s
        self.name = s.name
        p = parser
        p.cur = s
        self.file = s.file
        self.ins = [a for a in s.args if s.decl.get(a, {}).get('intent') in ('in', 'inout', None)]
        self.outs = [a for a in s.args if s.decl.get(a, {}).get('intent') in ('out', 'inout')]
        self.inouts = [a for a in s.args if s.decl.get(a, {}).get('intent') == 'inout']
        if s.func:
            self.outs = [s.result]
        body = []
        for n, d in s.decl.items():
            if n in self.ins and n not in self.outs:
                continue
            if n in self.inouts:
                continue
            if d['param'] is not None or d.get('init') is not None:
                body.append(p.loc(ast.Assign([ast.Name(n, ast.Store())], p.expr(d['param'] or d['init'])), s.line))
            elif d['dims']:
                dims = [p.expr(x) for x in d['dims']]
                body.append(p.loc(ast.Assign([ast.Name(n, ast.Store())],
                                             ast.Call(ast.Name('__f_alloc__', ast.Load()),
                                                      [ast.Constant(d['type'])] + dims, [])), s.line))
        # declarations of parameters first
        body.sort(key=lambda a: 0 if not (isinstance(a.value, ast.Call) and getattr(a.value.func, 'id', '') == '__f_alloc__') else 1)
        body += s.body
        rets = [ast.Name(o, ast.Load()) for o in self.outs]
        rv = rets[0] if len(rets) == 1 else ast.Tuple(rets, ast.Load())
        ret = p.loc(ast.Return(rv), s.line)

        class R(ast.NodeTransformer):
            def visit_Return(self, node):
                if isinstance(node.value, ast.Name) and node.value.id == '__result__':
                    return ast.copy_location(ast.Return(rv), node)
                return node
        m = ast.Module([*body], [])
        m = R().visit(m)
        body = m.body + [ret]
        args = ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in self.ins], kwonlyargs=[], kw_defaults=[], defaults=[])
        self.node = ast.FunctionDef(name=s.name, args=args, body=body, decorator_list=[])
        self.node.lineno = s.line
        self.node.col_offset = 0
        ast.fix_missing_locations(self.node)
        # f2py: a dimension argument that is exactly the extent of an input array is optional
        self.optional = {}
        for a in self.ins:
            d = s.decl.get(a)
            if d and d['dims'] and d.get('intent') == 'in':
                for k, dim in enumerate(d['dims']):
                    dn = dim.strip().lower()
                    if dn in self.ins:
                        self.optional.setdefault(dn, (a, k))
        self.decl = s.decl
        self.dimast = {}
        for a in self.ins:
            d = s.decl.get(a)
            if d and d['dims']:
                try:
                    self.dimast[a] = [p.loc(ast.Expr(p.expr(x)), s.line).value for x in d['dims']]
                except Exception:
                    pass

    def dimexprs(self, n):
        return self.dimast.get(n, [None])


def load_units(path, seen=None):
    """parse a source file and its includes -> dict name -> Unit"""
    import os
    seen = seen if seen is not None else set()
    if path in seen:
        return {}
    seen.add(path)
    with open(path) as f:
        text = f.read()
    p = Parser(text, path).parse()
    units = {}
    for inc in p.includes:
        units.update(load_units(os.path.join(os.path.dirname(path), inc), seen))
    for n, s in p.subs.items():
        units[n] = Unit(s, p)
    return units


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        for n, u in load_units(f).items():
            print('#', n, u.ins, u.outs, u.optional)
            print(ast.unparse(u.node))
