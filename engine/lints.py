"""Whole-repository source lints (syntax tree, name resolution, a forward flow of possible bindings).

Each rule is a function (session, repo) -> dict(instances, bad, floor, visited):
`instances` are the constructs the rule examined, `bad` the ones that break it
as ((file, function, line), label, detail), `floor` a number of instances
confirmed by hand below which the rule does not count as having looked.
"""
import ast
import builtins
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ the package as name spaces
class Mod:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.pkg = path.endswith('__init__.py')
        self.names = {}       # name -> ('mod', dotted) | ('from', dotted, attr) | ('def', node) | ('class', node) | ('var',)
        self.star = []


class Package:
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.lib = json.load(open(os.path.join(HERE, 'libnames.json')))
        for p in sorted(glob.glob(os.path.join(repo, 'magpie', '**', '*.py'), recursive=True)):
            rel = os.path.relpath(p, repo)
            parts = rel[:-3].split(os.sep)
            if 'tests' in parts or 'test' in parts or parts[-1] == 'setup' or parts[-1].startswith('test_'):
                continue
            if parts[-1] == '__init__':
                parts = parts[:-1]
            try:
                tree = ast.parse(open(p).read(), p)
            except SyntaxError:
                continue
            m = Mod('.'.join(parts), p, rel, tree)
            self.mods[m.name] = m
        for m in self.mods.values():
            for st in walk_module(m.tree):
                self.bind(m, st, m.names, m.star)

    def absname(self, m, level, mod):
        if level == 0:
            return mod or ''
        parts = m.name.split('.')
        if not m.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([mod] if mod else []))

    def bind(self, m, st, names, star=None):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    names[a.asname] = ('mod', a.name)
                else:
                    names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            base = self.absname(m, st.level, st.module)
            for a in st.names:
                if a.name == '*':
                    if star is not None:
                        star.append(base)
                else:
                    names[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            names[st.name] = ('def', st, m)
        elif isinstance(st, ast.ClassDef):
            names[st.name] = ('class', st, m)
        else:
            for x in targets(st):
                names.setdefault(x, ('var',))

    # what does attribute `attr` of module `dotted` denote?
    def member(self, dotted, attr, seen=()):
        """('mod', d) | ('def', node, mod) | ('class', node, mod) | ('lib', module, name) | ('var',) | None (missing) | 'unknown'"""
        if (dotted, attr) in seen or len(seen) > 30:
            return 'unknown'
        m = self.mods.get(dotted)
        if m is not None:
            e = m.names.get(attr)
            if e is not None:
                return self.resolve_entry(e, seen + ((dotted, attr),))
            if dotted + '.' + attr in self.mods:
                return ('mod', dotted + '.' + attr)
            for s in m.star:
                r = self.member(s, attr, seen + ((dotted, attr),))
                if r is not None:
                    return r
            if m.star:
                return 'unknown'
            if os.path.exists(os.path.join(self.repo, *dotted.split('.'), attr + '.f90')) or self.ext(dotted, attr):
                return 'unknown'
            return None
        if dotted in self.lib:
            if dotted + '.' + attr in self.lib:
                return ('mod', dotted + '.' + attr)
            if attr in self.lib[dotted]:
                return ('lib', dotted, attr)
            if attr.startswith('__'):
                return 'unknown'
            return None
        return 'unknown'

    def ext(self, dotted, attr):
        """compiled extension modules: name given in setup.py"""
        s = os.path.join(self.repo, 'setup.py')
        try:
            return repr(dotted + '.' + attr)[1:-1] in open(s).read()
        except OSError:
            return True

    def resolve_entry(self, e, seen=()):
        if e[0] == 'mod':
            return ('mod', e[1])
        if e[0] == 'from':
            if e[1] in self.mods and e[1] + '.' + e[2] in self.mods and self.mods[e[1]].names.get(e[2], e) in (e, ('from', e[1], e[2])):
                return ('mod', e[1] + '.' + e[2])
            if e[1] + '.' + e[2] in self.lib and e[1] not in self.mods:
                return ('mod', e[1] + '.' + e[2])
            return self.member(e[1], e[2], seen)
        return e


def walk_module(tree):
    """statements executed when the module is imported (not inside functions or classes)"""
    st = list(tree.body)
    while st:
        x = st.pop(0)
        yield x
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                st.extend(getattr(x, f, []) or [])
        for h in getattr(x, 'handlers', []) or []:
            st.extend(h.body)


def targets(st):
    """names bound by one statement (not by its nested statements)"""
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    if isinstance(st, ast.Assign):
        for t in st.targets:
            tgt(t)
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
        tgt(st.target)
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        tgt(st.target)
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            if i.optional_vars is not None:
                tgt(i.optional_vars)
    elif isinstance(st, ast.Import):
        out += [a.asname or a.name.split('.')[0] for a in st.names]
    elif isinstance(st, ast.ImportFrom):
        out += [a.asname or a.name for a in st.names]
    elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.append(st.name)
    elif isinstance(st, ast.Try):
        out += [h.name for h in st.handlers if h.name]
    elif isinstance(st, ast.Match):
        for c in st.cases:
            for x in ast.walk(c.pattern):
                n = getattr(x, 'name', None) or getattr(x, 'rest', None)
                if n:
                    out.append(n)
    for x in exprs_of(st):
        for y in ast.walk(x):
            if isinstance(y, ast.NamedExpr):
                tgt(y.target)
    return out


def exprs_of(st):
    """expressions evaluated by a statement itself (not by nested statements)"""
    out = []
    for f, v in ast.iter_fields(st):
        if f in ('body', 'orelse', 'finalbody', 'handlers', 'cases') and isinstance(v, list):
            continue
        if isinstance(v, ast.expr):
            out.append(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, ast.expr):
                    out.append(x)
                elif isinstance(x, ast.withitem):
                    out.append(x.context_expr)
    return out


# ------------------------------------------------------------------ scopes
class Scope:
    def __init__(self, node, parent, mod, cls, qual):
        self.node, self.parent, self.mod, self.cls, self.qual = node, parent, mod, cls, qual
        self.names = {}
        self.globals = set()


def scopes(pk, m):
    """function scopes of a module"""
    out = []

    def visit(body, parent, cls, qual):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s = Scope(st, parent, m, cls, qual + '.' + st.name)
                a = st.args
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    s.names[x.arg] = ('var',)
                stack = list(st.body)
                while stack:
                    y = stack.pop()
                    if isinstance(y, (ast.Global, ast.Nonlocal)):
                        s.globals |= set(y.names)
                    pk.bind(m, y, s.names)
                    for n in targets(y):
                        s.names.setdefault(n, ('var',))
                    if not isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        for f in ('body', 'orelse', 'finalbody'):
                            stack.extend(getattr(y, f, []) or [])
                        for h in getattr(y, 'handlers', []) or []:
                            stack.extend(h.body)
                        for c in getattr(y, 'cases', []) or []:
                            stack.extend(c.body)
                for g in s.globals:
                    s.names.pop(g, None)
                out.append(s)
                visit(st.body, s, None, s.qual)
            elif isinstance(st, ast.ClassDef):
                visit(st.body, parent, st, qual + '.' + st.name)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    visit(getattr(st, f, []) or [], parent, cls, qual)
                for h in getattr(st, 'handlers', []) or []:
                    visit(h.body, parent, cls, qual)
    visit(m.tree.body, None, None, m.name)
    return out


def lookup(pk, s, name):
    """entry of a name in a function scope, then outwards"""
    while s is not None:
        if name in s.names:
            return s.names[name]
        s = s.parent
    return None


def own_nodes(fn):
    """nodes of a function without nested functions/classes/lambdas bodies"""
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.extend(x.decorator_list)
            if not isinstance(x, ast.ClassDef):
                st.extend(x.args.defaults + [d for d in x.args.kw_defaults if d is not None])
            continue
        st.extend(ast.iter_child_nodes(x))


def dotted(pk, m, s, e):
    """resolve an expression a.b.c to an entry: ('mod', d), ('lib', d, n), ('def', …), … or None (missing) or 'unknown';
    returns (entry, text, failing attribute)"""
    chain = []
    while isinstance(e, ast.Attribute):
        chain.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return 'unknown', '', ''
    ent = lookup(pk, s, e.id) if s is not None else None
    if ent is None:
        if s is None or not any(e.id in q.names for q in chain_scopes(s)):
            ent = m.names.get(e.id)
            if ent is None:
                for st in m.star:
                    r = pk.member(st, e.id)
                    if r not in (None, 'unknown'):
                        ent = r
        if ent is None:
            if hasattr(builtins, e.id) and not chain:
                return ('builtin', e.id), e.id, ''
            return 'unknown', e.id, ''
    cur = pk.resolve_entry(ent)
    text = e.id
    for a in reversed(chain):
        text += '.' + a
        if cur in (None, 'unknown'):
            return cur, text, a
        if cur[0] == 'mod':
            nxt = pk.member(cur[1], a)
            if nxt is None:
                return None, text, '%s.%s' % (cur[1], a)
            cur = nxt
        elif cur[0] == 'lib':
            # attribute of a library object (np.random.mtrand..., ufunc methods): give its path
            cur = ('lib', cur[1], cur[2] + '.' + a)
        elif cur[0] == 'builtin':
            return 'unknown', text, a
        else:
            return 'unknown', text, a
    return cur, text, ''


def chain_scopes(s):
    while s is not None:
        yield s
        s = s.parent


def each_function(pk):
    for m in pk.mods.values():
        for s in scopes(pk, m):
            yield m, s


def where(m, s, n):
    return (m.rel, s.qual if s is not None else m.name, getattr(n, 'lineno', 0))


# ------------------------------------------------------------------ P02: everything resolves
def lint_names(sess, repo):
    """every name read in a function is bound: in the function, around it, in the module or built in"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m, s in each_function(pk):
        vis.append(s.qual)
        if m.star:
            continue
        inner = set()
        for x in ast.walk(s.node):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    inner |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            elif isinstance(x, ast.Lambda):
                inner |= {a.arg for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs} | {a.arg for a in (x.args.vararg, x.args.kwarg) if a}
        for x in own_nodes(s.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                n += 1
                if x.id in inner or lookup(pk, s, x.id) is not None or x.id in m.names or hasattr(builtins, x.id) or x.id in ('__file__', '__name__', '__class__'):
                    continue
                bad.append((where(m, s, x), 'undefined name', 'the name %r is bound nowhere' % x.id))
    return dict(instances=n, bad=bad, floor=2000, visited=vis)


def lint_unbound(sess, repo):
    """no local variable is read where no assignment to it can have run"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m, s in each_function(pk):
        vis.append(s.qual)
        loc = {k for k in s.names}
        args = s.node.args
        start = {x.arg for x in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]}
        cnt = [0]

        def reads(e, have):
            comp = set()
            for x in ast.walk(e):
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in x.generators:
                        comp |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                elif isinstance(x, ast.Lambda):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            comp.add(y.id)      # evaluated later
                elif isinstance(x, ast.NamedExpr):
                    comp |= {x.target.id}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc and x.id not in comp:
                    cnt[0] += 1
                    if have is not None and x.id not in have:
                        bad.append((where(m, s, x), 'variable read before it is set', 'no assignment to %r can have run here' % x.id))

        def allset(body):
            r = set()
            for st in body:
                for y in ast.walk(st):
                    if isinstance(y, ast.stmt):
                        r |= set(targets(y))
                    elif isinstance(y, ast.ExceptHandler) and y.name:
                        r.add(y.name)
            return r

        def join(a, b):
            if a is None:
                return b
            if b is None:
                return a
            return a | b

        def flow(body, have):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if have is not None:
                        have = have | {st.name}
                    continue
                if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                    reads(ast.copy_location(ast.Name(st.target.id, ast.Load()), st), have)
                for e in exprs_of(st):
                    reads(e, have)
                if isinstance(st, ast.If):
                    have = join(flow(st.body, have), flow(st.orelse, have))
                elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                    h = have
                    if h is not None:
                        h = h | set(targets(st)) | allset(st.body)
                    flow(st.body, h)
                    if have is not None:
                        have = have | set(targets(st)) | allset(st.body)
                    if st.orelse:
                        have = join(have, flow(st.orelse, have))
                    if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value is True and not any(isinstance(y, ast.Break) for y in ast.walk(st)):
                        have = None
                elif isinstance(st, (ast.With, ast.AsyncWith)):
                    if have is not None:
                        have = have | set(targets(st))
                    have = flow(st.body, have)
                elif isinstance(st, ast.Try):
                    a = flow(st.body, have)
                    h = None if have is None else have | allset(st.body)
                    r = flow(st.orelse, a) if st.orelse else a
                    for x in st.handlers:
                        hx = None if h is None else h | ({x.name} if x.name else set())
                        r = join(r, flow(x.body, hx))
                    if st.finalbody:
                        f0 = None if have is None else have | allset(st.body) | allset([y for x in st.handlers for y in x.body]) | allset(st.orelse)
                        dead = r is None
                        r = flow(st.finalbody, f0)
                        if dead:
                            r = None
                    have = r
                elif isinstance(st, ast.Match):
                    r = have
                    for c in st.cases:
                        hc = None if have is None else have | set(targets(st))
                        r = join(r, flow(c.body, hc))
                    have = r
                elif isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    have = None
                elif have is not None:
                    have = have | set(targets(st))
            return have
        flow(s.node.body, set(start) | s.globals)
        n += cnt[0]
    return dict(instances=n, bad=bad, floor=1500, visited=vis)


def lint_members(sess, repo):
    """every attribute of an imported module exists: package modules against their own name space, libraries against a table of their names"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m in pk.mods.values():
        for st in ast.walk(m.tree):
            if isinstance(st, ast.ImportFrom):
                base = pk.absname(m, st.level, st.module)
                for a in st.names:
                    if a.name == '*':
                        continue
                    n += 1
                    if base in pk.mods and base == m.name and a.name in m.names:
                        # "from . import x" inside the package itself
                        if base + '.' + a.name in pk.mods or pk.ext(base, a.name) or os.path.isdir(os.path.join(pk.repo, *base.split('.'), a.name)):
                            continue
                        bad.append(((m.rel, m.name, st.lineno), 'import', 'no %s in %s' % (a.name, base)))
                        continue
                    if pk.member(base, a.name) is None:
                        bad.append(((m.rel, m.name, st.lineno), 'import', 'no %s in %s' % (a.name, base)))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.name.split('.')[0] == 'magpie':
                        n += 1
                        if a.name not in pk.mods:
                            bad.append(((m.rel, m.name, st.lineno), 'import', 'no module ' + a.name))
        done = set()
        for x, s in nodes_with_scope(pk, m):
            if isinstance(x, ast.Attribute) and id(x) not in done:
                y = x
                while isinstance(y, ast.Attribute):
                    done.add(id(y))
                    y = y.value
                ent, text, att = dotted(pk, m, s, x)
                if ent == 'unknown' and not text:
                    continue
                n += 1
                if ent is None:
                    bad.append((where(m, s, x), 'attribute', '%s: there is no %s' % (text, att)))
        vis.append(m.name)
    return dict(instances=n, bad=bad, floor=900, visited=vis)


def nodes_with_scope(pk, m):
    fs = scopes(pk, m)
    inside = set()
    for s in fs:
        for x in own_nodes(s.node):
            inside.add(id(x))
            yield x, s
    for x in ast.walk(m.tree):
        if id(x) not in inside:
            yield x, None


def sig_of(fn, skip):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = len(pos) - len(a.defaults)
    kwonly = {x.arg: d is None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    return pos[skip:], max(0, req - skip), kwonly, a.vararg is not None, a.kwarg is not None


def check_call(c, pos, req, kwonly, var, kws):
    if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
        return None
    if len(c.args) > len(pos) and not var:
        return '%d arguments by position, at most %d are taken' % (len(c.args), len(pos))
    given = set(pos[:len(c.args)])
    for k in c.keywords:
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and not kws:
            return 'there is no argument %s' % k.arg
        given.add(k.arg)
    miss = [p for p in pos[:req] if p not in given] + [k for k, r in kwonly.items() if r and k not in given]
    if miss:
        return 'argument %s is missing' % ', '.join(miss)
    return None


def class_members(pk, m, cls, seen=()):
    """(methods, attributes ever set, open) of a class with its bases"""
    meth, attrs, opn = {}, set(), False
    for b in cls.bases:
        e, _, _ = dotted(pk, m, None, b)
        if isinstance(e, tuple) and e[0] == 'class' and e[1] is not cls and len(seen) < 10:
            a, b2, o = class_members(pk, e[2], e[1], seen + (cls,))
            meth.update(a)
            attrs |= b2
            opn = opn or o
        elif not (isinstance(b, ast.Name) and b.id == 'object'):
            opn = True
    for st in cls.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            meth[st.name] = st
            if st.name in ('__getattr__', '__getattribute__', '__setattr__'):
                opn = True
        attrs |= set(targets(st))
    if cls.decorator_list or cls.keywords:
        opn = True
    for x in ast.walk(cls):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            attrs.add(x.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'vars'):
            opn = True
        elif isinstance(x, ast.Attribute) and x.attr == '__dict__':
            opn = True
    return meth, attrs, opn


def lint_calls(sess, repo):
    """calls of package functions, classes and methods and of library functions fit the signature of the callee"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m in pk.mods.values():
        vis.append(m.name)
        for x, s in nodes_with_scope(pk, m):
            if not isinstance(x, ast.Call):
                continue
            f = x.func
            r = None
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and s is not None:
                q = s
                while q is not None and q.cls is None:
                    q = q.parent
                if q is None or q.names.get('self') != ('var',):
                    continue
                meth, attrs, opn = class_members(pk, m, q.cls)
                fn = meth.get(f.attr)
                if fn is None or f.attr in attrs and f.attr not in meth:
                    continue
                if fn.decorator_list and not all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
                    continue
                stat = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
                n += 1
                r = check_call(x, *sig_of(fn, 0 if stat else 1))
                nm = 'self.' + f.attr
            else:
                ent, nm, _ = dotted(pk, m, s, f)
                if not isinstance(ent, tuple):
                    continue
                if ent[0] == 'def':
                    if ent[1].decorator_list:
                        continue
                    n += 1
                    r = check_call(x, *sig_of(ent[1], 0))
                elif ent[0] == 'class':
                    meth, attrs, opn = class_members(pk, ent[2], ent[1])
                    if opn and '__init__' not in meth:
                        continue
                    n += 1
                    if '__init__' in meth:
                        r = check_call(x, *sig_of(meth['__init__'], 1))
                    elif x.args or x.keywords:
                        r = 'the class takes no arguments'
                elif ent[0] == 'lib':
                    sg = pk.lib.get(ent[1], {}).get(ent[2])
                    if not sg:
                        continue
                    n += 1
                    pos = [p[0] for p in sg if p[1] in 'pb']
                    req = len([p for p in sg if p[1] in 'pb' and p[2]])
                    kwonly = {p[0]: bool(p[2]) for p in sg if p[1] == 'k'}
                    r = check_call(x, pos, req, kwonly, any(p[1] == '*' for p in sg), any(p[1] == '**' for p in sg))
            if r is not None:
                bad.append((where(m, s, x), 'call', '%s: %s' % (nm, r)))
    return dict(instances=n, bad=bad, floor=500, visited=vis)


def lint_self(sess, repo):
    """every attribute a method reads from its object is set somewhere in the class"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m in pk.mods.values():
        for cls in ast.walk(m.tree):
            if not isinstance(cls, ast.ClassDef):
                continue
            meth, attrs, opn = class_members(pk, m, cls)
            vis.append(m.name + '.' + cls.name)
            if opn:
                continue
            for fn in cls.body:
                if not isinstance(fn, ast.FunctionDef) or not fn.args.args or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
                    continue
                me = fn.args.args[0].arg
                guarded = {x.args[1].value for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr')
                           and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                        n += 1
                        if x.attr in meth or x.attr in attrs or x.attr in guarded or x.attr.startswith('__'):
                            continue
                        bad.append(((m.rel, m.name + '.' + cls.name + '.' + fn.name, x.lineno), 'attribute of the object', '%s.%s is set nowhere in the class' % (me, x.attr)))
    return dict(instances=n, bad=bad, floor=500, visited=vis)


def lint_values(sess, repo):
    """an attribute read from a value of unknown type is an attribute of something: of a type of the libraries, or set or defined in the package"""
    pk = Package(repo)
    known = set(pk.lib['*values*'])
    for k, v in pk.lib.items():
        if k != '*values*':
            known |= set(v)
    for m in pk.mods.values():
        known |= set(m.name.split('.'))
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                known.add(x.name)
                if isinstance(x, ast.ClassDef):
                    for st in x.body:
                        known |= set(targets(st))
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                known.add(x.attr)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'hasattr', 'getattr') and len(x.args) > 1:
                known.add(x.args[1].value if isinstance(x.args[1], ast.Constant) else '')
            elif isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and ast.unparse(x.func).split('.')[-1] in ('namedtuple', 'SimpleNamespace', 'make_dataclass'):
                known |= {w for c in ast.walk(x) if isinstance(c, ast.Constant) and isinstance(c.value, str) for w in c.value.replace(',', ' ').split()} | {k.arg for k in x.keywords}
        known |= set(m.names)
    n, bad, vis = 0, [], []
    for m in pk.mods.values():
        if any(isinstance(x, ast.FunctionDef) and x.name == '__getattr__' for x in ast.walk(m.tree)):
            continue
        tested = {id(y) for x in ast.walk(m.tree) if isinstance(x, ast.Try) for st in x.body for y in ast.walk(st)
                  if any(h.type is None or 'AttributeError' in ast.unparse(h.type) or ast.unparse(h.type) in ('Exception', 'BaseException') for h in x.handlers)}
        for x, s in nodes_with_scope(pk, m):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and id(x) not in tested:
                n += 1
                if x.attr not in known and not x.attr.startswith('__'):
                    bad.append((where(m, s, x), 'attribute of a value', '.%s: neither the libraries nor the package have anything with it' % x.attr))
        vis.append(m.name)
    return dict(instances=n, bad=bad, floor=900, visited=vis)


def returns(fn):
    """lengths of what the function returns, or None if that is not written out"""
    out = set()
    for x in own_nodes(fn):
        if isinstance(x, ast.Return):
            if isinstance(x.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in x.value.elts):
                out.add(len(x.value.elts))
            else:
                return None
        elif isinstance(x, (ast.Yield, ast.YieldFrom)):
            return None
    return out or None


def callee(pk, m, s, f):
    """the package function a call reaches, if that is certain"""
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and s is not None:
        q = s
        while q is not None and q.cls is None:
            q = q.parent
        if q is None:
            return None
        meth, attrs, opn = class_members(pk, m, q.cls)
        return meth.get(f.attr) if f.attr not in attrs else None
    ent, _, _ = dotted(pk, m, s, f)
    if isinstance(ent, tuple) and ent[0] == 'def':
        return ent[1]
    return None


def lint_unpack(sess, repo):
    """what a package function returns is unpacked into as many names as it has parts"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m in pk.mods.values():
        vis.append(m.name)
        for x, s in nodes_with_scope(pk, m):
            if not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Call)):
                continue
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(y, ast.Starred) for y in t.elts):
                    fn = callee(pk, m, s, x.value.func)
                    if fn is None or fn.decorator_list:
                        continue
                    r = returns(fn)
                    if r is None:
                        continue
                    n += 1
                    if len(t.elts) not in r:
                        bad.append((where(m, s, x), 'unpacking', '%s returns %s values, %d names' % (fn.name, '/'.join(map(str, sorted(r))), len(t.elts))))
    return dict(instances=n, bad=bad, floor=60, visited=vis)


# ------------------------------------------------------------------ P23 / P27: sources of randomness and traces
RNG_STATE = {'seed', 'set_state', 'default_rng', 'RandomState', 'Generator', 'PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64', 'SeedSequence', 'BitGenerator', 'set_bit_generator', 'mtrand', 'bit_generator', 'get_state', 'get_bit_generator'}
RNG_MODS = {'random', 'secrets', 'uuid'}


def references(pk):
    """(module, scope, node, dotted library path) of every reference to a library name"""
    for m in pk.mods.values():
        done = set()
        for x, s in nodes_with_scope(pk, m):
            if isinstance(x, (ast.Attribute, ast.Name)) and id(x) not in done and isinstance(getattr(x, 'ctx', None), (ast.Load, ast.Store)):
                y = x
                while isinstance(y, ast.Attribute):
                    done.add(id(y))
                    y = y.value
                done.add(id(y))
                p = libpath(pk, m, s, x)
                if p:
                    yield m, s, x, p
    # plain names that stand for library members are covered by libpath through their import


def libpath(pk, m, s, e):
    """'numpy.random.seed' for an expression that names a member of a module outside the package"""
    chain = []
    while isinstance(e, ast.Attribute):
        chain.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    ent = lookup(pk, s, e.id) if s is not None else None
    if ent is None:
        ent = m.names.get(e.id)
    if ent is None:
        return e.id if hasattr(builtins, e.id) and not chain else None
    for _ in range(10):
        if ent[0] == 'from' and ent[1] in pk.mods:
            t = pk.mods[ent[1]].names.get(ent[2])
            if t is None:
                return None
            ent = t
        else:
            break
    if ent[0] == 'mod' and ent[1].split('.')[0] != 'magpie':
        return '.'.join([ent[1]] + chain[::-1])
    if ent[0] == 'from' and ent[1].split('.')[0] != 'magpie':
        return '.'.join([ent[1], ent[2]] + chain[::-1])
    return None


def lint_rng(sess, repo):
    """no second source of randomness and no seeding, saving or replacing of the global stream anywhere"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m, s, x, p in references(pk):
        n += 1
        q = p.split('.')
        if q[0] == 'numpy' and len(q) > 2 and q[1] == 'random' and (q[2] in RNG_STATE or len(q) > 3):
            bad.append((where(m, s, x), 'source of randomness', p))
        elif q[0] in RNG_MODS or p in ('os.urandom', 'os.getrandom', 'time.time', 'time.time_ns', 'time.perf_counter') and False:
            bad.append((where(m, s, x), 'source of randomness', p))
        elif p in ('os.urandom', 'os.getrandom') or q[:2] == ['scipy', 'stats'] and q[-1] in ('rvs',) or p.startswith('healpy.') and q[-1] in ('synfast', 'synalm'):
            bad.append((where(m, s, x), 'source of randomness', p))
    return dict(instances=n, bad=bad, floor=900, visited=sorted(pk.mods))


TRACE_CALLS = {'open', 'exec', 'eval', 'input', 'compile', '__import__'}
TRACE_NP = {'save', 'savez', 'savez_compressed', 'savetxt', 'seterr', 'seterrcall', 'setbufsize', 'set_printoptions', 'memmap', 'set_string_function'}
TRACE_HP = {'write_map', 'write_alm', 'write_cl', 'disable_warnings'}
TRACE_MODS = {'os', 'shutil', 'subprocess', 'socket', 'tempfile', 'pickle', 'shelve', 'sqlite3', 'multiprocessing', 'threading', 'ctypes', 'urllib', 'http', 'logging'}
OS_OK = {'path', 'sep', 'linesep', 'pathsep', 'name', 'curdir', 'pardir', 'fspath', 'devnull'}


def lint_trace(sess, repo):
    """no file, process, network or global setting is touched anywhere; no function assigns a variable of a module"""
    pk = Package(repo)
    n, bad, vis = 0, [], []
    for m, s, x, p in references(pk):
        n += 1
        q = p.split('.')
        if s is None and q[0] not in ('open', 'exec', 'numpy', 'warnings', 'sys'):
            continue
        t = None
        if len(q) == 1 and p in TRACE_CALLS:
            t = p
        elif q[0] == 'numpy' and len(q) == 2 and q[1] in TRACE_NP:
            t = p
        elif q[0] == 'healpy' and q[-1] in TRACE_HP:
            t = p
        elif q[0] == 'os' and len(q) > 1 and q[1] not in OS_OK:
            t = p
        elif q[0] in TRACE_MODS and q[0] != 'os' and len(q) > 1:
            t = p
        elif q[0] == 'warnings' and q[-1] in ('filterwarnings', 'simplefilter', 'resetwarnings'):
            t = p
        elif q[0] == 'sys' and q[-1] in ('setrecursionlimit', 'settrace', 'exit', 'setprofile', 'path', 'modules') and len(q) == 2:
            t = p
        elif q[0] == 'matplotlib' and ('rcParams' in q or q[-1] in ('savefig', 'rc', 'rcdefaults', 'use', 'rc_file', 'ion', 'ioff', 'switch_backend', 'imsave', 'xkcd') or len(q) > 2 and q[-2] == 'style'):
            t = p
        if t and inside_with(m, x) and q[-1] in ('simplefilter', 'filterwarnings'):
            t = None
        if t:
            bad.append((where(m, s, x), 'trace', t))
        elif isinstance(x.ctx, ast.Store) and isinstance(x, ast.Attribute):
            bad.append((where(m, s, x), 'trace', 'assignment to %s' % p))
    for m, s in each_function(pk):
        vis.append(s.qual)
        n += 1
        for g in s.globals:
            if any(isinstance(y, ast.Global) and g in y.names for y in own_nodes(s.node)):
                for y in own_nodes(s.node):
                    if isinstance(y, ast.stmt) and g in targets(y):
                        bad.append((where(m, s, y), 'trace', 'assignment to the module variable %s' % g))
    return dict(instances=n, bad=bad, floor=900, visited=vis)


def inside_with(m, x):
    """inside `with warnings.catch_warnings()`"""
    for w in ast.walk(m.tree):
        if isinstance(w, ast.With) and any('catch_warnings' in ast.unparse(i.context_expr) for i in w.items):
            if any(y is x for y in ast.walk(w)):
                return True
    return False


FOR = {
    'P02': [('names', lint_names), ('unbound', lint_unbound), ('members', lint_members), ('calls', lint_calls), ('self', lint_self), ('values', lint_values), ('unpack', lint_unpack)],
    'P23': [('rng-sources', lint_rng)],
    'P27': [('traces', lint_trace)],
}
