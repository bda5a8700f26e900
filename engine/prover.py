"""Drivers, proof obligations and their three-valued decision."""
import ast
import math
import os
import time
import random
import itertools
from fractions import Fraction as F
from . import terms as tm
from . import interval as iv
from . import ball
from .terms import T, num, TRUE, FALSE, ZERO, ONE, band, bnot, bor, ite, sub, add, mul
from .values import *
from .interp import Interp, Frame, State, Obl, PathEnd
from .nplib import n2, prod, UNDEFT

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


class Goal:
    __slots__ = ('label', 'guard', 'kind', 'a', 'b', 'where', 'kindtag')

    def __init__(self, label, guard, kind, a, b, where, kindtag='spec'):
        self.label, self.guard, self.kind, self.a, self.b, self.where, self.kindtag = label, guard, kind, a, b, where, kindtag


class Result:
    def __init__(self, driver, label, status, where, detail='', tag='spec', n=1):
        self.driver, self.label, self.status, self.where, self.detail, self.tag, self.n = driver, label, status, where, detail, tag, n


# ------------------------------------------------------------------- boxes
def dep_syms(ts):
    out = set()
    for t in ts:
        out |= tm.free_syms(t)
    return out


def hints(g):
    """ranges of single draws and symbols read off the conjuncts of a guard"""
    out = {}
    for c in (g.args if g.op == 'and' else (g,)):
        v = True
        if c.op == 'not':
            c, v = c.args[0], False
        if c.op != 'lt0':
            continue
        p = c.args[0]
        if p.op in ('draw', 'sym'):
            x, k, b = p, 1, 0
        elif p.op == 'poly':
            x = k = None
            b = 0
            for m, q in p.args:
                if not m:
                    b = q
                elif x is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('draw', 'sym'):
                    x, k = m[0][0], q
                else:
                    x = None
                    break
            if x is None:
                continue
        else:
            continue
        t = -float(b) / float(k)
        lo, hi = out.get(x, (-math.inf, math.inf))
        if (k > 0) == v:
            hi = min(hi, t)
        else:
            lo = max(lo, t)
        out[x] = (lo, hi)
    return out


class Boxes:
    """small boxes of the input space (for separation of terms)"""

    def __init__(self, syms, seed, hint=None):
        self.hint = hint or {}
        self.syms = sorted(syms, key=lambda s: s.id)
        self.rng = random.Random(seed)
        self.k = 0

    def make(self, k):
        rng = self.rng
        env = {}
        todo = list(self.syms)
        name = 'box%d' % k
        mode = k % 4
        for _ in range(len(todo) + 2):
            rest = []
            for s in todo:
                lo = hi = None
                try:
                    if s.args[2] is not None:
                        if not all(x.args[0] in env for x in tm.free_syms(s.args[2])):
                            rest.append(s)
                            continue
                        lo = iv.Env(env, None).val(s.args[2])
                        lo = lo[1]
                    if s.args[3] is not None:
                        if not all(x.args[0] in env for x in tm.free_syms(s.args[3])):
                            rest.append(s)
                            continue
                        hi = iv.Env(env, None).val(s.args[3])
                        hi = hi[0]
                except iv.Undecided:
                    return None
                if s.args[1] == 'int':
                    a = int(round(lo)) if lo is not None else (-3 if hi is None else int(hi) - 4)
                    b = int(round(hi)) if hi is not None else a + 4
                    if b < a:
                        return None
                    v = float(rng.randint(a, b))
                    env[s.args[0]] = (v, v)
                    continue
                if lo is None and hi is None:
                    lo2, hi2 = -3.0, 3.0
                elif lo is None:
                    lo2, hi2 = hi - 4.0, hi
                elif hi is None:
                    lo2, hi2 = lo, lo + 4.0
                else:
                    lo2, hi2 = lo, hi
                if s in self.hint:
                    lo2, hi2 = max(lo2, self.hint[s][0]), min(hi2, self.hint[s][1])
                if hi2 < lo2:
                    return None
                r = rng.random()
                if mode == 3 and r < 0.25 and lo is not None and s.args[2].op == 'num':
                    v = float(lo)
                    env[s.args[0]] = (v, v)
                    continue
                if mode == 3 and r > 0.8 and hi is not None and s.args[3].op == 'num':
                    v = float(hi)
                    env[s.args[0]] = (v, v)
                    continue
                if mode == 2 and r < 0.3 and lo2 <= 0 <= hi2:
                    env[s.args[0]] = (0.0, 0.0)
                    continue
                # strictly interior small box
                u = 0.02 + 0.96 * rng.random()
                v = lo2 + u * (hi2 - lo2)
                w = min(1e-9 * (1 + abs(v)), (hi2 - lo2) * 0.005)
                env[s.args[0]] = (v - w, v + w)
            todo = rest
            if not todo:
                return iv.Env(env, lambda n, ix: iv.INFI, name, self.hint)
        return None


def cond_val(e, c):
    try:
        return e.cond(c)
    except (iv.Undecided, OverflowError, ZeroDivisionError, ValueError):
        return None


def term_val(e, t):
    try:
        if tm.is_bool(t):
            c = e.cond(t)
            return c
        return e.val(t)
    except (iv.Undecided, OverflowError, ZeroDivisionError, ValueError):
        return None


def fmtbox(e):
    return ', '.join('%s=%.6g' % (k, (v[0] + v[1]) / 2) for k, v in list(e.syms.items())[:14])


class Decider:
    def __init__(self, thorough=False, seed=1):
        self.thorough = thorough
        self.seed = seed
        self.nboxes = 0

    def facts(self, g):
        if g is TRUE:
            return []
        if g.op == 'and':
            return [(c, True) if c.op != 'not' or c.args[0].op == 'and' else (c.args[0], False) for c in g.args]
        return [(g, True)] if g.op != 'not' or g.args[0].op == 'and' else [(g.args[0], False)]

    def under(self, t, facts):
        for c, v in facts:
            t = tm.assume(t, c, v)
        return t

    def refute(self, goal, n, k0=0):
        """a box satisfying the guard on which the goal definitely fails"""
        ts = [goal.guard, goal.a] + ([goal.b] if goal.b is not None else [])
        bx = Boxes(dep_syms(ts), '%s/%s' % (self.seed, k0), hints(goal.guard))
        for k in range(n):
            e = bx.make(k + k0)
            if e is None:
                continue
            self.nboxes += 1
            if goal.guard is not TRUE and cond_val(e, goal.guard) is not True:
                continue
            if goal.kind == 'true':
                if cond_val(e, goal.a) is False:
                    return 'condition false on the box {%s}' % fmtbox(e)
            else:
                va, vb = term_val(e, goal.a), term_val(e, goal.b)
                if iv.separated(va, vb):
                    return 'value %s but expected %s on the box {%s}' % (fmtv(va), fmtv(vb), fmtbox(e))
            if tm.expired():
                break
        return None

    def numbers(self, goal):
        """a statement about numbers: evaluate both sides to some 100 digits"""
        if goal.kind == 'true':
            c = ball.cond(goal.a)
            if c is None:
                return None
            return (PROVED, '') if c else (REFUTED, 'false')
        if tm.is_bool(goal.a) or tm.is_bool(goal.b):
            return None
        a, b = ball.val(goal.a), ball.val(goal.b)
        if a is None or b is None or a == ball.NANV or b == ball.NANV:
            return None
        if ball.sgn(ball.add(a, (-b[0], b[1]))) == 0:
            return PROVED, ''
        a, b = ball.interval(goal.a), ball.interval(goal.b)
        if iv.separated(a, b):
            return REFUTED, 'value %s but expected %s' % (fmtv(a), fmtv(b))
        return None

    def decide(self, goal):
        if goal.guard is FALSE:
            return PROVED, 'vacuous'
        if goal.kind == 'true':
            if goal.a is TRUE:
                return PROVED, ''
        elif goal.a is goal.b:
            return PROVED, ''
        if goal.guard is TRUE and iv.closed(goal.a) and (goal.b is None or iv.closed(goal.b)):
            r = self.numbers(goal)
            if r is not None:
                return r
        if goal.guard is TRUE and goal.b is not None:
            for u, v, x in ((goal.a, goal.b, 'not finite'), (goal.b, goal.a, 'finite')):
                if tm.nonfinite(u) and iv.closed(v):
                    v = ball.val(v)
                    if v is not None and v != ball.NANV:
                        return REFUTED, 'the value is %s, where %s was expected' % (x, tm.show(goal.b)[:60])
        tm.DEADLINE[0] = time.time() + (4 if not self.thorough else 40)
        try:
            r = self.refute(goal, 10)
            if r:
                return REFUTED, r
            fs = self.facts(goal.guard)
            try:
                if goal.kind == 'true':
                    c = self.under(goal.a, fs)
                    if c is TRUE or band(goal.guard, bnot(c)) is FALSE:
                        return PROVED, ''
                    if tm.prove_zero(tm.b2n(bnot(c)) if c is not TRUE else ZERO, tm.Ctx(fs)):
                        return PROVED, ''
                else:
                    a, b = tm.canon(self.under(goal.a, fs)), tm.canon(self.under(goal.b, fs))
                    if a is b or tm.prove_equal(a, b, fs):
                        return PROVED, ''
                    if not fs and not (a is goal.a and b is goal.b) and tm.prove_equal(goal.a, goal.b, fs):
                        return PROVED, ''
            except (RecursionError, OverflowError, ZeroDivisionError):
                pass
            tm.DEADLINE[0] = time.time() + (4 if not self.thorough else 60)
            r = self.refute(goal, 60 if not self.thorough else 600, 10)
            if r:
                return REFUTED, r
            return UNDECIDED, 'neither normal forms nor ranges decide'
        finally:
            tm.DEADLINE[0] = None


def fmtv(v):
    if isinstance(v, tuple):
        if v[0] == v[1]:
            return '%.8g' % v[0]
        if v[1] - v[0] < 1e-4 * (1 + abs(v[0])):
            return '%.8g' % ((v[0] + v[1]) / 2)
        return '[%.6g, %.6g]' % v
    return str(v)


# ------------------------------------------------------------------ driver run
class Session:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.I = Interp(repo)
        self.I.frames.append(Frame('<root>', '<root>', '<root>'))
        for m in ('__prelude__', 'magpie', 'magpie.densegrid', 'magpie.montecarlo', 'magpie.plots', 'magpie.plots.ortho', 'magpie.plots.shapes'):
            try:
                self.I.module(m)
            except PyRaise as e:
                self.I.loadfail.append((m, m, (e.exc, e.msg, ('', '', 0))))
        self.heap0 = self.I.S.heap
        self.nloc0 = self.I.nloc

    def drivers(self, path):
        src = open(path).read()
        tree = ast.parse(src, path)
        return tree


class Run:
    """analysis of one driver function"""

    def __init__(self, sess, path, tree, name, thorough=False, seed=1):
        self.sess, self.path, self.tree, self.name = sess, path, tree, name
        self.I = I = sess.I
        self.thorough = thorough
        self.goals = []
        self.structural = []
        self.unsup = None
        self.decider = Decider(thorough, seed)
        I.obls, I.effects, I.topcalls = [], [], []
        I.visited = set()
        I.steps = 0
        I.S = State({}, dict(sess.heap0), TRUE)
        I.S.heap['rng'] = ZERO
        I.gstack = []
        I.axis = None
        I.lineno = 0
        tm.reset_fresh()
        I.lib.driver = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('d_')}

    def execute(self):
        I = self.I
        fr = Frame('<driver>', os.path.basename(self.path), '<driver>')
        I.frames = [fr]
        I.S.heap[('mod', '<driver>')] = {}
        I.S.vars = {}
        I.asts['<driver>'] = (self.tree, self.path, False)
        try:
            fn = None
            for st in self.tree.body:
                I.exec_stmt(st)
            I.S.heap[('mod', '<driver>')] = dict(I.S.vars)
            fn = I.S.vars[self.name]
            I.S.vars = {}
            fr.outs = []
            try:
                I.call(fn, [], {})
            except PathEnd:
                pass
            except PyRaise as e:
                fr.outs.append(('raise', I.S, (e.exc, e.msg, I.where())))
            for o in fr.outs:
                if o[0] == 'raise':
                    exc, msg, where = o[2]
                    self.goals.append(Goal('%s: %s' % (exc, msg), o[1].guard, 'true', FALSE, None, where, 'raises'))
        except Unsup as e:
            self.unsup = '%s (at %s)' % (e, '%s:%s in %s' % (I.where()[0], I.where()[2], I.where()[1]))
        except RecursionError:
            self.unsup = 'recursion limit'
        for o in I.obls:
            self.goals.append(Goal('%s: %s' % (o.kind, o.msg), o.guard, 'true', o.cond, None, o.where, 'safety'))
        return self

    def results(self):
        out = []
        groups = {}
        for g in self.goals:
            groups.setdefault((g.label, g.kindtag, g.where), []).append(g)
        for (label, tag, where), gs in groups.items():
            st, det = PROVED, ''
            npv = nun = 0
            for g in gs:
                s, d = self.decider.decide(g)
                if s == REFUTED:
                    st, det = s, d
                    break
                if s == UNDECIDED:
                    st, det = s, d
                    nun += 1
                    if nun > 12:
                        # refutation only for the rest
                        pass
                else:
                    npv += 1
            r = Result(self.name, label, st, where, det, tag, len(gs))
            r.proved, r.und = npv, nun
            out.append(r)
        for label, where, det in self.structural:
            r = Result(self.name, label, REFUTED, where, det, 'shape')
            r.proved = r.und = 0
            out.append(r)
        return out

    # ----------------------------------------------------------- driver language
    def callsite(self):
        I = self.I
        if I.topcalls:
            q, f, l = I.topcalls[-1]
            return (f, q, l)
        return I.where()

    def goal(self, label, kind, a, b=None):
        g = self.I.full_guard()
        self.goals.append(Goal(label, g, kind, a, b, self.callsite()))

    def bnd(self, x):
        if x is None:
            return None
        return x

    @staticmethod
    def named(n):
        if not isinstance(n, str) or isinstance(n, Text):
            raise Unsup('a symbol needs a fixed name')

    def d_real(self, a, kw):
        self.named(a[0])
        lo = a[1] if len(a) > 1 else kw.get('lo')
        hi = a[2] if len(a) > 2 else kw.get('hi')
        return tm.sym(a[0], 'real', lo, hi)

    def d_integer(self, a, kw):
        self.named(a[0])
        return tm.whole(tm.sym(a[0], 'int', a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None))

    def d_array(self, a, kw):
        self.named(a[0])
        sh = self.I.lib.shape_arg(a[1])
        lo = a[2] if len(a) > 2 else kw.get('lo')
        hi = a[3] if len(a) > 3 else kw.get('hi')
        vals = [tm.sym('%s[%s]' % (a[0], ','.join(map(str, ix))), 'real', lo, hi)
                for ix in itertools.product(*[range(s) for s in sh])]
        return self.I.new_arr(sh, vals, 'f')

    def d_intarray(self, a, kw):
        self.named(a[0])
        sh = self.I.lib.shape_arg(a[1])
        vals = [tm.sym('%s[%s]' % (a[0], ','.join(map(str, ix))), 'int', a[2], a[3])
                for ix in itertools.product(*[range(s) for s in sh])]
        return self.I.new_arr(sh, vals, 'i')

    def d_increasing(self, a, kw):
        """increasing(name, n, lo, dmin, dmax): strictly increasing values"""
        self.named(a[0])
        n = self.I.lib.cint(a[1])
        lo = a[2] if len(a) > 2 else None
        dmin = a[3] if len(a) > 3 else num(F(1, 8))
        dmax = a[4] if len(a) > 4 else num(2)
        v = [tm.sym(a[0] + '[0]', 'real', lo, None if lo is None else add(lo, ONE))] if not (len(a) > 5) else [lo]
        for k in range(1, n):
            v.append(add(v[-1], tm.sym('d%s[%d]' % (a[0], k), 'real', dmin, dmax)))
        return self.I.new_arr((n,), v, 'f')

    def d_assume(self, a, kw):
        c = self.I.truth(a[0])
        self.I.nassume += 1
        self.I.S.guard = band(self.I.S.guard, c)
        return None

    def d_thorough(self, a, kw):
        return TRUE if self.thorough else FALSE

    def d_holds(self, a, kw):
        lab = a[1] if len(a) > 1 else 'condition'
        v = self.I.strip(a[0])
        if isinstance(v, Arr):
            for k, x in enumerate(self.I.vals(v)):
                c = tm.truth(x)
                if v.guards is not None:
                    c = bor(bnot(v.guards[k]), c)
                self.goal(lab, 'true', c)
            return None
        self.goal(lab, 'true', self.I.truth(v))

    def d_equal(self, a, kw):
        lab = a[2] if len(a) > 2 else 'value'
        self.eq(a[0], a[1], lab)

    def fail(self, lab, det):
        # structural mismatch: refuted if the path is feasible
        g = self.I.full_guard()
        self.goals.append(Goal(lab + ' (' + det + ')', g, 'true', FALSE, None, self.callsite()))

    def eq(self, a, b, lab):
        I = self.I
        a, b = I.strip(a), I.strip(b)
        if isinstance(a, Choice):
            for c, v in ((a.c, a.a), (bnot(a.c), a.b)):
                I.gstack.append(c)
                self.eq(v, b, lab)
                I.gstack.pop()
            return
        if isinstance(b, Choice):
            for c, v in ((b.c, b.a), (bnot(b.c), b.b)):
                I.gstack.append(c)
                self.eq(a, v, lab)
                I.gstack.pop()
            return
        if isinstance(a, T) and isinstance(b, T):
            self.goal(lab, 'eq', a, b)
            return
        if isinstance(a, OpqObj) or isinstance(b, OpqObj):
            raise Unsup('comparison of external object')
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (type(a) is type(b) and a == b):
                self.fail(lab, 'kind of result differs: %s vs %s' % (kind(a), kind(b)))
            return
        if isinstance(a, (Arr, ListV, tuple)) and isinstance(b, (Arr, ListV, tuple)):
            if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListV) and isinstance(b, ListV):
                x, y = I.iterate(a), I.iterate(b)
                if len(x) != len(y):
                    self.fail(lab, '%d values, expected %d' % (len(x), len(y)))
                    return
                for p, q in zip(x, y):
                    self.eq(p, q, lab)
                return
            a2, b2 = I.lib.asarr(a), I.lib.asarr(b)
            if a2.guards is not None or b2.guards is not None:
                self.eqcomp(a2, b2, lab)
                return
            if a2.shape != b2.shape:
                self.fail(lab, 'shape %s, expected %s' % (a2.shape, b2.shape))
                return
            for x, y in zip(I.vals(a2), I.vals(b2)):
                self.eq(x, y, lab)
            return
        if isinstance(a, Arr) and a.shape == () and isinstance(b, T):
            return self.eq(I.vals(a)[0], b, lab)
        if isinstance(b, Arr) and b.shape == () and isinstance(a, T):
            return self.eq(a, I.vals(b)[0], lab)
        if isinstance(a, (T, Arr, tuple, ListV)) and isinstance(b, (T, Arr, tuple, ListV)):
            self.fail(lab, 'kind of result differs: %s vs %s' % (kind(a), kind(b)))
            return
        raise Unsup('comparison of %s' % kind(a))

    def eqcomp(self, a, b, lab):
        I = self.I
        if a.guards == b.guards:
            for k, (x, y) in enumerate(zip(I.vals(a), I.vals(b))):
                per = prod(a.shape[1:])
                I.gstack.append(a.guards[k // per])
                self.eq(x, y, lab)
                I.gstack.pop()
            return
        if a.guards is not None and b.guards is not None and len(a.guards) == len(b.guards) and a.shape == b.shape:
            per = prod(a.shape[1:])
            for x, y in zip(a.guards, b.guards):
                self.goal(lab + ' (selection)', 'eq', x, y)
            for k, (x, y) in enumerate(zip(I.vals(a), I.vals(b))):
                I.gstack.append(band(a.guards[k // per], b.guards[k // per]))
                self.eq(x, y, lab)
                I.gstack.pop()
            return
        raise Unsup('compressed arrays of different layout')

    def d_present(self, a, kw):
        """list of (presence, value) of a compressed array"""
        v = self.I.lib.asarr(a[0])
        g = v.guards or (TRUE,) * v.shape[0]
        return self.I.new_list([(g[k], x) for k, x in enumerate(self.I.iterate(Arr(v.loc, v.shape, v.pos)))])

    def d_raises(self, a, kw):
        """condition under which the call fails"""
        I = self.I
        fr = I.frames[-1]
        n0 = len(fr.outs)
        o0 = len(I.obls)
        save = I.S
        g0 = save.guard
        I.S = State(dict(save.vars), dict(save.heap), g0)
        try:
            I.call(a[0], list(a[1:]), dict(kw))
            ended = None
        except PathEnd as e:
            ended = e
        except PyRaise as e:
            ended = e
            fr.outs.append(('raise', I.S, (e.exc, e.msg, I.where())))
        outs = fr.outs[n0:]
        del fr.outs[n0:]
        I.S = save
        c = FALSE
        for o in outs:
            if o[0] == 'raise':
                c = bor(c, o[1].guard)
        for o in I.obls[o0:]:
            c = bor(c, band(o.guard, bnot(o.cond)))
        del I.obls[o0:]
        I.S.guard = g0
        return c

    def d_attempt(self, a, kw):
        """call (effects on the heap kept) whose failure is tolerated; -> (failure condition, result)"""
        I = self.I
        fr = I.frames[-1]
        n0 = len(fr.outs)
        o0 = len(I.obls)
        g0 = I.S.guard
        r = None
        ended = False
        try:
            r = I.call(a[0], list(a[1:]), dict(kw))
        except PathEnd:
            ended = True
        except PyRaise as e:
            ended = True
            fr.outs.append(('raise', I.S.clone(), (e.exc, e.msg, I.where())))
        outs = [o for o in fr.outs[n0:] if o[0] == 'raise']
        del fr.outs[n0:]
        del I.obls[o0:]
        c = FALSE
        if ended and not outs:
            c = TRUE
        cur = None if ended else I.S
        for o in reversed(outs):
            s = State(I.S.vars, o[1].heap, o[1].guard)
            c = bor(c, s.guard)
            cur = s if cur is None else I.merge_state(s.guard, s, State(I.S.vars, cur.heap, cur.guard))
        I.S = State(I.S.vars, cur.heap, g0)
        return (c, r)

    def snapshot(self, v, depth=0):
        I = self.I
        if depth > 6:
            return None
        if isinstance(v, Choice):
            return ('choice', v.c, self.snapshot(v.a, depth + 1), self.snapshot(v.b, depth + 1))
        if isinstance(v, Arr):
            return ('arr', v, I.S.heap[v.loc])
        if isinstance(v, ListV):
            its = I.S.heap[v.loc]
            return ('list', v, its, [self.snapshot(x, depth + 1) for x in its])
        if isinstance(v, tuple):
            return ('tuple', v, None, [self.snapshot(x, depth + 1) for x in v])
        if isinstance(v, DictV):
            d = I.S.heap[v.loc]
            return ('dict', v, dict(d), [self.snapshot(x, depth + 1) for x in d.values()])
        if isinstance(v, Obj):
            d = {k: x for k, x in I.S.heap[v.loc].items() if not k.startswith('_')}
            return ('obj', v, d, [self.snapshot(x, depth + 1) for x in d.values()])
        return None

    def unchanged(self, s, lab):
        I = self.I
        if s is None:
            return
        if s[0] == 'choice':
            self.unchanged(s[2], lab)
            self.unchanged(s[3], lab)
        elif s[0] == 'arr':
            b = I.S.heap[s[1].loc]
            if b is s[2]:
                return
            for x, y in zip(b.vals, s[2].vals):
                if x is y:
                    continue
                if isinstance(x, T) and isinstance(y, T):
                    self.goal(lab, 'eq', x, y)
                elif not isinstance(x, T) or not isinstance(y, T):
                    self.eq(x, y, lab)
        elif s[0] in ('list', 'dict'):
            cur = I.S.heap[s[1].loc]
            if s[0] == 'list' and isinstance(cur, Choice):
                self.eqseq(cur, s[2], lab)
            elif len(cur) != len(s[2]):
                self.fail(lab, 'length changed')
            else:
                for x, y in (zip(cur, s[2]) if s[0] == 'list' else zip(cur.values(), s[2].values())):
                    if x is not y:
                        self.eq(x, y, lab)
            for x in s[3]:
                self.unchanged(x, lab)
        elif s[0] == 'tuple':
            for x in s[3]:
                self.unchanged(x, lab)
        elif s[0] == 'obj':
            cur = I.S.heap[s[1].loc]
            for k, y in s[2].items():
                if k not in cur:
                    self.fail(lab, "attribute '%s' is gone" % k)
                elif cur[k] is not y:
                    self.eq(cur[k], y, lab)
            for x in s[3]:
                self.unchanged(x, lab)

    def eqseq(self, cur, old, lab):
        for c, v in ((cur.c, cur.a), (bnot(cur.c), cur.b)):
            self.I.gstack.append(c)
            if isinstance(v, Choice):
                self.eqseq(v, old, lab)
            elif len(v) != len(old):
                self.fail(lab, 'length changed')
            else:
                for x, y in zip(v, old):
                    self.eq(x, y, lab)
            self.I.gstack.pop()

    def d_frozen(self, a, kw):
        """frozen(f, *args): call f; every array/list argument (and default) must be unchanged on return"""
        I = self.I
        f = a[0]
        fv = f.func if isinstance(f, BoundV) else f
        snaps = [('argument %d' % (k + 1), self.snapshot(v)) for k, v in enumerate(a[1:])]
        snaps += [("argument '%s'" % k, self.snapshot(v)) for k, v in kw.items()]
        if isinstance(fv, FuncV):
            d, k2 = fv.defaults
            snaps += [("default value of '%s'" % n, self.snapshot(v)) for n, v in list(d.items()) + list(k2.items())]
        r = I.call(f, list(a[1:]), dict(kw))
        nm = getattr(fv, 'qual', getattr(fv, 'name', '?'))
        for n, s in snaps:
            self.unchanged(s, '%s leaves %s as it was' % (nm.replace('magpie.', ''), n))
        self.nfrozen = getattr(self, 'nfrozen', 0) + len(snaps)
        mine = set()
        for n, s in snaps:
            self.locs(s, mine)
        if self.name.startswith('P01') and self.arrlocs(r, set()) & mine:
            self.fail('%s returns a new result' % nm.replace('magpie.', ''), 'the result is (a view of) an argument')
        return r

    def locs(self, s, out):
        if s is None:
            return
        if s[0] == 'choice':
            self.locs(s[2], out)
            self.locs(s[3], out)
            return
        if s[0] != 'tuple':
            out.add(s[1].loc)
        if s[0] != 'arr':
            for x in s[3]:
                self.locs(x, out)

    def arrlocs(self, v, out, depth=0):
        if isinstance(v, Choice):
            self.arrlocs(v.a, out, depth)
            self.arrlocs(v.b, out, depth)
        elif isinstance(v, Arr):
            out.add(v.loc)
        elif isinstance(v, (ListV, tuple)) and depth < 4:
            if isinstance(v, ListV):
                out.add(v.loc)
                if isinstance(self.I.S.heap[v.loc], Choice):
                    return out
            for x in self.I.iterate(v):
                self.arrlocs(x, out, depth + 1)
        return out

    def d_snap(self, a, kw):
        l = self.I.loc()
        self.I.S.heap[l] = {}
        self.snaps = getattr(self, 'snaps', {})
        self.snaps[l] = [self.snapshot(v) for v in a]
        if None in self.snaps[l]:
            raise Unsup('state of %s' % kind(a[self.snaps[l].index(None)]))
        return num(l)

    def d_same_as(self, a, kw):
        for s in self.snaps[int(a[0].args[0])]:
            self.unchanged(s, a[1])

    def d_clone(self, a, kw):
        """independent copy of an array / list value"""
        v = self.I.strip(a[0])
        if isinstance(v, Arr):
            return self.I.new_arr(v.shape, self.I.vals(v), self.I.dtype(v), v.guards)
        if isinstance(v, ListV):
            return self.I.new_list([self.d_clone([x], {}) for x in self.I.items(v)])
        if isinstance(v, tuple):
            return tuple(self.d_clone([x], {}) for x in v)
        return v

    # randomness
    def d_reset_rng(self, a, kw):
        self.I.S.heap['rng'] = ZERO

    def d_stream(self, a, kw):
        """stream(values): the generator yields these numbers from now on (again from the start when used up); stream(None): any numbers"""
        self.I.lib.stream = None if a[0] is None else [self.num_of(x) for x in self.I.iterate(a[0])]
        self.I.S.heap['rng'] = ZERO

    def num_of(self, x):
        if not isinstance(x, T):
            raise Unsup('stream of %s' % kind(x))
        return x

    def d_U(self, a, kw):
        """spec-side draws: U(start, shape) array of stream positions start.., or U(start) scalar"""
        s = int(a[0].args[0])
        if len(a) == 1 or a[1] is None:
            return tm.draw(s)
        sh = self.I.lib.shape_arg(a[1])
        return self.I.new_arr(sh, [tm.draw(s + k) for k in range(prod(sh))], 'f')

    def d_ndraws(self, a, kw):
        return self.I.S.heap['rng']

    def leaves(self, v):
        v = self.I.strip(v)
        if isinstance(v, T):
            return [v]
        if isinstance(v, (tuple, ListV)):
            return [y for x in self.I.iterate(v) for y in self.leaves(x)]
        if isinstance(v, Arr):
            if v.guards is not None:
                raise Unsup('compressed array in random comparison')
            return [y for x in self.I.vals(v) for y in self.leaves(x)]
        if isinstance(v, Choice):
            p, q = self.leaves(v.a), self.leaves(v.b)
            if len(p) == len(q):
                return [tm.ite(v.c, x, y) for x, y in zip(p, q)]
        raise Unsup('random comparison of %s' % kind(v))

    def d_equal_rng(self, a, kw):
        """equality up to a renaming of the draws and reflections u -> 1-u"""
        v = self.I.strip(a[0])
        if isinstance(v, Choice) and len(self.leaves(v.a)) != len(self.leaves(v.b)):
            for c, w in ((v.c, v.a), (bnot(v.c), v.b)):
                self.I.gstack.append(c)
                self.d_equal_rng([w, a[1], a[2]], kw)
                self.I.gstack.pop()
            return
        va, vb, lab = self.leaves(v), self.leaves(a[1]), a[2]
        if len(va) != len(vb):
            self.fail(lab, '%d values, expected %d' % (len(va), len(vb)))
            return
        g = self.I.full_guard()
        m = {}
        used = set()

        def cands(x, y):
            da = sorted((d.args[0] for d in draws_in(x)))
            db = sorted((d.args[0] for d in draws_in(y)))
            if len(da) != len(db):
                return
            free = [d for d in db if d not in m]
            avail = [d for d in da if d not in used]
            if len(free) != len(avail):
                return
            if len(free) > 3:
                # arrays of draws: the same order, or whole arrays drawn in another order
                n = len(free)
                seen = set()
                for k in (1, 2, 3):
                    if n % k:
                        continue
                    blocks = [avail[i*n//k:(i + 1)*n//k] for i in range(k)]
                    for perm in itertools.permutations(range(k)):
                        for refl in itertools.product((False, True), repeat=k):
                            for inter in ((False, True) if k > 1 else (False,)):
                                seq = [(v, refl[b]) for b in perm for v in blocks[b]]
                                if inter:
                                    seq = [(avail[i*k + b], refl[b]) for b in perm for i in range(n//k)]
                                if tuple(seq) in seen:
                                    continue
                                seen.add(tuple(seq))
                                yield {f: sub(ONE, tm.draw(v)) if r else tm.draw(v) for f, (v, r) in zip(free, seq)}
                for c in range(1, n):
                    seq = [(v, False) for v in avail[c:] + avail[:c]]
                    if tuple(seq) not in seen:
                        seen.add(tuple(seq))
                        yield {f: tm.draw(v) for f, (v, r) in zip(free, seq)}
                return
            for perm in itertools.permutations(avail):
                for refl in itertools.product((False, True), repeat=len(free)):
                    yield {f: sub(ONE, tm.draw(v)) if r else tm.draw(v) for f, v, r in zip(free, perm, refl)}

        def ren(y, mm):
            ds = draws_in(y)
            if not ds:
                return y
            return tm._rebuild(y, {}, {d: mm.get(d.args[0], d) for d in ds})

        va, vb = [tm.partition(x) for x in va], [tm.partition(y) for y in vb]
        for x, y in zip(va, vb):
            best = None
            cs = list(cands(x, y)) or [{}]
            for ext in cs:
                mm = dict(m)
                mm.update(ext)
                y2 = ren(y, mm)
                if x is y2 or (not tm.is_bool(x) and (tm.zero_nf(sub(x, y2)) or tm.canon(x) is tm.canon(y2))):
                    best = (ext, y2)
                    break
            if best is None and len(cs) > 1:
                for ext in cs:
                    mm = dict(m)
                    mm.update(ext)
                    y2 = ren(y, mm)
                    if not self.decider.refute(Goal('', g, 'eq', x, y2, None), 60):
                        best = (ext, y2)
                        break
            if best is None:
                mm = dict(m)
                mm.update(cs[0])
                best = (cs[0], ren(y, mm))
            m.update(best[0])
            for v in best[0].values():
                used |= {d.args[0] for d in draws_in(v)}
            self.goal(lab, 'eq', x, best[1])

    def rng_goal(self, lab, va, vb):
        for x, y in zip(va, vb):
            self.goal(lab, 'eq', x, y)

    # effects
    def d_quiet(self, a, kw):
        """quiet(kinds, f, *args): the call must not have an effect of these kinds"""
        I = self.I
        n0 = len(I.effects)
        kinds = [x for x in I.iterate(a[0])]
        try:
            r = I.call(a[1], list(a[2:]), dict(kw))
        finally:
            for e in I.effects[n0:]:
                if e.kind in kinds:
                    self.goals.append(Goal('no %s effect (%s)' % (e.kind, e.detail), e.guard, 'true', FALSE, None, e.where))
        self.goals.append(Goal('no %s effect' % '/'.join(kinds), TRUE, 'true', TRUE, None, self.callsite()))
        return r

    def d_noisy(self, a, kw):
        """number of effects of the given kind of the call (as a count)"""
        I = self.I
        n0 = len(I.effects)
        kinds = [x for x in I.iterate(a[0])]
        I.call(a[1], list(a[2:]), dict(kw))
        return num(len([e for e in I.effects[n0:] if e.kind in kinds]))

    def d_poly(self, a, kw):
        return a[0]

    def d_opaque(self, a, kw):
        return tm.opq(a[0], *[n2(x) if isinstance(x, T) else x for x in a[1:]])

    def d_current_axis(self, a, kw):
        """pyplot functions act on this recorder"""
        self.I.axis = a[0] if a else None

    def d_unset(self, a, kw):
        return UNDEFT

    def d_number_in(self, a, kw):
        """the only number written into a text"""
        v = a[0].nums if isinstance(a[0], Text) else None
        if v is None or len(v) != 1:
            raise Unsup('number in a text')
        return v[0]

    def d_numeric(self, a, kw):
        """kind of value: 'scalar' | 'array' | ..."""
        return kind(self.I.strip(a[0]))

    def d_hasattr_(self, a, kw):
        return self.I.lib.b_hasattr(a, kw)

    def d_debug(self, a, kw):
        v = self.I.strip(a[0])
        print('DEBUG', show(self.I, v))


def show(I, v):
    v = I.strip(v)
    if isinstance(v, Arr):
        return 'Arr%s[%s]%s' % (v.shape, ', '.join(show(I, x) for x in I.vals(v)), (' guards ' + str(v.guards)) if v.guards else '')
    if isinstance(v, (ListV, tuple)):
        return '(' + ', '.join(show(I, x) for x in I.iterate(v)) + ')'
    if isinstance(v, Choice):
        return '{%s ? %s : %s}' % (v.c, show(I, v.a), show(I, v.b))
    return str(v)


def draws_in(t, memo=None):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'draw':
            out.add(x)
        else:
            stack.extend(x.args)
    return out


def kind(v):
    if v is None:
        return 'None'
    if isinstance(v, T):
        return 'scalar'
    if isinstance(v, Arr):
        return 'array'
    if isinstance(v, ListV):
        return 'list'
    if isinstance(v, tuple):
        return 'tuple'
    return type(v).__name__
