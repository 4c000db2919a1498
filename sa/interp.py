"""Guarded dataflow analysis over the Python syntax tree.

One forward pass per function body.  Control dependence is carried by a *path
guard* (`self.pc`, a BDD over input atoms): branches do not fork states, they
make guarded assignments, so the analysis is a gated-SSA style value-flow
computation and not a path enumeration.  Loops over symbolic sequences run
their body on one generic element; element facts are closed existentially at
the loop exit.  No solver is involved.
"""
import ast
import os

from .bdd import Manager
from .values import (ANY, B, BoundV, ClassV, Contract, DictV, ExtMeth, ExtV,
                     FuncV, K, ListV, ModV, NatV, NONE, O, PropV, Simple, Sy,
                     TupV, UNDEF, V, WrapV, k, one, ty_label, ty_union)

MAX_STEPS = 6000000


class Budget(Exception):
    """The analysis exceeded its step budget."""


class Scope:
    __slots__ = ('vars', 'parent', 'module', 'locals', 'globals_', 'nonlocals',
                 'is_class')

    def __init__(self, parent, module, locals_=(), is_class=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.globals_ = ()
        self.nonlocals = ()
        self.is_class = is_class


class LazyGen(Contract):
    """A call of a generator function that has not been iterated over."""
    __slots__ = ('func', 'args', 'kwargs', 'rest')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs
        self.rest = None

    def path(self):
        return ('generator', self.func.name, id(self))

    def elems(self):
        return set()

    def subst(self, I, mp):
        return self

    def truth(self, I):
        return 1

    def getattr(self, I, name, default=None):
        return default if default is not None else \
            I.unknown(('generator', name))

    def compare(self, I, nm, y):
        return None

    def contains(self, I, x):
        return I.any_eq(self.iterate(I), x)

    def isinstance_(self, I, c):
        return 0

    def iterate(self, I):
        if self.rest is None:
            I.starting = self.func
            self.rest = I.entries_of(I.call_func(self.func, self.args,
                                                 self.kwargs))
        out = self.rest
        self.rest = [(I.m.diff(g, I.pc), x) for g, x in out]
        return out


class Frame:
    __slots__ = ('func', 'scope', 'rets', 'loops', 'yields', 'node',
                 'entry_pc', 'cls', 'args')

    def __init__(self, func, scope, entry_pc):
        self.func = func
        self.scope = scope
        self.rets = []
        self.loops = []
        self.yields = None
        self.node = None
        self.entry_pc = entry_pc
        self.cls = None
        self.args = None


class Loop:
    __slots__ = ('brk', 'cont')

    def __init__(self):
        self.brk = 0
        self.cont = 0


class TryFrame:
    __slots__ = ('classes', 'raised', 'catch_all')

    def __init__(self, classes):
        self.classes = classes      # list of exception class simples
        self.raised = []            # (guard, exc V, class simple)


# --------------------------------------------------------------------------
# names and scopes

_BINDERS = {}


def local_names(node):
    """Names bound in a function body (its locals)."""
    r = _BINDERS.get(node)
    if r is not None:
        return r
    names, globs, nonl = set(), set(), set()
    is_gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    target(sub.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen[0] = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For,
                            ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    target(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    r = (frozenset(names - globs - nonl), frozenset(globs), frozenset(nonl),
         is_gen[0])
    _BINDERS[node] = r
    return r


# --------------------------------------------------------------------------
# element variables inside paths

_EV = {}
_NOEV = frozenset()


def elemvars(path):
    """All generic-element variables ('e', seq, lvl) inside a path/atom."""
    if not isinstance(path, tuple):
        return _NOEV
    r = _EV.get(path)
    if r is None:
        acc = set()
        for x in path:
            if isinstance(x, tuple):
                acc |= elemvars(x)
        if len(path) == 3 and path[0] == 'e':
            acc.add(path)
        # 'ex' atoms bind their own element.
        if path and path[0] in ('ex', 'some') and len(path) == 3:
            acc.discard(path[1])
        r = frozenset(acc)
        _EV[path] = r
    return r


def subst_path(path, m):
    if not isinstance(path, tuple):
        return path
    if path in m:
        return m[path]
    ch = False
    out = []
    for x in path:
        y = subst_path(x, m) if isinstance(x, tuple) else x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else path


class Interp:

    def __init__(self, root, package='httpolice'):
        self.lengths = {}
        self.root = root
        self.package = package
        self.ext_override = {}
        self.exc_attrs = {}
        self.on_str = None
        self.stubs = {}         # library -> directory with stand-ins
        self.m = Manager()
        self.pc = 1
        self.modules = {}
        self.frames = []
        self.tries = []
        self.events = []
        self.faults = []
        self.open = []
        self.journal = []
        self.steps = 0
        self.again = 0
        self.max_steps = MAX_STEPS
        self.intercepts = {}
        self.starting = None
        self.lazy = False       # generators run when they are iterated over
        self.class_intercepts = {}
        self.ext = {}
        self.visited_funcs = {}
        self.visited_calls = 0
        self.undecided = []
        self.alive = []
        self.symbol_cls = None
        self.site_stack = []
        self.cur_node = None
        self.fresh_n = 0
        self.fields = {}
        self.quiet = 0
        self.after_load = {}
        self.consulted = set()
        self.exc_sites = []
        self.risks = []
        self.untyped = {}
        self.index_of = []
        self.ext_calls = {}
        from . import extlib
        extlib.install(self)

    # -- utilities ------------------------------------------------------------
    def atom(self, *key):
        return self.m.atom(key)

    def fresh(self, tag):
        self.fresh_n += 1
        return ('fresh', tag, self.fresh_n)

    def site(self):
        """file:function:line of the innermost analysed statement."""
        fr = self.frames[-1] if self.frames else None
        mod = None
        fn = '<module>'
        line = getattr(self.cur_node, 'lineno', 0)
        if fr is not None:
            mod = fr.scope.module
            fn = fr.func.name if fr.func is not None else '<module>'
        return (mod.path if mod is not None and mod.path else '?', fn, line)

    def stack_sites(self):
        return [f.func.name for f in self.frames if f.func is not None]

    def note_undecided(self, what):
        if len(self.undecided) < 2000:
            self.undecided.append((what, self.site()))

    # -- guarded unions -------------------------------------------------------
    def join(self, alts):
        """Normalise a list of (guard, simple) into a V."""
        if len(alts) == 1:
            return V(((alts[0][0], alts[0][1]),))
        m = self.m
        order = []
        by = {}
        bools = None
        for g, s in alts:
            if g == 0:
                continue
            if isinstance(s, B) or (isinstance(s, K) and
                                    (s.v is True or s.v is False)):
                b = s.b if isinstance(s, B) else (1 if s.v else 0)
                if bools is None:
                    bools = [g, m.and_(g, b)]
                    order.append('bool')
                else:
                    bools = [m.or_(bools[0], g),
                             m.ite(g, b, bools[1]) if b != 0
                             else m.and_(bools[1], m.not_(g))]
                continue
            kk = s.key()
            if kk in by:
                by[kk][0] = m.or_(by[kk][0], g)
            else:
                by[kk] = [g, s]
                order.append(kk)
        out = []
        for kk in order:
            if kk == 'bool':
                g, b = bools
                b = m.constrain(b, g)
                if b == 1:
                    out.append((g, K(True)))
                elif b == 0:
                    out.append((g, K(False)))
                else:
                    out.append((g, B(b)))
            else:
                out.append(tuple(by[kk]))
        if not out:
            return V(((0, UNDEF),))
        return V(tuple(out))

    def bv(self, b):
        if b == 1:
            return k(True)
        if b == 0:
            return k(False)
        return one(B(b))

    def ite(self, g, a, b):
        m = self.m
        if g == 1 or a is b:
            return a
        if g == 0:
            return b
        ng = m.not_(g)
        alts = [(m.and_(g, x), s) for x, s in a.alts]
        alts += [(m.and_(ng, x), s) for x, s in b.alts]
        alts = [x for x in alts if x[0] != 0]
        if not alts:
            return a
        return self.join(alts)

    def live(self, v):
        """Alternatives of `v` feasible under the current path guard."""
        alts = v.alts
        if len(alts) == 1:
            g, s = alts[0]
            if g == 1 or self.pc == 0:
                return [(self.pc, s)]
        pc = self.pc
        m = self.m
        out = []
        for g, s in alts:
            gg = m.and_(pc, g)
            if gg != 0:
                out.append((gg, s))
        return out

    def split(self, v, fn):
        """Case split on the alternatives of `v`; `fn(simple)` -> V."""
        alts = v.alts
        if len(alts) == 1 and (alts[0][0] == 1 or True):
            g, s = alts[0]
            if g == 1:
                return fn(s)
        pc0 = self.pc
        m = self.m
        out = []
        pc1 = 0
        for g, s in alts:
            gg = m.and_(pc0, g)
            if gg == 0:
                continue
            self.pc = gg
            r = fn(s)
            pc1 = m.or_(pc1, self.pc)
            for g2, s2 in r.alts:
                h = m.and_(g, g2)
                if h != 0:
                    out.append((h, s2))
        self.pc = pc1
        if not out:
            return NONE
        return self.join(out)

    # -- faults and exceptions ----------------------------------------------
    def fault(self, exc, detail):
        """A definite run-time error on the current path guard."""
        self.raise_named(exc, detail, certain=True)

    def raise_named(self, exc, detail, certain=False, key=None):
        """An operation that raises `exc` under the current pc (certain) or
        under a fresh 'raises' atom (uncertain)."""
        if self.pc == 0:
            return
        frame = self.handler_for_name(exc)
        if certain:
            if frame is None:
                self.faults.append((exc, detail, self.pc, self.site(),
                                    tuple(self.stack_sites()),
                                    tuple(self.open)))
                self.pc = 0
                return
            frame.raised.append((self.pc, one(self.exc_value(exc, detail)),
                                 exc))
            self.pc = 0
            return
        if frame is None:
            # the same operation may have been tried before
            g = self.pc
            if key is not None:
                g = self.m.and_(g, self.atom('raises', key, exc))
                if g == 0:
                    return
            self.faults.append((exc, detail, g, self.site(),
                                tuple(self.stack_sites()), tuple(self.open)))
            return
        a = self.atom('raises', key if key is not None else detail, exc)
        g = self.m.and_(self.pc, a)
        frame.raised.append((g, one(self.exc_value(exc, detail)), exc))
        self.pc = self.m.diff(self.pc, a)

    def risk(self, exc, what, bad, path):
        """An operation that raises `exc` where `bad` holds; execution goes
        on as if it did not, and the obligation is recorded."""
        bad = self.m.and_(self.pc, bad)
        if bad == 0:
            return
        frame = self.handler_for_name(exc)
        if frame is not None:
            frame.raised.append((bad, one(self.exc_value(exc, what)), exc))
            self.pc = self.m.diff(self.pc, bad)
            return
        self.risks.append((exc, what, bad, path, self.site(),
                           tuple(self.stack_sites())))

    def note_untyped(self, op, s):
        """`op` done on a value of unknown kind."""
        if self.pc and self.handler_for_name('TypeError') is None:
            self.untyped.setdefault((self.site()[:2], op, s.path),
                                    self.site())

    def exc_value(self, exc, detail):
        return Sy(('exc', exc, detail), ('exc', exc))

    def handler_for_name(self, exc):
        for t in reversed(self.tries):
            for c in t.classes:
                if self.exc_matches(exc, c):
                    return self.tries[-1]
        return None

    def exc_matches(self, exc, c):
        """Does handler class `c` (simple) catch exception class `exc`
        (a dotted name, or a ClassV)?"""
        from . import extlib
        if isinstance(c, TupV):
            return any(self.exc_matches(exc, s)
                       for v in c.items for _, s in v.alts)
        if isinstance(exc, ClassV):
            if isinstance(c, ClassV):
                return exc.is_sub(c)
            names = [b.name for b in exc.ext_bases() if isinstance(b, ExtV)]
            return any(extlib.exc_is(n, c.name) for n in names) \
                if isinstance(c, ExtV) else True
        if isinstance(c, ClassV):
            return False
        if isinstance(c, ExtV):
            return extlib.exc_is(exc, c.name)
        return True

    # -- closing of generic elements ------------------------------------------
    def close(self, f, elems):
        if f == 0 or not elems:
            return f
        for e in sorted(elems, key=lambda x: (-len(elemvars(x)), repr(x))):
            f = self.close1(f, e)
        return f

    def close1(self, f, e):
        m = self.m
        memo = self.__dict__.setdefault('_close_memo', {})

        def is_e(v):
            return e in elemvars(m.atoms[v])

        def rec(n):
            if n == 0:
                return 0
            kk = (n, e)
            r = memo.get(kk)
            if r is not None:
                return r
            sup = m.support(n)
            non = [v for v in sup if not is_e(v)]
            if len(non) == len(sup):
                r = n
            elif non:
                v = min(non)
                r = m.ite(m.mk(v, 0, 1), rec(m.restrict(n, v, True)),
                          rec(m.restrict(n, v, False)))
            else:
                r = self.close_pure(n, e)
            memo[kk] = r
            return r
        if not any(is_e(v) for v in m.support(f)):
            return f
        return rec(f)

    def close_pure(self, n, e):
        m = self.m
        marker = m.atom_index.get(('elem', e))
        primes = m.primes(n, 200)
        if primes is None:
            return m.atom(('ex', e, ('big', self.fkey(n))))
        r = 0
        for p in primes:
            lits = tuple(sorted(((m.atoms[v], val) for v, val in p
                                 if v != marker), key=repr))
            if not lits:
                r = m.or_(r, m.atom(('truthy', e[1])))
            else:
                r = m.or_(r, m.atom(('ex', e, lits)))
        return r

    def fkey(self, f):
        """A canonical, hashable rendering of a BDD (order independent when
        its prime implicants are few)."""
        ps = self.m.primes(f, 60)
        if ps is None:
            return ('bdd', tuple(sorted(
                repr(a) for a in self.m.support_atoms(f))))
        return tuple(sorted((tuple(sorted(((self.m.atoms[v], val)
                                           for v, val in p), key=repr))
                             for p in ps), key=repr))

    def bdd_elems(self, f):
        r = set()
        for v in self.m.support(f):
            r |= elemvars(self.m.atoms[v])
        return r

    def value_elems(self, v, depth=0):
        r = set()
        for g, s in v.alts:
            if g != 1:
                r |= self.bdd_elems(g)
            r |= self.simple_elems(s, depth)
        return r

    def simple_elems(self, s, depth=0):
        if depth > 6:
            return set()
        if isinstance(s, Sy):
            return set(elemvars(s.path))
        if isinstance(s, B):
            return self.bdd_elems(s.b)
        if isinstance(s, TupV):
            r = set()
            for x in s.items:
                r |= self.value_elems(x, depth + 1)
            return r
        if isinstance(s, O):
            r = set()
            if s.prim is not None:
                r |= self.value_elems(s.prim, depth + 1)
            if s.cls.meta.get('small'):
                for x in s.attrs.values():
                    r |= self.value_elems(x, depth + 1)
            return r
        if isinstance(s, Contract):
            return s.elems()
        if isinstance(s, ExtMeth):
            return self.simple_elems(s.self_, depth + 1)
        return set()

    def subst_bdd(self, f, mp):
        m = self.m
        return m.substitute(
            f, lambda v: m.atom(subst_path(m.atoms[v], mp)))

    def subst_value(self, v, mp, depth=0):
        return self.join([(self.subst_bdd(g, mp) if g != 1 else 1,
                           self.subst_simple(s, mp, depth))
                          for g, s in v.alts])

    def subst_simple(self, s, mp, depth=0):
        if depth > 6:
            return s
        if isinstance(s, Sy):
            p = subst_path(s.path, mp)
            return s if p is s.path else Sy(p, s.ty)
        if isinstance(s, B):
            return B(self.subst_bdd(s.b, mp))
        if isinstance(s, TupV):
            return TupV([self.subst_value(x, mp, depth + 1)
                         for x in s.items])
        if isinstance(s, O):
            if not (self.simple_elems(s) & set(mp)):
                return s
            return O(s.cls, {n: self.subst_value(x, mp, depth + 1)
                             for n, x in s.attrs.items()},
                     None if s.prim is None
                     else self.subst_value(s.prim, mp, depth + 1), s.label)
        if isinstance(s, Contract):
            return s.subst(self, mp)
        return s

    def some_rename(self, v, elems, cond):
        """Rename escaping generic elements to 'some element such that'."""
        used = self.value_elems(v) & set(elems)
        if not used:
            return v
        # guards of alternatives are closed separately
        mp = {e: ('some', e, self.fkey(cond)) for e in used}
        # the condition holds for that element
        holds = self.subst_bdd(cond, mp) if any(g != 1 for g, _ in v.alts) \
            else 1
        return V(tuple((1 if g == 1 else self.m.constrain(
            self.subst_bdd(g, mp), holds), self.subst_simple(s, mp))
            for g, s in v.alts if g == 1 or self.m.and_(g, cond)))

    # -- stores -----------------------------------------------------------------
    def store(self, d, key, v):
        """Guarded store into a Python dict of V."""
        old = d.get(key)
        for j in self.journal:
            jk = (id(d), key)
            if jk not in j:
                j[jk] = (d, key, old)
        if self.pc == 1:
            d[key] = v
            return
        if old is None:
            old = one(UNDEF)
        else:
            # Everything live in this frame is being overwritten?
            fr = self.frames[-1] if self.frames else None
            if fr is not None and d is fr.scope.vars and \
                    self.pc == fr.entry_pc and not self.open_since(fr):
                d[key] = v
                return
        d[key] = self.ite(self.pc, v, old)

    def open_since(self, fr):
        return bool(fr.loops)

    # -- statements -----------------------------------------------------------
    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()

    def block(self, stmts):
        for s in stmts:
            if self.pc == 0:
                return
            self.stmt(s)

    def stmt(self, s):
        self.step()
        self.cur_node = s
        getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s)

    def s_unsupported(self, s):
        self.note_undecided('statement %s' % type(s).__name__)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Assign(self, s):
        v = self.eval(s.value)
        if self.pc == 0:
            return
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            old = self.getattr(obj, t.attr)
        else:
            obj = self.eval(t.value)
            idx = self.eval(t.slice)
            old = self.getitem(obj, idx)
        rhs = self.eval(s.value)
        if self.pc == 0:
            return
        new = self.augop(type(s.op).__name__, old, rhs)
        if self.pc == 0:
            return
        if isinstance(t, ast.Name):
            self.assign_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new)
        else:
            self.setitem(obj, idx, new)

    def augop(self, op, old, rhs):
        # In-place list extension keeps identity.
        if op == 'Add':
            s = old.single()
            if isinstance(s, ListV) and s.kind == 'list':
                for e in self.entries_of(rhs):
                    s.entries.append((self.m.and_(self.pc, e[0]), e[1]))
                return old
        return self.binop(op, old, rhs)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                idx = self.eval(t.slice)
                self.delitem(obj, idx)
            elif isinstance(t, ast.Name):
                self.frames[-1].scope.vars.pop(t.id, None)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.pc == 0:
            return
        self.frames[-1].rets.append((self.pc, v))
        self.pc = 0

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        pc0 = self.pc
        m = self.m
        pt = m.and_(pc0, c)
        pf = m.diff(pc0, c)
        self.pc = pt
        if pt != 0:
            self.block(s.body)
        pt = self.pc
        self.pc = pf
        if pf != 0 and s.orelse:
            self.block(s.orelse)
        self.pc = m.or_(pt, self.pc)

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        pc0 = self.pc
        self.pc = self.m.diff(pc0, c)
        if self.pc != 0:
            self.raise_named('AssertionError', 'assert', certain=True)
        self.pc = self.m.and_(pc0, c)

    def s_Break(self, s):
        lp = self.frames[-1].loops[-1]
        lp.brk = self.m.or_(lp.brk, self.pc)
        self.pc = 0

    def s_Continue(self, s):
        lp = self.frames[-1].loops[-1]
        lp.cont = self.m.or_(lp.cont, self.pc)
        self.pc = 0

    def s_For(self, s):
        it = self.eval(s.iter)
        if self.pc == 0:
            return

        def body(v):
            self.assign(s.target, v)
            if self.pc != 0:
                self.block(s.body)
        self.loop_over(it, body, orelse=s.orelse, node=s)

    def loop_over(self, it, body, orelse=None, node=None):
        m = self.m
        fr = self.frames[-1]
        lp = Loop()
        fr.loops.append(lp)
        total_brk = 0
        entries = self.entries_of(it)
        for (g, v) in entries:
            if self.pc == 0:
                break
            lp.brk = lp.cont = 0
            pc_before = self.pc
            (g, v, elems) = self.open_entry(g, v)
            if not elems:
                pcg = m.and_(pc_before, g)
                if pcg == 0:
                    continue
                skip = m.diff(pc_before, g)
                self.pc = pcg
                body(v)
                self.pc = m.or_(m.or_(self.pc, lp.cont), skip)
                total_brk = m.or_(total_brk, lp.brk)
                continue
            # generic element
            self.open.extend(elems)
            j = {}
            self.journal.append(j)
            nret = len(fr.rets)
            nyld = len(fr.yields) if fr.yields is not None else 0
            lost = brk = 0
            passes = 2 if self.needs_second_pass(node) else 1
            for p in range(passes):
                lp.brk = lp.cont = 0
                pcg = m.and_(pc_before, g)
                if p == 1:
                    # The second iteration happens only when the first fell
                    # through; its facts are about another generic element,
                    # represented by the same variable.
                    pass
                self.pc = pcg
                if pcg == 0:
                    break
                self.again += p
                body(v)
                self.again -= p
                end = m.or_(self.pc, lp.cont)
                brk = m.or_(brk, lp.brk)
                lost = m.or_(lost, m.diff(m.diff(pcg, end), lp.brk))
                if p == 0 and passes == 2:
                    self.close_journal(j, elems)
            self.journal.pop()
            del self.open[len(self.open) - len(elems):]
            self.close_journal(j, elems)
            for jo in self.journal:
                for kk, rec in j.items():
                    jo.setdefault(kk, rec)
            # returns recorded inside
            if len(fr.rets) > nret:
                seen = 0
                for i in range(nret, len(fr.rets)):
                    g0, v0 = fr.rets[i]
                    gc = m.diff(self.close(g0, elems), seen)
                    seen = m.or_(seen, gc)
                    fr.rets[i] = (gc, self.close_value(v0, elems, g0))
            lostc = self.close(lost, elems)
            brkc = m.and_(self.close(brk, elems), pc_before)
            brkc = m.diff(brkc, lostc)
            total_brk = m.or_(total_brk, brkc)
            self.pc = m.diff(m.diff(pc_before, lostc), brkc)
        fr.loops.pop()
        if orelse and self.pc != 0:
            self.block(orelse)
        self.pc = m.or_(self.pc, total_brk)

    def close_value(self, v, elems, cond):
        alts = []
        seen = 0
        m = self.m
        for g, s in v.alts:
            if g == 1:
                gc = 1
            elif self.bdd_elems(g) & set(elems):
                gc = m.diff(self.close(m.and_(g, cond), elems), seen)
                seen = m.or_(seen, gc)
            else:
                gc = g
            vv = self.some_rename(V(((1, s),)), elems, cond)
            alts.append((gc, vv.alts[0][1]))
        # B alternatives holding elements: close their truth under cond
        out = []
        for g, s in alts:
            if isinstance(s, B):
                eb = [e for e in self.bdd_elems(s.b)]
                if any(e in elems for e in eb):
                    s = B(self.close(self.m.and_(s.b, cond), elems))
            out.append((g, s))
        return self.join(out)

    def close_dict_entry(self, e, elems):
        m = self.m
        es = set(elems)
        if e is None:
            return
        g0 = e[1]
        if any(self.bdd_elems(g) & es for g, _ in e[2].alts):
            alts = []
            for g, s in e[2].alts:
                gc = m.constrain(g, g0) if g0 not in (0, 1) else g
                if self.bdd_elems(gc) & es:
                    gc = self.close(gc, elems)
                for og, _ in alts:
                    gc = m.diff(gc, og)
                if gc:
                    alts.append((gc, s))
            e[2] = self.some_rename(V(tuple(alts)), elems, g0) if alts \
                else e[2]
        if self.bdd_elems(g0) & es:
            e[1] = self.close(g0, elems)

    def close_journal(self, j, elems):
        m = self.m
        for (d, key, old) in list(j.values()):
            if d == 'D':
                self.close_dict_entry(key.entries.get(old), elems)
                continue
            new = d.get(key)
            if new is None or new is old:
                continue
            oldkeys = {}
            if old is not None:
                for g, s in old.alts:
                    oldkeys[s.key()] = g
            else:
                oldkeys[UNDEF.key()] = 1
            fresh = []
            gtot = 0
            for g, s in new.alts:
                if s.key() in oldkeys and \
                        not (self.bdd_elems(g) & set(elems) and
                             s.key() != UNDEF.key() and
                             m.diff(g, oldkeys[s.key()]) != 0):
                    continue
                if isinstance(s, B) and not (self.bdd_elems(s.b) &
                                             set(elems)) and \
                        not (self.bdd_elems(g) & set(elems)):
                    fresh.append((g, s))
                    gtot = m.or_(gtot, g)
                    continue
                if isinstance(s, B):
                    # split a boolean into its changed-to-true part
                    gg = self.close(g, elems)
                    b = self.close(m.and_(g, s.b), elems)
                    fresh.append((gg, B(b)))
                    gtot = m.or_(gtot, gg)
                    continue
                gc = m.diff(self.close(g, elems), gtot)
                vv = self.some_rename(V(((1, s),)), elems, g)
                fresh.append((gc, vv.alts[0][1]))
                gtot = m.or_(gtot, gc)
            if not fresh:
                # guards may mention elements only on old alternatives
                if old is not None:
                    d[key] = old
                else:
                    d.pop(key, None)
                continue
            base = old.alts if old is not None else ((1, UNDEF),)
            alts = fresh + [(m.diff(g, gtot), s) for g, s in base]
            alts = [a for a in alts if a[0] != 0]
            d[key] = self.join(alts)

    _SECOND = {}

    def needs_second_pass(self, node):
        """Does the loop body read a local before (re)assigning it while also
        assigning it (a loop-carried variable)?"""
        if node is None:
            return False
        r = self._SECOND.get(node)
        if r is not None:
            return r
        assigned = set()
        first_read = set()

        def expr(n, bound):
            for sub in ast.walk(n):
                if isinstance(sub, ast.Name) and isinstance(sub.ctx,
                                                            ast.Load) \
                        and sub.id not in bound:
                    first_read.add(sub.id)

        def tnames(t):
            return {x.id for x in ast.walk(t)
                    if isinstance(x, ast.Name) and
                    isinstance(x.ctx, ast.Store)}

        def run(stmts, bound):
            bound = set(bound)
            for s in stmts:
                if isinstance(s, ast.Assign):
                    expr(s.value, bound)
                    for t in s.targets:
                        assigned.update(tnames(t))
                        expr(t, bound)
                        bound |= tnames(t)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value, bound)
                    if isinstance(s.target, ast.Name):
                        if s.target.id not in bound:
                            first_read.add(s.target.id)
                        assigned.add(s.target.id)
                elif isinstance(s, ast.If):
                    expr(s.test, bound)
                    b1 = run(s.body, bound)
                    b2 = run(s.orelse, bound)
                    bound |= (b1 & b2)
                elif isinstance(s, (ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        expr(s.iter, bound)
                        b = bound | tnames(s.target)
                    else:
                        expr(s.test, bound)
                        b = bound
                    run(s.body, b)
                    run(s.orelse, bound)
                elif isinstance(s, ast.Try):
                    b1 = run(s.body, bound)
                    for hd in s.handlers:
                        run(hd.body, bound | ({hd.name} if hd.name
                                              else set()))
                    run(s.orelse, b1)
                    run(s.finalbody, bound)
                elif isinstance(s, ast.With):
                    for item in s.items:
                        expr(item.context_expr, bound)
                    bound = run(s.body, bound)
                else:
                    expr(s, bound)
                    for sub in ast.walk(s):
                        if isinstance(sub, (ast.Assign, ast.NamedExpr)):
                            pass
            return bound

        body = node.body
        start = set()
        if isinstance(node, ast.For):
            start = tnames(node.target)
        run(body, start)
        r = bool(assigned & first_read) or isinstance(node, ast.While) or \
            self.grows_and_reads(node)
        self._SECOND[node] = r
        return r

    MUTATORS = ('add', 'append', 'extend', 'update', 'insert', 'discard',
                'remove', 'setdefault', 'appendleft')

    def grows_and_reads(self, node):
        """Does the body look at a container that it also adds to?"""
        grown, recv = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name) and \
                    n.func.attr in self.MUTATORS:
                grown.add(n.func.value.id)
                recv.add(n.func.value)
        if not grown:
            return False
        return any(isinstance(n, ast.Name) and n.id in grown and
                   n not in recv and isinstance(n.ctx, ast.Load)
                   for st in node.body for n in ast.walk(st))

    def open_entry(self, g, v):
        """Rename clashing generic elements and return those newly opened."""
        els = set()
        if g != 1:
            els |= self.bdd_elems(g)
        els |= self.value_elems(v)
        els -= set(self.open)
        # Elements whose marker is in g and that are already open must be
        # renamed to a fresh level.
        if g != 1:
            marked = {a[1] for a in self.m.support_atoms(g)
                      if a[0] == 'elem'}
            clash = marked & set(self.open)
            own = getattr(self, '_shared_open', None)
            if clash:
                mp = {}
                for e in clash:
                    lvl = e[2] + 1
                    while ('e', e[1], lvl) in self.open:
                        lvl += 1
                    mp[e] = ('e', e[1], lvl)
                g = self.subst_bdd(g, mp)
                v = self.subst_value(v, mp)
                els = (self.bdd_elems(g) | self.value_elems(v)) - \
                    set(self.open)
        return g, v, sorted(els, key=repr)

    def s_While(self, s):
        m = self.m
        fr = self.frames[-1]
        lp = Loop()
        fr.loops.append(lp)
        brk = 0
        exits = 0
        sym = 0
        n = 0
        while True:
            n += 1
            self.step()
            self.cur_node = s
            c = self.truth(self.eval(s.test))
            pc0 = self.pc
            exits = m.or_(exits, m.diff(pc0, c))
            self.pc = m.and_(pc0, c)
            if self.pc == 0:
                break
            const = (m.constrain(c, pc0) == 1)
            limit = getattr(self, 'while_limit', 2)
            if (not const and sym >= limit) or n > 3000 or \
                    (const and self.pc != 1 and sym >= limit):
                # Give up precision: leave the loop on the remaining paths.
                exits = m.or_(exits, self.pc)
                self.pc = 0
                break
            if not const or self.pc != 1:
                sym += 1
            lp.brk = lp.cont = 0
            self.block(s.body)
            brk = m.or_(brk, lp.brk)
            self.pc = m.or_(self.pc, lp.cont)
            if self.pc == 0:
                break
            if const and n >= 3 and isinstance(s.test, ast.Constant) and \
                    n > limit:
                exits = m.or_(exits, self.pc)
                self.pc = 0
                break
        fr.loops.pop()
        self.pc = exits
        if s.orelse and self.pc:
            self.block(s.orelse)
        self.pc = m.or_(self.pc, brk)

    def s_Try(self, s):
        m = self.m
        classes = []
        for h in s.handlers:
            if h.type is None:
                classes.append(ExtV('BaseException'))
            else:
                tv = self.eval(h.type)
                classes.append(tv.alts[0][1])
        tf = TryFrame(classes)
        fin = TryFrame([ExtV('BaseException')]) if False else None
        depth_frames = len(self.frames)
        pc_in = self.pc
        self.tries.append(tf)
        nret = len(self.frames[-1].rets)
        self.block(s.body)
        self.tries.pop()
        body_pc = self.pc
        if s.orelse and body_pc != 0:
            self.block(s.orelse)
        out_pc = self.pc
        # distribute raised exceptions
        buckets = [[] for _ in s.handlers]
        for (g, ev, exc) in tf.raised:
            placed = False
            for i, c in enumerate(classes):
                if self.exc_matches(exc, c):
                    buckets[i].append((g, ev))
                    placed = True
                    break
            if not placed:
                if self.tries:
                    self.tries[-1].raised.append((g, ev, exc))
                else:
                    self.faults.append((self.exc_name(exc), 'uncaught', g,
                                        self.site(),
                                        tuple(self.stack_sites()),
                                        tuple(self.open)))
        for h, bucket in zip(s.handlers, buckets):
            if not bucket:
                continue
            gtot = m.disj(g for g, _ in bucket)
            if gtot == 0:
                continue
            self.pc = gtot
            if h.name:
                alts = []
                for g, ev in bucket:
                    for g2, s2 in ev.alts:
                        alts.append((m.and_(g, g2), s2))
                self.assign_name(h.name, self.join(alts))
            self.exc_sites.append(bucket)
            self.block(h.body)
            self.exc_sites.pop()
            out_pc = m.or_(out_pc, self.pc)
        self.pc = out_pc
        if s.finalbody:
            # runs on every exit; effects of early exits are approximated by
            # running it once under the entry guard.
            left = m.diff(pc_in, out_pc)
            self.pc = pc_in
            self.block(s.finalbody)
            self.pc = m.diff(self.pc, left)

    s_TryStar = s_Try

    def exc_name(self, exc):
        return exc.name if isinstance(exc, ClassV) else exc

    def s_Raise(self, s):
        if s.exc is None:
            for g, ev in (self.exc_sites[-1] if self.exc_sites else []):
                gg = self.m.and_(self.pc, g)
                if gg == 0:
                    continue
                exc = self.exc_class_of(ev.alts[0][1])
                self.do_raise(gg, ev, exc)
            self.pc = 0
            return
        ev = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        for g, sv in self.live(ev):
            if isinstance(sv, (ClassV, ExtV)):
                exc = sv if isinstance(sv, ClassV) else sv.name
                inst = self.call(one(sv), [], {})
                self.do_raise(g, inst, exc)
            else:
                self.do_raise(g, one(sv), self.exc_class_of(sv))
        self.pc = 0

    def exc_class_of(self, s):
        if isinstance(s, O):
            return s.cls
        if isinstance(s, Sy) and s.ty[0] == 'exc':
            return s.ty[1]
        return 'Exception'

    def do_raise(self, g, ev, exc):
        for t in reversed(self.tries):
            for c in t.classes:
                if self.exc_matches(exc, c):
                    self.tries[-1].raised.append((g, ev, exc))
                    return
        self.faults.append((self.exc_name(exc), 'explicit raise', g,
                            self.site(), tuple(self.stack_sites()),
                            tuple(self.open)))

    def s_With(self, s):
        entered = []
        for item in s.items:
            v = self.eval(item.context_expr)
            r = self.split(v, self.enter_ctx)
            if item.optional_vars is not None and self.pc != 0:
                self.assign(item.optional_vars, r)
            entered.append(v)
        fr = self.frames[-1]
        nret = len(fr.rets)
        self.block(s.body)
        for v in reversed(entered):
            if any(isinstance(x, O) and x.cls.lookup('__exit__') is not None
                   for _, x in v.alts):
                # on normal completion and on return
                pc0 = self.pc
                self.pc = self.m.disj([pc0] + [
                    g for g, _ in fr.rets[nret:]])
                if self.pc:
                    self.split(v, self.exit_ctx)
                self.pc = self.m.and_(self.pc, pc0)

    def exit_ctx(self, s):
        if isinstance(s, O) and s.cls.lookup('__exit__') is not None:
            self.call_method(s, '__exit__', [NONE, NONE, NONE])
        return NONE

    def enter_ctx(self, s):
        if isinstance(s, O):
            f = s.cls.lookup('__enter__')
            if f is not None:
                return self.call_method(s, '__enter__', [])
        if isinstance(s, ListV) and s.kind == 'ctx':
            return s.entries[0][1] if s.entries else NONE
        return one(s)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, one(self.import_module(a.name)))
            else:
                top = a.name.split('.')[0]
                self.import_module(a.name)
                self.assign_name(top, one(self.import_module(top)))

    def s_ImportFrom(self, s):
        mod = self.import_module(s.module) if not s.level else \
            self.import_module(self.rel(s))
        for a in s.names:
            v = self.import_attr(mod, a.name)
            self.assign_name(a.asname or a.name, v)

    def rel(self, s):
        cur = self.frames[-1].scope.module
        parts = cur.name.split('.')
        is_pkg = cur.path and cur.path.endswith('__init__.py')
        drop = s.level - (1 if is_pkg else 0)
        base = parts[:len(parts) - drop] if drop else parts
        return '.'.join(base + ([s.module] if s.module else []))

    def import_attr(self, mod, name):
        if isinstance(mod, ModV):
            if name in mod.ns:
                return mod.ns[name]
            sub = self.import_module(mod.name + '.' + name)
            if isinstance(sub, ModV):
                return one(sub)
            return one(ExtV(mod.name + '.' + name))
        full = mod.name + '.' + name
        return self.ext_const(full)

    def ext_const(self, full):
        from . import extlib
        if full in self.ext_override:
            return self.ext_override[full]
        c = extlib.CONSTS.get(full)
        if c is not None:
            return k(c)
        return one(ExtV(full))

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.package or name.startswith(self.package + '.'):
            base = os.path.join(self.root, *name.split('.'))
            path = None
            if os.path.isdir(base):
                path = os.path.join(base, '__init__.py')
            elif os.path.exists(base + '.py'):
                path = base + '.py'
            if path is None or not os.path.exists(path):
                return ExtV(name)
            return self.load(name, path)
        top = name.split('.')[0]
        if top in self.stubs:
            path = os.path.join(self.stubs[top], *name.split('.'))
            if os.path.isdir(path):
                return self.load(name, os.path.join(path, '__init__.py'))
            if os.path.exists(path + '.py'):
                return self.load(name, path + '.py')
        ex = ExtV(name)
        return ex

    def load(self, name, path):
        parent, _, leaf = name.rpartition('.')
        pm = self.import_module(parent) if parent else None
        if name in self.modules:
            return self.modules[name]
        mod = ModV(name, os.path.relpath(path, self.root))
        self.modules[name] = mod
        if isinstance(pm, ModV):
            pm.ns.setdefault(leaf, one(mod))
        hook = self.after_load.get(name)
        if hook is not None and hook(self, mod):
            return mod
        with open(path, encoding='utf-8') as f:
            mod.src = f.read()
        self.consulted.add(path)
        mod.tree = ast.parse(mod.src, path)
        mod.ns['__name__'] = k(name)
        mod.ns['__file__'] = k(path)
        scope = Scope(None, mod)
        scope.vars = mod.ns
        saved = (self.pc, self.tries, self.open, self.journal, self.cur_node)
        self.pc, self.tries, self.open, self.journal = 1, [], [], []
        fr = Frame(None, scope, 1)
        self.frames.append(fr)
        try:
            self.block(mod.tree.body)
        finally:
            self.frames.pop()
            (self.pc, self.tries, self.open, self.journal,
             self.cur_node) = saved
        return mod

    def s_FunctionDef(self, s):
        fv = self.make_func(s, s.args, s.name)
        v = one(fv)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v):
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            base = self.eval(d.value)
            p = base.single()
            if isinstance(p, PropV):
                return one(PropV(p.fget, v.alts[0][1]))
        dv = self.eval(d)
        return self.call(dv, [v], {})

    def make_func(self, node, args, name):
        scope = self.frames[-1].scope
        defaults = [self.eval(d) for d in args.defaults]
        kwd = [None if d is None else self.eval(d) for d in args.kw_defaults]
        is_gen = False
        if not isinstance(node, ast.Lambda):
            is_gen = local_names(node)[3]
        qual = name
        if scope.is_class:
            qual = scope.vars['__qualname__'].alts[0][1].v + '.' + name
        elif self.frames[-1].func is not None:
            qual = self.frames[-1].func.name + '.' + name
        fv = FuncV(node, scope, defaults, kwd, scope.module, qual, is_gen)
        if scope.is_class:
            fv.cls = scope
        return fv

    def s_ClassDef(self, s):
        bases = [self.eval(b).alts[0][1] for b in s.bases]
        fr = self.frames[-1]
        scope = Scope(fr.scope, fr.scope.module, is_class=True)
        scope.vars['__qualname__'] = k(s.name)
        nf = Frame(fr.func, scope, self.pc)
        self.frames.append(nf)
        self.block(s.body)
        self.frames.pop()
        ns = scope.vars
        cls = ClassV(s.name, bases, ns, fr.scope.module, s)
        ns['__name__'] = k(s.name)
        ns['__module__'] = k(fr.scope.module.name)
        for v in ns.values():
            for _, x in v.alts:
                self.set_owner(x, cls)
        from . import extlib
        extlib.finish_class(self, cls)
        v = one(cls)
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.assign_name(s.name, v)

    def set_owner(self, x, cls):
        if isinstance(x, FuncV):
            if isinstance(x.cls, Scope) or x.cls is None:
                x.cls = cls
        elif isinstance(x, PropV):
            for f in (x.fget, x.fset):
                if f is not None:
                    self.set_owner(f, cls)
        elif isinstance(x, WrapV):
            self.set_owner(x.func, cls)

    # -- assignment --------------------------------------------------------------
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts),
                                [i for i, x in enumerate(t.elts)
                                 if isinstance(x, ast.Starred)])
            for x, p in zip(t.elts, parts):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, p)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def assign_name(self, name, v):
        sc = self.frames[-1].scope
        if name in sc.globals_:
            self.store(sc.module.ns, name, v)
            return
        if name in sc.nonlocals:
            p = sc.parent
            while p is not None:
                if name in p.vars and not p.is_class:
                    self.store(p.vars, name, v)
                    return
                p = p.parent
        self.store(sc.vars, name, v)

    def unpack(self, v, n, star):
        """Destructure `v` into n Vs."""
        pcs = []
        outs = [[] for _ in range(n)]
        m = self.m
        pc0 = self.pc
        pc1 = 0
        for g, s in v.alts:
            gg = m.and_(pc0, g)
            if gg == 0:
                continue
            self.pc = gg
            parts = self.unpack_simple(s, n, star)
            pc1 = m.or_(pc1, self.pc)
            if parts is None:
                continue
            for o, p in zip(outs, parts):
                for g2, s2 in p.alts:
                    h = m.and_(g, g2)
                    if h:
                        o.append((h, s2))
        self.pc = pc1
        return [self.join(o) if o else NONE for o in outs]

    def unpack_simple(self, s, n, star):
        if isinstance(s, O) and s.prim is not None:
            ss = s.prim.single()
            if ss is not None:
                s = ss
        items = None
        if isinstance(s, TupV):
            items = list(s.items)
        elif isinstance(s, K) and isinstance(s.v, (tuple, list, str, bytes)):
            items = [k(x) for x in s.v]
        elif isinstance(s, ListV) and not s.opaque and \
                all(self.m.diff(self.pc, g) == 0 and
                    not self.bdd_elems(g) for g, _ in s.entries):
            items = [x for _, x in s.entries]
        elif isinstance(s, Sy):
            if s.ty[0] == 'tuple':
                items = [self.index_sy(s, i) for i in range(len(s.ty[1]))]
            elif s.ty[0] == 'cls' and self.nt_fields(s.ty[1]):
                items = [self.index_sy(s, i) for i in
                         range(len(self.nt_fields(s.ty[1])))]
            elif s.ty[0] in ('any', 'list', 'prim', 'cls'):
                if s.ty[0] == 'prim' and s.ty[1] in ('int', 'float', 'bool'):
                    self.fault('TypeError', 'unpacking a number')
                    return None
                if s.ty[0] == 'any':
                    self.note_untyped('unpack', s)
                elif not s.path or s.path[0] not in ('m', 'lib'):
                    self.risk('ValueError', 'unpacking into %d' % n,
                              self.m.not_(self.int_eq(('len', s.path), n)),
                              s.path)
                return [self.index_sy(s, i) for i in range(n)]
        elif isinstance(s, K) and s.v is None:
            self.fault('TypeError', 'unpacking None')
            return None
        elif isinstance(s, O) and s.prim is None and \
                s.cls.lookup('__iter__') is None:
            if s.cls.ext_bases():
                return [self.unknown(('unpack', self.pathof(s), i))
                        for i in range(n)]
            self.fault('TypeError', 'unpacking %s' % s.cls.name)
            return None
        if items is None:
            p = self.pathof(s)
            return [self.unknown(('i', p, i)) for i in range(n)]
        if star:
            i = star[0]
            after = n - i - 1
            mid = items[i:len(items) - after]
            return items[:i] + [one(ListV('list', [(1, x) for x in mid]))] + \
                items[len(items) - after:]
        if len(items) != n:
            self.fault('ValueError', 'unpacking %d values into %d' %
                       (len(items), n))
            return None
        return items

    def unknown(self, path, ty=ANY):
        return self.sy(path, ty)

    def sy(self, path, ty=ANY):
        """Instantiate a symbolic value of type `ty` at `path`."""
        if ty is None:
            ty = ANY
        t = ty[0]
        m = self.m
        if t == 'union':
            alts = []
            rest = 1
            tys = ty[1]
            for i, u in enumerate(tys):
                if i == len(tys) - 1:
                    g = rest
                else:
                    a = self.tag_atom(path, u)
                    g = m.and_(rest, a)
                    rest = m.diff(rest, a)
                for g2, s in self.sy(path, u).alts:
                    alts.append((m.and_(g, g2), s))
            return self.join(alts)
        if t == 'none':
            return NONE
        if t == 'const':
            return one(ty[1][1])
        if t == 'unav':
            return self.make_unav(path)
        if t == 'prim' and ty[1] == 'bool':
            return one(B(self.atom('truthy', path)))
        return one(Sy(path, ty))

    def make_unav(self, path):
        cls = self.unav_cls()
        if cls is None:
            return one(Sy(path, ('unav',)))
        return one(O(cls, {'inner': one(Sy(('inner', path), ANY))}, None,
                     ('unav', path)))

    def unav_cls(self):
        mod = self.modules.get(self.package + '.structure')
        if mod is None:
            return None
        v = mod.ns.get('Unavailable')
        return v.alts[0][1] if v is not None else None

    def tag_atom(self, path, u):
        if u[0] == 'none':
            return self.atom('isnone', path)
        if u[0] == 'unav':
            return self.atom('isunav', path)
        if u[0] == 'const':
            s = u[1][1]
            return self.eq_atom_path(path, self.pathof(s))
        return self.atom('is', path, ty_label(u))

    def eq_atom_path(self, p, q):
        return self.atom('eq', p, q)

    # -- attribute / item stores -----------------------------------------------
    def setattr(self, obj, name, v):
        def go(s):
            if isinstance(s, O):
                d = s.cls.lookup(name)
                if d is not None:
                    ds = d.alts[0][1]
                    if isinstance(ds, PropV):
                        if ds.fset is not None:
                            self.call(one(ds.fset), [one(s), v], {})
                        else:
                            self.fault('AttributeError',
                                       'property %s has no setter' % name)
                        return NONE
                self.store(s.attrs, name, v)
                self.on_setattr(s, name, v)
            elif isinstance(s, ClassV):
                self.store(s.ns, name, v)
            elif isinstance(s, ModV):
                self.store(s.ns, name, v)
            elif isinstance(s, FuncV):
                self.store(s.attrs, name, v)
            elif isinstance(s, Contract):
                s.setattr(self, name, v)
            elif isinstance(s, K) and s.v is None:
                self.fault('AttributeError', 'None.%s = ...' % name)
            return NONE
        self.split(obj, go)

    def on_setattr(self, o, name, v):
        pass

    def setitem(self, obj, idx, v):
        def go(s):
            if isinstance(s, O) and s.cls.lookup('__setitem__') is not None:
                self.call_method(s, '__setitem__', [idx, v])
                return NONE
            if isinstance(s, DictV):
                self.dict_set(s, idx, v)
            elif isinstance(s, Contract) and hasattr(s, 'setitem'):
                s.setitem(self, idx, v)
            elif isinstance(s, ListV):
                i = idx.single()
                if isinstance(i, K) and isinstance(i.v, slice):
                    if i.v == slice(None, None, None):
                        self.refill(s, self.entries_of(v))
                        return NONE
                if isinstance(i, K) and isinstance(i.v, int) and \
                        -len(s.entries) <= i.v < len(s.entries) and \
                        all(g == 1 for g, _ in s.entries):
                    old = s.entries[i.v][1]
                    s.entries[i.v] = (1, self.ite(self.pc, v, old))
                else:
                    s.opaque = ('mut', id(s) and s.label or 'list')
            elif isinstance(s, K) and hasattr(s.v, 'setitem'):
                s.v.setitem(idx.alts[0][1].v, v.alts[0][1].v)
            elif isinstance(s, K) and s.v is None:
                self.fault('TypeError', 'None[...] = ...')
            return NONE
        self.split(obj, go)

    def delitem(self, obj, idx):
        def go(s):
            if isinstance(s, DictV):
                kk = self.norm_key(idx)
                if kk is not None and kk in s.entries:
                    e = s.entries[kk]
                    g = self.m.diff(e[1], self.pc)
                    if g == 0:
                        del s.entries[kk]
                    else:
                        e[1] = g
                else:
                    s.opaque = True
            elif isinstance(s, ListV):
                i = idx.single()
                if isinstance(i, K) and i.v == slice(None, None, None):
                    self.refill(s, [])
                elif isinstance(i, K) and type(i.v) is int and \
                        self.m.diff(s.born, self.pc) == 0 and \
                        s.opaque is None and all(
                            g == 1 for g, _ in s.entries) and \
                        -len(s.entries) <= i.v < len(s.entries):
                    del s.entries[i.v]
                else:
                    s.opaque = ('mut', 'del')
            return NONE
        self.split(obj, go)

    def refill(self, lst, new):
        """The contents of a list become `new` under the current
        condition."""
        m = self.m
        if m.diff(lst.born, self.pc) == 0 or self.sole_path():
            lst.entries[:] = list(new)
            return
        old = [(m.diff(g, self.pc), x) for g, x in lst.entries]
        lst.entries[:] = [e for e in old if e[0]] + [
            (h, x) for h, x in ((m.and_(g, self.pc), x) for g, x in new) if h]

    # -- expressions ----------------------------------------------------------------
    def eval(self, n):
        self.step()
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            self.note_undecided('expression %s' % type(n).__name__)
            return self.unknown(self.fresh('expr'))
        return f(n)

    def e_Constant(self, n):
        return k(n.value)

    def e_JoinedStr(self, n):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(k(x.value))
            else:
                parts.append(self.eval(x.value))
        if all(isinstance(x, ast.Constant) or
               (x.conversion in (-1, 115) and x.format_spec is None)
               for x in n.values):
            ss = [p.single() for p in parts]
            if all(isinstance(s, K) for s in ss):
                return k(''.join(str(s.v) for s in ss))
            r = self.joined(K('%s' * len(parts)), TupV(parts))
            if r is not None:
                return r
        return one(Sy(('fmt',) + tuple(self.vpath(p) for p in parts),
                      ('prim', 'str')))

    def e_Name(self, n):
        self.last_name = n
        return self.load_name(n.id)

    def load_name(self, name):
        fr = self.frames[-1]
        sc = fr.scope
        first = True
        while sc is not None:
            if (first or not sc.is_class):
                v = sc.vars.get(name)
                if v is not None and name not in sc.globals_:
                    alts = v.alts
                    if len(alts) == 1 and alts[0][1] is not UNDEF:
                        return v
                    if any(s is UNDEF for _, s in alts):
                        return self.defined_part(name, v)
                    return v
                if first and name in sc.locals and name not in sc.globals_:
                    self.fault('UnboundLocalError', name)
                    return NONE
            first = False
            sc = sc.parent
        v = fr.scope.module.ns.get(name)
        if v is not None:
            return v
        b = self.builtin(name)
        if b is not None:
            return b
        self.fault('NameError', name)
        return NONE

    def defined_part(self, name, v):
        m = self.m
        und = m.disj(g for g, s in v.alts if s is UNDEF)
        defd = m.disj(g for g, s in v.alts if s is not UNDEF)
        bad = m.diff(m.and_(self.pc, und), defd)
        if bad != 0:
            pc0 = self.pc
            self.pc = bad
            self.fault('UnboundLocalError', name)
            self.pc = m.or_(self.pc, m.diff(pc0, bad))
        alts = tuple((g, s) for g, s in v.alts if s is not UNDEF)
        return V(alts) if alts else NONE

    def builtin(self, name):
        from . import extlib
        return extlib.builtin(self, name)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Tuple(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            ents = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    ents += self.entries_of(self.eval(x.value))
                else:
                    ents.append((1, self.eval(x)))
            if all(g == 1 for g, _ in ents):
                return one(TupV([v for _, v in ents]))
            return one(ListV('tuple', ents))
        return one(TupV([self.eval(x) for x in n.elts]))

    def e_List(self, n, kind='list'):
        ents = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                ents += self.entries_of(self.eval(x.value))
            else:
                ents.append((1, self.eval(x)))
        return one(ListV(kind, ents, born=self.pc))

    def e_Set(self, n):
        return self.e_List(n, 'set')

    def e_Dict(self, n):
        d = DictV()
        for kk, vv in zip(n.keys, n.values):
            if kk is None:
                src = self.eval(vv)
                self.dict_update(d, src)
            else:
                self.dict_set(d, self.eval(kk), self.eval(vv), init=True)
        return one(d)

    def e_Lambda(self, n):
        return one(self.make_func(n, n.args, '<lambda>'))

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        m = self.m
        pc0 = self.pc
        self.pc = m.and_(pc0, c)
        a = self.eval(n.body) if self.pc else None
        pa = self.pc
        self.pc = m.diff(pc0, c)
        b = self.eval(n.orelse) if self.pc else None
        self.pc = m.or_(pa, self.pc)
        if a is None and b is None:
            return NONE
        if a is None:
            return b
        if b is None:
            return a
        return self.ite(c, a, b)

    def e_BoolOp(self, n):
        m = self.m
        is_and = isinstance(n.op, ast.And)
        pc0 = self.pc
        out_pc = 0
        result = None
        pend = []       # (stop condition, value)
        for i, x in enumerate(n.values):
            v = self.eval(x)
            if i == len(n.values) - 1:
                pend.append((1, v))
                out_pc = m.or_(out_pc, self.pc)
                break
            t = self.truth(v)
            stop = m.not_(t) if is_and else t
            pend.append((stop, v))
            out_pc = m.or_(out_pc, m.and_(self.pc, stop))
            self.pc = m.diff(self.pc, stop)
            if self.pc == 0:
                break
        self.pc = out_pc
        result = pend[-1][1]
        for stop, v in reversed(pend[:-1]):
            result = self.ite(stop, v, result)
        return result

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        op = type(n.op).__name__
        if op == 'Not':
            return self.bv(self.m.not_(self.truth(v)))

        def go(s):
            s0 = self.unprim(s)
            if isinstance(s0, K) and s0.v is not None:
                try:
                    if op == 'USub':
                        return k(-s0.v)
                    if op == 'Invert':
                        return k(~s0.v)
                    return k(+s0.v)
                except TypeError:
                    pass
            return one(Sy(('op', op, self.pathof(s)), ANY))
        return self.split(v, go)

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        if self.pc == 0:
            return NONE
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n):
        left = self.eval(n.left)
        m = self.m
        pc0 = self.pc
        out_pc = 0
        acc = 1
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r)
            if self.pc == 0:
                break
            if len(n.ops) == 1:
                rv = self.user_operator(type(op).__name__, left, right)
                if rv is not None:
                    return rv
            b = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return self.bv(b)
            acc = m.and_(acc, b)
            out_pc = m.or_(out_pc, m.diff(self.pc, b))
            if i < len(n.ops) - 1:
                self.pc = m.and_(self.pc, b)
            else:
                out_pc = m.or_(out_pc, self.pc)
            left = right
            if self.pc == 0:
                break
        self.pc = out_pc
        return self.bv(acc)

    def user_operator(self, op, left, right):
        """A comparison operator overloaded to return a non-boolean (the
        grammar combinators' ``symbol > seal``)."""
        if op != 'Gt':
            return None
        s = left.single()
        if not isinstance(s, O) or s.prim is not None:
            return None
        f = s.cls.lookup('__gt__')
        if f is None or not isinstance(f.alts[0][1], FuncV):
            return None
        return self.call(one(BoundV(f.alts[0][1], one(s))), [right], {})

    def e_Attribute(self, n):
        v = self.eval(n.value)
        if self.pc == 0:
            return NONE
        self.cur_node = n
        return self.getattr(v, n.attr)

    def e_Subscript(self, n):
        v = self.eval(n.value)
        idx = self.eval(n.slice)
        if self.pc == 0:
            return NONE
        self.cur_node = n
        return self.getitem(v, idx)

    def e_Slice(self, n):
        lo = self.eval(n.lower) if n.lower is not None else NONE
        hi = self.eval(n.upper) if n.upper is not None else NONE
        st = self.eval(n.step) if n.step is not None else NONE
        ss = [x.single() for x in (lo, hi, st)]
        ss = [self.unprim(x) if x is not None else None for x in ss]
        if all(isinstance(x, K) for x in ss):
            return one(K(slice(ss[0].v, ss[1].v, ss[2].v)))
        return one(Sy(('slice', self.vpath(lo), self.vpath(hi),
                       self.vpath(st)), ('slice',)))

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Call(self, n):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.do_super(n)
        f = self.eval(n.func)
        if self.pc == 0:
            return NONE
        args = []
        opaque_star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                ents = self.star_items(self.eval(a.value))
                if ents is None:
                    opaque_star = True
                else:
                    args += ents
            else:
                args.append(self.eval(a))
            if self.pc == 0:
                return NONE
        kwargs = {}
        for kw in n.keywords:
            if kw.arg is None:
                self.expand_kwargs(self.eval(kw.value), kwargs)
            else:
                kwargs[kw.arg] = self.eval(kw.value)
            if self.pc == 0:
                return NONE
        self.cur_node = n
        if opaque_star:
            kwargs['*'] = one(Sy(('starargs',), ANY))
        return self.call(f, args, kwargs, n)

    def star_items(self, v):
        s = v.single()
        if isinstance(s, TupV):
            return list(s.items)
        if isinstance(s, K) and isinstance(s.v, (tuple, list)):
            return [k(x) for x in s.v]
        if isinstance(s, O) and s.prim is not None:
            return self.star_items(s.prim)
        if isinstance(s, ListV) and not s.opaque and \
                all(g == 1 for g, _ in s.entries):
            return [x for _, x in s.entries]
        if isinstance(s, Sy) and s.ty[0] == 'tuple':
            return [self.index_sy(s, i) for i in range(len(s.ty[1]))]
        return None

    def expand_kwargs(self, v, out):
        s = v.single()
        if isinstance(s, DictV):
            for kk, (kv, g, vv) in s.entries.items():
                ks = kv.single()
                if isinstance(ks, K):
                    out[ks.v] = vv
            if s.opaque:
                out['**'] = one(s)
        else:
            out['**'] = v

    def do_super(self, n):
        fr = None
        for f in reversed(self.frames):
            if f.cls is not None:
                fr = f
                break
        if n.args:
            cls = self.eval(n.args[0]).alts[0][1]
            obj = self.eval(n.args[1]) if len(n.args) > 1 else None
        else:
            cls = fr.cls
            a = fr.func.node.args
            name = (a.posonlyargs + a.args)[0].arg
            obj = fr.scope.vars[name]
        from .extlib import SuperV
        return one(SuperV(cls, obj))

    def e_ListComp(self, n):
        return self.comp(n, 'list')

    def e_SetComp(self, n):
        return self.comp(n, 'set')

    def e_GeneratorExp(self, n):
        return self.comp(n, 'iter')

    def e_DictComp(self, n):
        d = DictV()
        out = self.comp(n, 'dict')
        for g, v in out.alts[0][1].entries:
            pr = v.alts[0][1]
            pc0 = self.pc
            self.pc = self.m.and_(pc0, g)
            if self.pc:
                self.dict_set(d, pr.items[0], pr.items[1])
            self.pc = pc0
        return one(d)

    def comp(self, n, kind):
        fr = self.frames[-1]
        sc = Scope(fr.scope, fr.scope.module)
        nf = Frame(fr.func, sc, self.pc)
        nf.cls = fr.cls
        m = self.m
        out = ListV(kind if kind != 'dict' else 'list', [])
        pc_start = self.pc

        def gen(i):
            if i == len(n.generators):
                if kind == 'dict':
                    e = one(TupV([self.eval(n.key), self.eval(n.value)]))
                else:
                    e = self.eval(n.elt)
                if self.pc != 0:
                    out.entries.append(
                        (m.constrain(self.pc, pc_start)
                         if not self.open_new(pc_start) else
                         self.strip(self.pc, pc_start), e))
                return
            g = n.generators[i]
            if i == 0:
                self.frames.pop()
                it = self.eval(g.iter)
                self.frames.append(nf)
            else:
                it = self.eval(g.iter)
            if self.pc == 0:
                return

            def body(v):
                self.assign(g.target, v)
                for c in g.ifs:
                    if self.pc == 0:
                        return
                    t = self.truth(self.eval(c))
                    skip = m.diff(self.pc, t)
                    self.pc = m.and_(self.pc, t)
                    lp = nf.loops[-1]
                    lp.cont = m.or_(lp.cont, skip)
                if self.pc != 0:
                    gen(i + 1)
            self.loop_over(it, body)
        self.frames.append(nf)
        try:
            gen(0)
        finally:
            self.frames.pop()
        if kind == 'set':
            out.entries[:] = extlib.distinct(self, out.entries)
        return one(out)

    def open_new(self, pc):
        return False

    def strip(self, f, c):
        return f

    def e_Yield(self, n):
        fr = self.frames[-1]
        v = self.eval(n.value) if n.value is not None else NONE
        for f in reversed(self.frames):
            if f.yields is not None:
                f.yields.append((self.pc, v))
                break
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        for f in reversed(self.frames):
            if f.yields is not None:
                for g, x in self.entries_of(v):
                    gg = self.m.and_(self.pc, g)
                    if gg:
                        f.yields.append((gg, x))
                break
        return NONE

    def e_Await(self, n):
        return self.eval(n.value)

    def e_FormattedValue(self, n):
        return self.eval(n.value)

    # -- calls --------------------------------------------------------------------
    def call(self, f, args, kwargs, node=None):
        return self.split(f, lambda s: self.call1(s, args, kwargs, node))

    def call1(self, s, args, kwargs, node=None):
        if self.pc == 0:
            return NONE
        if isinstance(s, BoundV):
            return self.call1(s.func, [s.self_] + list(args), kwargs, node)
        if isinstance(s, FuncV):
            return self.call_func(s, args, kwargs)
        if isinstance(s, NatV):
            return s.fn(self, args, kwargs)
        if isinstance(s, ClassV):
            h = self.class_intercepts.get((s.module.name if s.module else '')
                                          + ':' + s.name)
            if h is not None:
                r = h(self, s, args, kwargs)
                if r is not None:
                    return r
            from . import extlib
            return extlib.instantiate(self, s, args, kwargs)
        if isinstance(s, (ExtV, ExtMeth)):
            from . import extlib
            return extlib.call_ext(self, s, args, kwargs)
        if isinstance(s, WrapV):
            return self.call1(s.func, args, kwargs, node)
        if isinstance(s, Contract):
            return s.call(self, args, kwargs)
        if isinstance(s, O):
            m = s.cls.lookup('__call__')
            if m is not None:
                return self.call_method(s, '__call__', args, kwargs)
            if not s.cls.ext_bases():
                self.fault('TypeError', 'calling a %s' % s.cls.name)
            return NONE
        if isinstance(s, K):
            if s.v is None:
                self.fault('TypeError', 'calling None')
                return NONE
            self.fault('TypeError', 'calling %r' % (s.v,))
            return NONE
        if isinstance(s, Sy):
            self.note_untyped('call', s)
            return self.unknown(('call', s.path) +
                                tuple(self.vpath(a) for a in args))
        self.note_undecided('call of %r' % (s,))
        return self.unknown(self.fresh('call'))

    def call_method(self, s, name, args, kwargs=None):
        f = self.getattr1(s, name)
        return self.call(f, args, kwargs or {})

    def call_func(self, f, args, kwargs):
        key = (f.module.name if f.module else '') + ':' + f.name
        h = self.intercepts.get(key)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not None:
                return r
        node = f.node
        depth = 0
        for fr in self.frames:
            if fr.func is not None and fr.func.node is node:
                depth += 1
        if depth > 0:
            lim = getattr(self, 'rec_limit', 3) if self.pc != 1 or \
                self.open else 40
            if depth >= lim or len(self.frames) > 150:
                self.note_undecided('recursion in %s' % f.name)
                return self.unknown(('rec', f.name) +
                                    tuple(self.vpath(a) for a in args))
        self.visited_calls += 1
        if f.module is not None:
            self.visited_funcs[key] = self.visited_funcs.get(key, 0) + 1
        names, globs, nonl, is_gen = local_names(node)
        if is_gen and self.lazy and self.starting is not f:
            return one(LazyGen(f, args, kwargs))
        self.starting = None
        sc = Scope(f.scope if f.scope is not None else None, f.module, names)
        sc.globals_ = globs
        sc.nonlocals = nonl
        saved_node = self.cur_node
        if not self.bind(f, sc, args, kwargs):
            return NONE
        fr = Frame(f, sc, self.pc)
        fr.args = args
        if isinstance(f.cls, ClassV):
            fr.cls = f.cls
        if is_gen:
            fr.yields = []
        pc_in = self.pc
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                r = self.eval(node.body)
                if self.pc != 0:
                    fr.rets.append((self.pc, r))
                    self.pc = 0
            else:
                self.block(node.body)
        finally:
            self.frames.pop()
            self.cur_node = saved_node
        m = self.m
        if self.pc != 0:
            fr.rets.append((self.pc, NONE))
        self.pc = m.disj(g for g, _ in fr.rets)
        if is_gen:
            self.pc = m.or_(self.pc, 0)
            ents = [(m.constrain(g, pc_in) if not self.bdd_elems(pc_in)
                     else g, v) for g, v in fr.yields]
            return one(ListV('iter', ents))
        if not fr.rets:
            return NONE
        if len(fr.rets) == 1:
            return fr.rets[0][1]
        alts = []
        done = 0
        # cofactor return guards by the entry guard to keep them small
        for g, v in fr.rets:
            gc = m.constrain(m.diff(g, done), pc_in)
            for g2, s2 in v.alts:
                h = m.and_(gc, g2)
                if h:
                    alts.append((h, s2))
        return self.join(alts) if alts else NONE

    def bind(self, f, sc, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        star = kwargs.pop('*', None)
        dstar = kwargs.pop('**', None)
        vals = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            self.fault('TypeError', '%s() takes %d positional arguments '
                       'but %d were given' % (f.name, len(pos), len(args)))
            return False
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = one(TupV(args[len(pos):])) \
                if star is None else star
        kwonly = {x.arg for x in a.kwonlyargs}
        posn = {x.arg for x in a.args}
        extra = DictV()
        for kk, v in kwargs.items():
            if kk in posn or kk in kwonly:
                if kk in vals:
                    self.fault('TypeError', '%s() got multiple values for '
                               'argument %r' % (f.name, kk))
                    return False
                vals[kk] = v
            elif a.kwarg is not None:
                self.dict_set(extra, k(kk), v, init=True)
            else:
                self.fault('TypeError', '%s() got an unexpected keyword '
                           'argument %r' % (f.name, kk))
                return False
        nd = len(pos) - len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vals:
                if i >= nd:
                    vals[p.arg] = f.defaults[i - nd]
                elif star is not None or dstar is not None:
                    vals[p.arg] = self.unknown(('arg', f.name, p.arg))
                else:
                    self.fault('TypeError', '%s() missing argument %r' %
                               (f.name, p.arg))
                    return False
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals:
                if d is not None:
                    vals[x.arg] = d
                elif dstar is not None:
                    vals[x.arg] = self.unknown(('arg', f.name, x.arg))
                else:
                    self.fault('TypeError', '%s() missing keyword argument '
                               '%r' % (f.name, x.arg))
                    return False
        if a.kwarg is not None:
            if dstar is not None:
                extra.opaque = True
                extra.label = dstar
            vals[a.kwarg.arg] = one(extra)
        sc.vars.update(vals)
        return True

    # delegated to ops.py -----------------------------------------------------


from . import ops  # noqa: E402  (installs methods on Interp)
ops.install(Interp)
from . import extlib  # noqa: E402
extlib._install_hooks()
