"""Symbolic interpreter for the Python subset used by /repo: executes the *current source* of the
real functions on symbolic arrays.  Nothing of the source is rewritten; functions are taken from the
module text as parsed on this run."""
import builtins as pybuiltins
import ast, os, z3, operator, math, inspect
from fractions import Fraction
from . import sym as s
from . import arr as A
from .arr import SArr, SList, PyRaise, asarr, isarr, scalar, Slc
from .sym import Sym, S, And, Or, Not, Unsupported, conc, is_bool, toz3b, unwrap
from .ctx import Ctx, idx, iterms, PathEnd

class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass

class IClass(object):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = self._mro()
    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, IClass)] + [[b for b in self.bases if isinstance(b, IClass)]]
        res = [self]
        while True:
            seqs = [q for q in seqs if q]
            if not seqs: return res
            for q in seqs:
                c = q[0]
                if not any(c in r[1:] for r in seqs): break
            else: raise Unsupported('mro')
            res.append(c)
            for q in seqs:
                if q[0] is c: del q[0]
    def lookup(self, name):
        for c in self.mro:
            if name in c.ns: return c.ns[name], c
        return None, None
    def extbases(self):
        r = []
        for c in self.mro:
            r += [b for b in c.bases if not isinstance(b, IClass)]
        return r
    def __repr__(self): return '<IClass %s>' % self.name

class IObj(object):
    def __init__(self, cls): self.cls, self.d = cls, {}
    def __repr__(self): return '<%s obj>' % self.cls.name

class IFunc(object):
    def __init__(self, node, module, closure, qual, cls=None):
        self.node, self.module, self.closure, self.qual, self.cls = node, module, closure, qual, cls
        self.defaults, self.kwdefaults = [], {}
        self.isgen = _has_yield(node) if not isinstance(node, ast.Lambda) else False
    @property
    def name(self): return getattr(self.node, 'name', '<lambda>')
    def __repr__(self): return '<IFunc %s>' % self.qual

class IMethod(object):
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class IProp(object):
    def __init__(self, fget, cached=False): self.fget, self.cached, self.fset = fget, cached, None
class IStatic(object):
    def __init__(self, fn): self.fn = fn
class IClassM(object):
    def __init__(self, fn): self.fn = fn
class ISuper(object):
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
class IModule(object):
    def __init__(self, name, path): self.name, self.path, self.g = name, path, {}
class Opaque(object):
    """an external thing the verifier has no contract for"""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<opaque %s>' % self.name
class Ns(object):
    """attribute namespace backed by python callables"""
    def __init__(self, name, d): self.name, self.d = name, d
class Builtin(object):
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<builtin %s>' % self.name
class ExcType(object):
    def __init__(self, name, parents=()): self.name, self.parents = name, parents
    def __repr__(self): return '<exc %s>' % self.name
class Dt(object):
    """a dtype / type token"""
    def __init__(self, k, name): self.k, self.name = k, name

def _has_yield(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(n))
    return False

EXC = {}
for _n, _p in [('Exception', ()), ('AssertionError', ('Exception',)), ('ValueError', ('Exception',)), ('TypeError', ('Exception',)),
               ('AttributeError', ('Exception',)), ('LookupError', ('Exception',)), ('IndexError', ('LookupError', 'Exception')), ('KeyError', ('LookupError', 'Exception')),
               ('NotImplementedError', ('Exception', 'RuntimeError')), ('RuntimeError', ('Exception',)), ('StopIteration', ('Exception',)),
               ('Warning', ('Exception',)), ('DeprecationWarning', ('Exception', 'Warning')), ('PendingDeprecationWarning', ('Exception', 'Warning')), ('UserWarning', ('Exception', 'Warning')), ('RuntimeWarning', ('Exception', 'Warning')), ('ZeroDivisionError', ('Exception', 'ArithmeticError')), ('ImportError', ('Exception',)), ('FloatingPointError', ('Exception',)), ('KeyboardInterrupt', ()), ('OverflowError', ('Exception', 'ArithmeticError')),
               ('UserWarning', ('Exception',)), ('Warning', ('Exception',)), ('LinAlgError', ('Exception',))]:
    EXC[_n] = ExcType(_n, _p)

class Frame(object):
    def __init__(self, fn, locs, module, closure, qual):
        self.fn, self.l, self.module, self.closure, self.qual = fn, locs, module, closure, qual
        self.yields = None
        self.globalnames = set()
        self.loopno = 0

class Oracle(object):
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.alts = prefix, 0, [], []
        self.depth = Ctx.cur.depth if Ctx.cur is not None else 0

class Interp(object):
    MAXPATHS = 64
    MAXSTEPS = 400000
    def __init__(self, repo, ctx=None, shims=None):
        self.repo = repo
        self.ctx = ctx or Ctx()
        self.modules = {}
        self.shims = shims or {}
        self.contracts = {}
        self.loop_contracts = {}
        self.oracle = Oracle([])
        self.trail = []
        A.TRAIL[0] = self.trail
        A.DECIDE[0] = self.require
        self.called = {}       # qual -> count: functions executed from source
        self.bycontract = {}   # qual -> count: functions used through their contract
        self.external = {}     # external calls used
        self.steps = 0
        self.depth = 0
        self.entry = None
        s.NONZERO[0] = self._nonzero
        s.LOGPOS[0] = lambda e: self.ctx.refutable(e <= 0)
        from . import npshim
        self.texts, self.peel, self.iter_hooks = [], {}, []
        self.np = npshim.make(self)
        if not shims: self.shims = npshim.make_shims(self)
        self.builtins = npshim.builtins(self)

    def _nonzero(self, e):
        v = unwrap(e)
        if v is not None: return v != 0
        return self.ctx.refutable(e == 0, timeout=800)

    # -- decisions --------------------------------------------------------------------
    def decide(self, cond):
        """truth value of a symbolic condition on this path"""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond) if False else cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        o = self.oracle
        if self.ctx.depth > o.depth:
            for u in iterms(cond):
                if z3.is_const(u) and u.decl().name().startswith('#') and int(u.decl().name()[1:]) >= o.depth:
                    raise Unsupported('data-dependent decision inside a reduction')
        if o.pos < len(o.prefix):
            d = o.prefix[o.pos]
        else:
            if self.ctx.refutable(Not(cond)): d = True; alt = False
            elif self.ctx.refutable(cond): d = False; alt = False
            else: d = True; alt = True
            if alt: o.alts.append(list(o.taken) + [not d])
        o.pos += 1; o.taken.append(d)
        self.ctx.path.append(toz3b(cond if d else Not(cond)))
        return d

    def require(self, cond, exc):
        if not self.decide(cond): raise exc

    def truth(self, v):
        if v is None: return False
        if isinstance(v, bool): return v
        if conc(v): return v != 0
        if isinstance(v, (str, list, tuple, dict, set)): return len(v) > 0
        if is_bool(v): return self.decide(v)
        if isinstance(v, Sym): return self.decide(s.ne(v, 0))
        if isinstance(v, SArr):
            if v.ndim == 0: return self.truth(v.at())
            sz = A.size(v)
            if isinstance(sz, int) and sz == 1: return self.truth(v.at(*([0] * v.ndim)))
            raise Unsupported('truth of an array')
        if isinstance(v, SList): return self.decide(idx(v.n) > 0)
        if isinstance(v, IObj):
            f, _ = v.cls.lookup('__bool__')
            if f is not None: return self.truth(self.call(IMethod(f, v), []))
            f, _ = v.cls.lookup('__len__')
            if f is not None: return self.truth(self.call(IMethod(f, v), []))
            return True
        return True

    # -- path exploration ----------------------------------------------------------------
    def run_paths(self, thunk, on_path, maxpaths=None):
        """run thunk once per path from scratch; on_path(outcome) is called at the end of each path"""
        work = [[]]
        npaths = 0
        while work:
            pre = work.pop()
            npaths += 1
            if npaths > (maxpaths or self.MAXPATHS): raise Unsupported('too many paths')
            self.ctx.fork()
            self.trail[:] = []
            self.oracle = Oracle(pre)
            self.steps = 0; self.depth = 0
            try:
                try: out = ('val', thunk())
                except PyRaise as e: out = ('exc', e)
                on_path(out)
            except PathEnd: pass
            work.extend(self.oracle.alts)
        return npaths

    def explore(self, thunk, capture):
        """run thunk under every local path, rolling back side effects after each;
        returns [(cond, capture(outcome))]"""
        saved = self.oracle
        res = []
        work = [[]]
        n = 0
        while work:
            pre = work.pop(); n += 1
            if n > 32: raise Unsupported('too many local paths')
            mark, plen = len(self.trail), len(self.ctx.path)
            self.oracle = Oracle(pre)
            try:
                try: out = ('val', thunk())
                except PyRaise as e: out = ('exc', e)
                except _Continue: out = ('cont', None)
                except _Break: out = ('brk', None)
                except _Return as r: out = ('ret', r.v)
                cond = And(*self.ctx.path[plen:])
                res.append((cond, capture(out)))
                work.extend(self.oracle.alts)
            finally:
                self.oracle, o_ = saved, self.oracle
                self.rollback(mark)
                del self.ctx.path[plen:]
        return res

    def rollback(self, mark):
        while len(self.trail) > mark: self.trail.pop()()

    def merge(self, rs):
        """merge values of [(cond, value)] into one"""
        v = rs[-1][1]
        for c, w in reversed(rs[:-1]): v = self.ite(c, w, v)
        return v

    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if scalar(a) and scalar(b): return s.ite(c, a, b)
        if isarr(a) or isarr(b):
            a, b = asarr(a), asarr(b)
            if a.ndim == b.ndim and all(A.dimeq(x, y) is True for x, y in zip(a.shape, b.shape)):
                ga, gb = a.getter(), b.getter()
                return SArr(a.shape, lambda *i: s.ite(c, ga(*i), gb(*i)), a.kind)
            if a.ndim == b.ndim and a.kind == b.kind:
                # both alternatives kept: each dimension is the one of the alternative taken
                ga, gb = a.getter(), b.getter()
                sh = [x if A.dimeq(x, y) is True else z3.If(toz3b(c), idx(x), idx(y)) for x, y in zip(a.shape, b.shape)]
                return SArr(sh, lambda *i: s.ite(c, ga(*i), gb(*i)), a.kind)
        if isinstance(a, (tuple, list)) and type(a) == type(b) and len(a) == len(b):
            return type(a)(self.ite(c, x, y) for x, y in zip(a, b))
        if conc(a) and conc(b) and a == b: return a
        if isinstance(a, str) and a == b: return a
        raise Unsupported('merge of %r and %r' % (type(a), type(b)))

    def lazy(self, thunk):
        """evaluate a pure expression, merging its local paths"""
        def cap(out):
            if out[0] != 'val':
                if out[0] == 'exc': return out[1]
                raise Unsupported('control flow in an expression')
            return out[1]
        rs = self.explore(thunk, cap)
        good = [(c, v) for c, v in rs if not isinstance(v, PyRaise)]
        bad = [(c, v) for c, v in rs if isinstance(v, PyRaise)]
        if not good: raise bad[0][1]
        if bad: raise Unsupported('conditional exception %s in a comprehension/loop body' % bad[0][1].name)
        return self.merge(good)

    # -- modules --------------------------------------------------------------------------
    def module(self, name):
        """load psdr(.sub) from the source tree"""
        if name in self.modules: return self.modules[name]
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel + '.py'); ispkg = False
        if not os.path.exists(p):
            p = os.path.join(self.repo, rel, '__init__.py'); ispkg = True
        if not os.path.exists(p): raise Unsupported('module %s' % name)
        m = IModule(name, p); m.ispkg = ispkg
        self.modules[name] = m
        m.g['__name__'] = name
        with open(p) as f: src = f.read()
        tree = ast.parse(src)
        fr = Frame(None, m.g, m, None, name)
        for st in tree.body:
            try: self.stmt(st, fr)
            except (Unsupported, PyRaise) as e:
                # bind the assigned names to an opaque value
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): m.g.setdefault(n.id, Opaque('%s.%s (%s)' % (name, n.id, e)))
        return m

    def get(self, qual):
        """'psdr.domains.euclidean:EuclideanDomain._normalize' -> function object"""
        mod, path = qual.split(':')
        o = self.module(mod)
        for p in path.split('.'):
            if isinstance(o, IModule): o = o.g[p]
            else: o = o.lookup(p)[0]
        return o

    def import_(self, name, fr, level=0):
        if level:
            base = fr.module.name.split('.')
            if not getattr(fr.module, 'ispkg', False): base = base[:-1]
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == 'numpy': return self.np
        if name in self.shims: return self.shims[name]
        if name.split('.')[0] == 'psdr': return self.module(name)
        return Opaque(name)

    # -- functions ---------------------------------------------------------------------------
    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        loc = {}
        args = list(args); kwargs = dict(kwargs)
        for n, v in zip(names, args): loc[n] = v
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise('TypeError', '%s() takes %d positional arguments' % (f.name, len(names)))
            loc[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: loc[a.vararg.arg] = ()
        for n in names[len(args):]:
            if n in kwargs: loc[n] = kwargs.pop(n)
        dn = names[len(names) - len(f.defaults):]
        for n, d in zip(dn, f.defaults):
            if n not in loc: loc[n] = d
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs: loc[n] = kwargs.pop(n)
            elif n in f.kwdefaults: loc[n] = f.kwdefaults[n]
        for n in list(kwargs):
            if n in names and n in loc and names.index(n) < len(args): raise PyRaise('TypeError', 'multiple values for argument %s' % n)
        if a.kwarg is not None: loc[a.kwarg.arg] = dict(kwargs)
        elif kwargs: raise PyRaise('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, sorted(kwargs)[0]))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in loc: raise PyRaise('TypeError', '%s() missing argument %s' % (f.name, n))
        return loc

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, IMethod): return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin): return f.fn(*args, **kwargs)
        if isinstance(f, IStatic): return self.call(f.fn, args, kwargs)
        if isinstance(f, IFunc):
            loc = self.bind(f, args, kwargs)
            c = self.contracts.get(f.qual)
            if c is not None and self.depth > 0 and self.entry != f.qual:
                self.bycontract[f.qual] = self.bycontract.get(f.qual, 0) + 1
                return c(self, loc)
            return self.run(f, loc)
        if isinstance(f, IClass): return self.instantiate(f, args, kwargs)
        if isinstance(f, ExcType): return PyRaise(f.name, args[0] if args else None)
        if isinstance(f, Dt): return self.np.d['_cast'](f, *args)
        if isinstance(f, IObj):
            m, _ = f.cls.lookup('__call__')
            if m is None: raise PyRaise('TypeError', 'object is not callable')
            return self.call(IMethod(m, f), args, kwargs)
        if isinstance(f, Opaque): raise Unsupported('call of external %s' % f.name)
        if isinstance(f, Ns) and '__call__' in f.d: return self.call(f.d['__call__'], args, kwargs)
        if callable(f) and not isinstance(f, (IObj,)): return f(*args, **kwargs)
        raise Unsupported('call of %r' % (f,))

    def run(self, f, loc):
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        if self.depth > 40: raise Unsupported('recursion depth in %s' % f.qual)
        fr = Frame(f, loc, f.module, f.closure, f.qual)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr)
            if f.isgen: fr.yields = []; fr.l['?yields'] = fr.yields
            try: self.block(f.node.body, fr)
            except _Return as r:
                if not f.isgen: return r.v
            if f.isgen: return fr.l['?yields']
            return None
        finally: self.depth -= 1

    def instantiate(self, cls, args, kwargs):
        if any(isinstance(b, ExcType) for b in cls.extbases()):
            e = PyRaise(cls.name, args[0] if args else None); e.cls = cls
            return e
        o = IObj(cls)
        init, _ = cls.lookup('__init__')
        if init is not None: self.call(IMethod(init, o), args, kwargs)
        return o

    # -- attributes -----------------------------------------------------------------------
    def getattr(self, o, name):
        if isinstance(o, IObj):
            v, c = o.cls.lookup(name)
            if isinstance(v, IProp) and not v.cached: return self.call(IMethod(v.fget, o))
            if name in o.d: return o.d[name]
            if isinstance(v, IProp):
                r = self.call(IMethod(v.fget, o)); self.setattr_raw(o, name, r); return r
            if v is not None:
                if isinstance(v, IFunc): return IMethod(v, o)
                if isinstance(v, IStatic): return v.fn
                if isinstance(v, IClassM): return IMethod(v.fn, o.cls)
                return v
            if name == '__class__': return o.cls
            if name == '__dict__': return o.d
            ga, _ = o.cls.lookup('__getattr__')
            if ga is not None: return self.call(IMethod(ga, o), [name])
            if hasattr(object, name): raise Unsupported('object attribute %s' % name)
            if o.cls.extbases() and any(isinstance(b, Opaque) for b in o.cls.extbases()): raise Unsupported('attribute %s of opaque base' % name)
            raise PyRaise('AttributeError', name)
        if isinstance(o, IClass):
            v, c = o.lookup(name)
            if v is not None:
                if isinstance(v, IStatic): return v.fn
                if isinstance(v, IClassM): return IMethod(v.fn, o)
                return v
            if name == '__name__': return o.name
            if hasattr(type, name): raise Unsupported('class attribute %s' % name)
            raise PyRaise('AttributeError', name)
        if isinstance(o, ISuper):
            mro = o.obj.cls.mro if isinstance(o.obj, IObj) else o.obj.mro
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, IFunc): return IMethod(v, o.obj)
                    if isinstance(v, IProp): return self.call(IMethod(v.fget, o.obj))
                    return v
            if name == '__init__': return Builtin('object.__init__', lambda *a, **k: None)
            raise PyRaise('AttributeError', name)
        if isinstance(o, IModule):
            if name in o.g: return o.g[name]
            if name.startswith('__'): raise Unsupported('module attribute %s' % name)
            try: return self.module(o.name + '.' + name)
            except Unsupported: raise PyRaise('AttributeError', name)
        if isinstance(o, Ns):
            if name in o.d: return o.d[name]
            if name in o.d.get('__attrs__', {}): return o.d['__attrs__'][name]
            g = o.d.get('__getattr__')
            if g is not None: return g(name)
            raise Unsupported('%s.%s' % (o.name, name))
        if isinstance(o, Opaque): return Opaque(o.name + '.' + name)
        if isinstance(o, IFunc) and name == '__name__': return o.name
        if isinstance(o, PyRaise):
            if name == 'args': return (o.value,)
            if name == 'message': return o.value
        return self.np.d['_attr'](o, name)

    def setattr_raw(self, o, name, v):
        had, old = name in o.d, o.d.get(name)
        def undo():
            if had: o.d[name] = old
            else: o.d.pop(name, None)
        undo.obj = ('attr', o, name)
        self.trail.append(undo)
        o.d[name] = v

    def setattr(self, o, name, v):
        if isinstance(o, IObj):
            p, _ = o.cls.lookup(name)
            if isinstance(p, IProp) and not p.cached:
                if p.fset is None: raise PyRaise('AttributeError', "can't set attribute")
                self.call(IMethod(p.fset, o), [v]); return
            self.setattr_raw(o, name, v); return
        if isinstance(o, SArr) and name == 'shape': raise Unsupported('shape assignment')
        if isinstance(o, Ns) and '__attrs__' in o.d: o.d['__attrs__'][name] = v; return
        raise Unsupported('attribute assignment on %r' % (type(o),))

    def isinstance_(self, o, t):
        if isinstance(t, tuple): return any(self.isinstance_(o, x) for x in t)
        if isinstance(t, IClass): return isinstance(o, IObj) and t in o.cls.mro
        if isinstance(t, Dt):
            if t.name == 'float': return isinstance(o, (Fraction, float)) or (isinstance(o, Sym) and not o.isint)
            if t.name == 'int': return isinstance(o, int) or (isinstance(o, Sym) and o.isint)
            if t.name == 'bool': return isinstance(o, (bool, z3.BoolRef))
            if t.name in ('str',): return isinstance(o, str)
        if isinstance(t, Builtin):
            if t.name == 'list': return isinstance(o, (list, SList))
            if t.name == 'tuple': return isinstance(o, tuple)
            if t.name == 'dict': return isinstance(o, dict)
            if t.name == 'str': return isinstance(o, str)
            if t.name == 'ndarray': return isinstance(o, SArr)
            if t.name == 'set': return isinstance(o, set)
            if t.name == 'object': return True
        if isinstance(t, ExcType): return isinstance(o, PyRaise) and self.exc_match(o, t)
        raise Unsupported('isinstance %r' % (t,))

    def exc_match(self, e, t):
        if isinstance(t, tuple): return any(self.exc_match(e, x) for x in t)
        if isinstance(t, ExcType):
            if e.name == t.name: return True
            cls = getattr(e, 'cls', None)
            if cls is not None:
                bs = [b for b in cls.extbases() if isinstance(b, ExcType)]
                return any(b.name == t.name or t.name in b.parents for b in bs)
            return e.name in EXC and t.name in EXC[e.name].parents
        if isinstance(t, IClass):
            cls = getattr(e, 'cls', None)
            if cls is not None: return t in cls.mro
            return e.name == t.name
        if isinstance(t, Opaque): return False
        raise Unsupported('except %r' % (t,))

    # -- statements --------------------------------------------------------------------------
    def block(self, body, fr):
        for st in body: self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Unsupported('step limit')
        getattr(self, 'st_' + type(st).__name__, self.st_unsup)(st, fr)

    def st_unsup(self, st, fr): raise Unsupported('statement %s at %s:%d' % (type(st).__name__, fr.qual, getattr(st, 'lineno', 0)))
    def st_Pass(self, st, fr): pass
    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant): return
        self.ev(st.value, fr)
    def st_Return(self, st, fr): raise _Return(self.ev(st.value, fr) if st.value is not None else None)
    def st_Break(self, st, fr): raise _Break()
    def st_Continue(self, st, fr): raise _Continue()
    def st_Global(self, st, fr): raise Unsupported('global')
    def st_Nonlocal(self, st, fr): raise Unsupported('nonlocal')
    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name): self.dellocal(fr, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr); k = self.ev_slice(t.slice, fr)
                if isinstance(o, (dict, list)):
                    old = o.copy()
                    self.trail.append(lambda o=o, old=old: (o.clear(), o.update(old) if isinstance(old, dict) else o.extend(old)))
                    del o[k]
                else: raise Unsupported('del')
            else: raise Unsupported('del')
    def dellocal(self, fr, n):
        old = fr.l.get(n)
        self.trail.append(lambda: fr.l.__setitem__(n, old))
        fr.l.pop(n, None)

    def st_Import(self, st, fr):
        for a in st.names:
            m = self.import_(a.name, fr)
            if a.asname: self.store_name(fr, a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.store_name(fr, top, self.import_(top, fr) if top != a.name else m)
    def st_ImportFrom(self, st, fr):
        m = self.import_(st.module or '', fr, st.level)
        for a in st.names:
            if a.name == '*':
                if isinstance(m, IModule):
                    names = m.g.get('__all__')
                    for k in (names if isinstance(names, list) else [k for k in m.g if not k.startswith('_')]):
                        if k in m.g: fr.l[k] = m.g[k]
                continue
            nm = a.asname or a.name
            if isinstance(m, IModule):
                if a.name in m.g: v = m.g[a.name]
                else:
                    try: v = self.module(m.name + '.' + a.name)
                    except Unsupported: v = Opaque(m.name + '.' + a.name)
            else:
                try: v = self.getattr(m, a.name)
                except Unsupported: v = Opaque('%s.%s' % (getattr(m, 'name', m), a.name))
            self.store_name(fr, nm, v)

    def st_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        self.store_name(fr, st.name, v)
    st_AsyncFunctionDef = st_unsup

    def mkfunc(self, node, fr):
        base = fr.qual if ':' in fr.qual else fr.qual + ':'
        nm = getattr(node, 'name', '<lambda>')
        qual = base + nm if base.endswith(':') else base + '.' + nm
        f = IFunc(node, fr.module, fr if fr.fn is not None or fr.closure is not None else None, qual, getattr(fr, 'cls', None))
        if fr.fn is not None: f.closure = fr
        f.defaults = [self.ev(d, fr) for d in node.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return f

    def decorate(self, d, v, fr):
        name = None
        dd = d.func if isinstance(d, ast.Call) else d
        if isinstance(dd, ast.Name): name = dd.id
        elif isinstance(dd, ast.Attribute): name = dd.attr
        if name == 'property': return IProp(v)
        if name == 'cached_property': return IProp(v, True)
        if name == 'setter':
            p = fr.l.get(dd.value.id)
            q = IProp(p.fget); q.fset = v; return q
        if name == 'staticmethod': return IStatic(v)
        if name == 'classmethod': return IClassM(v)
        if name in ('lru_cache', 'abstractmethod', 'wraps'): return v
        raise Unsupported('decorator %s' % name)

    def st_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.ev(b, fr)
            if isinstance(v, Builtin) and v.name == 'object': continue
            bases.append(v)
        ns = {}
        f2 = Frame(None, ns, fr.module, fr.closure, (fr.qual + ':' if ':' not in fr.qual else fr.qual + '.') + st.name)
        f2.isclass = True
        f2.outer = fr
        for b in st.body:
            try: self.stmt(b, f2)
            except Unsupported as e:
                if isinstance(b, ast.FunctionDef): ns[b.name] = Opaque('%s.%s (%s)' % (st.name, b.name, e))
                else: raise
        c = IClass(st.name, bases, ns, fr.module)
        for v in ns.values():
            for g in ([v] if isinstance(v, IFunc) else [v.fget] if isinstance(v, IProp) else [v.fn] if isinstance(v, (IStatic, IClassM)) else []):
                if isinstance(g, IFunc): g.cls = c
        self.store_name(fr, st.name, c)

    def store_name(self, fr, n, v):
        had, old = n in fr.l, fr.l.get(n)
        def undo():
            if had: fr.l[n] = old
            else: fr.l.pop(n, None)
        undo.obj = ('name', fr, n)
        self.trail.append(undo)
        fr.l[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iter_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]; k = len(t.elts) - i - 1
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts): raise PyRaise('ValueError', 'unpack')
            for a, b in zip(t.elts, vs): self.assign(a.value if isinstance(a, ast.Starred) else a, b, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr); k = self.ev_slice(t.slice, fr)
            self.setitem(o, k, v)
        else: raise Unsupported('assign target')

    def setitem(self, o, k, v):
        if isinstance(o, SArr): A.setitem(o, k, v)
        elif isinstance(o, list):
            if isinstance(k, Sym): raise Unsupported('symbolic list store')
            old = list(o)
            u = lambda o=o, old=old: o.__setitem__(slice(None), old)
            u.obj = ('list', o)
            self.trail.append(u); o[k] = v
        elif isinstance(o, dict):
            had, old = k in o, o.get(k)
            def undo():
                if had: o[k] = old
                else: o.pop(k, None)
            self.trail.append(undo); o[k] = v
        elif isinstance(o, IObj):
            m, _ = o.cls.lookup('__setitem__')
            if m is None: raise PyRaise('TypeError', 'item assignment')
            self.call(IMethod(m, o), [k, v])
        else: raise Unsupported('item assignment on %r' % (type(o),))

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets: self.assign(t, v, fr)
    def st_AnnAssign(self, st, fr):
        if st.value is not None: self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.store_name(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            new = self.inplace(op, self.getattr(o, t.attr), self.ev(st.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr); k = self.ev_slice(t.slice, fr)
            cur = self.getitem(o, k)
            if isinstance(cur, SArr): cur = SArr(cur.shape, cur.getter(), cur.kind)
            self.setitem(o, k, self.binop(op, cur, self.ev(st.value, fr)))

    def inplace(self, op, cur, v):
        if isinstance(cur, SArr):
            r = self.binop(op, cur, v)
            if not isinstance(r, SArr): r = asarr(r)
            if cur.ndim != r.ndim or any(A.dimeq(x, y) is not True for x, y in zip(cur.shape, r.shape)):
                raise PyRaise('ValueError', 'non-broadcastable output operand')
            if cur.kind == 'i' and r.kind == 'f': raise PyRaise('TypeError', 'Cannot cast ufunc output from float64 to int64')
            if cur.view is not None: self.write_view(cur, r)
            else: cur.setfn(r.getter())
            return cur
        if isinstance(cur, list) and op == 'Add':
            if isinstance(v, SList): return self.binop(op, cur, v)
            old = list(cur)
            u = lambda: cur.__setitem__(slice(None), old)
            u.obj = ('list', cur)
            self.trail.append(u); cur.extend(self.iter_list(v)); return cur
        return self.binop(op, cur, v)

    def write_view(self, cur, r):
        raise Unsupported('in-place update of a view')

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)): self.block(st.body, fr)
        else: self.block(st.orelse, fr)

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)): raise PyRaise('AssertionError', None)

    def st_Raise(self, st, fr):
        if st.exc is None:
            raise fr.l.get('?exc') or Unsupported('bare raise')
        v = self.ev(st.exc, fr)
        if isinstance(v, (ExcType, IClass)): v = self.call(v)
        if isinstance(v, PyRaise): raise v
        raise Unsupported('raise %r' % (v,))

    def st_Try(self, st, fr):
        mark = None
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, self.ev(h.type, fr)):
                        if h.name: self.store_name(fr, h.name, e)
                        old = fr.l.get('?exc'); fr.l['?exc'] = e
                        try: self.block(h.body, fr)
                        finally: fr.l['?exc'] = old
                        break
                else: raise
            else:
                self.block(st.orelse, fr)
        finally:
            import sys
            et = sys.exc_info()[0]
            if st.finalbody and (et is None or et in (PyRaise, _Return, _Break, _Continue)): self.block(st.finalbody, fr)

    def st_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def st_While(self, st, fr):
        fr.loopno += 1
        h = self.loop_contracts.get((fr.qual, fr.loopno))
        if h is not None:
            h(self, st, fr, None); return
        n = 0
        while True:
            if not self.truth(self.ev(st.test, fr)): break
            n += 1
            if n > 200: raise Unsupported('while loop without an invariant (%s)' % fr.qual)
            try: self.block(st.body, fr)
            except _Break: return
            except _Continue: continue
        self.block(st.orelse, fr)

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        fr.forno = getattr(fr, 'forno', 0) + 1
        h = self.loop_contracts.get((fr.qual, 'for', fr.forno))
        seq = self.as_seq(it)
        if h is not None:
            h(self, st, fr, seq); return
        if isinstance(seq, list):
            for x in seq:
                self.assign(st.target, x, fr)
                try: self.block(st.body, fr)
                except _Continue: continue
                except _Break: return
            self.block(st.orelse, fr)
            return
        for _ in range(self.peel.get(fr.qual, 0)):          # for x in seq: B  ==  B[seq[0]]; for x in seq[1:]: B   (nonempty seq)
            if isinstance(seq, list) or not self.decide(idx(seq.n) >= 1): break
            self.assign(st.target, seq.get(0), fr)
            try: self.block(st.body, fr)
            except _Continue: pass
            except _Break: return
            g0 = seq.get; seq = SList(A.isub(seq.n, 1), (lambda g0: lambda i: g0(A.iadd(i, 1)))(g0))
        from .loops import summarise
        summarise(self, st, fr, seq)
        self.block(st.orelse, fr)

    # -- sequences -------------------------------------------------------------------------
    def as_seq(self, v):
        """python list (concrete length) or SList"""
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, SList):
            if isinstance(v.n, int): return [v.get(i) for i in range(v.n)]
            return v
        if isinstance(v, range): return list(v)
        if isinstance(v, SArr):
            n = v.shape[0]
            if isinstance(n, int): return [A.getitem(v, i) for i in range(n)]
            g = v.getter()
            return SList(n, lambda i: g(i) if v.ndim == 1 else SArr(v.shape[1:], lambda *q: g(i, *q), v.kind))     # list positions are in range
        if isinstance(v, dict): return list(v.keys())
        if isinstance(v, set): return sorted(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, IObj):
            m, _ = v.cls.lookup('__iter__')
            if m is not None: return self.as_seq(self.call(IMethod(m, v)))
            raise PyRaise('TypeError', 'object is not iterable')
        if v is None or scalar(v): raise PyRaise('TypeError', 'object is not iterable')
        if isinstance(v, Ns) and '__seq__' in v.d: return v.d['__seq__']()
        raise Unsupported('iteration over %r' % (type(v),))

    def iter_list(self, v):
        q = self.as_seq(v)
        if not isinstance(q, list): raise Unsupported('symbolic-length sequence where a concrete one is needed')
        return q

    # -- expressions ------------------------------------------------------------------------
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Unsupported('step limit')
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s at %s:%d' % (type(e).__name__, fr.qual, e.lineno))
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return v if v in (s.INF, -s.INF) or v != v else Fraction(repr(v))
        if isinstance(v, complex): raise Unsupported('complex literal')
        return v
    def ex_Name(self, e, fr): return self.lookup(e.id, fr)
    def lookup(self, n, fr):
        f = fr
        while f is not None:
            if n in f.l and not (f is not fr and getattr(f, 'isclass', False)): return f.l[n]
            f = f.closure
        if n in fr.module.g: return fr.module.g[n]
        if n in self.builtins: return self.builtins[n]
        if n in EXC: return EXC[n]
        if hasattr(pybuiltins, n): raise Unsupported('builtin %s' % n)
        raise PyRaise('NameError', n)
    def ex_Tuple(self, e, fr): return tuple(self.ev_elts(e.elts, fr))
    def ex_List(self, e, fr): return list(self.ev_elts(e.elts, fr))
    def ex_Set(self, e, fr): return set(self.ev_elts(e.elts, fr))
    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out.extend(self.iter_list(self.ev(x.value, fr)))
            else: out.append(self.ev(x, fr))
        return out
    def ex_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v, fr))
            else: d[self.ev(k, fr)] = self.ev(v, fr)
        return d
    def ex_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)
    def ex_Subscript(self, e, fr): return self.getitem(self.ev(e.value, fr), self.ev_slice(e.slice, fr))
    def ev_slice(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple): return tuple(self.ev_slice(x, fr) for x in sl.elts)
        if type(sl).__name__ == 'Index': return self.ev_slice(sl.value, fr)
        return self.ev(sl, fr)
    def ex_Slice(self, e, fr): return self.ev_slice(e, fr)

    def getitem(self, o, k):
        if isinstance(o, SArr): return A.getitem(o, k)
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)): raise Unsupported('symbolic list slice')
                return o[k]
            if isinstance(k, SArr) and k.ndim == 0: k = k.at()
            if isinstance(k, Sym):
                k = A.ix(k)
                if not isinstance(k, int):
                    v = o[-1]
                    for j in range(len(o) - 2, -1, -1): v = self.ite(idx(k) == j, o[j], v)
                    return v
            if isinstance(k, Fraction): k = A.ix(k)
            if not isinstance(k, int): raise PyRaise('TypeError', 'list indices must be integers')
            try: return o[k]
            except IndexError: raise PyRaise('IndexError', 'list index out of range')
        if isinstance(o, dict):
            if k not in o: raise PyRaise('KeyError', k)
            return o[k]
        if isinstance(o, SList):
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None: return SList(o.n, o.get)
                a, stp, ln = A.norm_slice(Slc(k.start, k.stop, k.step), o.n)
                if stp == 1: return SList(ln, lambda i: o.get(A.iadd(a, i)))
                return SList(ln, lambda i: o.get(A.isub(a, i)))
            k = A.ix(k)
            if isinstance(k, int) and k < 0: k = A.iadd(o.n, k)
            return o.get(k)
        if isinstance(o, IObj):
            m, _ = o.cls.lookup('__getitem__')
            if m is None: raise PyRaise('TypeError', 'object is not subscriptable')
            return self.call(IMethod(m, o), [k])
        if isinstance(o, Ns) and '__getitem__' in o.d: return o.d['__getitem__'](k)
        if scalar(o): raise PyRaise('IndexError', 'invalid index to scalar variable')
        raise Unsupported('subscript of %r' % (type(o),))

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f.fn is None or f.fn.cls is None:
                f = f.closure
                if f is None: raise Unsupported('super')
            slf = f.l[f.fn.node.args.args[0].arg]
            return ISuper(f.fn.cls, slf)
        f = self.ev(e.func, fr)
        if isinstance(f, Builtin) and f.name == 'super':
            args = self.ev_elts(e.args, fr)
            return ISuper(args[0], args[1])
        args = self.ev_elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None: kw.update(v)
            else: kw[k.arg] = v
        return self.call(f, args, kw)

    def ex_Lambda(self, e, fr):
        f = IFunc(e, fr.module, fr if fr.fn is not None else fr.closure, fr.qual + '.<lambda>')
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        return f

    def ex_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]: return v
            if is_bool(v) and not isinstance(v, bool):
                # short circuit through a path decision
                t = self.decide(v)
                v = t
            else: t = self.truth(v)
            if isand and not t: return v
            if not isand and t: return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            if is_bool(v): return Not(v)
            return not self.truth(v)
        if op == 'USub':
            if isinstance(v, SArr): return A.elem(s.neg, v, kind=v.kind)
            if isinstance(v, Ns): return self.call(v.d['__neg__'])
            return s.neg(v)
        if op == 'UAdd': return v
        if op == 'Invert':
            if isinstance(v, SArr):
                if v.kind == 'b': return A.elem(Not, v, kind='b')
                raise Unsupported('~int')
            if is_bool(v):
                if isinstance(v, bool): return not v     # numpy bool
                return Not(v)
            raise Unsupported('~')
        raise Unsupported(op)

    def ex_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    OPS = {'Add': s.add, 'Sub': s.sub, 'Mult': s.mul, 'Div': s.div, 'Pow': s.power, 'FloorDiv': s.floordiv, 'Mod': s.mod}

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'Pow': 'pow'}
    def binop(self, op, a, b):
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            if isinstance(x, IObj) and op in self.DUNDER:
                m, _ = x.cls.lookup('__%s%s__' % (pre, self.DUNDER[op]))
                if m is not None: return self.call(IMethod(m, x), [y])
        for x in (a, b):
            if isinstance(x, Ns) and '__binop__' in x.d: return x.d['__binop__'](op, a, b)
            if isinstance(x, Opaque): raise Unsupported('operation on external %s' % x.name)
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Mod':
                bs = b if isinstance(b, tuple) else (b,)
                import re
                if isinstance(a, str) and any(isinstance(x, Sym) or (isinstance(x, str) and '\ue000' in x) for x in bs) and re.sub('%[sr]', '', a).count('%') == 0 and len(re.findall('%[sr]', a)) == len(bs):
                    it = iter(bs); return self.strcat([self.text(next(it)) if q in ('%s', '%r') else q for q in re.split('(%[sr])', a)])
                if isinstance(b, tuple): 
                    if all(conc(x) or isinstance(x, str) for x in b): 
                        try: return a % tuple(float(x) if isinstance(x, Fraction) else x for x in b)
                        except Exception: return '?str'
                elif conc(b) or isinstance(b, str):
                    return a % (float(b) if isinstance(b, Fraction) else b)
                return '?str'
            if op == 'Add' and isinstance(a, str) and isinstance(b, str): return a + b
            if op == 'Mult': return a * b
            raise Unsupported('string op')
        if op == 'MatMult': return A.matmul(a, b)
        if isinstance(a, (list, tuple, SList)) and not isinstance(b, SArr):
            if op == 'Add' and isinstance(b, (list, tuple, SList)): return self.listcat(a, b)
            if op == 'Mult':
                if isinstance(b, int) and not isinstance(a, SList): return a * b
                if len(a) == 1: return SList(A.ix(b), lambda i: a[0])
                raise Unsupported('symbolic list repetition')
        if isinstance(b, list) and op == 'Mult' and not isinstance(a, SArr): return self.binop(op, b, a)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': And, 'BitOr': Or, 'BitXor': lambda p, q: Not(s.Iff(p, q))}[op]
            if isinstance(a, SArr) or isinstance(b, SArr):
                for x in (a, b):
                    if (isinstance(x, SArr) and x.kind != 'b') or (not isinstance(x, SArr) and not is_bool(x)): raise Unsupported('bit operation on numbers')
                return A.elem(f, a, b, kind='b')
            if is_bool(a) and is_bool(b): return f(a, b)
            if isinstance(a, int) and isinstance(b, int): return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            raise Unsupported('bit operation')
        f = self.OPS.get(op)
        if f is None: raise Unsupported('operator %s' % op)
        if isinstance(a, (SArr, list, tuple, SList)) or isinstance(b, (SArr, list, tuple, SList)):
            a2 = asarr(a) if isinstance(a, (list, tuple, SList)) else a
            b2 = asarr(b) if isinstance(b, (list, tuple, SList)) else b
            kind = 'i' if op not in ('Div',) and A.kindof(a2) in 'ib' and A.kindof(b2) in 'ib' else 'f'
            if op == 'Mult' and kind == 'i' and A.kindof(a2) == 'b' and A.kindof(b2) == 'b': kind = 'b'; f = And
            elif op == 'Add' and A.kindof(a2) == 'b' and A.kindof(b2) == 'b': kind = 'b'; f = Or
            r = A.elem(f, a2, b2, kind=kind)
            if isinstance(r, SArr): self.keep_diag(op, a2, b2, r)
            return r
        if scalar(a) and scalar(b):
            if op == 'Div' and conc(b) and b == 0 and conc(a): raise PyRaise('ZeroDivisionError', None)
            return f(a, b)
        if a is None or b is None: raise PyRaise('TypeError', 'unsupported operand')
        raise Unsupported('binop %s on %r, %r' % (op, type(a), type(b)))

    def keep_diag(self, op, a, b, r):
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SArr) and x.meta.get('diag') is not None and scalar(y):
                    d = x.meta['diag']; r.meta['diag'] = lambda i: s.mul(d(i), y)

    def listcat(self, a, b):
        if not isinstance(a, SList) and not isinstance(b, SList): return a + type(a)(b)
        la = a.n if isinstance(a, SList) else len(a)
        lb = b.n if isinstance(b, SList) else len(b)
        if isinstance(la, int) and la == 0: return b
        if isinstance(lb, int) and lb == 0: return a
        ga = a.get if isinstance(a, SList) else (lambda i: self.getitem(a, Sym(i) if not isinstance(i, int) else i))
        gb = b.get if isinstance(b, SList) else (lambda i: self.getitem(b, Sym(i) if not isinstance(i, int) else i))
        def get(i):
            c = A.ilt(i, la)
            if c is True: return ga(i)
            if c is False: return gb(A.isub(i, la))
            if self.ctx.refutable(Not(c)): return ga(i)
            if self.ctx.refutable(c): return gb(A.isub(i, la))
            return self.ite(c, ga(i), gb(A.isub(i, la)))
        r = SList(A.iadd(la, lb), get)
        r.segs = (r.get, A.segs(a) + A.segs(b))
        return r

    CMP = {'Lt': s.lt, 'LtE': s.le, 'Gt': s.gt, 'GtE': s.ge, 'Eq': s.eq, 'NotEq': s.ne}
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = (a is b) or (a is None and b is None) or (isinstance(a, bool) and isinstance(b, bool) and a == b)
            if not r and is_bool(a) and isinstance(b, bool) and not isinstance(a, bool): raise Unsupported('is on symbolic bool')
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else Not(r)
        for x in (a, b):
            if isinstance(x, Ns) and '__cmp__' in x.d: return x.d['__cmp__'](op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('comparison with external')
        f = self.CMP[op]
        if isinstance(a, SArr) or isinstance(b, SArr):
            if a is None or b is None: raise Unsupported('array == None')
            if isinstance(a, str) or isinstance(b, str): raise Unsupported('array == str')
            return A.elem(f, a, b, kind='b')
        if scalar(a) and scalar(b): return f(a, b)
        if op in ('Eq', 'NotEq'):
            if isinstance(a, (list, tuple)) and type(a) == type(b):
                if len(a) != len(b): r = False
                else: r = And(*[self.compare('Eq', x, y) for x, y in zip(a, b)])
            elif isinstance(a, (str, type(None), dict, IObj, IClass, IFunc, Dt)) or isinstance(b, (str, type(None), dict, IObj, IClass, IFunc, Dt)): r = (a is b) if isinstance(a, IObj) or isinstance(b, IObj) else (type(a) == type(b) and a == b)
            else: raise Unsupported('== on %r,%r' % (type(a), type(b)))
            return r if op == 'Eq' else Not(r)
        if isinstance(a, str) and isinstance(b, str): return getattr(operator, {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op])(a, b)
        if a is None or b is None: raise PyRaise('TypeError', 'unorderable')
        raise Unsupported('comparison %s on %r,%r' % (op, type(a), type(b)))

    def contains(self, c, x):
        if isinstance(c, dict): return x in c
        if isinstance(c, (list, tuple, set)):
            r = False
            for y in c:
                if (y is None) != (x is None): continue
                if isinstance(y, str) != isinstance(x, str): continue
                r = Or(r, self.compare('Eq', x, y) if not (x is None and y is None) else True)
            return r
        if isinstance(c, str): return x in c
        raise Unsupported('in on %r' % (type(c),))

    def ex_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = True
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, fr)
            v = self.compare(type(op).__name__, l, r)
            if len(e.ops) == 1: return v
            if isinstance(v, SArr): raise Unsupported('chained array comparison')
            res = And(res, v) if is_bool(v) else v
            l = r
        return res

    def ex_JoinedStr(self, e, fr): return self.strcat([self.ev(x, fr) for x in e.values])
    def ex_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        return self.text(v) if e.format_spec is None and e.conversion in (-1, 114, 115) else '?str'
    def strcat(self, xs): return ''.join(xs) if all(isinstance(x, str) and x != '?str' for x in xs) else '?str'
    # text of numbers: shortest round-trip decimal, an opaque piece without white space that float() maps back to the number
    def text(self, v):
        if isinstance(v, str): return v
        if isinstance(v, bool) or not (conc(v) or isinstance(v, Sym)): return '?str'
        if isinstance(v, int): return str(v)
        t = self.texts; t.append(v)
        return '\ue000%d\ue001' % (len(t) - 1)
    def untext(self, x):
        x = x.strip()
        if x.startswith('\ue000') and x.endswith('\ue001') and x.count('\ue000') == 1: return self.texts[int(x[1:-1])]
        if '\ue000' in x or '\ue001' in x: raise PyRaise('ValueError', 'could not convert string to float')
        if '?str' in x: raise Unsupported('float of an unknown text')
        try: r = float(x)
        except ValueError: raise PyRaise('ValueError', 'could not convert string to float')
        return r if r != r or r in (INF, -INF) else Fraction(x.replace('_', ''))
    def format(self, fmt, a, k):
        import string
        if '?str' in fmt: return '?str'
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out.append(lit)
            if field is None: continue
            if spec or conv not in (None, 'r', 's'): return '?str'
            if field == '': v = a[auto]; auto += 1
            elif field.isdigit(): v = a[int(field)]
            elif field in k: v = k[field]
            else: return '?str'
            out.append(self.text(v))
        return self.strcat(out)
    def ex_Starred(self, e, fr): raise Unsupported('starred')
    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        y = fr.l['?yields']
        if isinstance(y, SList): raise Unsupported('yield after symbolic loop')
        self.list_append(y, v)
        return None

    def list_append(self, l, v):
        n = len(l)
        def undo(): del l[n:]
        undo.obj = ('list', l)
        self.trail.append(undo)
        l.append(v)

    # comprehensions
    def comp(self, e, fr, elt):
        fr2 = Frame(fr.fn, {}, fr.module, fr, fr.qual)
        fr2.cls = getattr(fr, 'cls', None)
        gens = e.generators
        def rec(k, f):
            if k == len(gens): return [elt(f)]
            g = gens[k]
            seq = self.as_seq(self.ev(g.iter, f))
            if isinstance(seq, list):
                out = []
                parts = []
                for x in seq:
                    f2 = Frame(fr.fn, dict(f.l) if f is not fr else {}, fr.module, fr, fr.qual)
                    self.assign(g.target, x, f2)
                    ok = True
                    for c in g.ifs:
                        if not self.truth(self.ev(c, f2)): ok = False; break
                    if ok:
                        r = rec(k + 1, f2)
                        if isinstance(r, SList): parts.append(out); parts.append(r); out = []
                        else: out.extend(r)
                if parts:
                    parts.append(out)
                    tot = parts[0]
                    for p in parts[1:]: tot = self.listcat(tot, p)
                    return tot
                return out
            if g.ifs:
                # filtered: selection of a symbolic list
                def test(i):
                    f2 = Frame(fr.fn, dict(f.l) if f is not fr else {}, fr.module, fr, fr.qual)
                    self.assign(g.target, seq.get(i), f2)
                    return And(*[self._b(self.ev(c, f2)) for c in g.ifs])
                cnt, sel, inv = self.ctx.select(idx(seq.n), lambda j: toz3b(self.lazy(lambda: test(j))))
                base = SList(cnt, lambda t: seq.get(sel(t)))
            else: base = seq
            if k + 1 < len(gens): raise Unsupported('nested symbolic comprehension')
            memo = {}
            site = self.ctx.site()
            snap = dict(fr.l)
            def get(i):
                def calc(i):
                    def th():
                        self.ctx.push_binder(site, i)
                        try:
                            f2 = Frame(fr.fn, dict(f.l) if f is not fr else dict(snap), fr.module, fr, fr.qual)
                            self.assign(g.target, base.get(i), f2)
                            return elt(f2)
                        finally: self.ctx.pop_binder()
                    return self.lazy(th)
                return A.cached_at(memo, calc, (i,))
            # evaluate once now (numpy semantics are eager); surfaces exceptions
            probe = self.ctx.fresh('cmp')
            plen = len(self.ctx.path)
            self.ctx.path.append(z3.And(probe >= 0, probe < idx(base.n)))
            try: get(probe)
            finally: del self.ctx.path[plen:]
            return SList(base.n, get)
        return rec(0, fr)

    def _b(self, v):
        if is_bool(v): return v
        if isinstance(v, Sym): return s.ne(v, 0)
        return self.truth(v)

    def ex_ListComp(self, e, fr): return self.comp(e, fr, lambda f: self.ev(e.elt, f))
    def ex_GeneratorExp(self, e, fr): return self.comp(e, fr, lambda f: self.ev(e.elt, f))
    def ex_SetComp(self, e, fr): raise Unsupported('set comprehension')
    def ex_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if isinstance(r, SList): raise Unsupported('symbolic dict')
        return dict(r)
