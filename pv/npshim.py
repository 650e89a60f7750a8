"""numpy / builtins as seen by the symbolic interpreter: contracts of the external library functions.

Every entry is an assumed contract on a dependency (numpy over the reals); `USED` of the interpreter
(`interp.external`) records which ones a proof relied on."""
import z3, itertools
from fractions import Fraction
from . import sym as s
from . import arr as A
from .arr import SArr, SList, PyRaise, asarr, scalar, Slc, isarr
from .sym import Sym, S, And, Or, Not, Implies, Unsupported, conc, is_bool, toz3b, unwrap, INF, NAN
from .ctx import idx, iterms

def num(d): return d if isinstance(d, int) else Sym(idx(d))

def shp(x, ip):
    if isinstance(x, SArr): x = [A.getitem(x, i) for i in range(x.shape[0])] if x.ndim else x.at()
    if isinstance(x, (tuple, list)): return tuple(A.ix(v) for v in x)
    return (A.ix(x),)

def make(ip):
    from .interp import Ns, Builtin, Dt, Opaque, IObj, IFunc, IMethod, ExcType
    ctx = lambda: ip.ctx
    d = {}
    def reg(name, fn):
        def f(*a, **k):
            ip.external['numpy.' + name] = ip.external.get('numpy.' + name, 0) + 1
            return fn(*a, **k)
        d[name] = Builtin('numpy.' + name, f)
    def r(*names):
        def deco(fn):
            for n in names: reg(n, fn)
            return fn
        return deco

    # ---- constants and types
    d['inf'] = INF; d['Inf'] = INF; d['nan'] = NAN
    import math
    from fractions import Fraction as F
    PI = z3.Real('pi'); s.NONNEG_SYMS.add('pi')
    d['pi'] = Sym(PI); d['e'] = Opaque('numpy.e')
    d['newaxis'] = None
    for nm, k in (('float', 'f'), ('float64', 'f'), ('float32', 'f'), ('int', 'i'), ('int64', 'i'), ('int32', 'i'), ('bool', 'b'), ('bool_', 'b'), ('object', 'o'), ('complex', 'c')):
        d[nm] = Dt(k, nm.rstrip('_0123456789'))
    d['ndarray'] = Builtin('ndarray', lambda *a, **k: (_ for _ in ()).throw(Unsupported('ndarray()')))
    d['float_'] = d['float']
    d['finfo'] = Builtin('numpy.finfo', lambda *a: Ns('finfo', {'eps': Fraction(1, 2**52), 'max': INF, 'min': -INF, 'tiny': Fraction(1, 10**300)}))
    d['errstate'] = Builtin('numpy.errstate', lambda **k: None)
    d['seterr'] = Builtin('numpy.seterr', lambda **k: {})
    d['VisibleDeprecationWarning'] = ExcType('Warning')

    def result_type(*ts):
        ks = [t.kind if isinstance(t, SArr) else t.k if isinstance(t, Dt) else 'f' for t in ts]
        return d['float'] if 'f' in ks else d['int'] if 'i' in ks else d['bool']
    d['result_type'] = Builtin('numpy.result_type', result_type)
    def kd(dtype):
        if dtype is None: return None
        if isinstance(dtype, Dt): return dtype.k
        if isinstance(dtype, Builtin) and dtype.name in ('object',): return 'o'
        if isinstance(dtype, str): return {'float': 'f', 'int': 'i', 'bool': 'b'}.get(dtype) or _u('dtype ' + dtype)
        raise Unsupported('dtype %r' % (dtype,))
    def _u(m): raise Unsupported(m)

    def tof(v):
        if is_bool(v): return s.mk(S(v).e)
        return v
    def toint(v):
        if is_bool(v): return s.mk(S(v).e)
        if conc(v):
            if isinstance(v, float): raise PyRaise('ValueError', 'cannot convert float to integer')
            return int(v)
        if v.isint: return v
        if not v.plain: raise Unsupported('int() of possibly non-finite')
        e = v.e
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL): return s.mk(e.arg(0))
        return s.mk(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    def conv(a, k):
        if k is None or k == a.kind: return a
        g = a.getter()
        if k == 'f': return SArr(a.shape, lambda *i: tof(g(*i)), 'f') if a.kind == 'b' else SArr(a.shape, g, 'f', meta=a.meta)
        if k == 'b': return SArr(a.shape, lambda *i: g(*i) if is_bool(g(*i)) else s.ne(g(*i), 0), 'b')
        if k == 'i': return SArr(a.shape, lambda *i: toint(g(*i)), 'i')
        raise Unsupported('dtype conversion %s -> %s' % (a.kind, k))
    d['_conv'] = conv

    def listy(x):
        """resolve iterables into list / SList / SArr"""
        if isinstance(x, (SArr, SList)) or scalar(x): return x
        if isinstance(x, (list, tuple)): return [listy(v) for v in x]
        if x is None: raise Unsupported('array of None')
        if isinstance(x, range): return list(x)
        if hasattr(x, 'to_sarr'): return x.to_sarr()
        if isinstance(x, Ns) and '__array__' in x.d: return x.d['__array__']()
        if isinstance(x, IObj):
            m, _ = x.cls.lookup('__array__')
            if m is not None: return ip.call(IMethod(m, x))
        raise Unsupported('array of %r' % (x,))
    def arr(x): return asarr(listy(x))
    d['_arr'] = arr

    @r('array')
    def array(x, dtype=None, copy=True, ndmin=0, order=None):
        a = conv(asarr(listy(x), copy=True), kd(dtype))
        a = SArr(a.shape, a.getter(), a.kind, meta=dict(a.meta))
        for _ in range(ndmin - a.ndim): a = A.getitem(a, (None, Ellipsis) if a.ndim else (None,)) if a.ndim else SArr((1,), lambda i: a.at(), a.kind)
        return a
    @r('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
    def asarray(x, dtype=None, order=None): return conv(arr(x), kd(dtype))
    @r('copy')
    def copy(x): return asarr(listy(x), copy=True)
    @r('atleast_1d')
    def atleast_1d(*xs):
        out = []
        for x in xs:
            a = arr(x)
            if a.ndim == 0:
                v = a.at(); a = SArr((1,), lambda i: v, a.kind)
            out.append(a)
        return out[0] if len(out) == 1 else out
    @r('atleast_2d')
    def atleast_2d(*xs):
        out = []
        for x in xs:
            a = arr(x)
            if a.ndim == 0:
                v = a.at(); a = SArr((1, 1), (lambda v: lambda i, j: v)(v), a.kind)
            elif a.ndim == 1: a = A.getitem(a, (None, slice(None)))
            out.append(a)
        return out[0] if len(out) == 1 else out
    @r('zeros')
    def zeros(shape, dtype=None, order=None):
        k = kd(dtype) or 'f'
        return A.const_arr(shp(shape, ip), False if k == 'b' else 0, k)
    @r('ones')
    def ones(shape, dtype=None):
        k = kd(dtype) or 'f'
        return A.const_arr(shp(shape, ip), True if k == 'b' else 1, k)
    @r('empty')
    def empty(shape, dtype=None):
        sh = shp(shape, ip)
        h = ctx().havoc('empty', *([z3.IntSort()] * len(sh) + [z3.RealSort()]))
        return SArr(sh, lambda *i: Sym(h(*i)), kd(dtype) or 'f')
    @r('full')
    def full(shape, v, dtype=None): return A.const_arr(shp(shape, ip), v, kd(dtype) or A.kindof(v))
    def like(v, kk=None):
        def f(x, dtype=None):
            a = arr(x); k = kd(dtype) or a.kind
            return A.const_arr(a.shape, (bool(v) if k == 'b' else v), k)
        return f
    reg('zeros_like', like(0)); reg('ones_like', like(1))
    @r('empty_like')
    def empty_like(x, dtype=None): return empty([num(q) for q in arr(x).shape], dtype)
    reg('full_like', lambda x, v, dtype=None: A.const_arr(arr(x).shape, v, kd(dtype) or arr(x).kind))
    @r('eye', 'identity')
    def eye(n, M=None, dtype=None): return A.eye(A.ix(n)) if M is None else A.eye(A.ix(n), A.ix(M))
    @r('diag')
    def diag(v, k=0):
        v = arr(v)
        if k != 0:
            if not isinstance(k, int): raise Unsupported('off-diagonal')
            g = v.getter(); q = abs(k)
            if v.ndim == 1:
                n = A.iadd(v.shape[0], q)
                r_, c_ = (0, q) if k > 0 else (q, 0)
                return SArr((n, n), lambda i, j: s.ite(toz3b(A.ieq(A.isub(j, i), k)), g(i if k > 0 else A.isub(i, q)), 0), v.kind)
            if not A.dimeq(v.shape[0], v.shape[1]): raise Unsupported('off-diagonal of a rectangular matrix')
            return SArr((A.isub(v.shape[0], q),), lambda i: g(i if k > 0 else A.iadd(i, q), A.iadd(i, q) if k > 0 else i), v.kind)
        return A.diag(v)
    reg('diagonal', lambda v: A.diag(arr(v)))
    @r('arange')
    def arange(a, b=None, step=1, dtype=None):
        if b is None: a, b = 0, a
        if conc(step) and step == 1 and (isinstance(a, int) or S(a).isint):
            a_, b_ = A.ix(a), A.ix(b)
            return SArr((ip_len(a_, b_),), lambda i: num(A.iadd(a_, i)), 'i')
        if isinstance(step, int) and step > 1 and all(isinstance(v, int) or (isinstance(v, Sym) and v.isint) for v in (a, b)):
            a_, b_ = A.ix(a), A.ix(b); d_ = A.isub(b_, a_)
            if not isinstance(d_, int):
                n = z3.simplify((idx(d_) + (step - 1)) / step)
                if not ctx().refutable(idx(d_) < 0): n = z3.If(idx(d_) >= 0, n, z3.IntVal(0))
                ar = lambda i: num(A.iadd(a_, A.imul(i, step)))
                return SArr((n,), (lambda i: s.mk(s.R(S(ar(i)).e))) if dtype is not None and kd(dtype) == 'f' else ar, kd(dtype) or 'i')
        if all(conc(v) for v in (a, b, step)):
            import math as m_
            n = max(0, m_.ceil((Fraction(b) - Fraction(a)) / Fraction(step)))
            return SArr((n,), lambda i: s.add(a, s.mul(num(i), step)), 'i' if isinstance(step, int) else 'f')
        raise Unsupported('arange')
    def ip_len(a, b):
        n = A.isub(b, a)
        if isinstance(n, int): return max(n, 0)
        if ctx().refutable(n < 0): return n
        return z3.If(n >= 0, n, z3.IntVal(0))
    d['_rlen'] = ip_len
    @r('linspace')
    def linspace(a, b, n=50, endpoint=True):
        if not endpoint: raise Unsupported('linspace endpoint')
        if not scalar(a) or not scalar(b): raise Unsupported('array linspace')
        n_ = A.ix(n)
        if isinstance(n_, int) and n_ == 1: return SArr((1,), lambda i: a)
        if not isinstance(n_, int) and not ctx().refutable(n_ <= 1): raise Unsupported('linspace with n possibly 1')
        st = s.div(s.sub(b, a), s.S(num(A.isub(n_, 1))))
        return SArr((n_,), lambda i: s.add(a, s.mul(num(i), st)))
    # ---- elementwise
    def un(f, kind='f', keep=False):
        def g(x, out=None, where=None, **kw):
            if out is not None or where is not None: raise Unsupported('out=/where=')
            if isinstance(x, Opaque): raise Unsupported('ufunc of external')
            v = x if scalar(x) else arr(x)
            return A.elem(f, v, kind=(A.kindof(v) if keep else kind))
        return g
    reg('isfinite', un(s.isfinite, 'b')); reg('isinf', un(s.isinf, 'b')); reg('isnan', un(s.isnan, 'b'))
    for nm in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos'): reg(nm, un(getattr(s, nm)))
    reg('abs', un(s.abs_, keep=True)); reg('absolute', un(s.abs_, keep=True)); reg('fabs', un(s.abs_))
    reg('sign', un(s.sign, keep=True)); reg('square', un(lambda v: s.mul(v, v), keep=True))
    reg('logical_not', un(lambda v: Not(v if is_bool(v) else s.ne(v, 0)), 'b'))
    reg('negative', un(s.neg, keep=True))
    reg('isreal', un(lambda v: True, 'b'))
    reg('real', un(lambda v: v, keep=True))
    def floor_(v):
        if conc(v):
            import math as m_
            return m_.floor(v)
        v = S(v)
        if not v.plain: raise Unsupported('floor of non-finite')
        if v.isint: return v
        return s.mk(z3.ToReal(z3.ToInt(v.e)))
    reg('floor', un(floor_)); reg('ceil', un(lambda v: s.neg(floor_(s.neg(v)))))
    def rint(v):
        if conc(v): return round(v)
        raise Unsupported('round')
    reg('round', un(rint)); reg('rint', un(rint)); reg('around', un(rint))
    def bi(f, kind=None):
        def g(a, b, out=None, where=None):
            if out is not None or where is not None: raise Unsupported('out=/where=')
            a = a if scalar(a) else arr(a); b = b if scalar(b) else arr(b)
            k = kind or ('i' if A.kindof(a) in 'ib' and A.kindof(b) in 'ib' else 'f')
            return A.elem(f, a, b, kind=k)
        return g
    reg('maximum', bi(s.maximum)); reg('minimum', bi(s.minimum)); reg('fmax', bi(s.pymax)); reg('fmin', bi(s.pymin))
    reg('add', bi(s.add)); reg('subtract', bi(s.sub)); reg('divide', bi(s.div, 'f')); reg('true_divide', bi(s.div, 'f'))
    reg('less', bi(s.lt, 'b')); reg('less_equal', bi(s.le, 'b')); reg('greater', bi(s.gt, 'b')); reg('greater_equal', bi(s.ge, 'b')); reg('equal', bi(s.eq, 'b')); reg('not_equal', bi(s.ne, 'b'))
    def B(v): return v if is_bool(v) else s.ne(v, 0)
    reg('logical_and', bi(lambda a, b: And(B(a), B(b)), 'b')); reg('logical_or', bi(lambda a, b: Or(B(a), B(b)), 'b'))
    reg('power', lambda a, b: ip.binop('Pow', a if scalar(a) else arr(a), b if scalar(b) else arr(b)))
    reg('multiply', lambda a, b: ip.binop('Mult', a if scalar(a) else arr(a), b if scalar(b) else arr(b)))
    @r('isclose')
    def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8)):
        f = lambda x, y: Or(s.eq(x, y), And(s.isfinite(x), s.isfinite(y), s.le(s.abs_(s.sub(x, y)), s.add(atol, s.mul(rtol, s.abs_(y))))))
        return A.elem(f, a if scalar(a) else arr(a), b if scalar(b) else arr(b), kind='b')
    reg('allclose', lambda a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8): A.all_(isclose(a, b, rtol, atol)))
    reg('array_equal', lambda a, b: A.all_(A.elem(s.eq, arr(a), arr(b), kind='b')))
    @r('where')
    def where(c, a=None, b=None):
        c = arr(c)
        if a is None: return (nonzero_(c),)
        k = 'b' if A.kindof(a if scalar(a) else arr(a)) == 'b' and A.kindof(b if scalar(b) else arr(b)) == 'b' else 'f'
        return A.elem(lambda p, x, y: s.ite(B(p), x, y), c, a if scalar(a) else arr(a), b if scalar(b) else arr(b), kind=k)
    def nonzero_(c):
        c = arr(c)
        if c.ndim != 1: raise Unsupported('nonzero of ndim %d' % c.ndim)
        m = A.elem(B, c, kind='b')
        cnt, sel, inv, g = A.maskspec(m)
        return SArr((cnt,), lambda i: num(A.ix(sel(i))), 'i')
    reg('nonzero', lambda c: (nonzero_(c),)); reg('flatnonzero', nonzero_)
    @r('argwhere')
    def argwhere(c):
        w = nonzero_(c); return SArr((w.shape[0], 1), lambda i, j: w.at(i), 'i')
    @r('clip')
    def clip(x, lo, hi): return A.elem(lambda v, a, b: s.minimum(s.maximum(v, a), b), arr(x), lo if scalar(lo) else arr(lo), hi if scalar(hi) else arr(hi))
    # ---- linear algebra
    reg('dot', lambda a, b: A.dot(arr(a), arr(b)))
    reg('matmul', lambda a, b: A.matmul(arr(a), arr(b)))
    reg('inner', lambda a, b: A.dot(arr(a), A.transpose(arr(b))))
    reg('vdot', lambda a, b: A.dot(arr(a), arr(b)))
    @r('outer')
    def outer(a, b):
        a, b = A.flatten(arr(a)), A.flatten(arr(b)); ga, gb = a.getter(), b.getter()
        return SArr((a.shape[0], b.shape[0]), lambda i, j: s.mul(ga(i), gb(j)))
    @r('tensordot')
    def tensordot(a, b, axes=2):
        a, b = arr(a), arr(b)
        if isinstance(axes, int): ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            ax, bx = [list(v) if isinstance(v, (list, tuple)) else [v] for v in axes]
        ax = [v % a.ndim for v in ax]; bx = [v % b.ndim for v in bx]
        for p, q in zip(ax, bx):
            e = A.dimeq(a.shape[p], b.shape[q])
            if e is False: raise PyRaise('ValueError', 'shape-mismatch for sum')
            if e is None: raise Unsupported('tensordot shapes')
        ra = [k for k in range(a.ndim) if k not in ax]; rb = [k for k in range(b.ndim) if k not in bx]
        ga, gb = a.getter(), b.getter()
        def fn(*i):
            def rec(k, js):
                if k == len(ax):
                    ia, ib = [None] * a.ndim, [None] * b.ndim
                    for p, q, j in zip(ax, bx, js): ia[p] = j; ib[q] = j
                    for p, v in zip(ra, i[:len(ra)]): ia[p] = v
                    for p, v in zip(rb, i[len(ra):]): ib[p] = v
                    return s.mul(ga(*ia), gb(*ib))
                return ctx().sum_(a.shape[ax[k]], lambda j: rec(k + 1, js + (j,)))
            return rec(0, ())
        sh = tuple(a.shape[k] for k in ra) + tuple(b.shape[k] for k in rb)
        return SArr(sh, fn) if sh else fn()
    @r('einsum')
    def einsum(spec, *ops):
        ins, out = spec.replace(' ', '').split('->') if '->' in spec else (spec.replace(' ', ''), None)
        ins = ins.split(',')
        ops = [arr(o) for o in ops]
        if out is None:
            al = ''.join(ins); out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        dims = {}
        for t, o in zip(ins, ops):
            for c, n in zip(t, o.shape): dims.setdefault(c, n)
        gs = [o.getter() for o in ops]
        inner = [c for c in dims if c not in out]
        def fn(*i):
            env = dict(zip(out, i))
            def rec(k):
                if k == len(inner):
                    v = 1
                    for t, g in zip(ins, gs): v = s.mul(v, g(*[env[c] for c in t]))
                    return v
                def b(j):
                    env[inner[k]] = j
                    return rec(k + 1)
                return ctx().sum_(dims[inner[k]], b)
            return rec(0)
        sh = tuple(dims[c] for c in out)
        return SArr(sh, fn) if sh else fn()
    @r('trace')
    def trace(a):
        a = arr(a); g = a.getter()
        return ctx().sum_(a.shape[0], lambda j: g(j, j))
    @r('kron')
    def kron(a, b): raise Unsupported('kron')
    # ---- shape
    reg('transpose', lambda a, axes=None: A.transpose(arr(a), axes))
    reg('reshape', lambda a, sh: A.reshape(arr(a), sh))
    reg('ravel', lambda a: A.flatten(arr(a)))
    @r('squeeze')
    def squeeze(a, axis=None):
        a = arr(a); g = a.getter()
        keep = [k for k, n in enumerate(a.shape) if not (isinstance(n, int) and n == 1)]
        if any(not isinstance(n, int) and not ctx().refutable(idx(n) == 1) for n in a.shape): raise Unsupported('squeeze of a possibly unit axis')
        def fn(*i):
            q = [0] * a.ndim
            for k, v in zip(keep, i): q[k] = v
            return g(*q)
        return SArr([a.shape[k] for k in keep], fn, a.kind)
    def seqarr(xs):
        if isinstance(xs, SArr): return [A.getitem(xs, i) for i in range(xs.shape[0])] if isinstance(xs.shape[0], int) else xs
        if isinstance(xs, SList):
            if isinstance(xs.n, int): return [xs.get(i) for i in range(xs.n)]
            return xs
        return ip.iter_list(xs)
    def generic(xs):
        """the element at a generic position in range, its shape checked to be the same at every position"""
        p = ctx().fresh('cat'); c = ctx(); k = len(c.path)
        c.path.append(z3.And(p >= 0, p < idx(xs.n)))
        try: x0 = asarr(listy(xs.get(p)))
        finally: del c.path[k:]
        if any(not isinstance(q, int) and any(u.eq(p) for u in iterms(idx(q))) for q in x0.shape): raise Unsupported('stacking arrays of varying shape')
        return x0
    def symcat(xs, axis, stack):
        """concatenate a symbolic number of equal-shaped arrays along axis 0"""
        x0 = generic(xs)
        if axis == 0 and x0.ndim >= 1 and isinstance(x0.shape[0], int) and x0.shape[0] == 1:
            return SArr((xs.n,) + x0.shape[1:], lambda i, *q: asarr(listy(xs.get(i))).at(*((0,) + q)), x0.kind)
        raise Unsupported('concatenation of a symbolic list')
    @r('vstack', 'row_stack')
    def vstack(xs):
        xs = seqarr(xs)
        if isinstance(xs, SList):
            x0 = generic(xs)
            if x0.ndim == 1: return asarr(xs)
            return symcat(xs, 0, True)
        if isinstance(xs, SArr): return xs
        if not xs: raise PyRaise('ValueError', 'need at least one array to concatenate')
        return A.concat([atleast_2d(x) for x in xs], 0)
    @r('hstack')
    def hstack(xs):
        xs = seqarr(xs)
        if isinstance(xs, (SList, SArr)): raise Unsupported('hstack of a symbolic list')
        if not xs: raise PyRaise('ValueError', 'need at least one array to concatenate')
        xs = [atleast_1d(x) for x in xs]
        return A.concat(xs, 0 if xs[0].ndim == 1 else 1)
    @r('concatenate')
    def concatenate(xs, axis=0):
        xs = seqarr(xs)
        if isinstance(xs, SList): return symcat(xs, axis, False)
        if isinstance(xs, SArr): raise Unsupported('concatenate array')
        if not xs: raise PyRaise('ValueError', 'need at least one array to concatenate')
        xs = [arr(x) for x in xs]
        return A.concat(xs, axis % xs[0].ndim)
    reg('append', lambda a, b, axis=None: concatenate([a, b], axis) if axis is not None else concatenate([A.flatten(arr(a)), A.flatten(arr(b))]))
    @r('stack')
    def stack(xs, axis=0):
        a = asarr(listy(xs))
        if axis != 0: 
            axs = list(range(1, a.ndim)); axs.insert(axis, 0)
            return A.transpose(a, axs)
        return a
    reg('column_stack', lambda xs: A.concat([x if x.ndim == 2 else A.getitem(x, (slice(None), None)) for x in [arr(v) for v in seqarr(xs)]], 1))
    @r('tile')
    def tile(a, reps):
        a = arr(a)
        reps = [A.ix(q) for q in (reps if isinstance(reps, (tuple, list)) else (reps,))]
        nd = max(a.ndim, len(reps)); reps = [1] * (nd - len(reps)) + reps
        sh = (1,) * (nd - a.ndim) + a.shape; g = a.getter(); lead = nd - a.ndim
        def fn(*i):
            q = []
            for k, (n, rp) in enumerate(zip(sh, reps)):
                if isinstance(rp, int) and rp == 1: q.append(i[k])
                elif isinstance(n, int) and n == 1: q.append(0)
                elif isinstance(i[k], int) and isinstance(n, int): q.append(i[k] % n)
                else: raise Unsupported('tile')
            return g(*q[lead:])
        return SArr([A.imul(n, rp) for n, rp in zip(sh, reps)], fn, a.kind)
    @r('repeat')
    def repeat(a, n, axis=None):
        raise Unsupported('repeat')
    @r('meshgrid')
    def meshgrid(*xs, **kw):
        xs = [arr(x) for x in xs]; sh = tuple(x.shape[0] for x in xs)
        if kw.get('indexing', 'xy') != 'ij' and len(xs) > 1:
            sh = (sh[1], sh[0]) + sh[2:]; at = lambda k: {0: 1, 1: 0}.get(k, k)
            return [SArr(sh, (lambda x, k: lambda *i: x.at(i[at(k)]))(x, k)) for k, x in enumerate(xs)]
        return [SArr(sh, (lambda x, k: lambda *i: x.at(i[k]))(x, k)) for k, x in enumerate(xs)]
    @r('broadcast_to')
    def broadcast_to(a, sh):
        a = arr(a); sh = shp(sh, ip); g = a.getter()
        return SArr(sh, lambda *i: g(*A.bidx(a, i)), a.kind)
    # ---- reductions
    def red(f):
        def g(a, axis=None, dtype=None, out=None, keepdims=False):
            a = a if is_bool(a) else arr(a)
            if keepdims: return f(a, axis, keepdims)
            return f(a, axis)
        return g
    reg('sum', red(A.sum_)); reg('prod', red(A.prod_)); reg('product', red(A.prod_))
    reg('all', red(A.all_)); reg('any', red(A.any_)); reg('alltrue', red(A.all_))
    reg('min', red(A.min_)); reg('max', red(A.max_)); reg('amin', red(A.min_)); reg('amax', red(A.max_))
    reg('argmin', red(A.argmin)); reg('argmax', red(A.argmax))
    @r('mean', 'average')
    def mean(a, axis=None):
        a = arr(a)
        n = A.size(a) if axis is None else a.shape[axis]
        return ip.binop('Div', A.sum_(a, axis), num(n))
    @r('var')
    def var(a, axis=None):
        a = arr(a)
        if axis is None: m = mean(a)
        else: m = A.asarr(mean(a, axis)); 
        if axis not in (None, 0): raise Unsupported('var axis')
        return mean(A.elem(lambda x, y: s.mul(s.sub(x, y), s.sub(x, y)), a, m), axis)
    reg('std', lambda a, axis=None: un(s.sqrt)(var(a, axis)))
    @r('count_nonzero')
    def cnz(a): return A.sum_(A.elem(B, arr(a), kind='b'))
    @r('isscalar')
    def isscalar(x): return scalar(x) or isinstance(x, str)
    @r('shape')
    def shape(x): return tuple(num(q) for q in arr(x).shape)
    reg('size', lambda x: num(A.size(arr(x)))); reg('ndim', lambda x: arr(x).ndim)
    @r('cumsum')
    def cumsum(a, axis=None):
        a = arr(a); g = a.getter()
        if a.ndim != 1: raise Unsupported('cumsum')
        return SArr(a.shape, lambda i: ctx().sum_(A.iadd(i, 1), g))
    @r('argsort')
    def argsort(a, axis=-1, kind=None): raise Unsupported('argsort')
    # ---- sub-namespaces
    la = {}
    def norm(x, ord=None, axis=None, keepdims=False):
        ip.external['numpy.linalg.norm'] = 1
        x = arr(x)
        if x.ndim == 0: return s.abs_(x.at())
        if ord is None or (ord == 2 and (x.ndim == 1 or axis is not None)) or ord == 'fro':
            if axis is None and x.ndim > 2 : raise Unsupported('norm of tensor')
            q = A.elem(lambda v: s.mul(v, v), x)
            return un(s.sqrt)(A.sum_(q, axis))
        if isinstance(ord, float) and ord == INF and x.ndim == 1: return A.max_(A.elem(s.abs_, x))
        if ord == 1 and x.ndim == 1: return A.sum_(A.elem(s.abs_, x))
        raise Unsupported('norm ord=%r' % (ord,))
    la['norm'] = Builtin('numpy.linalg.norm', norm)
    la['LinAlgError'] = ExcType('LinAlgError', ('Exception',))
    la['__getattr__'] = lambda n: Opaque('numpy.linalg.' + n)
    d['linalg'] = Ns('numpy.linalg', la)
    rnd = {}
    R_, I_ = z3.RealSort(), z3.IntSort()
    def rand(*sh):
        ip.external['numpy.random.rand'] = 1
        sh = tuple(A.ix(v) for v in sh)
        h = ctx().havoc('rand', *([I_] * len(sh) + [R_]))
        if not sh:
            v = h(); ctx().learn(And(v >= 0, v < 1)); return Sym(v)
        f = lambda *i: h(*i)
        if not ctx().hv:
            ctx().learn_all([(0, n) for n in sh], lambda *i: And(f(*i) >= 0, f(*i) < 1))
            return SArr(sh, lambda *i: Sym(f(*i)))
        def at(*i):
            v = f(*i); ctx().learn(And(v >= 0, v < 1)); return Sym(v)
        return SArr(sh, at)
    def randn(*sh):
        ip.external['numpy.random.randn'] = 1
        sh = tuple(A.ix(v) for v in sh)
        h = ctx().havoc('randn', *([I_] * len(sh) + [R_]))
        if not sh: return Sym(h())
        return SArr(sh, lambda *i: Sym(h(*i)))
    def uniform(low=0, high=1, size=None):
        ip.external['numpy.random.uniform'] = 1
        sh = () if size is None else shp(size, ip)
        if size is None:
            lo, hi = arr(low), arr(high)
            sh = A.bshape(lo.shape, hi.shape)
        h = ctx().havoc('unif', *([I_] * len(sh) + [R_]))
        a = SArr(sh, lambda *i: Sym(h(*i))) if sh else Sym(h())
        lo, hi = arr(low), arr(high)
        def fact(*i):
            v = Sym(h(*i)); l, u = lo.at(*A.bidx(lo, i)), hi.at(*A.bidx(hi, i))
            return Or(And(s.le(l, v), s.le(v, u)), s.lt(u, l))
        if sh and not ctx().hv: ctx().learn_all([(0, n) for n in sh], fact)
        elif not sh: ctx().learn(fact())
        else:
            def at(*i):
                ctx().learn(fact(*i)); return Sym(h(*i))
            a = SArr(sh, at)
        return a
    rnd['rand'] = Builtin('numpy.random.rand', rand); rnd['randn'] = Builtin('numpy.random.randn', randn)
    rnd['random'] = Builtin('numpy.random.random', lambda size=None: rand(*(() if size is None else shp(size, ip))))
    rnd['uniform'] = Builtin('numpy.random.uniform', uniform)
    rnd['seed'] = Builtin('numpy.random.seed', lambda *a: None)
    def permutation(n):
        ip.external['numpy.random.permutation'] = 1
        if not scalar(n):
            a = arr(n); m = a.shape[0]; p = permutation(num(m)); g = a.getter()
            return SArr(a.shape, lambda i, *q: g(A.ix(p.at(i)), *q), a.kind)
        n = A.ix(n)
        h = ctx().havoc('perm', I_, I_); hi = ctx().havoc('pinv', I_, I_)
        fact = lambda i: And(h(i) >= 0, h(i) < idx(n), hi(h(i)) == i, h(hi(i)) == i, hi(i) >= 0, hi(i) < idx(n))
        if not ctx().hv: ctx().learn_all([(0, n)], fact)
        else: raise Unsupported('permutation in a loop')
        return SArr((n,), lambda i: Sym(h(i)), 'i')
    rnd['permutation'] = Builtin('numpy.random.permutation', permutation)
    def randint(lo, hi=None, size=None):
        ip.external['numpy.random.randint'] = 1
        if hi is None: lo, hi = 0, lo
        if size is not None: raise Unsupported('randint size')
        h = ctx().havoc('randint', I_)(); ctx().learn(And(h >= A.idx(A.ix(lo)), h < A.idx(A.ix(hi))))
        return Sym(h)
    rnd['randint'] = Builtin('numpy.random.randint', randint)
    rnd['__getattr__'] = lambda n: Opaque('numpy.random.' + n)
    d['random'] = Ns('numpy.random', rnd)
    d['testing'] = Opaque('numpy.testing')
    d['lib'] = Opaque('numpy.lib'); d['polynomial'] = Opaque('numpy.polynomial'); d['ma'] = Opaque('numpy.ma')

    # ---- casts
    def cast(dt, *a):
        if dt.name == 'float':
            if not a: return 0
            v = a[0]
            if isinstance(v, str): return ip.untext(v)
            if isinstance(v, SArr):
                sz = A.size(v)
                if isinstance(sz, int) and sz == 1: v = v.at(*([0] * v.ndim))
                elif not isinstance(sz, int) and ip.decide(idx(sz) == 1): v = v.at(*([0] * v.ndim))
                else: raise PyRaise('TypeError', 'only size-1 arrays can be converted')
            if isinstance(v, (list, tuple, dict)) or v is None: raise PyRaise('TypeError', 'float() argument')
            if conc(v): return Fraction(v) if not isinstance(v, float) else v
            v = S(v); return Sym(s.R(v.e), v.pi, v.ni, v.na)
        if dt.name == 'int':
            v = a[0] if a else 0
            if isinstance(v, SArr) and v.ndim == 0: v = v.at()
            if not scalar(v): raise PyRaise('TypeError', 'int() argument')
            return toint(v)
        if dt.name == 'bool':
            v = a[0] if a else False
            if is_bool(v): return v
            if isinstance(v, (Sym,)): return s.ne(v, 0)
            return ip.truth(v)
        raise Unsupported('cast %s' % dt.name)
    d['_cast'] = cast
    # ---- attributes / methods
    def attr(o, name):
        if isinstance(o, SArr): return arr_attr(o, name)
        if isinstance(o, list): return list_attr(o, name)
        if isinstance(o, SList): return slist_attr(o, name)
        if isinstance(o, dict): return dict_attr(o, name)
        if isinstance(o, str): return str_attr(o, name)
        if isinstance(o, tuple):
            if name == 'index': return Builtin('index', lambda x: o.index(x))
            if name == 'count': return Builtin('count', lambda x: o.count(x))
        if scalar(o):
            if name in ('conj', 'conjugate', 'item', 'copy'): return Builtin(name, lambda: o)
            if name == 'real': return o
            if name == 'imag': return 0
            if name == 'shape': return ()
            if name == 'ndim': return 0
            if name == 'size': return 1
            if name in ('flatten', 'reshape', 'sum', 'min', 'max', 'all', 'any', 'dot', 'T', 'astype'): return arr_attr(asarr(o), name)
            if name == 'is_integer': return Builtin(name, lambda: True if isinstance(o, int) else _u('is_integer'))
        if o is None: raise PyRaise('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if isinstance(o, (IFunc, IMethod, Builtin)):
            if isinstance(o, Builtin) or hasattr(attr, name): raise Unsupported('function attribute %s' % name)
            raise PyRaise('AttributeError', name)
        if isinstance(o, set):
            if name == 'add': raise Unsupported('set.add')
        raise Unsupported('attribute %s of %r' % (name, type(o)))
    d['_attr'] = attr
    def arr_attr(a, name):
        if name == 'shape': return tuple(num(q) for q in a.shape)
        if name == 'ndim': return a.ndim
        if name == 'size': return num(A.size(a))
        if name == 'T': return A.transpose(a)
        if name == 'dtype': return Dt(a.kind, {'f': 'float', 'i': 'int', 'b': 'bool', 'o': 'object'}[a.kind])
        if name == 'real': return a
        M = {'flatten': lambda order='C': A.flatten(a), 'ravel': lambda order='C': A.flatten(a),
             'reshape': lambda *sh, **k: A.reshape(a, sh[0] if len(sh) == 1 else sh) if not k else _u('reshape order'),
             'copy': lambda order=None: SArr(a.shape, a.getter(), a.kind, meta=dict(a.meta)),
             'dot': lambda b: A.dot(a, arr(b)), 'transpose': lambda *ax: A.transpose(a, (ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else ax) or None),
             'sum': red(A.sum_), 'prod': red(A.prod_), 'min': red(A.min_), 'max': red(A.max_), 'all': red(A.all_), 'any': red(A.any_),
             'argmin': red(A.argmin), 'argmax': red(A.argmax), 'mean': mean, 'std': lambda b, axis=None: un(s.sqrt)(var(b, axis)), 'var': var,
             'squeeze': squeeze, 'diagonal': lambda b: A.diag(b), 'nonzero': lambda b: (nonzero_(b),), 'clip': clip, 'cumsum': cumsum,
             'astype': lambda dt, **k: conv(SArr(a.shape, a.getter(), a.kind), kd(dt)),
             'tolist': lambda: tolist(a), 'item': lambda: cast(Dt('f', 'float'), a), 'conj': lambda: a,
             'fill': lambda v: A.setitem(a, slice(None), v)}
        if name in ('sum', 'prod', 'min', 'max', 'all', 'any', 'argmin', 'argmax', 'mean', 'std', 'var', 'squeeze', 'diagonal', 'nonzero', 'clip', 'cumsum'):
            f = M[name]; return Builtin(name, lambda *x, **k: f(a, *x, **k))
        if name in M: return Builtin(name, M[name])
        if name in ('__len__',): return Builtin(name, lambda: num(a.shape[0]))
        if name == '__rmatmul__': return Builtin(name, lambda M: A.dot(arr(M), a))
        if name == 'value' and hasattr(a, 'cp'): return a.cp[2]()
        if name in ('columns', 'value', 'domain', 'keys'): raise PyRaise('AttributeError', name)
        raise Unsupported('array attribute %s' % name)
    def tolist(a):
        if a.ndim == 0: return a.at()
        return [tolist(asarr(A.getitem(a, i))) for i in range(a.shape[0])] if isinstance(a.shape[0], int) else SList(a.shape[0], lambda i: tolist(asarr(A.getitem(a, Sym(idx(i)) if not isinstance(i, int) else i))))
    def list_attr(l, name):
        def mut(fn):
            def g(*a):
                old = list(l)
                def u(): l[:] = old
                u.obj = ('list', l)
                ip.trail.append(u)
                return fn(*a)
            return Builtin('list.' + name, g)
        if name == 'append': return Builtin('append', lambda v: ip.list_append(l, v))
        if name == 'extend':
            def ext(v):
                q = ip.as_seq(v)
                if isinstance(q, SList): raise Unsupported('list.extend with a symbolic sequence')
                for x in q: ip.list_append(l, x)
            return Builtin('extend', ext)
        if name == 'insert': return mut(lambda i, v: l.insert(i, v))
        if name == 'pop': return mut(lambda i=-1: l.pop(i))
        if name == 'remove': return mut(lambda v: l.remove(v))
        if name == 'reverse': return mut(lambda: l.reverse())
        if name == 'copy': return Builtin('copy', lambda: list(l))
        if name == 'index':
            def index(x):
                for i, v in enumerate(l):
                    if v is x or ip.decide(ip.compare('Eq', v, x)): return i
                raise PyRaise('ValueError', 'not in list')
            return Builtin('index', index)
        if name == 'sort': raise Unsupported('list.sort')
        if hasattr(list, name): raise Unsupported('list.%s' % name)
        raise PyRaise('AttributeError', name)
    def slist_attr(l, name):
        if name == 'append':
            def app(v):
                if getattr(l, 'ph', None) is not None:
                    old = list(l.ph)
                    def u2(): l.ph = old
                    u2.obj = ('slist', l)
                    ip.trail.append(u2)
                    l.ph = old + [v]; return
                n0, g0 = l.n, l.get
                def u(): l.n, l.get = n0, g0
                u.obj = ('slist', l)
                ip.trail.append(u)
                s0 = SList(n0, g0); s0.segs = getattr(l, 'segs', None)
                new = ip.listcat(s0, [v])
                if isinstance(new, list): new = SList(len(new), (lambda new: lambda i: ip.getitem(new, Sym(i) if not isinstance(i, int) else i))(new))
                l.n, l.get = new.n, new.get
                if hasattr(new, 'segs'): l.segs = new.segs
            return Builtin('append', app)
        if name == 'copy': return Builtin('copy', lambda: SList(l.n, l.get))
        raise Unsupported('symbolic list attribute %s' % name)
    def dict_attr(o, name):
        def save():
            old = dict(o)
            def u(): o.clear(); o.update(old)
            u.obj = ('dict', o)
            ip.trail.append(u)
        if name == 'get': return Builtin('get', lambda k, v=None: o.get(k, v))
        if name == 'items': return Builtin('items', lambda: [(k, v) for k, v in o.items()])
        if name == 'keys': return Builtin('keys', lambda: list(o.keys()))
        if name == 'values': return Builtin('values', lambda: list(o.values()))
        if name == 'copy': return Builtin('copy', lambda: dict(o))
        if name == 'update':
            def upd(x=None, **k):
                save(); o.update(x or {}); o.update(k)
            return Builtin('update', upd)
        if name == 'pop':
            def pop(k, *dflt):
                save()
                if k not in o and not dflt: raise PyRaise('KeyError', k)
                return o.pop(k, *dflt)
            return Builtin('pop', pop)
        if name == 'setdefault':
            def sd(k, v=None): save(); return o.setdefault(k, v)
            return Builtin('setdefault', sd)
        if hasattr(dict, name): raise Unsupported('dict.%s' % name)
        raise PyRaise('AttributeError', name)
    def str_attr(o, name):
        if name == 'format': return Builtin('format', lambda *a, **k: ip.format(o, a, k))
        if name in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'join', 'rjust', 'ljust', 'count', 'find', 'title', 'capitalize', 'isdigit', 'rstrip', 'lstrip'):
            def g(*a):
                try: return getattr(o, name)(*a)
                except TypeError: raise Unsupported('string method')
            return Builtin(name, g)
        if hasattr(str, name): raise Unsupported('str.%s' % name)
        raise PyRaise('AttributeError', name)
    def missing(name):
        if name.startswith('_'): raise Unsupported('numpy.%s' % name)
        return Opaque('numpy.' + name)
    d['__getattr__'] = missing
    return Ns('numpy', d)


def builtins(ip):
    from .interp import Ns, Builtin, Dt, Opaque, IObj, IFunc, IMethod, ExcType, IClass, IStatic
    b = {}
    def r(*names):
        def deco(fn):
            for n in names: b[n] = Builtin(n, fn)
            return fn
        return deco
    b['float'] = Dt('f', 'float'); b['int'] = Dt('i', 'int'); b['bool'] = Dt('b', 'bool')
    b['object'] = Builtin('object', lambda: IObj(IClass('object', [], {}, None)))
    b['True'], b['False'], b['None'] = True, False, None
    b['__name__'] = 'psdr'
    b['NotImplemented'] = Ns('NotImplemented', {})
    @r('len')
    def len_(x):
        if isinstance(x, SArr):
            if x.ndim == 0: raise PyRaise('TypeError', 'len() of unsized object')
            return num(x.shape[0])
        if isinstance(x, SList): return num(x.n)
        if isinstance(x, (list, tuple, dict, str, set, range)): return len(x)
        if isinstance(x, IObj):
            m, _ = x.cls.lookup('__len__')
            if m is None: raise PyRaise('TypeError', 'object has no len()')
            return ip.call(IMethod(m, x))
        if x is None or scalar(x): raise PyRaise('TypeError', 'object has no len()')
        if isinstance(x, Ns) and '__len__' in x.d: return x.d['__len__']()
        raise Unsupported('len of %r' % (type(x),))
    @r('range')
    def range_(a, c=None, step=1):
        if c is None: a, c = 0, a
        a, c = A.ix(a), A.ix(c)
        if isinstance(a, int) and isinstance(c, int) and isinstance(step, int): return list(range(a, c, step))
        if step == 1: return SList(ip.np.d['_rlen'](a, c), lambda i: num(A.iadd(a, i)))
        raise Unsupported('symbolic range step')
    def seqs(xs):
        qs = [ip.as_seq(x) for x in xs]
        if all(isinstance(q, list) for q in qs): return qs, min(len(q) for q in qs) if qs else 0
        ns = [len(q) if isinstance(q, list) else q.n for q in qs]
        n = ns[0]
        for m in ns[1:]:
            e = A.dimeq(n, m)
            if e is True: continue
            if ip.ctx.refutable(Not(A.ile(n, m))): continue
            if ip.ctx.refutable(Not(A.ile(m, n))): n = m; continue
            if ip.decide(A.ile(n, m)): continue
            n = m
        return qs, n
    def gt(q, i):
        if isinstance(q, SList): return q.get(i)
        return ip.getitem(q, i if isinstance(i, int) else Sym(i))
    @r('zip')
    def zip_(*xs):
        qs, n = seqs(xs)
        if isinstance(n, int): return [tuple(gt(q, i) for q in qs) for i in range(n)]
        return SList(n, lambda i: tuple(gt(q, i) for q in qs))
    @r('enumerate')
    def enum(x, start=0):
        q = ip.as_seq(x)
        if isinstance(q, list): return [(i + start, v) for i, v in enumerate(q)]
        return SList(q.n, lambda i: (num(A.iadd(i, start)), q.get(i)))
    @r('list')
    def list_(x=()):
        q = ip.as_seq(x)
        return list(q) if isinstance(q, list) else SList(q.n, q.get)
    @r('tuple')
    def tuple_(x=()):
        q = ip.as_seq(x)
        return tuple(q) if isinstance(q, list) else q
    @r('dict')
    def dict_(x=None, **k):
        o = dict(x) if isinstance(x, dict) else dict((ip.iter_list(p)[0], ip.iter_list(p)[1]) for p in ip.iter_list(x)) if x is not None else {}
        o.update(k); return o
    @r('set', 'frozenset')
    def set_(x=()): return set(ip.iter_list(x))
    @r('iter')
    def iter_(x): return Ns('iterator', {'_l': ip.as_seq(x), '_p': [0], '__seq__': lambda: ip.as_seq(x)})
    @r('next')
    def next_(x, *dflt):
        if isinstance(x, Ns) and '_l' in x.d:
            l, p = x.d['_l'], x.d['_p']
        else: l, p = ip.as_seq(x), [0]
        if isinstance(l, SList):
            if ip.decide(idx(l.n) > p[0]): p[0] += 1; return l.get(p[0] - 1)
        elif p[0] < len(l): p[0] += 1; return l[p[0] - 1]
        if dflt: return dflt[0]
        raise PyRaise('StopIteration', None)
    @r('reversed')
    def reversed_(x):
        q = ip.as_seq(x)
        if isinstance(q, list): return q[::-1]
        return SList(q.n, lambda i: q.get(A.isub(A.isub(q.n, 1), i)))
    @r('sorted')
    def sorted_(x, key=None, reverse=False):
        l = ip.iter_list(x)
        if key is None and all(isinstance(v, str) or conc(v) for v in l): return sorted(l, reverse=reverse)
        raise Unsupported('sorted')
    def ext(f, axisf):
        def g(*a, **k):
            if len(a) == 1:
                q = ip.as_seq(a[0])
                if isinstance(q, list):
                    if not q:
                        if 'default' in k: return k['default']
                        raise PyRaise('ValueError', 'empty sequence')
                    v = q[0]
                    for w in q[1:]: v = f(v, w)
                    return v
                sg = A.segs(q)
                if any(isinstance(p, list) and p for p in sg):        # put together from a list and lists of symbolic length
                    v = None
                    for p in sorted(sg, key=lambda p: not isinstance(p, list)):
                        if isinstance(p, list):
                            for w in p: v = w if v is None else f(v, w)
                        elif ip.decide(idx(p.n) > 0): v = f(v, axisf(asarr(p)))
                    return v
                return axisf(asarr(q))
            v = a[0]
            for w in a[1:]:
                if not (scalar(v) and scalar(w)):
                    v2, w2 = [ip.np.d['_cast'](Dt('f', 'float'), z) if isinstance(z, SArr) else z for z in (v, w)]
                    v, w = v2, w2
                v = f(v, w)
            return v
        return g
    b['min'] = Builtin('min', ext(s.pymin, A.min_)); b['max'] = Builtin('max', ext(s.pymax, A.max_))
    @r('abs')
    def abs_(x): return A.elem(s.abs_, x if scalar(x) else asarr(x), kind=A.kindof(x) if not isinstance(x, list) else 'f')
    @r('sum')
    def sum_(x, start=0):
        q = ip.as_seq(x)
        if isinstance(q, list):
            v = start
            for w in q: v = ip.binop('Add', v, w if not is_bool(w) else s.mk(S(w).e))
            return v
        return s.add(start, A.sum_(asarr(q)))
    def B(v): return v if is_bool(v) else (s.ne(v, 0) if isinstance(v, Sym) else ip.truth(v))
    @r('all')
    def all_(x):
        q = ip.as_seq(x)
        if isinstance(q, list): return And(*[B(v) for v in q])
        return ip.ctx.all_(q.n, lambda i: B(q.get(i)))
    @r('any')
    def any_(x):
        q = ip.as_seq(x)
        if isinstance(q, list): return Or(*[B(v) for v in q])
        return ip.ctx.any_(q.n, lambda i: B(q.get(i)))
    @r('isinstance')
    def isinstance_(o, t): return ip.isinstance_(o, t)
    @r('issubclass')
    def issub(c, t): return any(isinstance(x, IClass) and x in c.mro for x in (t if isinstance(t, tuple) else (t,)))
    b['type'] = Builtin('type', lambda o: o.cls if isinstance(o, IObj) else (_ for _ in ()).throw(Unsupported('type()')))
    @r('hasattr')
    def hasattr_(o, n):
        try: ip.getattr(o, n); return True
        except PyRaise as e:
            if e.name == 'AttributeError': return False
            raise
    @r('getattr')
    def getattr_(o, n, *dflt):
        try: return ip.getattr(o, n)
        except PyRaise as e:
            if e.name == 'AttributeError' and dflt: return dflt[0]
            raise
    @r('setattr')
    def setattr_(o, n, v): ip.setattr(o, n, v)
    @r('callable')
    def callable_(f): return isinstance(f, (IFunc, IMethod, Builtin, IClass)) or (isinstance(f, IObj) and f.cls.lookup('__call__')[0] is not None) or (isinstance(f, Ns) and '__call__' in f.d)
    b['print'] = Builtin('print', lambda *a, **k: None)
    b['str'] = Builtin('str', lambda *a: ip.text(a[0]) if a else '')
    b['repr'] = Builtin('repr', lambda *a: '?str' if isinstance(a[0], str) else ip.text(a[0]))
    b['id'] = Builtin('id', lambda o: id(o))
    b['super'] = Builtin('super', None)
    b['round'] = Builtin('round', lambda v, n=None: round(v) if conc(v) and n is None else (_ for _ in ()).throw(Unsupported('round')))
    def map_(f, *xs):
        z = zip_(*xs)
        if isinstance(z, list): return [ip.call(f, list(t)) for t in z]
        return SList(z.n, lambda i: ip.lazy(lambda: ip.call(f, list(z.get(i)))))
    b['slice'] = Builtin('slice', lambda *a: slice(*a))
    b['map'] = Builtin('map', map_)
    b['pow'] = Builtin('pow', lambda a, c: ip.binop('Pow', a, c))
    b['divmod'] = Builtin('divmod', lambda a, c: (s.floordiv(a, c), s.mod(a, c)))
    return b

def make_shims(ip):
    """standard-library modules with an executable meaning (everything else is opaque)"""
    from .interp import Ns, Builtin
    np = ip.np
    def chain(*xs):
        out = []
        for x in xs: out = ip.listcat(out, (lambda q: q if isinstance(q, SList) else list(q))(ip.as_seq(x)))
        return out
    def product(*xs, **k):
        ls = [ip.iter_list(x) for x in xs] * k.get('repeat', 1)
        return [tuple(t) for t in itertools.product(*ls)]
    def combos(x, r):
        x = ip.as_seq(x)
        if isinstance(x, SList) and r == 2:        # all pairs (i, j) with i < j, in some order
            import z3
            from .ctx import idx
            c = ip.ctx; n = idx(x.n); I = z3.IntSort(); c.pairs = getattr(c, "pairs", []); u = len(c.pairs)
            f = [z3.Function('pair%d_%s' % (u, w), I, I, I) for w in 'ij']; inv = z3.Function('pair%d_inv' % u, I, I, I, I); cnt = z3.Function('pair%d_n' % u, I, I)(n); c.pairs.append(cnt)
            c.pairfns = getattr(c, 'pairfns', set()) | set(g.name() for g in f)
            c.learn(cnt >= 0)
            c.learn_all([(0, cnt)], lambda p: z3.And(0 <= f[0](p, n), f[0](p, n) < f[1](p, n), f[1](p, n) < n))
            c.learn_all([(0, n), (0, n)], lambda a, b: z3.Implies(idx(a) < idx(b), z3.And(0 <= inv(a, b, n), inv(a, b, n) < cnt, f[0](inv(a, b, n), n) == idx(a), f[1](inv(a, b, n), n) == idx(b))))
            return SList(cnt, lambda p: (x.get(f[0](idx(p), n)), x.get(f[1](idx(p), n))))
        return [tuple(t) for t in itertools.combinations(ip.iter_list(x), r)]
    sh = {'itertools': Ns('itertools', {'chain': Ns('chain', {'__call__': chain, 'from_iterable': Builtin('from_iterable', lambda x: chain(*ip.iter_list(x)))}),
                                        'product': Builtin('product', product), 'combinations': Builtin('combinations', combos)})}
    m = {}
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'floor', 'ceil', 'fabs', 'pi', 'isfinite', 'isinf', 'isnan'):
        if n in np.d: m[n] = np.d[n]
    m['__getattr__'] = lambda name: (_ for _ in ()).throw(Unsupported('math.%s' % name))
    sh['math'] = Ns('math', m)
    nop = Builtin('warnings.*', lambda *a, **k: None)
    sh['warnings'] = Ns('warnings', {'catch_warnings': nop, 'simplefilter': nop, 'warn': nop, 'filterwarnings': nop})
    def deepcopy(x, memo=None):
        if isinstance(x, SArr): return SArr(x.shape, x.getter(), x.kind, meta=dict(x.meta))
        if isinstance(x, SList): return SList(x.n, (lambda g: lambda i: deepcopy(g(i)))(x.get))
        if isinstance(x, (list, tuple)): return type(x)(deepcopy(y) for y in x)
        if isinstance(x, dict): return dict((a, deepcopy(y)) for a, y in x.items())
        if scalar(x) or x is None or isinstance(x, str): return x
        raise Unsupported('deepcopy of %r' % (type(x),))
    sh['copy'] = Ns('copy', {'deepcopy': Builtin('deepcopy', deepcopy)})
    return sh
