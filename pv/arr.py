"""Symbolic numpy arrays: a shape (python ints / z3 Int terms) and an element function."""
import z3, math
from fractions import Fraction
from . import sym as s
from .sym import Sym, S, And, Or, Not, Unsupported, conc, is_bool, unwrap
from .ctx import Ctx, idx

TRAIL = [None]         # undo log hook (set by the interpreter)

class PyRaise(Exception):
    """a Python exception raised by the interpreted code"""
    def __init__(self, name, value=None):
        Exception.__init__(self, name, value)
        self.name, self.value = name, value

def ctx(): return Ctx.cur

def ix(i):
    """normalise an index: python int if concrete, else z3 Int"""
    if isinstance(i, (bool,)): return int(i)
    if isinstance(i, int): return i
    if isinstance(i, Fraction):
        if i.denominator == 1: return int(i)
        raise Unsupported('fractional index')
    if isinstance(i, Sym):
        if not i.plain: raise Unsupported('non-finite index')
        i = i.e
    if z3.is_expr(i):
        v = unwrap(i)
        if v is not None: return int(v)
        if not z3.is_int(i):
            if z3.is_app_of(i, z3.Z3_OP_TO_REAL): return ix(i.arg(0))
            return z3.ToInt(i)
        return i
    raise Unsupported('index %r' % (i,))

def dim(x): return ix(x)
def disint(d): return isinstance(d, int)

def dimeq(a, b, prove=True):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = z3.simplify(idx(a) - idx(b))
    v = unwrap(d)
    if v is not None: return v == 0
    if prove:
        c = ctx()
        if c.refutable(idx(a) != idx(b)): return True
        if c.refutable(idx(a) == idx(b)): return False
    return None

def dnum(d): return d if isinstance(d, int) else Sym(d)

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    r = z3.simplify(idx(a) + idx(b)); v = unwrap(r)
    return r if v is None else v
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    r = z3.simplify(idx(a) - idx(b)); v = unwrap(r)
    return r if v is None else v
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return 0
    return idx(a) * idx(b)
def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    a, b = idx(a), idx(b)
    if a.eq(b): return True
    return a == b
def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return idx(a) < idx(b)
def ile(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return idx(a) <= idx(b)

def cached_at(cache, fn, i):
    """memoised element; an entry is reusable only below the path condition it was computed under"""
    k = tuple(x if isinstance(x, int) else ('z', x.get_id()) for x in i)
    path = Ctx.cur.path
    for (v, _, n, top) in cache.get(k, ()):
        if n <= len(path) and (n == 0 or path[n - 1] is top): return v
    v = fn(*i)
    path = Ctx.cur.path
    cache[k] = cache.get(k, ()) + ((v, i, len(path), path[-1] if path else None),)
    return v

BIRTH = [0]
class SArr(object):
    def __init__(self, shape, fn, kind='f', view=None, meta=None):
        BIRTH[0] += 1; self.birth = BIRTH[0]
        self.shape = tuple(dim(d) for d in shape)
        self._fn, self.kind, self.view = fn, kind, view
        self.meta = meta or {}
        self._cache = {}
        self._uid = None
    @property
    def ndim(self): return len(self.shape)
    def uid(self): return id(self)
    def at(self, *i):
        if self.view is not None:
            b, m = self.view
            return b.at(*m(*i))
        return cached_at(self._cache, self._fn, i)
    def getter(self):
        """snapshot of the current contents"""
        if self.view is not None:
            b, m = self.view
            g = b.getter()
            return lambda *i: g(*m(*i))
        f, c = self._fn, dict(self._cache)
        return lambda *i: cached_at(c, f, i)
    def setfn(self, fn, meta=None):
        if self.view is not None: raise Unsupported('write through a view')
        old = (self._fn, self._cache, self.meta)
        if TRAIL[0] is not None:
            u = lambda: self._restore(old)
            u.obj = ('arr', self)
            TRAIL[0].append(u)
        self._fn, self._cache, self.meta = fn, {}, (meta or {})
    def _restore(self, old): self._fn, self._cache, self.meta = old
    def __repr__(self): return 'SArr%s' % (self.shape,)
    def __bool__(self): raise Unsupported('truth of array')

class SList(object):
    """list of symbolic length"""
    def __init__(self, n, get, append_ok=True):
        self.n, self.get = dim(n), get
    def __repr__(self): return 'SList(%s)' % (self.n,)

def segs(l):
    """the uniform pieces a list was put together from"""
    if isinstance(l, SList):
        sg = getattr(l, 'segs', None)
        if sg is not None and sg[0] is l.get: return sg[1]
        return [SList(l.n, l.get)]
    return [list(l)]

def isarr(x): return isinstance(x, SArr)

def scalar(x):
    return conc(x) or isinstance(x, (Sym, z3.BoolRef))

def kindof(x):
    if isinstance(x, SArr): return x.kind
    if is_bool(x): return 'b'
    if isinstance(x, int): return 'i'
    if isinstance(x, Sym) and x.isint: return 'i'
    return 'f'

def const_arr(shape, v, kind='f'):
    return SArr(shape, lambda *i: v, kind)

# ---- construction ----------------------------------------------------------------
def asarr(x, copy=False):
    if isinstance(x, SArr):
        if copy: return SArr(x.shape, x.getter(), x.kind, meta=dict(x.meta))
        return x
    if scalar(x): return SArr((), lambda: x, kindof(x))
    if isinstance(x, SList):
        pb = ctx().fresh('probe')
        n0 = len(ctx().path)
        ctx().path.append(z3.And(pb >= 0, pb < idx(x.n)))
        try: x0 = x.get(pb)
        finally: del ctx().path[n0]
        if scalar(x0):
            return SArr((x.n,), lambda i: x.get(i), kindof(x0))
        r0 = asarr(x0)
        return SArr((x.n,) + r0.shape, lambda i, *r: asarr(x.get(i)).at(*r), r0.kind)
    if isinstance(x, (list, tuple)):
        items = [asarr(v, copy=True) for v in x]
        if not items: return SArr((0,), lambda i: 0)
        sh = items[0].shape
        for it in items[1:]:
            if it.ndim != len(sh): raise Unsupported('ragged array')
            for a, b in zip(sh, it.shape):
                if dimeq(a, b) is not True: raise Unsupported('ragged array')
        kinds = set(it.kind for it in items)
        kind = 'o' if 'o' in kinds else ('f' if 'f' in kinds else ('i' if 'i' in kinds else 'b'))
        if kind != 'b' and 'b' in kinds:
            items = [it if it.kind != 'b' else elem(lambda v: s.mk(S(v).e), it) for it in items]
        def fn(i, *r):
            if isinstance(i, int):
                return items[i if i >= 0 else len(items) + i].at(*r)
            v = items[-1].at(*r)
            for k in range(len(items) - 2, -1, -1):
                v = s.ite(idx(i) == k, items[k].at(*r), v)
            return v
        return SArr((len(items),) + sh, fn, kind)
    if hasattr(x, 'to_sarr'): return x.to_sarr()
    raise Unsupported('array from %r' % (type(x),))

def flat_meta(a): return a.meta

# ---- elementwise / broadcasting -----------------------------------------------------
def bshape(*shapes):
    n = max(len(x) for x in shapes)
    out = []
    for k in range(n):
        ds = []
        for sh in shapes:
            p = k - (n - len(sh))
            if p >= 0: ds.append(sh[p])
        d = 1
        for e in ds:
            if isinstance(e, int) and e == 1: continue
            if isinstance(d, int) and d == 1: d = e; continue
            r = dimeq(d, e)
            if r is True: continue
            if r is False:
                if ctx().refutable(idx(d) != 1): d = e; continue
                if ctx().refutable(idx(e) != 1): continue
                raise PyRaise('ValueError', 'operands could not be broadcast together %s %s' % (d, e))
            raise Unsupported('broadcast of %s and %s' % (d, e))
        out.append(d)
    return tuple(out)

def bidx(a, i):
    """index into array a broadcast against result index i"""
    i = i[len(i) - a.ndim:]
    return tuple(0 if (isinstance(d, int) and d == 1) else k for d, k in zip(a.shape, i))

def elem(f, *xs, **kw):
    kind = kw.get('kind', 'f')
    if all(scalar(x) for x in xs): return f(*xs)
    arrs = [asarr(x) for x in xs]
    sh = bshape(*[a.shape for a in arrs])
    gs = [a.getter() for a in arrs]
    if sh == ():
        return f(*[g() for g in gs])
    return SArr(sh, lambda *i: f(*[g(*bidx(a, i)) for a, g in zip(arrs, gs)]), kind)

def _unwrap0(a):
    return a.at() if isinstance(a, SArr) and a.ndim == 0 else a

# ---- indexing --------------------------------------------------------------------
def is_mask(k): return isinstance(k, SArr) and k.kind == 'b'
def is_iarr(k): return isinstance(k, SArr) and k.kind != 'b'

class Slc(object):
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step

def norm_slice(sl, n):
    """-> (start, step, length)"""
    step = 1 if sl.step is None else ix(sl.step)
    if not isinstance(step, int): raise Unsupported('symbolic slice step')
    if step == 1:
        def clip(v, d):
            if v is None: return d
            v = ix(v)
            if isinstance(v, int):
                if v >= 0:
                    if v == 0: return 0
                    if isinstance(n, int): return min(v, n)
                    if ctx().refutable(idx(n) < v): return v
                    raise Unsupported('slice bound %s on length %s' % (v, n))
                if isinstance(n, int): return max(n + v, 0)
                if ctx().refutable(idx(n) < -v): return iadd(n, v)
                raise Unsupported('negative slice bound')
            if v.eq(idx(n)): return n
            if ctx().refutable(Or(v < 0, v > idx(n))): return v
            raise Unsupported('slice bound %s of %s not shown in range' % (v, n))
        a, b = clip(sl.start, 0), clip(sl.stop, n)
        if isinstance(a, int) and a == 0: return 0, 1, b
        ln = isub(b, a)
        if isinstance(ln, int): ln = max(ln, 0)
        elif not ctx().refutable(ln < 0): raise Unsupported('slice length sign')
        return a, 1, ln
    if step == -1 and sl.start is None and sl.stop is None:
        return isub(n, 1), -1, n
    if isinstance(n, int):
        r = range(*slice(None if sl.start is None else ix(sl.start), None if sl.stop is None else ix(sl.stop), step).indices(n))
        return r.start, step, len(r)
    raise Unsupported('slice step')

def nindex(i, n):
    i = ix(i)
    if isinstance(i, int):
        if i < 0: return iadd(n, i)
        if isinstance(n, int) and i >= n: raise PyRaise('IndexError', 'index %d out of range %s' % (i, n))
        return i
    # symbolic index: nonnegative?
    if isinstance(n, int) or True:
        if z3.is_app(i) and i.num_args() and i.decl().name().startswith('sel') and i.decl().name() in ctx().bydecl: return i     # position of a selected entry
        if z3.is_app(i) and i.num_args() and i.decl().name() in getattr(ctx(), 'pairfns', ()): return i     # member of a pair of positions
        if ctx().refutable(i < 0): return i
        if ctx().refutable(i >= 0): return iadd(n, i)
        raise Unsupported('index of unknown sign')

def parse_key(a, key):
    """-> list of per-axis specs and resulting layout"""
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    nreal = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        nreal += k.ndim if is_mask(k) else 1
    if Ellipsis in [k for k in key if not isinstance(k, SArr)]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [Slc(None, None, None)] * (a.ndim - nreal)
    else:
        key += [Slc(None, None, None)] * (a.ndim - nreal)
    if len([k for k in key if k is not None]) > a.ndim and not any(is_mask(k) for k in key):
        raise PyRaise('IndexError', 'too many indices for array')
    return key

def conv_key(k):
    if isinstance(k, slice): return Slc(k.start, k.stop, k.step)
    if isinstance(k, tuple): return tuple(conv_key(x) for x in k)
    if isinstance(k, list): return asarr(k)
    if isinstance(k, SList): return asarr(k)
    if isinstance(k, SArr) and k.ndim == 0: return k.at()
    return k

def maskspec(m):
    """1-d boolean mask -> (count, sel, inv, mask getter)"""
    if m.ndim != 1: raise Unsupported('boolean mask with ndim != 1')
    g = m.getter()
    n = m.shape[0]
    if isinstance(n, int):
        vals = [g(i) for i in range(n)]
        if all(isinstance(v, bool) for v in vals):
            sel = [i for i, v in enumerate(vals) if v]
            inv = {j: t for t, j in enumerate(sel)}
            def sl(t):
                if isinstance(t, int): return sel[t]
                r = z3.IntVal(sel[-1]) if sel else z3.IntVal(0)
                for k in range(len(sel) - 2, -1, -1): r = z3.If(idx(t) == k, z3.IntVal(sel[k]), r)
                return r
            def iv(j):
                if isinstance(j, int): return inv.get(j, 0)
                r = z3.IntVal(0)
                for j0, t in inv.items(): r = z3.If(idx(j) == j0, z3.IntVal(t), r)
                return r
            return len(sel), sl, iv, g
    def mf(j): return m_conc(g, n, j)
    cnt, sel, inv = ctx().select(idx(n), mf)
    return cnt, sel, inv, g

def m_conc(g, n, j):
    return g(j)

def getitem(a, key):
    key = conv_key(key)
    if isinstance(key, SArr) and key.kind == 'b' and key.ndim == 2 and a.ndim == 2: raise Unsupported('2-d mask')
    keys = parse_key(a, key)
    # resulting axes: list of (length, mapping) in order
    out = []; spec = []
    ax = 0
    adv = []
    for k in keys:
        if k is None:
            out.append(1); spec.append(('new',)); continue
        n = a.shape[ax]
        if isinstance(k, Slc):
            st, stp, ln = norm_slice(k, n)
            out.append(ln); spec.append(('slice', st, stp, ln))
        elif is_mask(k):
            if dimeq(k.shape[0], n) is not True: raise Unsupported('mask length')
            cnt, sel, inv, g = maskspec(k)
            out.append(cnt); spec.append(('map', sel)); adv.append(len(spec) - 1)
        elif is_iarr(k):
            if k.ndim != 1: raise Unsupported('integer index array with ndim %d' % k.ndim)
            g = k.getter()
            out.append(k.shape[0]); spec.append(('map', (lambda g, n: lambda t: nindex(g(t), n) if not isinstance(g(t), int) else nindex(g(t), n))(g, n))); adv.append(len(spec) - 1)
        else:
            spec.append(('int', nindex(k, n)))
        ax += 1
    ints = any(sp[0] == 'int' for sp in spec)
    if len(adv) > 1: raise Unsupported('several advanced indices')
    if adv and ints:
        # numpy moves the advanced axis first when separated; only accept adjacent order-preserving cases
        nonint = [i for i, sp in enumerate(spec) if sp[0] != 'int']
        if nonint and nonint[0] != adv[0]:
            a_, i_ = adv[0], [i for i, sp in enumerate(spec) if sp[0] == 'int']
            if not all(abs(i - a_) == 1 for i in i_): raise Unsupported('mixed advanced indexing')
    def m(*i):
        r = []; p = 0
        for sp in spec:
            if sp[0] == 'new': p += 1
            elif sp[0] == 'slice':
                st, stp = sp[1], sp[2]
                t = i[p]; p += 1
                r.append(iadd(st, t) if stp == 1 else (isub(st, t) if stp == -1 else iadd(st, imul(stp, t))))
            elif sp[0] == 'map': r.append(ix(sp[1](i[p]))); p += 1
            else: r.append(sp[1])
        return tuple(r)
    if not out and not any(sp[0] != 'int' for sp in spec):
        return a.at(*m())
    if adv:
        g = a.getter()
        return SArr(out, lambda *i: g(*m(*i)), a.kind)
    return SArr(out, None, a.kind, view=(a, m))

def setitem(a, key, val):
    key = conv_key(key)
    if a.view is not None:
        b, m = a.view
        raise Unsupported('assignment through a view')
    keys = parse_key(a, key)
    old = a.getter()
    v = val if scalar(val) else asarr(val)
    if a.kind == 'b' and scalar(v) and not is_bool(v): v = s.ne(v, 0)
    if a.kind == 'i' and scalar(v) and not isinstance(v, int):
        vv = S(v)
        if not vv.isint: raise Unsupported('store of a real in an integer array')
    if a.kind != 'b' and scalar(v) and is_bool(v): v = s.mk(S(v).e)
    conds = []; ax = 0
    rank = 0
    fs = []
    for k in keys:
        if k is None: raise Unsupported('newaxis in store')
        n = a.shape[ax]
        if isinstance(k, Slc):
            st, stp, ln = norm_slice(k, n)
            if stp not in (1, -1): raise Unsupported('strided store')
            full = isinstance(st, int) and st == 0 and stp == 1 and dimeq(ln, n) is True
            if stp == 1:
                fs.append((lambda st, ln, full: lambda i: (True if full else And(ile(st, i), ilt(i, iadd(st, ln))), isub(i, st)))(st, ln, full))
            else:
                fs.append((lambda st: lambda i: (True, isub(st, i)))(st))
            ln_ = ln
        elif is_mask(k):
            cnt, sel, inv, g = maskspec(k)
            fs.append((lambda g, inv: lambda i: (g(i), ix(inv(i))))(g, inv)); ln_ = cnt
        elif is_iarr(k):
            es = k.ndim == 1 and isinstance(k.shape[0], int) and [k.at(q) for q in range(k.shape[0])]
            es = es and [e if isinstance(e, int) else s.S(e).e.as_long() for e in es]
            if not es or len(set(es)) != len(es) or min(es) < 0: raise Unsupported('store through integer index array')
            for e in es: nindex(e, n)
            def mp(es):
                def f(i):
                    r = len(es) - 1
                    for q in reversed(range(len(es) - 1)): r = z3.If(idx(i) == es[q], q, r) if not isinstance(i, int) else (q if i == es[q] else r)
                    return (z3.Or(*[idx(i) == e for e in es]) if not isinstance(i, int) else i in es, r)
                return f
            fs.append(mp(es)); ln_ = len(es)
        else:
            kk = nindex(k, n)
            fs.append((lambda kk: lambda i: (ieq(i, kk), None))(kk)); ln_ = None
        ax += 1
        if ln_ is not None: rank += 1
    if isinstance(v, SArr):
        vsh = []
        for k in keys: pass
        vg = v.getter()
        if v.ndim > rank:
            lead = v.ndim - rank
            if any(not (isinstance(d, int) and d == 1) for d in v.shape[:lead]): raise PyRaise('ValueError', 'could not broadcast input array')
            vsq = lambda *i: vg(*((0,) * lead + tuple(i)))
            vdims = v.shape[lead:]
        else: vsq, vdims = vg, v.shape
        # check shapes
        tl = [];
        ax = 0
        for k in keys:
            n = a.shape[ax]; ax += 1
            if isinstance(k, Slc): tl.append(norm_slice(k, n)[2])
            elif is_mask(k): tl.append(maskspec(k)[0])
        for d, t in zip(vdims, tl[len(tl) - len(vdims):]):
            if isinstance(d, int) and d == 1: continue
            r = dimeq(d, t)
            if r is False: raise PyRaise('ValueError', 'could not broadcast')
            if r is None: raise Unsupported('store shape %s vs %s' % (d, t))
    def fn(*i):
        cs, pos = [], []
        for f, k in zip(fs, i):
            c, p = f(k)
            cs.append(c)
            if p is not None: pos.append(p)
        c = And(*cs)
        if c is False: return old(*i)
        if isinstance(v, SArr):
            pp = pos[len(pos) - len(vdims):]
            x = vsq(*[0 if (isinstance(d, int) and d == 1) else q for d, q in zip(vdims, pp)])
            if a.kind == 'b' and not is_bool(x): x = s.ne(x, 0)
        else: x = v
        if c is True: return x
        return s.ite(c, x, old(*i))
    a.setfn(fn)

# ---- shape manipulation ---------------------------------------------------------------
def size(a):
    r = 1
    for d in a.shape: r = imul(r, d)
    return r

def flatten(a):
    g = a.getter()
    if a.ndim == 1: return SArr(a.shape, g, a.kind)
    if a.ndim == 0: return SArr((1,), lambda i: g(), a.kind)
    big = [k for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    n = size(a)
    if len(big) == 0: return SArr((1,), lambda i: g(*([0] * a.ndim)), a.kind)
    if len(big) == 1:
        k = big[0]
        return SArr((a.shape[k],), lambda i: g(*[i if q == k else 0 for q in range(a.ndim)]), a.kind, meta={'flat': (a.shape, g)})
    # general: row-major div/mod
    sh = a.shape
    def fn(i):
        r = []; rem = i
        for q in range(a.ndim - 1, 0, -1):
            d = sh[q]
            if isinstance(rem, int) and isinstance(d, int): r.append(rem % d); rem = rem // d
            else: r.append(ix(z3.simplify(idx(rem) % idx(d)))); rem = ix(z3.simplify(idx(rem) / idx(d)))
        r.append(rem)
        return g(*reversed(r))
    return SArr((n,), fn, a.kind, meta={'flat': (sh, g)})

def reshape(a, shape):
    if not isinstance(shape, (tuple, list)): shape = (shape,)
    shape = [ix(d) for d in shape]
    g = a.getter()
    tot = size(a)
    unk = [k for k, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if unk:
        k = unk[0]
        known = 1
        for q, d in enumerate(shape):
            if q != k: known = imul(known, d)
        if isinstance(known, int) and known == 1: shape[k] = tot
        elif isinstance(known, int) and isinstance(tot, int):
            if known == 0: raise PyRaise('ValueError', 'cannot reshape')
            if tot % known: raise PyRaise('ValueError', 'cannot reshape array of size %d' % tot)
            shape[k] = tot // known
        else:
            # tot = q * known ?
            cand = None
            if dimeq(tot, known) is True: cand = 1
            else:
                fac = list(a.shape); kf = [d for q, d in enumerate(shape) if q != k]
                ok = True
                for d in kf:
                    if isinstance(d, int) and d == 1: continue
                    hit = None
                    for e in fac:
                        if dimeq(d, e) is True: hit = e; break
                    if hit is None: ok = False; break
                    fac.remove(hit) if False else fac.pop([i for i, e in enumerate(fac) if e is hit][0])
                if ok:
                    cand = 1
                    for e in fac: cand = imul(cand, e)
            if cand is None: raise Unsupported('reshape %s -> %s' % (a.shape, shape))
            shape[k] = cand
    else:
        new = 1
        for d in shape: new = imul(new, d)
        r = dimeq(tot, new)
        if r is False: raise PyRaise('ValueError', 'cannot reshape array')
        if r is None: raise Unsupported('reshape %s -> %s' % (a.shape, shape))
    shape = tuple(shape)
    if len(shape) == a.ndim and all(dimeq(x, y, False) is True for x, y in zip(shape, a.shape)):
        return SArr(shape, g, a.kind)
    nz_old = [k for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    nz_new = [k for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(nz_old) == len(nz_new) and all(dimeq(a.shape[x], shape[y]) is True for x, y in zip(nz_old, nz_new)):
        def fn(*i):
            r = [0] * a.ndim
            for x, y in zip(nz_old, nz_new): r[x] = i[y]
            return g(*r)
        return SArr(shape, fn, a.kind)
    m = a.meta.get('flat')
    if m is not None and len(m[0]) == len(shape) and all(dimeq(x, y) is True for x, y in zip(m[0], shape)):
        return SArr(shape, m[1], a.kind)
    if all(isinstance(d, int) for d in shape) and all(isinstance(d, int) for d in a.shape):
        fl = flatten(a); fg = fl.getter()
        def fn(*i):
            p = 0
            for k, d in zip(i, shape): p = iadd(imul(p, d), k)
            return fg(p)
        return SArr(shape, fn, a.kind)
    if len(nz_new) == 1:                    # a column or row of all entries in order
        fg = flatten(a).getter(); q0 = nz_new[0]
        return SArr(shape, lambda *i: fg(i[q0]), a.kind)
    raise Unsupported('reshape %s -> %s' % (a.shape, shape))

def transpose(a, axes=None):
    if a.ndim < 2: return a
    axes = tuple(range(a.ndim))[::-1] if axes is None else tuple(axes)
    def m(*i):
        r = [None] * a.ndim
        for k, ax in enumerate(axes): r[ax] = i[k]
        return tuple(r)
    t = SArr([a.shape[ax] for ax in axes], None, a.kind, view=(a, m))
    if a.meta.get('diag') is not None: t.meta['diag'] = a.meta['diag']
    return t

def concat(xs, axis):
    xs = [asarr(x, copy=True) for x in xs]
    nd = xs[0].ndim
    sh = list(xs[0].shape)
    for x in xs[1:]:
        if x.ndim != nd: raise PyRaise('ValueError', 'concatenate dims')
        for k in range(nd):
            if k != axis:
                r = dimeq(sh[k], x.shape[k])
                if r is False: raise PyRaise('ValueError', 'all the input array dimensions must match')
                if r is None: raise Unsupported('concat shapes')
                if isinstance(x.shape[k], int): sh[k] = x.shape[k]
    offs = [0]
    for x in xs: offs.append(iadd(offs[-1], x.shape[axis]))
    sh[axis] = offs[-1]
    gs = [x.getter() for x in xs]
    kinds = [x.kind for x in xs if not (isinstance(x.shape[axis], int) and x.shape[axis] == 0)] or ['f']
    kind = 'f' if 'f' in kinds else ('i' if 'i' in kinds else kinds[0])
    if len(xs) == 1: return SArr(sh, gs[0], xs[0].kind)
    def fn(*i):
        t = i[axis]
        v = None
        for k in range(len(xs) - 1, -1, -1):
            if isinstance(xs[k].shape[axis], int) and xs[k].shape[axis] == 0: continue
            j = list(i); j[axis] = isub(t, offs[k])
            if isinstance(t, int) and isinstance(offs[k], int) and isinstance(offs[k + 1], int):
                if offs[k] <= t < offs[k + 1]: return gs[k](*j)
                continue
            c = ilt(t, offs[k + 1])
            if v is None: v = gs[k](*j)
            else: v = s.ite(c, gs[k](*j), v)
        if v is None: raise PyRaise('IndexError', 'out of range')
        return v
    return SArr(sh, fn, kind)

# ---- linear algebra ---------------------------------------------------------------------
def all_finite(a):
    """is every entry shown finite?"""
    c = ctx()
    b = [c.fresh('fin') for _ in a.shape]
    v = a.at(*[x for x in b]) if not all(isinstance(d, int) for d in a.shape) else None
    if v is None:
        import itertools
        return all(s.isfinite(a.at(*i)) is True or c.refutable(Not(s.isfinite(a.at(*i)))) for i in itertools.product(*[range(d) for d in a.shape]))
    f = s.isfinite(v)
    if f is True: return True
    rng = And(*[And(x >= 0, x < idx(d)) for x, d in zip(b, a.shape)])
    return c.refutable(And(rng, Not(f)))

def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: return elem(s.mul, a, b)
    n = a.shape[-1]
    kb = 0 if b.ndim == 1 else b.ndim - 2
    n2 = b.shape[kb]
    r = dimeq(n, n2)
    if r is False: raise PyRaise('ValueError', 'shapes not aligned %s %s' % (a.shape, b.shape))
    if r is None: raise Unsupported('dot shapes %s %s' % (a.shape, b.shape))
    if isinstance(n2, int): n = n2
    ga, gb = a.getter(), b.getter()
    sh = a.shape[:-1] + tuple(d for k, d in enumerate(b.shape) if k != kb)
    na = a.ndim - 1
    c = ctx()
    da, db = a.meta.get('diag'), b.meta.get('diag')
    if da is not None and not isinstance(n, int) and a.ndim == 2 and all_finite(b) :
        if b.ndim == 1: return SArr(sh, lambda i: s.mul(da(i), gb(i)))
        if b.ndim == 2: return SArr(sh, lambda i, j: s.mul(da(i), gb(i, j)), meta={'diag': (lambda i: s.mul(da(i), db(i)))} if db is not None else None)
    if db is not None and not isinstance(n, int) and b.ndim == 2 and all_finite(a):
        if a.ndim == 1: return SArr(sh, lambda j: s.mul(ga(j), db(j)))
        if a.ndim == 2: return SArr(sh, lambda i, j: s.mul(ga(i, j), db(j)))
    def fn(*i):
        ia, ib = i[:na], list(i[na:])
        def body(j):
            jb = list(ib); jb.insert(kb, j)
            return s.mul(ga(*(tuple(ia) + (j,))), gb(*jb))
        return c.sum_(n, body)
    if sh == (): return fn()
    return SArr(sh, fn)

def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: raise PyRaise('ValueError', 'matmul of scalar')
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b)
    raise Unsupported('matmul of stacks')

def diag(v):
    v = asarr(v)
    g = v.getter()
    if v.ndim == 1:
        n = v.shape[0]
        return SArr((n, n), lambda i, j: s.ite(ieq(i, j), g(i), 0), 'f', meta={'diag': g})
    d = v.meta.get('diag')
    if d is not None: return SArr((v.shape[0],), d)
    return SArr((v.shape[0],), lambda i: g(i, i), v.kind)

def eye(n, m=None):
    m = n if m is None else m
    return SArr((n, m), lambda i, j: s.ite(ieq(i, j), 1, 0), 'f', meta={'diag': lambda i: 1} if m is n else None)

# ---- reductions -----------------------------------------------------------------------
def reduce_axis(a, axis, red):
    """red(n, fn) along one axis or all axes"""
    a = asarr(a)
    g = a.getter()
    if a.ndim == 0: return red(1, lambda j: g())
    if axis is None:
        def nest(k, pre):
            if k == a.ndim: return g(*pre)
            return red(a.shape[k], lambda j: nest(k + 1, pre + (j,)))
        return nest(0, ())
    if isinstance(axis, (tuple, list)): raise Unsupported('multi-axis reduction')
    axis = axis if axis >= 0 else a.ndim + axis
    sh = tuple(d for k, d in enumerate(a.shape) if k != axis)
    def fn(*i):
        return red(a.shape[axis], lambda j: g(*(tuple(i[:axis]) + (j,) + tuple(i[axis:]))))
    if sh == (): return fn()
    return sh, fn

def _red(a, axis, red, kind, keepdims=False):
    a = asarr(a)
    r = reduce_axis(a, axis, red)
    if isinstance(r, tuple):
        r = SArr(r[0], r[1], kind)
        if keepdims:
            ax = axis if axis >= 0 else a.ndim + axis
            sh = list(r.shape); sh.insert(ax, 1); g = r.getter()
            return SArr(sh, lambda *i: g(*[q for k, q in enumerate(i) if k != ax]), kind)
    elif keepdims: raise Unsupported('keepdims')
    return r

def sum_(a, axis=None, keepdims=False):
    a = asarr(a)
    if a.kind == 'b':
        if a.ndim == 1 and not isinstance(a.shape[0], int):
            cnt = ctx().select(a.shape[0], a.getter())[0]
            return Sym(cnt)
        return _red(a, axis, lambda n, f: ctx().sum_(n, lambda j: s.mk(S(f(j)).e) if is_bool(f(j)) else f(j)), 'i', keepdims)
    return _red(a, axis, ctx().sum_, 'f', keepdims)

def prod_(a, axis=None): return _red(a, axis, ctx().prod_, 'f')

def all_(a, axis=None):
    if is_bool(a): return a
    a = asarr(a)
    f = (lambda v: v if is_bool(v) else s.ne(v, 0))
    return _red(a, axis, lambda n, g: ctx().all_(n, lambda j: f(g(j))), 'b')

def any_(a, axis=None):
    if is_bool(a): return a
    a = asarr(a)
    f = (lambda v: v if is_bool(v) else s.ne(v, 0))
    return _red(a, axis, lambda n, g: ctx().any_(n, lambda j: f(g(j))), 'b')

def _ext(kind):
    def red(n, fn):
        if isinstance(n, int):
            if n == 0: raise PyRaise('ValueError', 'zero-size array to reduction operation')
            r = fn(0)
            for j in range(1, n): r = (s.minimum if kind == 'argmin' else s.maximum)(r, fn(j))
            return r
        if not ctx().refutable(idx(n) <= 0):
            DECIDE[0](idx(n) > 0, PyRaise('ValueError', 'zero-size array to reduction operation'))
        w = ctx().argext(kind, n, fn)
        return fn(w)
    return red
DECIDE = [None]   # hook: require(cond, exception): fork on cond, raise on the false branch

def min_(a, axis=None): return _red(a, axis, _ext('argmin'), 'f')
def max_(a, axis=None): return _red(a, axis, _ext('argmax'), 'f')

def argext_(kind):
    def f(a, axis=None):
        a = asarr(a)
        def red(n, fn):
            if isinstance(n, int):
                if n == 0: raise PyRaise('ValueError', 'attempt to get argmin of an empty sequence')
                r, v = 0, fn(0)
                for j in range(1, n):
                    w = fn(j)
                    c = s.lt(w, v) if kind == 'argmin' else s.gt(w, v)
                    v = s.ite(c, w, v); r = s.ite(c, j, r)
                return r
            if not ctx().refutable(idx(n) <= 0):
                DECIDE[0](idx(n) > 0, PyRaise('ValueError', 'attempt to get argmin of an empty sequence'))
            return Sym(ctx().argext(kind, n, fn))
        if axis is None and a.ndim > 1: raise Unsupported('flat argmin')
        return _red(a, axis, red, 'i')
    return f
argmin, argmax = argext_('argmin'), argext_('argmax')
