"""Contracts for external libraries, given by a target: ext(v, {'scipy.linalg.det': fn, ...}).  fn receives evaluated arguments."""
from .lib import *
from pv.interp import Ns, Builtin, Opaque, ExcType
from pv.sym import Unsupported

def ext(v, table):
    ip = v.ip
    if not hasattr(ip, '_ext'): ip._ext = {}
    ip._ext.update(table)
    for dotted in table:
        parts = dotted.split('.')
        def late(*a, _d=dotted, **k):
            ip.external[_d] = ip.external.get(_d, 0) + 1
            return ip._ext[_d](*a, **k)
        if parts[0] == 'numpy':
            ns = ip.np
            for p in parts[1:-1]: ns = ns.d[p]
            ns.d[parts[-1]] = Builtin(dotted, late); continue
        pre = parts[0]
        def get(name):
            if name not in ip.shims:
                d = {}
                d['__getattr__'] = lambda n, _n=name: Opaque('%s.%s' % (_n, n))
                ip.shims[name] = Ns(name, d)
            return ip.shims[name]
        ns = get(pre)
        for p in parts[1:-1]:
            pre += '.' + p; sub = get(pre)
            ns.d[p] = sub; ns = sub
        ns.d[parts[-1]] = Builtin(dotted, late)

def fresh_arr(v, name, *shape):
    """an arbitrary array (new symbol per call site order)"""
    n = getattr(v, '_fa', 0); v._fa = n + 1
    f = z3.Function('ext_%s_%d' % (name, n), *([I] * len(shape) + [RL]))
    return SArr(tuple(shape), lambda *i: Sym(f(*[idx(x) for x in i])))
def fresh_real(name, _c=[0]):
    _c[0] += 1
    return Sym(z3.Real('ext_%s_%d' % (name, _c[0])))

def lemma(v, name, ranges, fn, using, base=None):
    """prove a fact from the listed quantified facts alone (the others are dropped for the proof; base: and without the path facts learned after this mark), then use it"""
    if base is not None:
        saved = list(v.ctx.facts), list(v.ctx.path); del v.ctx.facts[base[0]:]; del v.ctx.path[base[1]:]
        try: return lemma(v, name, ranges, fn, using)
        finally:
            new = v.ctx.facts[base[0]:], v.ctx.path[base[1]:]; v.ctx.facts[:] = saved[0] + [x for x in new[0]]; v.ctx.path[:] = saved[1] + [x for x in new[1]]
    with v.scope():
        v.ctx.foralls = list(using); ii = v.fresh(ranges); v.ob(name, fn(*ii))
    if ranges: v.assume_all(ranges, fn); return v.ctx.foralls[-1]
    v.assume(fn())

def linrule(v, B, n, name, terms, using):
    """linearity of finite sums (v.linear), the premise proved from the listed quantified facts and the plain facts known at the mark B; returns the conclusion as a thunk"""
    saved = list(v.ctx.facts), v.ctx.foralls; del v.ctx.facts[B[0]:]; v.ctx.foralls = list(using)
    try: return v.linear(name, n, terms)
    finally: v.ctx.facts[:] = saved[0]; v.ctx.foralls = saved[1]
def mark(v): return (len(v.ctx.facts), len(v.ctx.path))
def define(v, name, dims, fn):
    """an array with the given entries, opaque except for its definition; returns (array, handle of the definition)"""
    r = fresh_arr(v, name, *dims); v.assume_all(list(dims), lambda *i: s.eq(r.at(*i), fn(*i))); return r, v.ctx.foralls[-1]
