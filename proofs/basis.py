"""C11: tensor product polynomial bases.  phi(a, t) is the a-th univariate basis polynomial, dphi its derivative, ddphi its second
derivative; numpy's vander/der routines enter by contract."""
from .ext import *
from pv.interp import Builtin
PB = 'psdr.basis:PolynomialTensorBasis'
phi, dphi, ddphi = (z3.Function(n, I, RL, RL) for n in ('phi', 'dphi', 'ddphi'))

def setup(v, scaled=True, cls=PB, dim=None, mindeg=0):
    dim = v.int('dim') if dim is None else dim
    deg, N, M = v.int('degree', mindeg), v.int('N'), v.int('M')
    ind = v.arr('alpha', N, dim, kind='i')
    v.assume_all([N, dim], lambda j, k: And(ind.at(j, k).e >= 0, ind.at(j, k).e <= deg))
    D = v.arr('Dmat', A.iadd(deg, 1), deg)
    def vander(x, d):
        v.ob('univariate degree', A.ieq(d, deg)); x = A.asarr(x)
        return SArr((x.shape[0], A.iadd(deg, 1)), lambda i, a: Sym(phi(idx(a), S(x.at(i)).e)))
    lo, hi = v.arr('lo', dim), v.arr('hi', dim)
    v.assume_all([dim], lambda k: s.lt(lo.at(k), hi.at(k)))
    at = dict(degree=Sym(deg), dim=v.num(dim), indices=ind, Dmat=D, vander=Builtin('vander', vander), X=None)
    if scaled: at.update(_lb=lo, _ub=hi)
    b = v.bare(cls, **at)
    X = v.arr('X', M, dim)
    if scaled:
        z = lambda i, k: s.sub(s.div(s.mul(2, s.sub(X.at(i, k), lo.at(k))), s.sub(hi.at(k), lo.at(k))), 1)
        sc = lambda k: s.div(2, s.sub(hi.at(k), lo.at(k)))
    else: z, sc = (lambda i, k: X.at(i, k)), (lambda k: 1)
    return b, dim, deg, N, M, ind, D, X, z, sc

def P(f, a, t): return Sym(f(idx(a), S(t).e))
def iv(ind, j, k): return ind.at(j, k).e

def do_V(v, scaled):
    b, dim, deg, N, M, ind, D, X, z, sc = setup(v, scaled)
    V = v.call(b, 'V', X)
    v.eq_arr('V', V, (M, N), lambda i, j: v.ctx.prod_(dim, lambda k: P(phi, iv(ind, j, k), z(i, k))))

@target('C11', PB + '.V', PB + '._scale')
def basis_V(v):
    """V[i,j] is the product of the univariate polynomials of multi-index j at the scaled point i"""
    do_V(v, True)
@target('C11', PB + '.V')
def basis_V_unscaled(v):
    """without sample points the basis is used unscaled"""
    do_V(v, False)

@target('C11', PB + '.VC')
def basis_VC(v):
    """VC is the product of V and the coefficients"""
    b, dim, deg, N, M, ind, D, X, z, sc = setup(v)
    c = v.arr('c', N)
    R = v.call(b, 'VC', X, c)
    v.eq_arr('VC', R, (M,), lambda i: v.sum(N, lambda j: s.mul(c.at(j), v.ctx.prod_(dim, lambda k: P(phi, iv(ind, j, k), z(i, k))))))

@target('C11', PB + '.DV', PB + '._dscale')
def basis_DV(v):
    """DV[i,j,k] is the product with the k-th factor differentiated, times the derivative of the scaling"""
    b, dim, deg, N, M, ind, D, X, z, sc = setup(v)
    R = v.call(b, 'DV', X)
    dp = lambda j, k, i: v.sum(deg, lambda l: s.mul(P(phi, l, z(i, k)), D.at(ind.at(j, k).e, l)))
    v.eq_arr('DV', R, (M, N, dim), lambda i, j, k: s.mul(v.ctx.prod_(dim, lambda q: s.ite(idx(q) == idx(k), dp(j, q, i), P(phi, iv(ind, j, q), z(i, q)))), sc(k)))

@target('C11', PB + '._build_Dmat')
def basis_Dmat(v):
    """row a of the derivative matrix holds the derivative coefficients of the a-th basis polynomial"""
    deg = v.int('degree', 0)
    T = v.arr('T', A.iadd(deg, 1), deg)         # T[a] = coefficients of the derivative of the a-th polynomial; polyder is linear
    def polyder(c, m=1):
        c = A.asarr(c); g = c.getter(); v.ob('polyder argument', A.ieq(c.shape[0], A.iadd(deg, 1)))
        return SArr((deg,), lambda l: v.sum(A.iadd(deg, 1), lambda a: s.mul(g(a), T.at(a, l))))
    b = v.bare(PB, degree=Sym(deg), polyder=Builtin('polyder', polyder))
    v.call(b, '_build_Dmat')
    v.eq_arr('Dmat', v.attr(b, 'Dmat'), (A.iadd(deg, 1), deg), lambda a, l: T.at(a, l))

def ddv(v, dim):
    b, dim, deg, N, M, ind, D, X, z, sc = setup(v, True, PB, dim, 2)
    L = A.isub(deg, 1)
    T2 = v.arr('T2', A.iadd(deg, 1), L)
    def polyder(c, m=1):
        c = A.asarr(c); g = c.getter(); v.ob('polyder argument', And(A.ieq(c.shape[0], A.iadd(deg, 1)), s.eq(m, 2)))
        return SArr((L,), lambda l: v.sum(A.iadd(deg, 1), lambda a: s.mul(g(a), T2.at(a, l))))
    b.d['polyder'] = Builtin('polyder', polyder)
    R = v.call(b, 'DDV', X)
    d1 = lambda j, k, i: v.sum(deg, lambda l: s.mul(P(phi, l, z(i, k)), D.at(ind.at(j, k).e, l)))
    d2 = lambda j, k, i: v.sum(L, lambda l: s.mul(P(phi, l, z(i, k)), T2.at(ind.at(j, k).e, l)))
    def spec(i, j, k, l):
        def one(kk, ll):
            t = s.mul(sc(kk), sc(ll))
            for q in range(dim):
                t = s.mul(t, d2(j, q, i) if q == kk == ll else d1(j, q, i) if q in (kk, ll) else P(phi, iv(ind, j, q), z(i, q)))
            return t
        r = 0
        for kk in range(dim):
            for ll in range(dim):
                r = s.ite(And(s.eq(k, kk), s.eq(l, ll)), one(kk, ll), r)
        return r
    v.eq_arr('DDV', R, (M, N, dim, dim), spec)

@target('C11', PB + '.DDV')
def basis_DDV_1(v):
    """DDV in one variable: second derivatives of the factors"""
    ddv(v, 1)
@target('C11', PB + '.DDV')
def basis_DDV_2(v):
    """DDV in two variables: products of derivatives, symmetric"""
    ddv(v, 2)
@target('C11', PB + '.DDV')
def basis_DDV_3(v):
    """DDV in three variables"""
    ddv(v, 3)

@target('C11', PB + '.set_scale', PB + '._set_scale')
def basis_scale(v):
    """the scaling uses the coordinatewise smallest and largest sample"""
    dim, M = v.int('dim'), v.int('M')
    b = v.bare(PB, dim=v.num(dim))
    X = v.arr('X', M, dim)
    v.call(b, 'set_scale', X)
    lo, hi = v.attr(b, '_lb'), v.attr(b, '_ub')
    v.forall('bounds', [M, dim], lambda i, k: And(s.le(lo.at(k), X.at(i, k)), s.le(X.at(i, k), hi.at(k))))
    v.forall('attained', [dim], lambda k: And(v.ctx.any_(M, lambda i: s.eq(X.at(i, k), lo.at(k))), v.ctx.any_(M, lambda i: s.eq(X.at(i, k), hi.at(k)))))
