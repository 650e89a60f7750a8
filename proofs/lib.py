"""Shared specification vocabulary: symbolic domains, constraint systems."""
import z3
from fractions import Fraction
from pv import sym as s, arr as A
from pv.arr import SArr, SList, PyRaise
from pv.sym import Sym, S, And, Or, Not, Implies, Iff, INF
from pv.ctx import idx
from pv.verify import target, V

DOM = 'psdr.domains.'
RL, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

def bounds(v, m, pre=''):
    """lower bounds in R u {-inf}, upper bounds in R u {+inf}"""
    return v.ext(pre + 'lb', m, ni=True), v.ext(pre + 'ub', m, pi=True)

def ineqs(v, m, n, pre=''):
    return v.arr(pre + 'A', n, m), v.arr(pre + 'b', n)

def quads(v, m, K, pre=''):
    """K quadratic constraints ||L_k (x - y_k)|| <= rho_k ; L_k is p_k x m"""
    pf = z3.Function('in_%sp' % pre, I, I)
    Lf = z3.Function('in_%sL' % pre, I, I, I, RL); yf = z3.Function('in_%sy' % pre, I, I, RL); rf = z3.Function('in_%srho' % pre, I, RL)
    v.assume_all([K], lambda k: And(pf(k) >= 1, rf(k) > 0))
    Ls = SList(K, lambda k: SArr((pf(idx(k)), m), lambda i, j: Sym(Lf(idx(k), idx(i), idx(j)))))
    ys = SList(K, lambda k: SArr((m,), lambda j: Sym(yf(idx(k), idx(j)))))
    rhos = SList(K, lambda k: Sym(rf(idx(k))))
    return Ls, ys, rhos

class Sys(object):
    """the constraint system a domain stands for"""
    def __init__(self, m, lb, ub, A=None, b=None, Ae=None, be=None, quad=None):
        self.m, self.lb, self.ub, self.A, self.b, self.Ae, self.be, self.quad = m, lb, ub, A, b, Ae, be, quad

def sqnorm_L(v, L, y, x, m):
    """|| L (x - y) ||^2 ; x a function j -> value"""
    return v.sum(L.shape[0], lambda i: (lambda t: s.mul(t, t))(v.sum(m, lambda j: s.mul(L.at(i, j), s.sub(x(j), y.at(j))))))

def in_sys(v, S_, x, tol=0, strict_eq=True):
    """membership predicate of the documented constraint set, within tol"""
    m = S_.m
    g = []
    g.append(v.all(m, lambda j: And(s.le(s.sub(S_.lb.at(j), tol), x(j)), s.le(x(j), s.add(S_.ub.at(j), tol)))))
    if S_.A is not None:
        g.append(v.all(S_.A.shape[0], lambda i: s.le(v.sum(m, lambda j: s.mul(S_.A.at(i, j), x(j))), s.add(S_.b.at(i), tol))))
    if S_.Ae is not None:
        d = lambda i: s.abs_(s.sub(v.sum(m, lambda j: s.mul(S_.Ae.at(i, j), x(j))), S_.be.at(i)))
        g.append(v.all(S_.Ae.shape[0], lambda i: s.lt(d(i), tol) if strict_eq else s.le(d(i), tol)))
    if S_.quad is not None:
        Ls, ys, rhos = S_.quad
        g.append(v.all(Ls.n, lambda k: s.le(s.sqrt(sqnorm_L(v, Ls.get(k), ys.get(k), x, m)), s.add(rhos.get(k), tol))))
    return And(*g)
