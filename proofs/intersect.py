"""C04: adding constraints yields exactly the intersection."""
from .lib import *
from .membership import linquad, TOL
from .normdomain import names
LQ = DOM + 'linquad:LinQuadDomain'

def second(v, m):
    lb, ub = bounds(v, m, '2')
    n, p, K = v.int('n2', 0), v.int('p2', 0), v.int('K2', 0)
    S2 = Sys(m, lb, ub, v.arr('A2', n, m), v.arr('b2', n), v.arr('Ae2', p, m), v.arr('be2', p), quads(v, m, K, '2'))
    return S2, dict(lb=lb, ub=ub, A=S2.A, b=S2.b, A_eq=S2.Ae, b_eq=S2.be, Ls=S2.quad[0], ys=S2.quad[1], rhos=S2.quad[2])

def meets(v, r, S1, S2, m, operands=()):
    """r carries exactly the constraints of both systems"""
    lb, ub = v.attr(r, 'lb'), v.attr(r, 'ub')
    v.eq_arr('lb is the larger lower bound', lb, (m,), lambda j: s.ite(s.le(S1.lb.at(j), S2.lb.at(j)), S2.lb.at(j), S1.lb.at(j)))
    v.eq_arr('ub is the smaller upper bound', ub, (m,), lambda j: s.ite(s.le(S1.ub.at(j), S2.ub.at(j)), S1.ub.at(j), S2.ub.at(j)))
    for an, bn, a1, b1, a2, b2 in (('A', 'b', S1.A, S1.b, S2.A, S2.b), ('A_eq', 'b_eq', S1.Ae, S1.be, S2.Ae, S2.be)):
        P, q = v.attr(r, an), v.attr(r, bn)
        n1, n2 = idx(a1.shape[0]), idx(a2.shape[0])
        if v.shape(an, P, n1 + n2, m) and v.shape(bn, q, n1 + n2):
            v.forall('%s: rows of the first operand' % an, [n1, m], lambda i, j: And(s.same(P.at(i, j), a1.at(i, j)), s.same(q.at(i), b1.at(i))))
            v.forall('%s: rows of the added constraints' % an, [n2, m], lambda i, j: And(s.same(P.at(n1 + i, j), a2.at(i, j)), s.same(q.at(n1 + i), b2.at(i))))
    Q = [v.attr(r, x) for x in ('Ls', 'ys', 'rhos')]
    Q = [SList(len(x), (lambda x: lambda i: x[i])(x)) if isinstance(x, list) else x for x in Q]
    k1, k2 = idx(S1.quad[0].n), idx(S2.quad[0].n)
    v.ob('number of quadratic constraints', And(*[A.ieq(x.n, k1 + k2) for x in Q]))
    for base, kk, SS in ((idx(0), k1, S1), (k1, k2, S2)):
        if all(isinstance(x.n, int) and x.n == 0 for x in Q): continue
        n0 = len(v.ctx.path)
        if z3.is_int_value(kk): continue
        c, = v.fresh([kk])
        L, y, rr = [x.get(base + c) for x in Q]
        L0, y0, r0 = [x.get(c) for x in SS.quad]
        v.eq_arr('L', L, (L0.shape[0], m), lambda i, j: L0.at(i, j)); v.eq_arr('y', y, (m,), lambda j: y0.at(j)); v.ob('rho', s.same(rr, r0))
        del v.ctx.path[n0:]

def keep(v, d, S1, m):
    v.forall('operand unchanged', [m], lambda j: And(s.same(v.attr(d, 'lb').at(j), S1.lb.at(j)), s.same(v.attr(d, 'ub').at(j), S1.ub.at(j))))
    v.ob('operand keeps its constraints', And(A.ieq(v.attr(d, 'A').shape[0], S1.A.shape[0]), A.ieq(v.attr(d, 'A_eq').shape[0], S1.Ae.shape[0]), A.ieq(v.attr(d, 'Ls').n, S1.quad[0].n)))

@target('C04', LQ + '.add_constraints', LQ + '._init_lb', LQ + '._init_ub', LQ + '._init_ineq', LQ + '._init_eq', LQ + '._init_quad')
def linquad_add(v):
    """LinQuadDomain.add_constraints carries exactly the constraints of both operands"""
    m = v.int('m'); kw, S1 = linquad(v, m)
    nm = names(v, m)
    d = v.new(LQ, names=nm, **kw)
    S2, kw2 = second(v, m)
    r = v.call(d, 'add_constraints', **kw2)
    meets(v, r, S1, S2, m); keep(v, d, S1, m)

@target('C04', LQ + '.__and__')
def linquad_and(v):
    """intersection of two LinQuadDomains carries exactly the constraints of both"""
    m = v.int('m'); kw, S1 = linquad(v, m)
    d = v.new(LQ, names=names(v, m), **kw)
    S2, kw2 = second(v, m)
    e = v.new(LQ, names=names(v, m), **kw2)
    r = v.call(d, '__and__', e)
    meets(v, r, S1, S2, m); keep(v, d, S1, m)
    for q in ('lb', 'ub'): v.eq_arr('second operand unchanged ' + q, v.attr(e, q), (m,), lambda j: getattr(S2, q).at(j))

@target('C04', LQ + '.add_constraints')
def partial_add(v):
    """constraint kinds that are not given are not added"""
    m = v.int('m'); kw, S1 = linquad(v, m)
    d = v.new(LQ, names=names(v, m), **kw)
    n = v.int('n2', 0); A2, b2 = v.arr('A2', n, m), v.arr('b2', n)
    S2 = Sys(m, SArr((m,), lambda j: -INF), SArr((m,), lambda j: INF), A2, b2, SArr((0, m), lambda i, j: 0), SArr((0,), lambda i: 0), (SList(0, lambda i: None),) * 3)
    r = v.call(d, 'add_constraints', A=A2, b=b2)
    meets(v, r, S1, S2, m)
