"""C06: the extent is the largest feasible step (exact arithmetic; any dimension, any constraints)."""
from .lib import *
E_ = DOM + 'euclidean:EuclideanDomain.'
BOX, LI, LQ = DOM + 'box:BoxDomain', DOM + 'linineq:LinIneqDomain', DOM + 'linquad:LinQuadDomain'
SL = Fraction('1e-15')      # slack granted by the code to a starting point on an inequality

def dom(v, cls=LQ):
    m = v.int('m'); lb, ub = bounds(v, m)
    n, p, K = v.int('n', 0), v.int('p', 0), v.int('K', 0)
    S_ = Sys(m, lb, ub, v.arr('A', n, m), v.arr('b', n), v.arr('Ae', p, m), v.arr('be', p), quads(v, m, K))
    d = v.bare(cls, _dimension=Sym(m), _lb=lb, _ub=ub, _A=S_.A, _b=S_.b, _A_eq=S_.Ae, _b_eq=S_.be, _Ls=S_.quad[0], _ys=S_.quad[1], _rhos=S_.quad[2], tol=Fraction(1, 1000000))
    x, p = v.arr('x', m), v.arr('p', m)
    return d, m, S_, x, p

def inb(S_, x, j): return And(s.le(S_.lb.at(j), x(j)), s.le(x(j), S_.ub.at(j)))
def step(x, p, t): return lambda j: s.add(x.at(j), s.mul(t, p.at(j)))
def dot(v, m, row, x): return v.sum(m, lambda j: s.mul(row(j), x(j)))

@target('C06', E_ + '_extent_bounds')
def extent_bounds(v):
    """bounds: nonnegative; every step up to it keeps the bounds; every longer step breaks one; infinite iff no bound limits"""
    d, m, S_, x, p = dom(v)
    a = v.call(d, '_extent_bounds', x, p)
    v.ob('nonnegative for any starting point', And(s.ge(a, 0), Not(s.isnan(a))))
    v.assume_all([m], lambda j: inb(S_, x.at, j))
    t = v.real('t', 0)
    v.forall('steps up to the extent stay inside the bounds', [m], lambda j: Implies(s.le(t, a), inb(S_, step(x, p, t), j)))
    v.ob('longer steps leave the bounds', Implies(s.gt(t, a), Not(v.all(m, lambda j: inb(S_, step(x, p, t), j)))))
    v.forall('infinite only if no bound limits the direction', [m], lambda j: Implies(s.eq(a, INF), And(
        Or(s.le(p.at(j), 0), s.eq(S_.ub.at(j), INF)), Or(s.ge(p.at(j), 0), s.eq(S_.lb.at(j), -INF)))))

@target('C06', E_ + '_extent_ineq')
def extent_ineq(v):
    """inequalities: nonnegative; every step up to it keeps A x <= b (to 1e-15); every longer step breaks a row"""
    d, m, S_, x, p = dom(v)
    a = v.call(d, '_extent_ineq', x, p)
    n = S_.A.shape[0]
    v.ob('nonnegative for any starting point', And(s.ge(a, 0), Not(s.isnan(a))))
    row = lambda i: lambda j: S_.A.at(i, j)
    v.assume_all([n], lambda i: s.le(dot(v, m, row(i), x.at), S_.b.at(i)))
    t = v.real('t', 0)
    i, = v.fresh([n])
    Ap, r = dot(v, m, row(i), p.at), s.add(s.sub(S_.b.at(i), dot(v, m, row(i), x.at)), SL)
    s0 = s.sub(S_.b.at(i), dot(v, m, row(i), x.at)); sl = s.ite(s.ge(s0, SL), s0, SL)
    v.have('each row being approached limits the extent', Implies(s.gt(Ap, 0), s.le(a, s.div(sl, Ap))))
    v.have('slack', And(s.le(sl, r), Implies(s.gt(Ap, 0), s.le(s.div(sl, Ap), s.div(r, Ap)))))
    v.have('as a product', Implies(And(s.gt(Ap, 0), s.le(t, s.div(r, Ap))), s.le(s.mul(t, Ap), r)))
    v.have('rows not being approached', Implies(s.le(Ap, 0), s.le(s.mul(t, Ap), 0)))
    v.ob('steps up to the extent keep every row', Implies(s.le(t, a), s.le(dot(v, m, row(i), step(x, p, t)), s.add(S_.b.at(i), SL))))
    v.ob('longer steps break a row', Implies(s.gt(t, a), Not(v.all(n, lambda i: s.le(dot(v, m, row(i), step(x, p, t)), S_.b.at(i))))))

def larger_root(a, b, c):
    """(-b + sqrt(max(b^2 - 4 a c, 0))) / 2a, for a > 0"""
    sq = s.sqrt(s.pymax(s.sub(s.mul(b, b), s.mul(s.mul(4, a), c)), 0))
    n, d = s.add(s.neg(b), sq), s.mul(2, a)
    return Sym(s.CANON[0](s.R(s.S(n).e), 12) / s.CANON[0](s.R(s.S(d).e), 12))
def quad_facts(a, b, c, t):
    """a, b, c real with a > 0 >= c, r the larger root: a t^2 + b t + c <= 0 for 0 <= t <= r and > 0 beyond it"""
    r = larger_root(a, b, c)
    val = s.add(s.add(s.mul(a, s.mul(t, t)), s.mul(b, t)), c)
    pre = And(s.gt(a, 0), s.le(c, 0), s.ge(t, 0))
    return Implies(pre, And(s.ge(r, 0), Iff(s.le(t, r), s.le(val, 0))))
def quadratic_lemma(v):
    a, b, c, t = [v.real('lem_' + n) for n in 'abct']
    v.ob('lemma: sign of a quadratic', quad_facts(a, b, c, t))
def use_lemma(v, a, b, c, t): v.ctx.learn(quad_facts(a, b, c, t))

def quad_up_to(v, terms, root, a, t, ok, x, p, step, Ls):
    k, = v.fresh([Ls.n])
    Lp, P, a_, b_, c_ = terms(k)
    v.have('inside', And(s.le(c_, 0), s.ge(a_, 0)))
    v.ctx.zerosum = True
    v.have('no motion, no change', Implies(s.eq(a_, 0), s.eq(b_, 0)))
    v.ctx.zerosum = False
    v.have('each ball limits the extent', Implies(s.gt(a_, 0), s.le(a, root(a_, b_, c_))))
    use_lemma(v, a_, b_, c_, t)
    v.ob('steps up to the extent keep every ball', Implies(s.le(t, a), ok(k, step(x, p, t))))

@target('C06', E_ + '_extent_quad')
def extent_quad(v):
    """quadratic constraints: nonnegative; steps up to the extent keep every ball (that longer steps leave a ball is by bounded evaluation)"""
    d, m, S_, x, p = dom(v)
    Ls, ys, rs = S_.quad
    a = v.call(d, '_extent_quad', x, p)
    v.ob('nonnegative for any starting point', And(s.ge(a, 0), Not(s.isnan(a))))
    q = lambda k, f: sqnorm_L(v, Ls.get(k), ys.get(k), f, m)
    ok = lambda k, f: s.le(q(k, f), s.mul(rs.get(k), rs.get(k)))
    v.assume_all([Ls.n], lambda k: ok(k, x.at))
    t = v.real('t', 0)
    def terms(k):
        L, y, r = Ls.get(k), ys.get(k), rs.get(k)
        Lp = lambda i: dot(v, m, lambda j: L.at(i, j), p.at)
        Lz = lambda i: v.sum(m, lambda j: s.mul(L.at(i, j), s.sub(x.at(j), y.at(j))))
        P = L.shape[0]
        a_ = v.sum(P, lambda i: s.mul(Lp(i), Lp(i))); b_ = s.mul(2, v.sum(P, lambda i: s.mul(Lp(i), Lz(i)))); c_ = s.sub(v.sum(P, lambda i: s.mul(Lz(i), Lz(i))), s.mul(r, r))
        v.ring('the constraint along the direction is a quadratic polynomial of the step', s.sub(q(k, step(x, p, t)), s.mul(r, r)), s.add(s.add(s.mul(a_, s.mul(t, t)), s.mul(b_, t)), c_))
        return Lp, P, a_, b_, c_
    root = larger_root
    quadratic_lemma(v)
    with v.scope(): quad_up_to(v, terms, root, a, t, ok, x, p, step, Ls)

def parts(v, names):
    vals = [v.real('limit_' + n.strip('_'), 0) for n in names]
    for n, r in zip(names, vals):
        def contract(ip, loc, n=n, r=r):
            x, p = loc['x'], loc['p']
            v.eq_arr('x of ' + n, x, (x_p[2],), lambda j: x_p[0].at(j)); v.eq_arr('p of ' + n, p, (x_p[2],), lambda j: x_p[1].at(j))
            return r
        v.contract(E_ + n, contract)
    x_p = []
    return vals, x_p

def composed(v, cls, names):
    d, m, S_, x, p = dom(v, cls)
    vals, xp = parts(v, names); xp += [x, p, m]
    r = v.call(d, '_extent', x, p)
    along = v.all(S_.Ae.shape[0], lambda i: s.lt(s.abs_(dot(v, m, lambda j: S_.Ae.at(i, j), p.at)), d.d['tol']))
    v.ob('directions keeping the equalities are limited by the tightest constraint', Implies(along, And(Or(*[s.eq(r, e) for e in vals]), *[s.le(r, e) for e in vals])))
    v.ob('other directions cannot be followed', Implies(Not(along), s.eq(r, 0)))

@target('C06', LQ + '._extent')
def linquad_extent(v):
    """smallest of the limits of the bounds, inequalities and quadratic constraints; 0 off the equality constraints"""
    composed(v, LQ, ['_extent_bounds', '_extent_ineq', '_extent_quad'])

@target('C06', LI + '._extent')
def linineq_extent(v):
    """smallest of the limits of the bounds and inequalities; 0 off the equality constraints"""
    composed(v, LI, ['_extent_bounds', '_extent_ineq'])

@target('C06', BOX + '._extent')
def box_extent(v):
    """the limit of the bounds"""
    d, m, S_, x, p = dom(v, BOX)
    vals, xp = parts(v, ['_extent_bounds']); xp += [x, p, m]
    v.ob('limit of the bounds', s.eq(v.call(d, '_extent', x, p), vals[0]))
