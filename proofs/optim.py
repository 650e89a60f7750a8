"""C08: the convex problems posed are the stated ones, in normalized coordinates, for every point."""
from .lib import *
from .cvx import CP
from .normdomain import setup
from .normalize import slope, islope
E_ = DOM + 'euclidean:EuclideanDomain.'
LQ = DOM + 'linquad:LinQuadDomain'

def unz(v, d, m, z):
    c, D = v.call(d, '_center'), v.call(d, '_unnormalize_der')
    return lambda j: s.add(s.mul(D.at(j, j), z.at(j)), c.at(j))

def conj(v, cons):
    out = []
    for g in A.segs(cons):
        if isinstance(g, list): out += [one(v, c) for c in g]
        else: out.append(v.all(g.n, (lambda g: lambda k: one(v, g.get(k)))(g)))
    return And(*out)
def one(v, c):
    c = A.asarr(c) if not s.is_bool(c) else c
    if not isinstance(c, SArr): return c
    return c.at() if c.ndim == 0 else v.all(c.shape[0], lambda i: c.at(i))

def builder(v, name, norm):
    cp = CP(v)
    d, m, nlb, nub, S_ = setup(v)
    z = v.arr('z', m)
    xa = v.arr('x', m)
    x = xa.at if norm else z.at
    if norm: normalized(v, m, S_, z, xa)
    cons = v.call(d, name, z)
    H = conj(v, cons)
    tol0 = in_sys0(v, S_, x)
    v.ob('posed', Iff(H, tol0))

def normalized(v, m, S_, z, x):
    """contracts of the normalized constraint data (discharged under C03) at the pair x = unnormalize(z), z = normalize(x)"""
    Ln, Un = v.ext('lbn', m, ni=True), v.ext('ubn', m, pi=True)
    v.assume_all([m], lambda j: And(Iff(s.isfinite(Ln.at(j)), s.isfinite(S_.lb.at(j))), Iff(s.isfinite(Un.at(j)), s.isfinite(S_.ub.at(j)))))
    v.assume_all([m], lambda j: And(Iff(s.le(Ln.at(j), z.at(j)), s.le(S_.lb.at(j), x.at(j))), Iff(s.le(z.at(j), Un.at(j)), s.le(x.at(j), S_.ub.at(j)))))
    v.contract(E_ + 'lb_norm', lambda ip, loc: Ln); v.contract(E_ + 'ub_norm', lambda ip, loc: Un)
    for nm, bn, M, b in (('A_norm', 'b_norm', S_.A, S_.b), ('A_eq_norm', 'b_eq_norm', S_.Ae, S_.be)):
        n = M.shape[0]; P, q = v.arr(nm, n, m), v.arr(bn, n)
        v.assume_all([n], (lambda P, q, M, b: lambda i: s.eq(s.sub(v.sum(m, lambda j: s.mul(P.at(i, j), z.at(j))), q.at(i)), s.sub(v.sum(m, lambda j: s.mul(M.at(i, j), x.at(j))), b.at(i))))(P, q, M, b))
        v.contract(E_ + nm, (lambda P: lambda ip, loc: P)(P)); v.contract(E_ + bn, (lambda q: lambda ip, loc: q)(q))
    Ls, ys, rs = S_.quad
    Lf, yf = z3.Function('in_Ln', I, I, I, RL), z3.Function('in_yn', I, I, RL)
    Lns = SList(Ls.n, lambda k: SArr(Ls.get(k).shape, lambda i, j: Sym(Lf(idx(k), idx(i), idx(j)))))
    yns = SList(Ls.n, lambda k: SArr((m,), lambda j: Sym(yf(idx(k), idx(j)))))
    P = lambda k: Ls.get(k).shape[0]
    # same residual length for every quadratic constraint
    v.assume_all([Ls.n], lambda k: s.eq(v.sum(P(k), lambda i: (lambda t: s.mul(t, t))(v.sum(m, lambda j: s.mul(Lns.get(k).at(i, j), s.sub(z.at(j), yns.get(k).at(j)))))), sqnorm_L(v, Ls.get(k), ys.get(k), x.at, m)))
    v.contract(E_ + 'Ls_norm', lambda ip, loc: Lns); v.contract(E_ + 'ys_norm', lambda ip, loc: yns); v.contract(E_ + 'rhos_norm', lambda ip, loc: rs)

def in_sys0(v, S_, x):
    m = S_.m
    dot = lambda M, i: v.sum(m, lambda j: s.mul(M.at(i, j), x(j)))
    Ls, ys, rhos = S_.quad
    return And(v.all(m, lambda j: And(s.le(S_.lb.at(j), x(j)), s.le(x(j), S_.ub.at(j)))), v.all(S_.A.shape[0], lambda i: s.le(dot(S_.A, i), S_.b.at(i))),
               v.all(S_.Ae.shape[0], lambda i: s.eq(dot(S_.Ae, i), S_.be.at(i))), v.all(Ls.n, lambda k: s.le(s.sqrt(sqnorm_L(v, Ls.get(k), ys.get(k), x, m)), rhos.get(k))))

@target('C08', LQ + '._build_constraints')
def constraints_posed(v):
    """the constraints handed to the solver hold at a point exactly when it satisfies every bound, inequality, equality and quadratic constraint"""
    builder(v, '_build_constraints', False)

@target('C08', LQ + '._build_constraints_norm')
def constraints_posed_norm(v):
    """the constraints handed to the solver in normalized coordinates hold at z exactly when unnormalize(z) satisfies the domain's constraints"""
    builder(v, '_build_constraints_norm', True)

def iff(v, name, P, Q):
    with v.scope(): v.assume(P); [v.ob(name + ' (sufficient)', q) for q in Q]
    with v.scope(): [v.assume(q) for q in Q]; v.ob(name + ' (necessary)', P)

def optimum(v, name, args, sense, objective, unzf=None):
    """run a query; on the path where a problem is solved: right sense, objective and constraints, result is the solution in application units"""
    cp = CP(v)
    d, m, nlb, nub, S_ = setup(v)
    d.d['kwargs'] = {}
    token = []
    def bc(ip, loc):
        token.append((loc['x_norm'], ['constraints of this domain'])); return token[-1][1]
    v.contract(LQ + '._build_constraints_norm', bc)
    q_ = v.int('q', 0); v.contract(E_ + '_A_eq_basis', lambda ip, loc: v.arr('Qeq', m, q_))
    A_ = args(v, d, m)
    x0 = A_[0]
    inside = z3.Bool('x0_inside')
    def ii(ip, loc):
        v.eq_arr('the query point is tested', loc['X'], (m,), lambda j: x0.at(j)); return inside
    v.contract(E_ + 'isinside', ii)
    try: r = v.call(d, name, *A_)
    except PyRaise as e:
        st = cp.problems[-1][2].d['status'] if cp.problems else None
        want = {'infeasible': ['EmptyDomainException'], 'unbounded': ['UnboundedDomainException', 'SolverError']}.get(st, ['SolverError', 'UnboundedDomainException'])
        v.ob('failure is reported as the documented exception', st not in ('optimal',) and e.name in want or (st == 'optimal' and name == '_corner' and e.name == 'UnboundedDomainException'))
        return
    if not cp.problems:
        v.ob('only a point inside is returned without solving', inside)
        v.eq_arr('and unchanged', r, (m,), lambda j: x0.at(j)); return
    v.ob('one problem solved', len(cp.problems) == 1)
    (sn, e), cons, P = cp.problems[0]
    v.ob('solved', P.d['status'] in ('optimal', 'optimal_inaccurate'))
    v.ob('direction of optimization', sn == sense)
    v.ob('constraints of this domain on the optimized variable', len(token) == 1 and cons is token[0][1] and token[0][0] is cp.vars[0] and len(cp.vars) == 1)
    z = cp.vars[0]
    v.shape('variable', z, m)
    un = unzf or (lambda z: unz(v, d, m, z))
    x = un(z)
    e = A.asarr(e)
    v.ob('scalar objective', e.ndim == 0 or e.ndim == 1 and A.ieq(e.shape[0], 1) is True or e.ndim == 1)
    if e.ndim == 1: v.ob('objective size', A.ieq(e.shape[0], 1))
    ev = e.at() if e.ndim == 0 else e.at(0)
    for nm, g in objective(v, m, A_, x, ev, cp): v.ob(nm, g)
    xs = un(z.cp[2]())
    v.eq_arr('result is the solution in application units', r, (m,), lambda j: xs(j))

def norm_of(v, cp, ev, n, r):
    """the objective is the 2-norm of the vector with entries +-r(i)"""
    v.ob('one norm', len(cp.normed) == 1)
    w = cp.normed[0]
    v.shape('size of the residual', w, n)
    v.forall('residual of the stated problem, entry by entry', [n], lambda i: s.same(s.mul(w.at(i), w.at(i)), s.mul(r(i), r(i))))
    return [('objective is the norm of the residual', s.same(ev, s.sqrt(v.sum(n, lambda i: s.mul(w.at(i), w.at(i))))))]

@target('C08', E_ + '_closest_point')
def closest_posed(v):
    """closest point: an inside point is returned as is; otherwise the problem solved is min ||L (x - x0)|| over the domain"""
    def args(v, d, m):
        p = v.int('p'); return [v.arr('x0', m), v.arr('L', p, m)]
    def obj(v, m, A_, x, ev, cp):
        x0, L = A_
        return norm_of(v, cp, ev, L.shape[0], lambda i: v.sum(m, lambda j: s.mul(L.at(i, j), s.sub(x(j), x0.at(j)))))
    optimum(v, '_closest_point', args, 'min', obj)

@target('C08', E_ + '_corner')
def corner_posed(v):
    """corner: the problem solved is max p.x over the domain, up to a constant"""
    def args(v, d, m): return [v.arr('x0', m)]
    def obj(v, m, A_, x, ev, cp):
        p = A_[0]
        if v.ctx.prove(idx(m) == 1)[0] == 'proved': return [('objective is p.x (one coordinate)', s.same(s.add(ev, s.mul(p.at(0), cur[1].at(0))), s.mul(p.at(0), x(0))))]
        const = v.sum(m, lambda j: s.mul(p.at(j), cur[1].at(j)))
        return [('objective is p.x', s.same(s.add(ev, const), v.sum(m, lambda j: s.mul(p.at(j), x(j)))))]
    cur = []
    def args2(v, d, m):
        h, c = v.arr('halfwidth', m), v.arr('center', m)
        cur[:] = [h, c]         # contracts of C02: diagonal derivative, real center
        v.contract(E_ + '_unnormalize_der', lambda ip, loc: A.diag(h)); v.contract(E_ + '_center', lambda ip, loc: c)
        return args(v, d, m)
    optimum(v, '_corner', args2, 'max', obj, lambda z: lambda j: s.add(s.mul(cur[0].at(j), z.at(j)), cur[1].at(j)))

@target('C08', E_ + '_constrained_least_squares')
def least_squares_posed(v):
    """constrained least squares: the problem solved is min ||A x - b|| over the domain"""
    def args(v, d, m):
        n = v.int('n2'); return [v.arr('A2', n, m), v.arr('b2', n)]
    def obj(v, m, A_, x, ev, cp):
        M, b = A_; n = M.shape[0]
        r = lambda i: s.sub(v.sum(m, lambda j: s.mul(M.at(i, j), x(j))), b.at(i))
        return norm_of(v, cp, ev, n, r)
    optimum(v, '_constrained_least_squares', args, 'min', obj)

BOX, LI, HULL = DOM + 'box:BoxDomain', DOM + 'linineq:LinIneqDomain', DOM + 'convexhull:ConvexHullDomain'

@target('C08 C07', BOX + '._corner')
def box_corner(v):
    """box corner: inside, and no point of the box is further in the direction"""
    m = v.int('m'); lb, ub = v.arr('lb', m), v.arr('ub', m)
    v.assume_all([m], lambda j: s.le(lb.at(j), ub.at(j)))
    d = v.bare(BOX, _dimension=Sym(m), _lb=lb, _ub=ub, tol=Fraction(1, 1000000))
    p = v.arr('p', m)
    def ii(ip, loc): return z3.Bool('corner_inside')
    v.contract(E_ + 'isinside', ii)
    v.assume(z3.Bool('corner_inside'))
    r = v.call(d, '_corner', p)
    v.eq_arr('furthest bound in every coordinate', r, (m,), lambda j: s.ite(s.ge(p.at(j), 0), ub.at(j), lb.at(j)))
    x = v.arr('x', m)
    v.assume_all([m], lambda j: And(s.le(lb.at(j), x.at(j)), s.le(x.at(j), ub.at(j))))
    v.have_all('coordinate by coordinate', [m], lambda j: s.le(s.mul(p.at(j), x.at(j)), s.mul(p.at(j), r.at(j))))
    v.forall('operands unchanged', [m], lambda j: And(s.same(d.d['_lb'].at(j), lb.at(j)), s.same(d.d['_ub'].at(j), ub.at(j))))

@target('C08', LI + '.chebyshev_center')
def chebyshev_posed(v):
    """Chebyshev center: max r with a.x + r ||a|| <= b for every row of the inequalities and bounds, and the equality constraints"""
    cp = CP(v, ('optimal', 'infeasible'))
    m = v.int('m'); n, p = v.int('n', 0), v.int('p', 0)
    lb, ub = bounds(v, m)
    A_, b, Ae, be = v.arr('A', n, m), v.arr('b', n), v.arr('Ae', p, m), v.arr('be', p)
    d = v.bare(LI, _dimension=Sym(m), _lb=lb, _ub=ub, _A=v.arr('A0', v.int('n0', 0), m), _b=v.arr('b0', v.int('n0', 0)), _A_eq=Ae, _b_eq=be, tol=Fraction(1, 1000000), kwargs={})
    v.contract(E_ + 'A_aug', lambda ip, loc: A_); v.contract(E_ + 'b_aug', lambda ip, loc: b)
    c, rad = v.call(d, 'chebyshev_center')
    (sn, e), cons, P = cp.problems[0]
    v.ob('maximizes', sn == 'max')
    r, x = cp.vars
    v.ob('the radius', r.ndim == 1 and x.ndim == 1 and isinstance(e, SArr)); v.shape('x', x, m)
    v.ob('the radius is the objective', s.same(A.asarr(e).at(0), r.at(0)))
    R = r.at(0)
    dot = lambda M, i: v.sum(m, lambda j: s.mul(M.at(i, j), x.at(j)))
    nrm = lambda i: s.sqrt(v.sum(m, lambda j: s.mul(A_.at(i, j), A_.at(i, j))))
    H = conj(v, cons)
    want = (v.all(n, lambda i: s.le(s.add(dot(A_, i), s.mul(nrm(i), R)), b.at(i))), v.all(p, lambda i: s.eq(dot(Ae, i), be.at(i))))
    iff(v, 'posed', H, want)
    v.eq_arr('center is the solution', c, (m,), lambda j: x.cp[2]().at(j)); v.ob('radius is the solution', s.same(rad, r.cp[2]().at(0)))

@target('C08', E_ + 'A_aug', E_ + 'b_aug')
def augmented(v):
    """augmented rows: first the inequalities, then one signed unit row per finite bound"""
    m = v.int('m'); n = v.int('n', 0); lb, ub = bounds(v, m)
    d = v.bare(LQ, _dimension=Sym(m), _lb=lb, _ub=ub, _A=v.arr('A', n, m), _b=v.arr('b', n))
    P, q = v.attr(d, 'A_aug'), v.attr(d, 'b_aug')
    v.ob('as many rows as right-hand sides', A.ieq(P.shape[0], q.shape[0])); v.ob('columns', A.ieq(P.shape[1], m))
    N = P.shape[0]
    v.forall('inequalities first', [n, m], lambda i, j: And(s.same(P.at(i, j), d.d['_A'].at(i, j)), s.same(q.at(i), d.d['_b'].at(i))))
    with v.scope():
        i, j, k = v.fresh([(n, N), m, m])
        v.ob('unit rows', And(Or(s.eq(P.at(i, j), 0), s.eq(P.at(i, j), 1), s.eq(P.at(i, j), -1)), Implies(And(s.ne(P.at(i, j), 0), s.ne(P.at(i, k), 0)), A.ieq(j, k)),
             Implies(s.eq(P.at(i, j), 1), s.same(q.at(i), ub.at(j))), Implies(s.eq(P.at(i, j), -1), s.same(q.at(i), s.neg(lb.at(j))))))
    with v.scope():
        j, = v.fresh([m])
        cl, _, il = v.ctx.select(m, lambda k: s.isfinite(lb.at(k))); cu, _, iu = v.ctx.select(m, lambda k: s.isfinite(ub.at(k)))
        for nm, bd, off, inv, sg in (('lower', lb, idx(n), il, -1), ('upper', ub, idx(n) + idx(cl), iu, 1)):
            w = off + idx(inv(j))
            v.ob('a row for every finite %s bound' % nm, Implies(s.isfinite(bd.at(j)), And(w >= n, w < idx(N), s.eq(P.at(w, j), sg))))

@target('C08', HULL + '._build_constraints', HULL + '._build_constraints_norm')
def hull_posed(v):
    """convex hull: x = sum_i alpha_i X_i with alpha >= 0, sum alpha = 1, and the further constraints"""
    for name, X, z in (('_build_constraints', '_X', 'x'), ('_build_constraints_norm', '_X_norm', 'x_norm')):
        cp = CP(v)
        m, N = v.int('m'), v.int('N')
        pts = v.arr('pts' + X, N, m); d = v.bare(HULL, **{'_X': v.arr('X0', N, m), '_X_norm': pts} if X == '_X_norm' else {'_X': pts})
        further = z3.Bool('further_constraints')
        got = []
        def bc(ip, loc): got.append(loc[z]); return [further]
        v.contract(LQ + '.' + name, bc)
        zz = v.arr('z', m)
        cons = v.call(d, name, zz)
        v.ob('one vector of coefficients', len(cp.vars) == 1 and got == [zz])
        a = cp.vars[0]; v.shape('coefficients', a, N)
        H = conj(v, cons)
        want = And(further, v.all(N, lambda i: s.ge(a.at(i), 0)), s.eq(v.sum(N, lambda i: a.at(i)), 1), v.all(m, lambda j: s.eq(zz.at(j), v.sum(N, lambda i: s.mul(a.at(i), pts.at(i, j))))))
        if a.cp[1]: H = And(H, v.all(N, lambda i: s.ge(a.at(i), 0)))
        v.ob('posed ' + name, Iff(H, want))
