"""C17: line search and descent methods."""
import itertools
from pv.arr import PyRaise
from .ext import *
from . import cvx
GN = 'psdr.gn:'

class Fun:
    """an arbitrary vector-valued function: every evaluation is recorded as a pair (point, value)"""
    def __init__(self, v, q, bad=False): self.v, self.q, self.pairs, self.bad, self.n = v, q, [], bad, itertools.count()
    def at(self, x):
        if self.bad and self.v.ip.decide(z3.Bool('bad_step_%d' % next(self.n))): raise PyRaise('BadStep', '')
        r = fresh_arr(self.v, 'fval', self.q); self.pairs.append((x, r)); return r
    def is_value(self, x, r): return any(same(self.v, x, a) and same(self.v, r, b) for a, b in self.pairs)

def same(v, x, a):
    """the same array, entry by entry"""
    if x is a: return True
    if not isinstance(x, SArr) or not isinstance(a, SArr) or x.ndim != 1 or a.ndim != 1 or A.dimeq(x.shape[0], a.shape[0]) is not True: return False
    i = z3.Int('same!i')
    with v.scope():
        v.ctx.path.append(z3.And(i >= 0, i < idx(x.shape[0]))); e = s.eq(x.at(i), a.at(i))
    return e is True or not isinstance(e, bool) and z3.is_true(z3.simplify(e))


def nrm(v, r): return root(v.sum(A.asarr(r).shape[0], lambda i: s.mul(A.asarr(r).at(i), A.asarr(r).at(i))))
from .lipschitz import root

@target('C17', GN + 'linesearch_armijo')
def armijo(v):
    """either the accepted step is a trial point on the trajectory whose objective satisfies the sufficient decrease condition and the returned
    value is the one at the returned point, or the starting point and value are returned with step length zero"""
    for given in (False, True):
        m, q, mx = v.int('m'), v.int('q'), v.int('maxiter', 1); x0, p, g = v.arr('x0', m), v.arr('p', m), v.arr('g', m); bt, ft = v.real('bt'), v.real('ftol'); F = Fun(v, q)
        v.assume(And(s.lt(0, bt), s.lt(bt, 1), s.lt(0, ft), s.lt(ft, 1))); dg = v.sum(m, lambda i: s.mul(g.at(i), p.at(i))); v.assume(s.le(dg, 0))
        trial = []
        def traj(a, b, t):
            v.ob('trial point from the starting point along the direction', same(v, a, x0) and same(v, b, p)); v.ob('step length in (0, 1]', And(s.lt(0, t), s.le(t, 1)))
            if v.ip.decide(z3.Bool('bad_trajectory_%d' % len(trial))): raise PyRaise('BadStep', '')
            x = fresh_arr(v, 'trial', m); trial.append((x, t)); return x
        def inv(fr, tag, k=None): v.ob(tag, And(s.lt(0, fr.l['alpha']), s.le(fr.l['alpha'], 1))); v.ob('not yet successful', fr.l['success'] is False)
        def havoc(fr, k):
            a = fresh_real('alpha'); v.assume(And(s.lt(0, a), s.le(a, 1))); fr.l['alpha'] = a; fr.l['success'] = False; fr.l['it'] = Sym(k - 1)
        v.loop(GN + 'linesearch_armijo', 1, havoc, inv, kind='for')
        fx0 = F.at(x0); given or F.pairs.clear(); F.bad = given
        x, al, fx = v.fcall(GN + 'linesearch_armijo', Builtin('f', F.at), g, p, x0, bt_factor=bt, ftol=ft, maxiter=Sym(mx), trajectory=Builtin('T', traj), **({'fx0': fx0} if given else {}))
        f0 = [r for a, r in F.pairs if same(v, a, x0)][0]
        v.ob('returned value is that of the returned point', F.is_value(x, fx))
        if same(v, x, x0): v.ob('no step', And(s.eq(al, 0), same(v, fx, f0)))
        else:
            v.ob('a trial point of this trajectory', any(same(v, x, a) and v.ctx.prove(s.eq(al, t))[0] == 'proved' for a, t in trial))
            v.ob('sufficient decrease', s.lt(nrm(v, fx), s.add(nrm(v, f0), s.mul(al, s.mul(ft, dg)))))
        v.ob('objective not larger', s.le(nrm(v, fx), nrm(v, f0)))

@target('C17', GN + 'gauss_newton')
def gauss_newton(v):
    """every returned point has a residual norm no larger than the starting point; each line search starts at the current point with its residual's
    gradient information, along a descent direction, on the supplied trajectory (loop invariant; line search by its contract)"""
    m, q, mx = v.int('m'), v.int('q'), v.int('maxiter', 1); x0 = v.arr('x0', m); F = Fun(v, q); tol, tdx = v.real('tol'), v.real('tol_normdx')
    traj = Builtin('trajectory', lambda *a: None); J = []; K = v.int('rank')
    def jac(x): r = fresh_arr(v, 'J', q, m); J.append((x, r)); return r
    def solver(Fe, fe):
        v.ob('search direction from the Jacobian at a current point and a residual', any(Fe is b for a, b in J)); return fresh_arr(v, 'dx', m), fresh_arr(v, 's', K)
    def ls(f, g, p, x, trajectory=None, **k):
        v.ob('supplied trajectory', trajectory is traj); v.ob('line search on the residual', f is fun); v.ob('the residual at the start of the line search is known', any(same(v, x, a) for a, b in F.pairs))
        v.ob('descent direction', s.le(v.sum(m, lambda i: s.mul(A.asarr(g).at(i), A.asarr(p).at(i))), 0))
        y = fresh_arr(v, 'x_new', m); al = fresh_real('alpha'); return y, al, F.at(y)
    fun = Builtin('f', F.at)
    f0 = fresh_arr(v, 'f0', q)
    def inv(fr, tag, k=None):
        if tag == 'invariant holds initially': f0_.append(fr.l['f_eval'])
        v.ob(tag + ': residual of the current point', F.is_value(fr.l['x'], fr.l['f_eval'])); v.ob(tag + ': not larger than at the start', s.le(nrm(v, fr.l['f_eval']), nrm(v, f0_[0])))
        if tag == 'invariant holds initially': v.ob('starts at the given point', same(v, fr.l['x'], x0))
    f0_ = []
    def havoc(fr, k):
        x = fresh_arr(v, 'xk', m); r = F.at(x); v.assume(s.le(nrm(v, r), nrm(v, f0_[0]))); g = fresh_arr(v, 'Jk', q, m); J.append((x, g))
        l = fr.l; l['x'], l['f_eval'], l['F_eval'], l['grad'] = x, r, g, fresh_arr(v, 'grad', m); l['it'] = Sym(k - 1)
        l['normdx'], l['normgrad'], l['f_eval_new'] = fresh_real('normdx'), fresh_real('normgrad'), fresh_arr(v, 'fnew', q)
    v.loop(GN + 'gauss_newton', 1, havoc, inv, kind='for')
    x, info = v.fcall(GN + 'gauss_newton', fun, Builtin('F', jac), x0, tol=tol, tol_normdx=tdx, maxiter=Sym(mx), linesearch=Builtin('ls', ls), trajectory=traj, gnsolver=Builtin('gnsolver', solver))
    vals = [r for a, r in F.pairs if same(v, x, a)]
    v.ob('the residual at the returned point is known', len(vals) > 0)
    v.ob('no larger than at the start', s.le(nrm(v, vals[-1]), nrm(v, f0_[0]))); v.ob('reported status', info in (0, 1, 2, 3))

MM = 'psdr.minimax:'
def vmax(v, r): r = A.asarr(r); g = r.getter(); return g(v.ctx.argext('argmax', r.shape[0], g))

class Dom:
    """a convex domain: points known to be inside; the constraints it builds hold at a vector exactly when that vector is inside"""
    def __init__(self, v, m):
        self.v, self.m, self.inside, self.built, self.token = v, m, [], [], 'constraints of this domain'
        self.ns = Ns('domain', {'isinside': Builtin('isinside', self.test), '_build_constraints': Builtin('_build_constraints', self.build)})
    def test(self, x): self.inside.append(x); return True       # the caller asserts it
    def build(self, e): self.built.append(e); return [self.token]
    def knows(self, x): return any(same(self.v, x, a) for a in self.inside)

def do_minimax(v, tr):
    cp = cvx.CP(v, ('infeasible', 'unbounded', 'optimal')); m, q, mx, bt = v.int('m'), v.int('q'), v.int('maxiter', 1), v.int('bt_maxiter', 1); x0 = v.arr('x0', m); F = Fun(v, q); dom = Dom(v, m)
    c = v.real('c_armijo'); tdx, tdf = v.real('tol_dx'), v.real('tol_df'); v.assume(And(s.lt(0, c), s.lt(c, 1)))
    st = {}
    def ok(fr, tag):
        l = fr.l; v.ob(tag + ': value of the current point', F.is_value(l['x'], l['fx'])); v.ob(tag + ': inside the domain', dom.knows(l['x']))
        v.ob(tag + ': objective of the current point', s.same(l['t'], vmax(v, l['fx']))); v.ob(tag + ': not larger than at the start', s.le(l['t'], st['t0']))
    def inv(fr, tag, k=None):
        if tag == 'invariant holds initially': st['t0'] = fr.l['t']; v.ob('starts at the given point', same(v, fr.l['x'], x0))
        ok(fr, tag)
        if k is not None and not same(v, fr.l['x'], st['xk']):
            pt = cp.vars[0].cp[2](); v.ob('sufficient decrease of an accepted step', s.le(fr.l['t'], s.add(st['tk'], s.mul(c, s.mul(fr.l['alpha'], pt.at(0) if pt.ndim else pt.at())))))
    def state(fr):
        x = fresh_arr(v, 'xk', m); r = F.at(x); dom.inside.append(x); l = fr.l; l['x'], l['fx'], l['t'] = x, r, vmax(v, r); v.assume(s.le(l['t'], st['t0']))
        l['Delta'] = fresh_real('Delta')
        st['xk'], st['tk'] = x, l['t']
    def havoc(fr, k): state(fr); fr.l['it'] = Sym(k - 1)
    v.loop(MM + 'minimax', 1, havoc, inv, kind='for')
    def inv2(fr, tag, k=None):
        l = fr.l; v.ob('inner ' + tag, And(s.lt(0, l['alpha']), s.le(l['alpha'], 1))); v.ob('inner: current point unchanged', And(l['x'] is st['xk'], l['t'] is st['tk'], l['stop'] is False))
    def havoc2(fr, k):
        a = fresh_real('alpha'); v.assume(And(s.lt(0, a), s.le(a, 1))); l = fr.l; l['alpha'], l['stop'], l['it2'] = a, False, Sym(k - 1); l['x'], l['t'], l['fx'] = st['xk'], st['tk'], [r for a_, r in F.pairs if a_ is st['xk']][0]
        l['Delta'] = fresh_real('Delta')
    v.loop(MM + 'minimax', 2, havoc2, inv2, kind='for')
    def traj(a, b, t):
        (sn, e), cons, P = cp.problems[-1]; px = cp.vars[-1]
        v.ob('from the current point', same(v, a, st['xk'])); v.ob('along the solution', same(v, b, px.cp[2]())); v.ob('step length in (0, 1]', And(s.lt(0, t), s.le(t, 1)))
        y = fresh_arr(v, 'trial', m)
        v.ob('constrained to the domain', any(z is dom.token or z == dom.token for z in list(cons) if isinstance(z, str)) and len(dom.built) > 0)
        v.eq_arr('at the end of the step', dom.built[-1], (m,), lambda i: s.add(st['xk'].at(i), px.at(i)))
        v.ob('the problem is solved', P.d['status'] == 'optimal'); dom.inside.append(y)       # convexity: both ends of the step are inside
        return y
    fun = Ns('f', {'__call__': Builtin('f', F.at), 'grad': Builtin('grad', lambda x: fresh_arr(v, 'J', q, m))})
    try: x = v.fcall(MM + 'minimax', fun, x0, domain=dom.ns, trajectory=Builtin('T', traj), c_armijo=c, maxiter=Sym(mx), trust_region=tr, tol_dx=tdx, tol_df=tdf, bt_maxiter=Sym(bt))
    except PyRaise as e:
        v.ob('fails only when the step problem does', e.name == 'Exception' and cp.problems[-1][2].d['status'] != 'optimal'); return
    vals = [r for a, r in F.pairs if same(v, x, a)]
    v.ob('value at the returned point is known', len(vals) > 0); v.ob('returned point is inside the domain', dom.knows(x)); v.ob('objective no larger than at the start', s.le(vmax(v, vals[-1]), st['t0']))

@target('C17', MM + 'minimax')
def minimax_trust(v):
    """the returned point is inside the domain and the largest component there is no larger than at the start; trial points lie on the supplied trajectory from
    the current point, along the solution of a problem constrained to the domain; accepted steps decrease the objective sufficiently"""
    do_minimax(v, True)
@target('C17', MM + 'minimax')
def minimax_free(v):
    """the same without a trust region"""
    do_minimax(v, False)

SQ = 'psdr.seqlp:'
def do_seqlp(v, norm):
    cp = cvx.CP(v, ('unbounded', 'infeasible', 'optimal')); m, q, mx, bt = v.int('m'), v.int('q'), v.int('maxiter', 1), v.int('bt_maxiter', 1); x0 = v.arr('x0', m); F = Fun(v, q); dom = Dom(v, m); dom.inside.append(x0)
    tdx, tob = v.real('tol_dx'), v.real('tol_obj'); v.assume(And(s.lt(0, tdx), s.lt(0, tob))); st = {}
    if norm == 2: obj = lambda r: nrm(v, r)
    elif norm == 1: obj = lambda r: v.sum(q, lambda i: s.abs_(r.at(i)))
    elif norm == INF: obj = lambda r: vmax(v, A.elem(s.abs_, r))
    else: obj = lambda r: v.sum(q, lambda i: s.maximum(r.at(i), 0))
    def ok(fr, tag):
        l = fr.l; v.ob(tag + ': value of the current point', F.is_value(l['x'], l['fx'])); v.ob(tag + ': inside the domain', dom.knows(l['x']))
        v.ob(tag + ': objective of the current point', s.same(l['objval'], obj(l['fx']))); v.ob(tag + ': not larger than at the start', s.le(l['objval'], st['t0']))
    def inv(fr, tag, k=None):
        if tag == 'invariant holds initially': st['t0'] = fr.l['objval']; v.ob('starts at the given point', same(v, fr.l['x'], x0))
        ok(fr, tag)
    def state(fr):
        x = fresh_arr(v, 'xk', m); r = F.at(x); dom.inside.append(x); l = fr.l; l['x'], l['fx'], l['objval'] = x, r, obj(r); v.assume(s.le(l['objval'], st['t0']))
        l['Delta'] = fresh_real('Delta'); l['jacx'] = fresh_arr(v, 'J', q, m); st['xk'], st['fk'], st['tk'] = x, r, l['objval']
    def havoc(fr, k): state(fr); fr.l['it'] = Sym(k - 1)
    v.loop(SQ + 'sequential_lp', 1, havoc, inv, kind='for')
    def inv2(fr, tag, k=None): l = fr.l; v.ob('inner ' + tag, And(l['x'] is st['xk'], l['objval'] is st['tk'], l['fx'] is st['fk']))
    def havoc2(fr, k):
        l = fr.l; l['it2'] = Sym(k - 1); l['x'], l['objval'], l['fx'] = st['xk'], st['tk'], st['fk']; l['Delta'] = fresh_real('Delta'); l['stop'] = v.ip.decide(z3.Bool('stop_%d' % len(v.ctx.path)))
    v.loop(SQ + 'sequential_lp', 3, havoc2, inv2, kind='for')
    def traj(a, b, t):
        (sn, e), cons, P = cp.problems[-1]; px = cp.vars[-1]
        v.ob('from the current point', same(v, a, st['xk'])); v.ob('along the solution', same(v, b, px.cp[2]())); v.ob('full step', s.eq(t, 1))
        v.ob('constrained to the domain', any(z == dom.token for z in list(cons) if isinstance(z, str)) and len(dom.built) > 0)
        v.eq_arr('at the end of the step', dom.built[-1], (m,), lambda i: s.add(st['xk'].at(i), px.at(i))); v.ob('the problem is solved', P.d['status'] == 'optimal')
        y = fresh_arr(v, 'trial', m); dom.inside.append(y); return y
    v.ip.shims['cvxpy'].d['pos'] = Builtin('cp.pos', lambda e: A.elem(lambda a: s.maximum(a, 0), A.asarr(e)))
    x = v.fcall(SQ + 'sequential_lp', Builtin('f', F.at), x0, Builtin('jac', lambda x: fresh_arr(v, 'J', q, m)), norm=norm, trajectory=Builtin('T', traj), domain=dom.ns, maxiter=Sym(mx), bt_maxiter=Sym(bt), tol_dx=tdx, tol_obj=tob)
    vals = [r for a, r in F.pairs if same(v, x, a)]
    v.ob('value at the returned point is known', len(vals) > 0); v.ob('returned point is inside the domain', dom.knows(x)); v.ob('objective no larger than at the start', s.le(obj(vals[-1]), st['t0']))

@target('C17', SQ + 'sequential_lp')
def seqlp_2(v):
    """2-norm: the returned point is inside the domain and its objective no larger than at the start; steps follow the supplied trajectory along the solution of a problem constrained to the domain"""
    do_seqlp(v, 2)
@target('C17', SQ + 'sequential_lp')
def seqlp_1(v):
    """1-norm"""
    do_seqlp(v, 1)
@target('C17', SQ + 'sequential_lp')
def seqlp_inf(v):
    """infinity norm"""
    do_seqlp(v, INF)
@target('C17', SQ + 'sequential_lp')
def seqlp_hinge(v):
    """hinge objective"""
    do_seqlp(v, 'hinge')
