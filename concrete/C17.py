from core import *
import psdr, warnings, contextlib, io
import domgen
from psdr.gn import gauss_newton, linesearch_armijo, trajectory_linear, BadStep
from psdr.minimax import minimax
from psdr.seqlp import sequential_lp

def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore'); return f()

class Rec(object):
    """records every point at which the objective is evaluated and every trial step"""
    def __init__(self): self.pts, self.trials = [], []

def nls(T):
    r = T.rng; m = int(r.randint(1, 5)); M = int(r.randint(1, 7)); A = r.randn(M, m); b = r.randn(M); c = r.randn(M) * (r.rand() < .7); k = int(r.randint(0, 5))
    if k == 0: f, F = (lambda x: A.dot(x) - b), (lambda x: A)
    elif k == 1: f, F = (lambda x: A.dot(x) - b + c * A.dot(x) ** 2), (lambda x: A + (2 * c * A.dot(x))[:, None] * A)
    elif k == 2: f, F = (lambda x: np.sin(A.dot(x)) - b), (lambda x: np.cos(A.dot(x))[:, None] * A)
    elif k == 3: f, F = (lambda x: np.arctan(3 * A.dot(x)) - .1 * b), (lambda x: (3 / (1 + 9 * A.dot(x) ** 2))[:, None] * A)
    else: f, F = (lambda x: np.exp(np.minimum(A.dot(x), 30)) - 1), (lambda x: np.where(A.dot(x) < 30, np.exp(np.minimum(A.dot(x), 30)), 0)[:, None] * A)
    x0 = r.randn(m) * 10.0 ** r.uniform(-2, 1)
    if r.rand() < .1: x0 = np.zeros(m)
    T.note(kind=k, A=A, b=b, c=c, x0=x0); return f, F, x0, m

@case(60, funcs=['gauss_newton', 'linesearch_armijo'])
def gn(T):
    """Gauss-Newton: returned point no worse than the start, status describes the returned point, verbosity irrelevant"""
    f, F, x0, m = nls(T); r = T.rng; x00 = x0.copy(); mi = int(r.choice([1, 2, 5, 100])); tol = float(r.choice([1e-10, 1e-4, 1e-14])); tdx = float(r.choice([1e-12, 1e-3]))
    x, info = quiet(lambda: gauss_newton(f, F, x0, maxiter=mi, tol=tol, tol_normdx=tdx)); T.close(x0, x00, 'starting point untouched', 0, 0)
    n0, n1 = np.linalg.norm(f(x0)), np.linalg.norm(f(x))
    T.ok(np.all(np.isfinite(x)) and n1 <= n0, 'residual not increased', start=n0, end=n1)
    T.ok(info in (0, 1, 2, 3), 'status', info=info)
    g0, g1 = np.linalg.norm(F(x0).T.dot(f(x0))), np.linalg.norm(F(x).T.dot(f(x))); tt = max(tol * g0, 1e-14)
    if info == 0: T.ok(g1 <= tt * (1 + 1e-6) + 1e-300, 'status 0 only when the gradient at the returned point is below the tolerance', g=g1, tol=tt)
    else: T.ok(g1 > tt * (1 - 1e-6), 'status 0 reported when the gradient at the returned point is below the tolerance', g=g1, tol=tt, info=info)
    x2, info2 = quiet(lambda: gauss_newton(f, F, x0, maxiter=mi, tol=tol, tol_normdx=tdx, verbose=1))
    T.ok(np.array_equal(x, x2) and info == info2, 'result does not depend on verbosity', x=x, x2=x2, info=(info, info2))
    x3, i3 = gauss_newton(f, F, x0, maxiter=0); T.ok(np.array_equal(x3, x0), 'no iterations: starting point')

@case(40, funcs=['gauss_newton', 'linesearch_armijo'])
def gn_trajectory(T):
    """Gauss-Newton: every trial point comes from the supplied trajectory; solver and trajectory are used"""
    f, F, x0, m = nls(T); trials, evals = [], []
    def traj(x, p, t):
        y = x + t * p + .25 * t * t * np.linalg.norm(p) * np.sin(x)
        if T.rng.rand() < .05: raise BadStep
        trials.append(y); return y
    def ff(x): evals.append(np.array(x)); return f(x)
    x, info = quiet(lambda: gauss_newton(ff, F, x0, trajectory=traj, maxiter=20))
    T.ok(np.linalg.norm(f(x)) <= np.linalg.norm(f(x0)), 'residual not increased')
    for e in evals: T.ok(np.array_equal(e, x0) or any(np.array_equal(e, t) for t in trials), 'trial point not from the trajectory')
    T.ok(np.array_equal(x, x0) or any(np.array_equal(x, t) for t in trials), 'returned point from the trajectory')
    calls = []
    def solver(Fe, fe): calls.append(1); return -Fe.T.dot(fe), np.ones(1)
    x, info = quiet(lambda: gauss_newton(f, F, x0, gnsolver=solver, maxiter=5)); T.ok(len(calls) > 0, 'supplied solver used'); T.ok(np.linalg.norm(f(x)) <= np.linalg.norm(f(x0)), 'residual not increased')
    bad = lambda Fe, fe: (Fe.T.dot(fe), np.ones(1))      # an ascent direction is replaced by the negative gradient
    x, info = quiet(lambda: gauss_newton(f, F, x0, gnsolver=bad, maxiter=5)); T.ok(np.linalg.norm(f(x)) <= np.linalg.norm(f(x0)), 'residual not increased with an ascent direction')
    T.raises(RuntimeError, lambda: quiet(lambda: gauss_newton(f, F, x0, gnsolver=lambda a, b: (np.full(m, np.nan), np.ones(1)), maxiter=3)), 'non-finite direction')

@case(60, funcs=['linesearch_armijo'])
def armijo(T):
    """line search: accepted step satisfies the sufficient decrease test and is the first that does; otherwise the start is returned"""
    f, F, x0, m = nls(T); r = T.rng; fx = f(x0); g = F(x0).T.dot(fx); p = -g * 10.0 ** r.uniform(-4, 3); bt = float(r.choice([.5, .1, .9])); ftol = float(r.choice([1e-4, .1, .9])); mi = int(r.choice([1, 5, 40]))
    if r.rand() < .1: p = 0 * p
    bad = int(r.randint(0, 3)) if r.rand() < .5 else -1; cnt = [0]
    def traj(x, q, t):
        cnt[0] += 1
        if cnt[0] - 1 == bad: raise BadStep
        return x + t * q
    kw = dict(fx0=fx) if r.rand() < .5 else {}
    T.note(p=p, bt=bt, ftol=ftol, maxiter=mi, bad=bad)
    x, a, fe = linesearch_armijo(f, g, p, x0, bt_factor=bt, ftol=ftol, maxiter=mi, trajectory=traj, **kw)
    dg = g.dot(p); n0 = np.linalg.norm(fx); al = 1.; want = 0.
    for it in range(mi):
        if it != bad and np.linalg.norm(f(x0 + al * p)) < n0 + al * ftol * dg: want = al; break
        al *= bt
    T.ok(a == want, 'first step length passing the test', got=a, want=want)
    T.ok(np.array_equal(x, x0 + a * p) if a else np.array_equal(x, x0), 'returned point belongs to the returned step')
    T.ok(np.array_equal(np.atleast_1d(fe), np.atleast_1d(f(x))), 'returned residual belongs to the returned point')
    if np.linalg.norm(g) > 0: T.raises(AssertionError, lambda: linesearch_armijo(f, g, g, x0), 'ascent direction accepted')

class Fn(object):
    def __init__(self, f, g): self.f, self.g, self.log = f, g, []
    def __call__(self, x): self.log.append(np.array(x)); return self.f(x)
    def grad(self, x): return self.g(x)

def vec(T, m):
    r = T.rng; q = int(r.randint(1, 6)); A = r.randn(q, m); b = r.randn(q); k = int(r.randint(0, 4)); C = r.randn(q, m)
    T.note(q=q, A=A, b=b, kind=k, C=C)
    if k == 0: return q, (lambda x: A.dot(x) + b), (lambda x: A)
    if k == 1: return q, (lambda x: np.array([np.sum((x - c) ** 2) for c in C]) + b), (lambda x: 2 * (x - C))
    if k == 2: return q, (lambda x: np.sin(A.dot(x)) + b), (lambda x: np.cos(A.dot(x))[:, None] * A)
    return q, (lambda x: -np.array([np.sum((x - c) ** 2) for c in C]) + b), (lambda x: -2 * (x - C))

def spot(T, mmax=3):
    dom, s = domgen.make(T, kind=['box', 'linineq', 'linquad'][int(T.rng.randint(0, 3))], m=int(T.rng.randint(1, mmax + 1)), bounded=True, eq=T.rng.rand() < .3)
    x0 = np.asarray(dom.sample()).flatten()
    if not dom.isinside(x0): raise Skip
    return dom, s, x0

@case(25, limit=300, funcs=['minimax'])
def minimaxer(T):
    """minimax: returned point no worse than the start, inside the domain, from the trajectory"""
    dom, s, x0 = spot(T); m = len(x0); q, f, g = vec(T, m); r = T.rng; fn = Fn(f, g); tr = bool(r.rand() < .6); T.note(x0=x0, trust=tr); x00 = x0.copy()
    ca = float(r.choice([.01, .3])); steps = []
    def traj(x, p, t): y = x + t * p; steps.append((np.array(x), np.array(p), t, y)); return y
    try: x = quiet(lambda: minimax(fn, x0, domain=dom, trust_region=tr, c_armijo=ca, maxiter=int(r.choice([1, 3, 20])), trajectory=traj))
    except Exception as e: raise Skip
    T.close(x0, x00, 'starting point untouched', 0, 0)
    T.ok(np.max(f(x)) <= np.max(f(x0)), 'maximum not increased', start=np.max(f(x0)), end=np.max(f(x)))
    T.ok(s.inside(x, 1e-5 * (1 + np.abs(x).max())), 'returned point inside the domain', x=x, slack=s.slack(x))
    T.ok(np.array_equal(x, x0) or any(np.array_equal(x, t[3]) for t in steps), 'returned point from the trajectory')
    for e in fn.log: T.ok(np.array_equal(e, x0) or any(np.array_equal(e, t[3]) for t in steps), 'evaluation outside the trajectory')
    cur = x0                                                         # replay: every accepted point satisfies the decrease test of its step
    for i, (a, p, t, y) in enumerate(steps):
        T.ok(np.array_equal(a, cur), 'trial starts from the current iterate')
        nxt = steps[i + 1][0] if i + 1 < len(steps) else x
        if not np.array_equal(nxt, cur):
            G = np.atleast_2d(g(cur)); pt = np.max(f(cur) + G.dot(p)) - np.max(f(cur))
            T.ok(np.array_equal(nxt, y), 'accepted point is the trial point')
            T.ok(np.max(f(y)) <= np.max(f(cur)) + ca * t * pt + 1e-6 * (1 + abs(np.max(f(cur)))), 'accepted step satisfies the sufficient decrease test', got=np.max(f(y)), cur=np.max(f(cur)), pt=pt, t=t)
        cur = nxt

@case(10, limit=120, funcs=['minimax'])
def minimax_refuses(T):
    """minimax: a start outside the domain is refused; search constraints are respected"""
    dom, s, x0 = spot(T); m = len(x0); q, f, g = vec(T, m)
    T.raises(AssertionError, lambda: quiet(lambda: minimax(Fn(f, g), x0 + 1e6, domain=dom)), 'start outside the domain')
    a = T.rng.randn(m)
    try: x = quiet(lambda: minimax(Fn(f, g), x0, domain=dom, search_constraints=lambda x, p: [a @ p == 0], maxiter=3))
    except Exception: raise Skip
    T.ok(abs(a.dot(x - x0)) <= 1e-5 * (1 + np.abs(x - x0).max()) * np.linalg.norm(a) * 3, 'search constraints respected')

@case(25, limit=300, funcs=['sequential_lp'])
def slp(T):
    """sequential LP: returned point no worse than the start and inside the domain, constraints on the objective respected"""
    dom, s, x0 = spot(T); m = len(x0); q, f, g = vec(T, m); r = T.rng; norm = [1, 2, np.inf, 'hinge', None][int(r.randint(0, 5))]; x00 = x0.copy()
    if norm is None: f1, g1 = f, g; f, g = (lambda x: f1(x)[:1]), (lambda x: g1(x)[:1])
    obj = {1: lambda v: np.abs(v).sum(), 2: np.linalg.norm, np.inf: lambda v: np.abs(v).max(), 'hinge': lambda v: np.maximum(v, 0).sum(), None: lambda v: float(v[0])}[norm]
    steps = []
    def traj(x, p, t): y = x + t * p; steps.append(y); return y
    kw = {}
    if r.rand() < .3: kw['obj_lb'] = float(f(x0).min() - r.rand())
    if r.rand() < .3: kw['obj_ub'] = float(f(x0).max() + r.rand())
    T.note(norm=norm, x0=x0, kw=kw)
    aslist = norm is not None and r.rand() < .3
    fa, ga = (f, g) if not aslist else ([lambda x, i=i: f(x)[i] for i in range(len(f(x0)))], [lambda x, i=i: g(x)[i] for i in range(len(f(x0)))])
    try: x = quiet(lambda: sequential_lp(fa, x0, ga, norm=norm, domain=dom, trajectory=traj, maxiter=int(r.choice([1, 3, 10])), bt_maxiter=12, **kw))
    except Exception as e:
        if type(e).__name__ in ('SolverError', 'DCPError'): raise Skip
        raise
    T.close(x0, x00, 'starting point untouched', 0, 0)
    T.ok(obj(f(x)) <= obj(f(x0)), 'objective not increased', start=obj(f(x0)), end=obj(f(x)))
    T.ok(s.inside(x, 1e-5 * (1 + np.abs(x).max())), 'returned point inside the domain', x=x, slack=s.slack(x))
    T.ok(np.array_equal(x, x0) or any(np.array_equal(x, t) for t in steps), 'returned point from the trajectory')
    if 'obj_lb' in kw: T.ok(np.all(f(x) >= kw['obj_lb'] - 1e-8), 'lower bound on the functions respected')
    if 'obj_ub' in kw: T.ok(np.all(f(x) <= kw['obj_ub'] + 1e-8), 'upper bound on the functions respected')
