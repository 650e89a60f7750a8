from core import *
import psdr, itertools
import domgen
from psdr.quadrature import gauss

@case(40, funcs=['gauss'])
def rule1d(T):
    """n-node rule: nodes inside, positive weights, exact for degree up to 2n-1"""
    r = T.rng; n = int(r.randint(1, 25)); a = r.randn() * 10.0 ** r.uniform(-2, 2); b = a + r.rand() * 10.0 ** r.uniform(-2, 2)
    if r.rand() < .2: a, b = 0., 1.
    T.note(n=n, a=a, b=b); x, w = gauss(n, a, b) if (a, b) != (0., 1.) else gauss(n)
    T.ok(x.shape == (n,) and w.shape == (n,), 'n nodes and weights'); T.ok(np.all((x > a) & (x < b)), 'nodes inside the interval'); T.ok(np.all(w > 0), 'weights positive')
    T.ok(np.all(np.diff(x) > 0), 'nodes distinct and increasing')
    T.close(np.sum(w), b - a, 'weights sum to the length', 1e-10, 0)
    xr, wr = np.polynomial.legendre.leggauss(n); t = (2 * x - a - b) / (b - a)
    for d in range(2 * n):
        P = np.polynomial.legendre.legval(t, [0] * d + [1]); T.close(np.sum(w * P) / (b - a), 1. if d == 0 else 0., 'Legendre polynomial of degree %d integrated exactly' % d, 1e-8, 1e-9 * (1 + np.abs(np.array([a, b])).max() / (b - a)) * (1 + d))
    xf, wf = gauss(float(n), a, b); T.close(xf, x, 'integer given as float', 1e-12, 1e-12)

@case(25, funcs=['EuclideanDomain.quadrature_rule'])
def box(T):
    """tensor rule on a box: exact for products of polynomials, at most N nodes, all inside"""
    r = T.rng; m = int(r.randint(1, 5)); lb = r.randn(m); ub = lb + r.rand(m) * 10.0 ** r.uniform(-1, 1) + .05; dom = psdr.BoxDomain(lb, ub) if r.rand() < .7 else psdr.UniformDomain(lb, ub)
    N = int(r.randint(2 ** m, 4 ** m + 40)) if r.rand() < .7 else int(r.choice([4, 5, 6]) ** m); T.note(lb=lb, ub=ub, N=N)
    X, w = dom.quadrature_rule(N) if r.rand() < .7 else dom.quadrature_rule(N, method='gauss')
    T.ok(X.ndim == 2 and X.shape[1] == m and w.shape == (len(X),), 'shapes'); T.ok(len(X) <= N, 'at most N nodes', got=len(X)); T.ok(np.all(dom.isinside(X)), 'nodes inside'); T.ok(np.all(w > 0), 'weights positive')
    q = 1
    while (q + 1) ** m <= N: q += 1
    q = q if q ** m == len(X) else int(round(len(X) ** (1. / m)))
    T.ok(q ** m == len(X), 'tensor of equal rules')
    T.ok(len(X) >= max(1, (int(np.floor(N ** (1. / m) + 1e-9)) - 1) ** m), 'uses the points allowed', got=len(X))
    t = (2 * X - lb - ub) / (ub - lb); V = np.prod(ub - lb)
    for _ in range(12):
        d = r.randint(0, 2 * q, size=m)
        if r.rand() < .3: d = d * 0; d[int(r.randint(0, m))] = int(r.randint(0, 2 * q))
        P = np.prod([np.polynomial.legendre.legval(t[:, i], [0] * d[i] + [1]) for i in range(m)], axis=0)
        T.close(np.sum(w * P) / V, 1. if not d.any() else 0., 'product of Legendre polynomials integrated exactly', 1e-8, 1e-8, )

@case(25, limit=300, funcs=['EuclideanDomain.quadrature_rule', 'EuclideanDomain.volume'])
def general(T):
    """other domains: nodes inside, nonnegative weights, at most N nodes"""
    kinds = ['box', 'linineq', 'linquad', 'hull', 'point', 'uniform']
    dom, s = domgen.make(T, kind=(kinds + ['tensor'])[int(T.rng.randint(0, 7))], bounded=True, eq=T.rng.rand() < .2, kinds=kinds)
    m = len(dom)
    if m > 3: raise Skip
    N = int(T.rng.randint(1, 60)); meth = ['auto', 'gauss', 'montecarlo'][int(T.rng.randint(0, 3))]; T.note(N=N, method=meth)
    X, w = dom.quadrature_rule(N, method=meth)
    T.ok(X.ndim == 2 and X.shape[1] == m, 'nodes are rows', got=X.shape); T.ok(w.shape == (len(X),), 'one weight per node', got=w.shape)
    T.ok(len(X) <= N or dom.is_point, 'at most N nodes', got=len(X)); T.ok(np.all(w >= 0) and np.all(np.isfinite(w)), 'weights nonnegative')
    if len(X): T.ok(np.all(dom.isinside(X)), 'nodes inside')
    for x in X: T.ok(s.inside(x, 1e-5 * (1 + np.abs(x).max())), 'nodes inside the set', x=x)

@case(25, limit=120, funcs=['EuclideanDomain.quadrature_rule', 'EuclideanDomain.volume'])
def montecarlo(T):
    """Monte Carlo rule: equal weights summing to the volume"""
    r = T.rng; m = int(r.randint(1, 5)); lb = r.randn(m); ub = lb + r.rand(m) + .1; dom = psdr.BoxDomain(lb, ub); N = int(r.randint(1, 50)); T.note(lb=lb, ub=ub, N=N)
    T.close(dom.volume(), np.prod(ub - lb), 'volume of a box', 1e-12, 0)
    X, w = dom.quadrature_rule(N, method='montecarlo'); T.ok(X.shape == (N, m) and w.shape == (N,), 'N nodes', got=(X.shape, w.shape)); T.ok(np.all(w == w[0]), 'equal weights'); T.close(np.sum(w), np.prod(ub - lb), 'total weight is the volume', 1e-10, 0); T.ok(np.all(dom.isinside(X)), 'nodes inside')
    if 2 ** m > 2:                                          # too few points for two per axis
        X, w = dom.quadrature_rule(2 ** m - 1); T.ok(X.shape == (2 ** m - 1, m), 'Monte Carlo with fewer than two points per axis'); T.close(np.sum(w), np.prod(ub - lb), 'total weight is the volume', 1e-10, 0)

@case(12, limit=240, funcs=['EuclideanDomain.volume', 'EuclideanDomain.quadrature_rule'])
def volumes(T):
    """volume of a halved or ball domain within sampling error; point domains have a single node"""
    r = T.rng; m = int(r.randint(1, 4)); lb = r.randn(m); ub = lb + r.rand(m) + .5; c = (lb + ub) / 2; a = r.randn(m)
    np.random.seed(T.seed % 2 ** 31)
    dom = psdr.LinIneqDomain(A=a.reshape(1, -1), b=[a.dot(c)], lb=lb, ub=ub); V = np.prod(ub - lb) / 2; T.note(lb=lb, ub=ub, a=a)
    nv = np.prod(np.asarray(dom.norm_ub) - np.asarray(dom.norm_lb)); p = V / nv
    T.ok(abs(dom.volume() - V) <= 8 * nv * np.sqrt(p * (1 - p) / 1e4) + 1e-9, 'volume of half a box', got=dom.volume(), want=V)
    rho = r.rand() * .4 + .1; ball = psdr.LinQuadDomain(lb=c - 1, ub=c + 1, Ls=[np.eye(m)], ys=[c], rhos=[rho]); V = {1: 2 * rho, 2: np.pi * rho ** 2, 3: 4 / 3 * np.pi * rho ** 3}[m]
    nv = np.prod(np.asarray(ball.norm_ub) - np.asarray(ball.norm_lb)); p = min(V / nv, 1)
    T.ok(abs(ball.volume() - V) <= 8 * nv * np.sqrt(p * (1 - p) / 1e4) + 1e-6 * nv, 'volume of a ball', got=ball.volume(), want=V)
    x, w = dom.quadrature_rule(4 ** m, method='montecarlo'); T.close(w.sum(), dom.volume(), 'total weight is the reported volume', 1e-9, 0)
    pt = psdr.PointDomain(c); X, w = pt.quadrature_rule(5); T.close(X, c.reshape(1, -1), 'single node', 1e-12, 1e-12); T.close(w, np.ones(1), 'unit weight', 0, 0)
