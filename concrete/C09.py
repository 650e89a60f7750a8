from core import *
import psdr
from domgen import *
from scipy import stats, integrate

def ref_pdf(s, x):
    """independent density (scipy.stats) of the random domain at one point"""
    x = np.asarray(x, float)
    if s.kind == 'uniform': return float(np.all((x >= s.lb) & (x <= s.ub))) / np.prod(s.ub - s.lb)
    if s.kind.startswith('normal'):
        p = stats.multivariate_normal(s.mean, s.cov).pdf(x)
        if s.truncate is None: return p
        d = x - s.mean
        return p / (1 - s.truncate) * float(d.dot(np.linalg.solve(s.cov, d)) <= stats.chi2.isf(s.truncate, s.m))
    mu, cov, off, sc, tr = s.par
    p = stats.lognorm(np.sqrt(cov), loc=off, scale=sc * np.exp(mu)).pdf(x[0])
    if tr is not None: p = p / (1 - tr) * float(s.lb[0] <= x[0] <= s.ub[0])
    return p

@case(80, funcs=['UniformDomain._pdf', 'NormalDomain._pdf', 'RandomDomain.pdf'])
def density(T):
    """pdf is the stated density at points inside, outside and near the boundary; batch agrees with single"""
    r = T.rng
    kind = r.choice(['uniform', 'normal', 'normal_trunc'])
    d, s = make(T, kind)
    X = near(T, s, 12)
    X = np.array([x for x in X if abs(s.slack(x)) > 1e-5 or kind == 'normal'])
    if len(X) == 0: raise Skip('all on the boundary')
    p = d.pdf(X)
    T.close(p, [ref_pdf(s, x) for x in X], 'pdf', rtol=1e-6, atol=1e-300)
    T.close(d.pdf(X[0]), p[:1], 'pdf of a single point', rtol=1e-12)
    T.ok(np.all(p >= 0), 'nonnegative')

@case(30, funcs=['LogNormalDomain._pdf'])
def density_lognormal(T):
    """log-normal density: stated density (up to the constant 1/scaling, see known findings), zero outside the support"""
    r = T.rng
    d, s = make(T, r.choice(['lognormal', 'lognormal_trunc']))
    mu, cov, off, sc, tr = s.par
    x = off + sc * np.exp(mu + np.sqrt(cov) * r.randn(8) * 1.5)
    x = np.r_[x, off - r.rand(3)].reshape(-1, 1)
    x = x[[abs(s.slack(z)) > 1e-5 for z in x]]
    p = d.pdf(x)
    T.close(p, [sc * ref_pdf(s, z) for z in x], 'pdf*scaling', rtol=1e-6, atol=1e-300)
    T.ok(np.all(p >= 0), 'nonnegative')

@case(6, funcs=['LogNormalDomain._pdf'])
def lognormal_scaling(T):
    """log-normal density integrates to one also when scaled"""
    r = T.rng
    sc = r.uniform(1.5, 3); d = psdr.LogNormalDomain(0.1, 0.4, offset=r.randn(), scaling=sc); T.note(scaling=sc)
    f = lambda y: float(d.pdf(np.array([[d.offset + sc * np.exp(y)]]))) * sc * np.exp(y)
    I = integrate.quad(f, -8, 8)[0]
    T.ok(abs(I - 1) < 1e-6 or abs(I - sc) < 1e-6, 'integral of the scaled density is %r' % I)
    T.ok(abs(I - 1) < 1e-6, 'density of a scaled log-normal integrates to the scaling (factor 1/scaling missing)')

@case(20, funcs=['NormalDomain._pdf'])
def unit_mass(T):
    """one-dimensional densities integrate to one"""
    r = T.rng
    kind = r.choice(['uniform', 'normal', 'normal_trunc'])
    d, s = make(T, kind, m=1)
    if kind == 'uniform': a, b = s.lb[0], s.ub[0]
    else:
        w = np.sqrt(s.cov[0, 0]) * (10 if s.truncate is None else np.sqrt(stats.chi2.isf(s.truncate, 1)))
        a, b = s.mean[0] - w, s.mean[0] + w
    e = 1e-9 * (b - a)
    T.close(integrate.quad(lambda t: float(d.pdf(np.array([[t]]))), a + e, b - e, limit=200)[0], 1., 'integral of %s' % kind, rtol=1e-5)

@case(20, funcs=['NormalDomain.__init__'])
def truncation_ball(T):
    """the truncated normal holds exactly the ball of probability 1 - truncate in the covariance metric; the full normal everything"""
    r = T.rng; m = int(r.choice([1, 2, 3]))
    d, s = make(T, 'normal_trunc', m)
    rad = np.sqrt(stats.chi2.isf(s.truncate, m)); C = np.linalg.cholesky(s.cov)
    for _ in range(12):
        u = r.randn(m); u /= np.linalg.norm(u)
        f = 1 + r.choice([-1, 1]) * r.choice([1e-3, 1e-1, .9])
        T.ok(bool(d.isinside(s.mean + rad * f * C.dot(u))) == (f < 1), 'inside iff within the ball (factor %g)' % f)
    T.ok(psdr.NormalDomain(s.mean, s.cov).isinside(s.mean + 1e6 * r.randn(m)), 'full normal is unbounded')
    T.close(d.center if hasattr(d, 'center') and not callable(d.center) else d._center(), s.mean, 'center')

@case(10, limit=240, funcs=['NormalDomain._sample', 'LogNormalDomain._sample'])
def sample_distribution(T):
    """samples have the stated distribution (Kolmogorov-Smirnov along a random direction, mean, covariance, support)"""
    r = T.rng
    kind = r.choice(['uniform', 'normal', 'normal_trunc', 'lognormal', 'lognormal_trunc'])
    d, s = make(T, kind)
    N = 4000; X = d.sample(N)
    s.points = []
    T.ok(max(s.slack(x) for x in X) <= 1e-5, 'support')
    if kind == 'uniform':
        for j in range(s.m): T.ok(stats.kstest(X[:, j], stats.uniform(s.lb[j], s.ub[j] - s.lb[j]).cdf).pvalue > 1e-9, 'uniform marginal %d' % j)
        if s.m > 1: T.ok(np.max(np.abs(np.corrcoef(X.T) - np.eye(s.m))) < .12, 'independent coordinates')
    elif kind.startswith('normal'):
        Z = np.linalg.solve(np.linalg.cholesky(s.cov), (X - s.mean).T)
        if s.truncate is None:
            u = r.randn(s.m); u /= np.linalg.norm(u)
            T.ok(stats.kstest(u.dot(Z), 'norm').pvalue > 1e-9, 'standard normal along a direction')
        q = np.sum(Z ** 2, axis=0); c = stats.chi2(s.m); tr = s.truncate or 0.
        T.ok(stats.kstest(c.cdf(q) / (1 - tr), 'uniform').pvalue > 1e-9, 'Mahalanobis distances are (truncated) chi')
        T.ok(np.max(np.abs(np.mean(Z, axis=1))) < .12, 'mean')
        if s.m > 1: T.ok(np.max(np.abs(np.corrcoef(Z) - np.eye(s.m))) < .12, 'covariance')
    else:
        mu, cov, off, sc, tr = s.par
        c = stats.lognorm(np.sqrt(cov), loc=off, scale=sc * np.exp(mu)).cdf
        lo, hi = (c(s.lb[0]), c(s.ub[0])) if tr else (0., 1.)
        T.ok(stats.kstest((c(X[:, 0]) - lo) / (hi - lo), 'uniform').pvalue > 1e-9, 'log-normal distribution')
