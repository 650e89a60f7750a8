from core import *
import psdr.demos as D
import sys, psdr
BH, PO = sys.modules['psdr.demos.borehole'], sys.modules['psdr.demos.polynomial']
import cmath
sq, co, si, lg = np.emath.sqrt, np.cos, np.sin, np.log

# independent formulas, written for complex arguments (the complex step gives their derivatives to rounding)
def otl(b1, b2, f, c1, c2, be):
    V = 12 * b2 / (b1 + b2); d = be * (c2 + 9) + f
    return (V + .74) * be * (c2 + 9) / d + 11.35 * f / d + .74 * f * be * (c2 + 9) / (d * c1)
def borehole(rw, r, Tu, Hu, Tl, Hl, L, Kw):
    q = lg(r / rw); return 2 * np.pi * Tu * (Hu - Hl) / (q * (1 + 2 * L * Tu / (q * rw ** 2 * Kw) + Tu / Tl))
def piston(M, S, V0, k, P0, Ta, T0):
    A = P0 * S + 19.62 * M - k * V0 / S; V = S / (2 * k) * (sq(A * A + 4 * k * P0 * V0 / T0 * Ta) - A)
    return 2 * np.pi * sq(M / (k + S ** 2 * P0 * V0 / T0 * Ta / V ** 2))
def robot(a, b, c, d, L1, L2, L3, L4):
    s = [a, a + b, a + b + c, a + b + c + d]; L = [L1, L2, L3, L4]
    u, v = sum(l * co(t) for l, t in zip(L, s)), sum(l * si(t) for l, t in zip(L, s)); return sq(u * u + v * v)
def wing(Sw, Wfw, A, Lam, q, lam, tc, Nz, Wdg, Wp):
    c = co(Lam * np.pi / 180)
    return .036 * Sw ** .758 * Wfw ** .0035 * (A / c ** 2) ** .6 * q ** .006 * lam ** .04 * (100 * tc / c) ** -.3 * (Nz * Wdg) ** .49 + Sw * Wp
GOL = [lambda a, b, d, e, f, g: .7854 * a * b ** 2 * (3.3333 * 289 + 14.9334 * 17 - 43.0934) - 1.5079 * a * (f ** 2 + g ** 2) + 7.477 * (f ** 3 + g ** 3) + .7854 * (d * f ** 2 + e * g ** 2),
    lambda a, b, d, e, f, g: 27 / (a * b ** 2 * 17) - 1, lambda a, b, d, e, f, g: 397.5 / (a * b ** 2 * 289) - 1,
    lambda a, b, d, e, f, g: 1.93 * d ** 3 / (b * 17 * f ** 4) - 1, lambda a, b, d, e, f, g: 1.93 * e ** 3 / (b * 17 * g ** 4) - 1,
    lambda a, b, d, e, f, g: sq((745 * d / (b * 17)) ** 2 + 16.9e6) / (110 * f ** 3) - 1, lambda a, b, d, e, f, g: sq((745 * e / (b * 17)) ** 2 + 157.5e6) / (85 * g ** 3) - 1,
    lambda a, b, d, e, f, g: b * 17 / 40 - 1, lambda a, b, d, e, f, g: 5 * b / a - 1, lambda a, b, d, e, f, g: a / (12 * b) - 1,
    lambda a, b, d, e, f, g: (1.5 * f + 1.9) / d - 1, lambda a, b, d, e, f, g: (1.1 * g + 1.9) / e - 1]
HAR = [lambda mu, dp, eta, B: -dp * eta / B ** 2 * (1 - B / sq(eta * mu) / np.tanh(B / sq(eta * mu))),
    lambda mu, dp, eta, B: dp / (2 * B) * (1 - 2 * sq(eta * mu) / B * np.tanh(B / (2 * sq(eta * mu))))]
F, L, E, nu, G = 5e3, 1.5, 216.62e9, .27, 86.65e9
BEA = [lambda b, h: b * h, lambda b, h: 6 * F * L / (b * h ** 2), lambda b, h: F * L ** 3 / (3 * E * b * h ** 3 / 12), lambda b, h: 6 * F * L / (b * h ** 2), lambda b, h: 3 * F / (2 * b * h),
    lambda b, h: h / b, lambda b, h: 4 / L ** 2 * sq(G * (b ** 3 * h + b * h ** 3) / 12 * E * (b ** 3 * h / 12) / (1 - nu))]
R = {'otl': (D.OTLCircuit, [otl], [50, 25, .5, 1.2, .25, 50], [150, 70, 3, 2.5, 1.2, 300]),
    'borehole': (D.Borehole, [borehole], [.05, 100, 63070, 990, 63.1, 700, 1120, 9855], [.15, 5e4, 115600, 1110, 116, 820, 1680, 12045]),
    'piston': (D.Piston, [piston], [30, .005, .002, 1000, 9e4, 290, 340], [60, .02, .01, 5000, 11e4, 296, 360]),
    'robot': (D.RobotArm, [robot], [0] * 8, [2 * np.pi] * 4 + [1] * 4),
    'wing': (D.WingWeight, [wing], [150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025], [200, 300, 10, 10, 45, 1, .18, 6, 2500, .08]),
    'golinski': (D.GolinskiGearbox, GOL, [2.6, .7, 7.3, 7.3, 2.9, 5], [3.6, .8, 8.3, 8.3, 3.9, 5.5]),
    'hartmann': (D.HartmannMHD, HAR, [.05, .5, .5, .1], [.2, 3, 3, 1]), 'beam': (D.NowackiBeam, BEA, [.005, .02], [.05, .25])}

def cgrad(f, x):
    g = np.zeros(len(x))
    for k in range(len(x)):
        z = x.astype(complex); h = 1e-20 * max(abs(x[k]), 1e-3); z[k] += 1j * h; g[k] = np.imag(f(*z)) / h
    return g

def run(T, name):
    r = T.rng; cls, fs, lb, ub = R[name]; f = cls(); m = len(lb); lb, ub = np.array(lb, float), np.array(ub, float)
    T.close(f.domain_app.lb, lb, 'lower ranges', 1e-12); T.close(f.domain_app.ub, ub, 'upper ranges', 1e-12)
    M = int(r.randint(1, 5)); Z = r.uniform(-1, 1, (M, m))
    if r.rand() < .3: Z = np.where(r.rand(M, m) < .4, np.sign(Z), Z)       # corners and edges of the domain
    X = lb + (Z + 1) / 2 * (ub - lb); T.note(demo=name, X=X)
    if name == 'robot':
        u = np.array([robot(*x) for x in X])
        if np.min(np.abs(u)) < 1e-3: return
    V = np.array([[np.real(g(*x)) for g in fs] for x in X]); Gr = np.array([[cgrad(g, x) for g in fs] for x in X])
    sc = np.array([(ub - lb) / 2.])
    Gn = Gr * sc
    if name == 'borehole': pass
    v = f(Z); g = f.grad(Z)
    T.close(np.asarray(v).reshape(M, -1), V, 'values', 1e-9, 1e-9 * (1e-3 + np.abs(V).max()))
    T.close(np.asarray(g).reshape(M, len(fs), m), Gn, 'gradients', 1e-6, 1e-8 * np.abs(Gn).max(axis=(0, 2)).min())
    v1, g1 = f(Z[0]), f.grad(Z[0])
    T.close(np.asarray(v1).ravel(), V[0], 'value at one point', 1e-9, 1e-9 * (1e-3 + np.abs(V).max())); T.close(np.asarray(g1).reshape(len(fs), m), Gn[0], 'gradient at one point', 1e-6, 1e-8 * np.abs(Gn).max(axis=(0, 2)).min())
    v2, g2 = f(Z, return_grad=True); T.close(np.asarray(g2).reshape(M, len(fs), m), np.asarray(g).reshape(M, len(fs), m), 'joint gradient', 1e-12)
for _n in R:
    def _c(T, n=_n): run(T, n)
    _c.__name__ = _n; _c.__doc__ = 'values and gradients of the %s demo against the published formula' % _n
    case(25, funcs=['psdr.demos.' + _n])(_c)

@case(60, funcs=['AffineFunction', 'QuadraticFunction'])
def polynomial(T):
    """affine and quadratic demo functions: any matrix, any domain"""
    r = T.rng; m = int(r.randint(1, 6)); Q = r.randn(m, m); l = r.randn(m); c = r.randn()
    if r.rand() < .3: Q = Q + Q.T
    lb = r.randn(m); ub = lb + r.uniform(.5, 3, m); dom = psdr.BoxDomain(lb, ub) if r.rand() < .7 else None
    if dom is None: lb, ub = -np.ones(m), np.ones(m)
    Z = r.uniform(-1, 1, (int(r.randint(1, 5)), m)); X = lb + (Z + 1) / 2 * (ub - lb); sc = (ub - lb) / 2
    T.note(Q=Q, l=l, c=c, X=X)
    f = PO.QuadraticFunction(quad=Q, linear=l, constant=c, domain=dom)
    T.close(np.ravel(f(Z)), np.array([x.dot(Q).dot(x) + l.dot(x) + c for x in X]), 'quadratic value', 1e-9, 1e-9); T.close(np.asarray(f.grad(Z)).reshape(len(Z), m), np.array([(Q + Q.T).dot(x) + l for x in X]) * sc, 'quadratic gradient', 1e-9, 1e-9)
    T.close(np.ravel(f(Z[0])), np.ravel(f(Z)[0]), 'one point', 1e-12, 1e-12); T.close(np.ravel(f.grad(Z[0])), np.ravel(f.grad(Z)[0]), 'gradient at one point', 1e-9, 1e-9)
    a = PO.AffineFunction(linear=l, constant=c, domain=dom)
    T.close(np.ravel(a(Z)), X.dot(l) + c, 'affine value', 1e-9, 1e-9); T.close(np.asarray(a.grad(Z)).reshape(len(Z), m), np.tile(l * sc, (len(Z), 1)), 'affine gradient', 1e-9, 1e-9)
    T.close(np.ravel(a(Z[0])), np.ravel(a(Z)[0]), 'one point', 1e-12, 1e-12); T.close(np.ravel(a.grad(Z[0])), np.ravel(a.grad(Z)[0]), 'gradient at one point', 1e-9, 1e-9)

@case(10, funcs=['build_borehole_uncertain_domain', 'Borehole'])
def borehole_uncertain(T):
    """the uncertain borehole domain has the stated distributions and the same formula"""
    d = BH.build_borehole_uncertain_domain(); T.ok(len(d) == 8, 'eight variables'); r = T.rng
    ls = d.domains; T.close(ls[0].mean, [.1], 'mean r_w'); T.close(ls[0].cov, [[.0161812 ** 2]], 'variance r_w', 1e-9); T.close(np.ravel(ls[1].mean), [7.71], 'mean log r'); T.close(np.ravel(ls[1].cov), [1.0056 ** 2], 'var log r', 1e-9)
    for k, (a, b) in zip(range(2, 8), [(63070, 115600), (990, 1110), (63.1, 116), (700, 820), (1120, 1680), (9855, 12045)]): T.close([ls[k].lb[0], ls[k].ub[0]], [a, b], 'range')
    f = D.Borehole(domain='uncertain'); X = d.sample(4)
    if np.any(X[:, 0] < .02) or np.any(X[:, 1] < 1): return
    Z = f.domain_app.normalize(X); T.close(np.ravel(f(Z)), [borehole(*x) for x in X], 'value', 1e-8)
