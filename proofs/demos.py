"""C13: demonstration functions.  The gradient code, executed symbolically at an arbitrary row of an arbitrary batch, equals the
structural derivative of the symbolically executed function; the function equals the published formula.  Decided by normal forms
of elementary expressions (pv/alg.py), at every point where the expressions are defined."""
from .ext import *
from pv.alg import Tower
DEM = 'psdr.demos.'

class Calc(object):
    def __init__(self, v, n):
        self.v, self.n = v, n
        s.DEFINED[0] = True
        self.M = v.int('M'); self.X = v.arr('X', self.M, n)
        self.i = v.fresh([self.M])[0]
        self.vars = ['x%d' % k for k in range(n)]
        self.T = Tower(self.vars)
        ids = {self.X.at(self.i, k).e.get_id(): 'x%d' % k for k in range(n)}
        self.leaf = lambda e: ids.get(e.get_id())
        self.x = [self.T.gen(k) for k in range(n)]
    def term(self, a):
        a = S(a)
        if not a.plain: raise Unsupported('value may be undefined')
        return self.T.conv(s.R(a.e), self.leaf)

class E(object):
    """published formulas are written with operators over the same normal forms"""
    def __init__(self, T, d): self.T, self.d = T, d
    def w(self, o): return o.d if isinstance(o, E) else self.T.const(Fraction(repr(o)) if isinstance(o, float) else Fraction(o))
    def __add__(self, o): return E(self.T, self.T.add(self.d, self.w(o)))
    __radd__ = __add__
    def __sub__(self, o): return E(self.T, self.T.sub(self.d, self.w(o)))
    def __rsub__(self, o): return E(self.T, self.T.sub(self.w(o), self.d))
    def __mul__(self, o): return E(self.T, self.T.mul(self.d, self.w(o)))
    __rmul__ = __mul__
    def __truediv__(self, o): return E(self.T, self.T.div(self.d, self.w(o)))
    def __rtruediv__(self, o): return E(self.T, self.T.div(self.w(o), self.d))
    def __neg__(self): return E(self.T, self.T.scale(self.d, self.T.F(-1)))
    def __pow__(self, p):
        if isinstance(p, int): return E(self.T, self.T.ipow(self.d, p))
        return E(self.T, self.T.pw(self.d, Fraction(repr(p))))
    def f(self, n): return E(self.T, self.T.sqrt(self.d) if n == 'sqrt' else self.T.fn(n, self.d))
sqrt, log, cos, sin, tanh = (lambda n: lambda e: e.f(n))('sqrt'), (lambda n: lambda e: e.f(n))('log'), (lambda n: lambda e: e.f(n))('cos'), (lambda n: lambda e: e.f(n))('sin'), (lambda n: lambda e: e.f(n))('tanh')

def check(v, n, fun, grad, formula, single=True):
    c = Calc(v, n); T = c.T
    f = v.fcall(DEM + fun, c.X)
    if not v.shape('one value per point', f, c.M): return
    F = c.term(f.at(c.i))
    pi = E(T, T.kernel('pi', 0))
    v.ob('published formula', T.close(F, formula(pi, *[E(T, x) for x in c.x]).d))
    if grad is None: return
    g = v.fcall(DEM + grad, c.X)
    if not v.shape('one row per point, one column per variable', g, c.M, n): return
    for k in range(n):
        v.ob('derivative in variable %d' % k, T.close(c.term(g.at(c.i, k)), T.diff(F, k)))

def demo(name, n, fun, grad, formula):
    def t(v): check(v, n, fun, grad, formula)
    t.__name__ = 'demo_' + name; t.__doc__ = 'published formula and exact gradient of ' + name
    target('C13', DEM + fun, *([DEM + grad] if grad else []))(t)

def f_otl(pi, Rb1, Rb2, Rf, Rc1, Rc2, beta):
    Vb1 = 12 * Rb2 / (Rb1 + Rb2); D = beta * (Rc2 + 9) + Rf
    return (Vb1 + 0.74) * beta * (Rc2 + 9) / D + 11.35 * Rf / D + 0.74 * Rf * beta * (Rc2 + 9) / (D * Rc1)
demo('otl', 6, 'otl_circuit:otl_circuit', 'otl_circuit:otl_circuit_grad', f_otl)

def f_borehole(pi, rw, r, Tu, Hu, Tl, Hl, L, Kw):
    q = log(r / rw)
    return 2 * pi * Tu * (Hu - Hl) / (q * (1 + 2 * L * Tu / (q * rw ** 2 * Kw) + Tu / Tl))
demo('borehole', 8, 'borehole:borehole', 'borehole:borehole_grad', f_borehole)

def f_piston(pi, M, S_, V0, k, P0, Ta, T0):
    A_ = P0 * S_ + 19.62 * M - k * V0 / S_
    V = S_ / (2 * k) * (sqrt(A_ * A_ + 4 * k * P0 * V0 / T0 * Ta) - A_)
    return 2 * pi * sqrt(M / (k + S_ ** 2 * P0 * V0 / T0 * Ta / V ** 2))
demo('piston', 7, 'piston:piston', 'piston:piston_grad', f_piston)

def f_robot(pi, t1, t2, t3, t4, L1, L2, L3, L4):
    u = L1 * cos(t1) + L2 * cos(t1 + t2) + L3 * cos(t1 + t2 + t3) + L4 * cos(t1 + t2 + t3 + t4)
    w = L1 * sin(t1) + L2 * sin(t1 + t2) + L3 * sin(t1 + t2 + t3) + L4 * sin(t1 + t2 + t3 + t4)
    return sqrt(u * u + w * w)
demo('robot_arm', 8, 'robot_arm:robot_arm', 'robot_arm:robot_arm_grad', f_robot)

def f_wing(pi, Sw, Wfw, A_, Lam, q, lam, tc, Nz, Wdg, Wp):
    c = cos(Lam * pi / 180)
    return 0.036 * Sw ** 0.758 * Wfw ** 0.0035 * (A_ / (c * c)) ** 0.6 * q ** 0.006 * lam ** 0.04 * (100 * tc / c) ** -0.3 * (Nz * Wdg) ** 0.49 + Sw * Wp
demo('wing_weight', 10, 'wing_weight:wing_weight', 'wing_weight:wing_weight_grad', f_wing)

G17 = 17
GOL = {
 'volume': lambda pi, x1, x2, x4, x5, x6, x7: 0.7854 * x1 * x2 ** 2 * Fraction(repr(3.3333)) * 289 + 0.7854 * x1 * x2 ** 2 * (Fraction(repr(14.9334)) * 17 - Fraction(repr(43.0934))) - 1.5079 * x1 * (x6 ** 2 + x7 ** 2) + 7.477 * (x6 ** 3 + x7 ** 3) + 0.7854 * (x4 * x6 ** 2 + x5 * x7 ** 2),
 'constraint1': lambda pi, x1, x2, x4, x5, x6, x7: 27 / (x1 * x2 ** 2 * 17) - 1,
 'constraint2': lambda pi, x1, x2, x4, x5, x6, x7: 397.5 / (x1 * x2 ** 2 * 289) - 1,
 'constraint3': lambda pi, x1, x2, x4, x5, x6, x7: 1.93 * x4 ** 3 / (x2 * 17 * x6 ** 4) - 1,
 'constraint4': lambda pi, x1, x2, x4, x5, x6, x7: 1.93 * x5 ** 3 / (x2 * 17 * x7 ** 4) - 1,
 'constraint5': lambda pi, x1, x2, x4, x5, x6, x7: sqrt((745 * x4 / (x2 * 17)) ** 2 + 16900000) / (110 * x6 ** 3) - 1,
 'constraint6': lambda pi, x1, x2, x4, x5, x6, x7: sqrt((745 * x5 / (x2 * 17)) ** 2 + 157500000) / (85 * x7 ** 3) - 1,
 'constraint7': lambda pi, x1, x2, x4, x5, x6, x7: x2 * 17 / 40 - 1,
 'constraint8': lambda pi, x1, x2, x4, x5, x6, x7: 5 * x2 / x1 - 1,
 'constraint9': lambda pi, x1, x2, x4, x5, x6, x7: x1 / (12 * x2) - 1,
 'constraint24': lambda pi, x1, x2, x4, x5, x6, x7: (1.5 * x6 + 1.9) / x4 - 1,
 'constraint25': lambda pi, x1, x2, x4, x5, x6, x7: (1.1 * x7 + 1.9) / x5 - 1}
for _k, _f in GOL.items(): demo('golinski_' + _k, 6, 'golinski:golinski_' + _k, 'golinski:golinski_%s_grad' % _k, _f)

def f_uave(pi, mu, dp, eta, B0):
    a = B0 / sqrt(eta * mu); return -dp * eta / B0 ** 2 * (1 - a / tanh(a))
def f_bind(pi, mu, dp, eta, B0):
    r = sqrt(eta * mu); return dp / (2 * B0) * (1 - 2 * r / B0 * tanh(B0 / (2 * r)))
demo('hartmann_u_ave', 4, 'hartmann:u_ave', 'hartmann:u_ave_grad', f_uave)
demo('hartmann_Bind', 4, 'hartmann:Bind', 'hartmann:Bind_grad', f_bind)

Fc, Lc, Ec, NU, Gc = 5000, Fraction(3, 2), 216620000000, Fraction(27, 100), 86650000000
BEAM = {'area': lambda pi, b, h: b * h, 'bending': lambda pi, b, h: 6 * Fc * Lc / (b * h ** 2), 'tip_deflect': lambda pi, b, h: Fc * Lc ** 3 / (3 * Ec * (b * h ** 3 / 12)), 'bending_stress': lambda pi, b, h: 6 * Fc * Lc / (b * h ** 2),
        'shear_stress': lambda pi, b, h: Fraction(3 * Fc) / (2 * b * h), 'area_ratio': lambda pi, b, h: h / b,
        'twist_buckling': lambda pi, b, h: (4 / Lc ** 2) * sqrt(Gc * ((b ** 3 * h + b * h ** 3) / 12) * Ec * (b ** 3 * h / 12) / (1 - NU))}
for _k, _f in BEAM.items(): demo('beam_' + _k, 2, 'beam:beam_' + _k, 'beam:beam_%s_grad' % _k, _f)

# ---- a single point is treated as the batch of one
def demo_single(name, n, fun, grad):
    def t(v):
        c = Calc(v, n); T = c.T
        x = SArr((n,), lambda k: c.X.at(c.i, k))
        F = c.term(v.fcall(DEM + fun, c.X).at(c.i))
        f1 = v.fcall(DEM + fun, x)
        if isinstance(f1, SArr):
            if not v.shape('a single value', f1, 1): return
            f1 = f1.at(0)
        v.ob('value at a single point', T.close(c.term(f1), F))
        g = v.fcall(DEM + grad, c.X); g1 = v.fcall(DEM + grad, x)
        two = len(g1.shape) == 2
        if not v.shape('one row', g1, *([1, n] if two else [n])): return
        for k in range(n): v.ob('gradient %d at a single point' % k, T.close(c.term(g1.at(0, k) if two else g1.at(k)), c.term(g.at(c.i, k))))
    t.__name__ = 'single_' + name; t.__doc__ = 'single points of ' + name
    target('C13', DEM + fun, DEM + grad)(t)
for _n, _d, _f in (('otl', 6, 'otl_circuit:otl_circuit'), ('borehole', 8, 'borehole:borehole'), ('piston', 7, 'piston:piston'), ('robot_arm', 8, 'robot_arm:robot_arm'), ('wing_weight', 10, 'wing_weight:wing_weight')) + tuple(('golinski_' + k, 6, 'golinski:golinski_' + k) for k in GOL) + (('hartmann_u_ave', 4, 'hartmann:u_ave'), ('hartmann_Bind', 4, 'hartmann:Bind')) + tuple(('beam_' + k, 2, 'beam:beam_' + k) for k in BEAM):
    demo_single(_n, _d, _f, _f + '_grad')

# ---- polynomial demos: any dimension, any batch
PM = DEM + 'polynomial:'
def poly(v, cls):
    m, M = v.int('m'), v.int('M', 1)
    Q, l, c = v.arr('Q', m, m), v.arr('l', m), v.real('c')
    X = v.arr('X', M, m)
    o = v.bare(PM + cls, quad=Q, linear=l, constant=c)
    return o, m, M, Q, l, c, X
@target('C13', PM + 'AffineFunction._func', PM + 'AffineFunction._func_grad')
def affine(v):
    """value l.x + c, gradient l"""
    o, m, M, Q, l, c, X = poly(v, 'AffineFunction')
    v.eq_arr('value', v.call(o, '_func', X), (M,), lambda i: s.add(v.sum(m, lambda k: s.mul(l.at(k), X.at(i, k))), c))
    v.eq_arr('gradient', v.call(o, '_func_grad', X), (M, m), lambda i, k: l.at(k))
@target('C13', PM + 'QuadraticFunction._func', PM + 'QuadraticFunction._func_grad')
def quadratic(v):
    """value x'Qx + l.x + c, gradient (Q + Q')x + l, for any matrix Q"""
    o, m, M, Q, l, c, X = poly(v, 'QuadraticFunction')
    for x, M_, w in ((X, M, ''), (SArr((m,), lambda k: X.at(0, k)), 1, ' at a single point')):
        v.eq_arr('value' + w, v.call(o, '_func', x), (M_,), lambda i: s.add(s.add(v.sum(m, lambda k: s.mul(v.sum(m, lambda j: s.mul(X.at(i, j), Q.at(j, k))), X.at(i, k))), v.sum(m, lambda k: s.mul(l.at(k), X.at(i, k)))), c))
        v.eq_arr('gradient' + w, v.call(o, '_func_grad', x), (M_, m), lambda i, k: s.add(s.add(v.sum(m, lambda j: s.mul(X.at(i, j), Q.at(j, k))), v.sum(m, lambda j: s.mul(X.at(i, j), Q.at(k, j)))), l.at(k)))

# ---- parameter ranges and the pairing of functions with gradients
def r_(x): return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)
TWOPI = 'twopi'
RANGES = {'borehole:build_borehole_domain': ([0.05, 100, 63070, 990, 63.1, 700, 1120, 9855], [0.15, 50000, 115600, 1110, 116, 820, 1680, 12045]),
    'otl_circuit:build_otl_circuit_domain': ([50, 25, 0.5, 1.2, 0.25, 50], [150, 70, 3, 2.5, 1.2, 300]),
    'piston:build_piston_domain': ([30, 0.005, 0.002, 1000, 90000, 290, 340], [60, 0.020, 0.010, 5000, 110000, 296, 360]),
    'robot_arm:build_robot_arm_domain': ([0] * 8, [TWOPI] * 4 + [1] * 4),
    'wing_weight:build_wing_weight_domain': ([150, 220, 6, -10, 16, 0.5, 0.08, 2.5, 1700, 0.025], [200, 300, 10, 10, 45, 1, 0.18, 6, 2500, 0.08]),
    'golinski:build_golinski_design_domain': ([2.6, 0.7, 7.3, 7.3, 2.9, 5.0], [3.6, 0.8, 8.3, 8.3, 3.9, 5.5]),
    'hartmann:build_hartmann_domain': ([0.05, 0.5, 0.5, 0.1], [0.2, 3, 3, 1]),
    'beam:build_beam_domain': ([0.005, 0.02], [0.05, 0.25])}
def ranges(q):
    def t(v):
        got = {}
        def init(ip, loc): got['lb'], got['ub'] = A.asarr(loc['lb']), A.asarr(loc['ub'])
        v.contract('psdr.domains.box:BoxDomain.__init__', init)
        v.fcall(DEM + q)
        lb, ub = RANGES[q]
        for nm, a, w in (('lower', got['lb'], lb), ('upper', got['ub'], ub)):
            if not v.shape(nm + ' bounds', a, len(w)): return
            for k, x in enumerate(w):
                e = S(a.at(k))
                v.ob('%s bound %d' % (nm, k), e.e == ((2 * z3.Real('pi')) if x == TWOPI else z3.Q(r_(x).numerator, r_(x).denominator)))
    t.__name__ = 'range_' + q.split(':')[1]; t.__doc__ = 'published parameter ranges'
    target('C13', DEM + q)(t)
for _q in RANGES: ranges(_q)

PAIRS = {'borehole:Borehole': ['borehole'], 'otl_circuit:OTLCircuit': ['otl_circuit'], 'piston:Piston': ['piston'], 'robot_arm:RobotArm': ['robot_arm'], 'wing_weight:WingWeight': ['wing_weight'],
    'golinski:GolinskiGearbox': ['golinski_' + k for k in GOL], 'hartmann:HartmannMHD': ['u_ave', 'Bind'], 'beam:NowackiBeam': ['beam_' + k for k in BEAM]}
def pairing(q):
    def t(v):
        got = {}
        def init(ip, loc): got.update(loc)
        v.contract('psdr.function:Function.__init__', init)
        for b in RANGES:
            if b.split(':')[0] == q.split(':')[0]: v.contract(DEM + b, lambda ip, loc: 'published ranges')
        v.new(DEM + q); mod = q.split(':')[0]
        names = lambda x: [x_ for x_ in (x if isinstance(x, (list, tuple)) else [x])]
        kw = got.get('kwargs') or {}
        def same(f, w, grad):
            g = v.ip.get(DEM + mod + ':' + w)
            if f is g: return True
            c = Calc(v, len(RANGES[[b for b in RANGES if b.split(':')[0] == mod][0]][0]))      # another object: compare what it computes
            a, b = v.ip.call(f, [c.X], dict(kw)), v.ip.call(g, [c.X], dict(kw))
            return all(c.T.close(c.term(a.at(c.i, k) if grad else a.at(c.i)), c.term(b.at(c.i, k) if grad else b.at(c.i))) for k in range(c.n if grad else 1))
        fs, gs = names(got['funs']), names(got['grads'])
        v.ob('functions in order', len(fs) == len(PAIRS[q]) and all(same(f, w, False) for f, w in zip(fs, PAIRS[q])))
        v.ob('gradients in the same order', len(gs) == len(PAIRS[q]) and all(same(f, w + '_grad', True) for f, w in zip(gs, PAIRS[q])))
        v.ob('domain', got['domain'] == 'published ranges')
        v.ob('vectorized', bool(got['vectorized']))
    t.__name__ = 'pair_' + q.split(':')[1]; t.__doc__ = 'functions, gradients and domain are handed over in matching order'
    target('C13', DEM + q + '.__init__')(t)
for _q in PAIRS: pairing(_q)
