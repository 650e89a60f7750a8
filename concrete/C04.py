from core import *
import psdr
from domgen import *
import copy

def state(d):
    out = [np.array(getattr(d, q), dtype=float).copy() for q in ('lb', 'ub', 'A', 'b', 'A_eq', 'b_eq')]
    return out + [np.array(x, dtype=float).copy() for q in ('Ls', 'ys', 'rhos') for x in getattr(d, q)]
def same(T, a, b, what):
    T.ok(len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b)), what)

def added(T, s, few=False):
    """constraints that keep a neighbourhood of s.x0 (in the equality set) feasible"""
    r = T.rng; m = s.m; e = Spec(m); e.x0 = s.x0
    kw = {}
    kinds = [k for k in ('lb', 'ub', 'A', 'eq', 'quad') if r.rand() < .5] or [['lb', 'ub', 'A', 'quad'][r.randint(4)]]
    if 'lb' in kinds:
        e.lb = s.x0 - r.uniform(.05, 1., m); e.lb[r.rand(m) < .3] = -np.inf; kw['lb'] = e.lb.copy()
    if 'ub' in kinds:
        e.ub = s.x0 + r.uniform(.05, 1., m); e.ub[r.rand(m) < .3] = np.inf; kw['ub'] = e.ub.copy()
    if 'A' in kinds:
        k = r.randint(1, 3); e.A = r.randn(k, m); e.b = e.A.dot(s.x0) + r.uniform(.05, 1., k); kw.update(A=e.A.copy(), b=e.b.copy())
    if 'eq' in kinds and m > 1:
        e.Ae = r.randn(1, m); e.be = e.Ae.dot(s.x0); kw.update(A_eq=e.Ae.copy(), b_eq=e.be.copy())
    if 'quad' in kinds:
        quad_data(T, e, r.randint(1, 3)); kw.update(Ls=[q[0].copy() for q in e.quads], ys=[q[1].copy() for q in e.quads], rhos=[q[2] for q in e.quads])
    return e, kw

def meets(T, d, r, s1, s2, tag):
    X = [x for s_ in (s1, s2) for x in near(T, s_, 8)]
    # points just inside / outside each of the two sets, along random directions (also within the equality set)
    Ae = np.vstack([s1.Ae, s2.Ae])
    for s_ in (s1, s2):
        for _ in range(4):
            p = T.rng.randn(s1.m)
            if len(Ae): p = p - np.linalg.pinv(Ae).dot(Ae.dot(p))
            t = min(boundary(s1, s1.x0, p), boundary(s2, s1.x0, p))
            if np.isfinite(t) and np.linalg.norm(p) > 1e-3: X += [s1.x0 + .98 * t * p, s1.x0 + 1.02 * t * p + .01 * p]
    for x in X:
        a, b = s1.slack(x), s2.slack(x)
        v = max(a, b)
        if s1.points: continue
        if v < 1e-6 and not (s1.hulls and v > -1e-6): T.ok(r.isinside(x), '%s: point satisfying both (violations %g, %g) is outside the result' % (tag, a, b))
        elif v > 1e-3: T.ok(not r.isinside(x), '%s: point violating a constraint (%g, %g) is inside the result' % (tag, a, b))

@case(90, funcs=['LinQuadDomain.add_constraints', 'ConvexHullDomain.add_constraints', 'TensorProductDomain.add_constraints'])
def add(T):
    """add_constraints gives exactly the intersection, leaves the operand and the given data unchanged, keeps names"""
    d, s = make(T, kinds=['box', 'linineq', 'linquad', 'hull', 'uniform', 'normal_trunc', 'tensor', 'tensor'])
    if s.kind == 'tensor':
        if not all(p[1].kind in ('box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'hull') for p in s.parts): raise Skip('')
        if any(p[1].kind == 'hull' and p[1].m > 2 for p in s.parts): raise Skip('')
    e, kw = added(T, s)
    st = state(d); k0 = copy.deepcopy(kw); nm = list(d.names)
    r = d.add_constraints(**kw)
    T.note(kw=sorted(kw))
    T.ok(len(r) == s.m and list(r.names) == nm, 'dimension and names kept')
    same(T, state(d), st, 'operand unchanged')
    T.ok(all(np.array_equal(np.asarray(kw[k]), np.asarray(k0[k])) for k in kw if k not in ('Ls', 'ys')), 'given data unchanged')
    meets(T, d, r, s, e, 'add_constraints')

@case(90, funcs=['LinQuadDomain.__and__', '__rand__'])
def both(T):
    """d1 & d2 is the intersection for every pair of domain kinds that supports it"""
    m = int(T.rng.choice([1, 2, 3]))
    K = ['box', 'linineq', 'linquad', 'uniform', 'normal_trunc', 'hull']
    d1, s1 = make(T, K[T.rng.randint(len(K))], m)
    k2 = K + ['tensor']
    k = k2[T.rng.randint(len(k2))]
    if k == 'hull' and s1.kind == 'hull': k = 'box'
    # second operand around the same point
    if k == 'tensor':
        parts = [make(T, ['box', 'linineq', 'linquad', 'hull'][T.rng.randint(4)], 1, note=False) for _ in range(m)]
        s2 = Spec(m); embed(s2, [p[1] for p in parts]); d2 = psdr.TensorProductDomain([p[0] for p in parts]); s2.kind = 'tensor'
    else: d2, s2 = make(T, k, m)
    T.note(kinds=(s1.kind, s2.kind))
    st1, st2 = state(d1), state(d2)
    r = d1 & d2
    same(T, state(d1), st1, 'first operand unchanged'); same(T, state(d2), st2, 'second operand unchanged')
    X = list(near(T, s1, 10)) + list(near(T, s2, 10))
    for q, w in ((s1, s2), (s2, s1)):
        # points on the boundary of one that are inside the other
        for _ in range(6):
            p = T.rng.randn(m); t = boundary(q, q.x0, p)
            if np.isfinite(t): X += [q.x0 + .98 * t * p, q.x0 + (1.02 * t + .01) * p]
        for t in (0, .2, .5, .8, 1.): X.append(s1.x0 + t * (s2.x0 - s1.x0))
    for x in X:
        a, b = s1.slack(x), s2.slack(x); v = max(a, b)
        if v < (-1e-6 if s1.hulls or s2.hulls else 1e-6): T.ok(r.isinside(x), 'd1 & d2: common point (violations %g, %g) is outside' % (a, b))
        elif v > 1e-3: T.ok(not r.isinside(x), 'd1 & d2: point outside an operand (%g, %g) is inside' % (a, b))

@case(20)
def rejects(T):
    """constraint data of the wrong dimension is refused rather than silently dropped"""
    d, s = make(T, kinds=['box', 'linineq', 'linquad'])
    m = s.m
    for kw in (dict(lb=np.zeros(m + 1)), dict(ub=np.zeros(m + 1)), dict(A=np.ones((1, m + 1)), b=[1.]), dict(A=np.ones((2, m)), b=[1.]), dict(A=np.ones((1, m))), dict(b_eq=[1.]),
               dict(Ls=[np.eye(m)], ys=[np.zeros(m)]), dict(Ls=[np.eye(m + 1)], ys=[np.zeros(m + 1)], rhos=[1.])):
        T.raises((AssertionError, ValueError), lambda: d.add_constraints(**kw), 'add_constraints(%s)' % sorted(kw))
