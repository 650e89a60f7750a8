"""Decision procedure for identities between elementary expressions (rational functions, radicals, logarithms, trigonometric and
hyperbolic functions, constant powers): normal forms in a tower of field extensions of Q(atoms), and structural differentiation.
An expression is a dict {set of radicals: rational function}; a radical's square is its radicand.  Two expressions are equal when
their normal forms agree; coefficients may differ by a stated relative tolerance (decimal constants are rounded in the source)."""
import z3, itertools
from fractions import Fraction
from sympy import QQ, symbols
from sympy.polys.rings import ring
from sympy.polys.orderings import lex
from .sym import Unsupported, unwrap
import math, cmath
TOL = Fraction(1, 10 ** 9)

def dec(fr):
    """a float literal as the decimal number it was written as"""
    fr = Fraction(fr)
    if fr.denominator < 10 ** 6: return fr
    f = Fraction(repr(float(fr)))
    return f if abs(f - fr) <= abs(fr) * Fraction(1, 10 ** 14) else fr

class Fr(object):
    """a rational function with the denominator kept as a product of powers of named polynomials (no greatest common divisors:
    only monomials and constants are cancelled); equality is decided on numerators over a common denominator"""
    __slots__ = ('f', 'p', 'd', '_e')
    def __init__(self, f, p, d):
        self.f, self.p, self._e = f, p, None
        if d and p:
            ms = None
            for i in list(d):
                if i < f.ng:               # a generator: cancel
                    if ms is None: ms = list(p)
                    k = min(min(m[i] for m in ms), d[i])
                    if k:
                        t = list(f.R.zero_monom); t[i] = k
                        p = f.R.from_dict({tuple(x - y for x, y in zip(m, t)): c for m, c in dict(p).items()}); ms = None
                        d = dict(d); d[i] -= k
                        if not d[i]: del d[i]
            self.p = p
        elif not p: d = {}
        self.d = d
    @property
    def numer(self): return self.p
    @property
    def denom(self):
        if self._e is None: self._e = self.f.prod(self.d)
        return self._e
    def _w(self, o): return o if isinstance(o, Fr) else self.f(o)
    def _over(self, D): return self.p * self.f.prod({i: D[i] - self.d.get(i, 0) for i in D if D[i] > self.d.get(i, 0)})
    def __add__(self, o):
        o = self._w(o)
        if self.d == o.d: return Fr(self.f, self.p + o.p, self.d)
        D = {i: max(self.d.get(i, 0), o.d.get(i, 0)) for i in set(self.d) | set(o.d)}
        return Fr(self.f, self._over(D) + o._over(D), D)
    def __neg__(self): return Fr(self.f, -self.p, self.d)
    def __sub__(self, o): return self + (-self._w(o))
    def __mul__(self, o):
        o = self._w(o); D = dict(self.d)
        for i, k in o.d.items(): D[i] = D.get(i, 0) + k
        return Fr(self.f, self.p * o.p, D)
    def inv(self):
        c, d = self.f.factor(self.p)
        return Fr(self.f, self.f.prod(self.d) * c, d)
    def __truediv__(self, o): return self * self._w(o).inv()
    def __rtruediv__(self, o): return self._w(o) * self.inv()
    def __pow__(self, n):
        r = self.f(1); b = self if n >= 0 else self.inv()
        for _ in range(abs(n)): r = r * b
        return r
    def __eq__(self, o):
        o = self._w(o)
        if self.d == o.d: return self.p == o.p
        return not (self - o).p
    def __ne__(self, o): return not self == o
    def __bool__(self): return bool(self.p)
    __hash__ = None
    def diff(self, g):
        j = g.p.degrees().index(1)
        r = Fr(self.f, self.p.diff(self.f.R.gens[j]), self.d)
        for i, k in self.d.items():
            di = self.f.facs[i].diff(self.f.R.gens[j])
            if di:
                D = dict(self.d); D[i] += 1
                r = r - Fr(self.f, self.p * di * k, D)
        return r

class FracField(object):
    def __init__(self, names):
        self.R, *gens = ring(names, QQ, lex)
        self.ng = len(gens); self.facs = list(gens); self.pows = {}
        self.gens = [Fr(self, g, {}) for g in gens]
    def __call__(self, c): return Fr(self, self.R(c), {})
    def prod(self, d):
        r = self.R(1)
        for i, k in d.items():
            if not k: continue
            if (i, k) not in self.pows: self.pows[(i, k)] = self.facs[i] ** k
            r = r * self.pows[(i, k)]
        return r
    def factor(self, p):
        """1/p = c / product of named factors"""
        if not p: raise Unsupported('division by zero')
        ms = list(p); e = [min(m[i] for m in ms) for i in range(self.ng)]
        d = {i: k for i, k in enumerate(e) if k}
        q = self.R.from_dict({tuple(x - y for x, y in zip(m, e)): c for m, c in dict(p).items()})
        lc = q.LC; q = q.mul_ground(1 / lc)
        if q != 1:
            for i in range(self.ng, len(self.facs)):
                k = 0
                while len(q) >= len(self.facs[i]):
                    if q == self.facs[i]: q = self.R(1); k += 1; break
                    if q.LM != self.facs[i].LM and len(q) < 4000:
                        a, b = q.div(self.facs[i])
                        if b: break
                        q = a; k += 1
                    else: break
                if k: d[i] = k
            if q != 1:
                self.facs.append(q); d[len(self.facs) - 1] = 1
        return self.R(1 / lc), d

class Tower(object):
    MAXK = 40
    def __init__(self, names):
        """names: the independent variables (python objects identified by name)"""
        self.n = len(names)
        self.names = list(names) + ['k%d_' % i for i in range(self.MAXK)]
        self.F = FracField(','.join('v%d' % i for i in range(len(self.names)))); self.g = self.F.gens
        self.var = {nm: i for i, nm in enumerate(names)}
        self.kern = []          # transcendental kernels: (name, argument, generator, derivative function)
        self.rads = []          # radicals: radicand (element)
        self.free = self.n
        self.zero, self.one = {}, {frozenset(): self.F(1)}
        self.cache = {}
    # -- arithmetic
    def const(self, c): c = dec(c); return {frozenset(): self.F(QQ(c.numerator, c.denominator))} if c else {}
    def gen(self, i): return {frozenset(): self.g[i]}
    def newgen(self):
        if self.free >= len(self.g): raise Unsupported('too many kernels')
        self.free += 1; return self.free - 1
    def add(self, a, b, sign=1):
        r = dict(a)
        for k, v in b.items():
            w = r.get(k)
            w = (v if sign == 1 else -v) if w is None else (w + v if sign == 1 else w - v)
            if w == 0: r.pop(k, None)
            else: r[k] = w
        return r
    def sub(self, a, b): return self.add(a, b, -1)
    def scale(self, a, f): return {k: v * f for k, v in a.items()} if f != 0 else {}
    def mul(self, a, b):
        r = {}
        for k, v in a.items():
            for l, w in b.items():
                com = k & l
                t = {(k | l) - com: v * w}
                for q in sorted(com): t = self.mul(t, self.rads[q])
                r = self.add(r, t)
        return r
    def inv(self, a):
        if not a: raise Unsupported('division by an expression that is identically zero')
        ks = sorted({q for k in a for q in k})
        if not ks:
            return {frozenset(): 1 / a[frozenset()]}
        if len(a) == 1:           # c * product of radicals
            (k, v), = a.items(); r = {k: 1 / v}
            for q in sorted(k): r = self.mul(r, self.inv(self.rads[q]))
            return r
        q = ks[-1]                # a = x + y sqrt(q);  1/a = (x - y sqrt q)/(x^2 - y^2 q)
        x = {k: v for k, v in a.items() if q not in k}; y = {k - {q}: v for k, v in a.items() if q in k}
        n = self.sub(self.mul(x, x), self.mul(self.mul(y, y), self.rads[q]))
        c = self.sub(x, self.mul(y, {frozenset([q]): self.F(1)}))
        return self.mul(c, self.inv(n))
    def div(self, a, b): return self.mul(a, self.inv(b))
    def ipow(self, a, n):
        r = self.one; b = a if n >= 0 else self.inv(a)
        for _ in range(abs(n)): r = self.mul(r, b)
        return r
    # -- equality
    def close(self, a, b, tol=TOL):
        for k in set(a) | set(b):
            x, y = a.get(k, self.F(0)), b.get(k, self.F(0))
            if x == y: continue
            p, q = (x.p, y.p) if x.d == y.d else (lambda D: (x._over(D), y._over(D)))({i: max(x.d.get(i, 0), y.d.get(i, 0)) for i in set(x.d) | set(y.d)})
            d = p - q
            if len(d) == 0: continue
            if tol == 0: return False
            P, Q_ = dict(p), dict(q)
            if not P or not Q_: return False
            for m, c in dict(d).items():
                s = max(abs(P.get(m, 0)), abs(Q_.get(m, 0)))
                if abs(c) * 10 ** 9 > s: return False
        return True
    # -- kernels
    def isconst(self, a):
        if not a: return Fraction(0)
        if set(a) == {frozenset()}:
            f = a[frozenset()]
            if len(dict(f.numer)) <= 1 and all(not any(m) for m in dict(f.numer)) and all(not any(m) for m in dict(f.denom)):
                c = f.numer.coeff(1) / f.denom.coeff(1); return Fraction(int(c.numerator), int(c.denominator))
        return None
    def sqrt(self, a):
        c = self.isconst(a)
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: return self.const(Fraction(n, d))
            from sympy import factorint
            out, r = Fraction(1, c.denominator), self.one
            if c.numerator * c.denominator > 10 ** 40: raise Unsupported('square root of a large constant')
            for p, k in factorint(c.numerator * c.denominator).items():
                out *= p ** (k // 2)
                if k % 2: r = self.mul(r, self.rad(self.const(Fraction(p))))
            return self.scale(r, self.F(QQ(out.numerator, out.denominator)))
        # pull out even powers of the variables assumed positive is not needed: radicals are identified by their radicand
        for i, r in enumerate(self.rads):
            if self.close(r, a): return {frozenset([i]): self.F(1)}
            # constant rational multiple with a rational square root
            if len(self.rads) and a and r and set(a) == set(r):
                q = self.ratio(a, r)
                if q is not None and q > 0: return self.mul({frozenset([i]): self.F(1)}, self.sqrt(self.const(q)))
        mono = self.square_part(a)
        if mono is not None:
            out, rest = mono
            return self.mul(out, self.sqrt(rest))
        return self.rad(a)
    def rad(self, a):
        for i, r in enumerate(self.rads):
            if self.close(r, a): return {frozenset([i]): self.F(1)}
        self.rads.append(a)
        return {frozenset([len(self.rads) - 1]): self.F(1)}
    def ratio(self, a, r):
        f = None
        for k in a:
            x, y = a[k], r[k]
            D = {i: max(x.d.get(i, 0), y.d.get(i, 0)) for i in set(x.d) | set(y.d)}
            p, q = x._over(D), y._over(D)
            if p.LM != q.LM: return None
            c = p.LC / q.LC
            if p != q.mul_ground(c) or f is not None and c != f: return None
            f = c
        f = Fraction(int(f.numerator), int(f.denominator))
        return f
    POSITIVE = True
    def square_part(self, a):
        """a = m^2 * rest with m a monomial in the (positive) variables"""
        if set(a) != {frozenset()}: return None
        f = a[frozenset()]
        def monos(p): return list(dict(p))
        import operator
        def gcdexp(p):
            ms = monos(p); return [min(m[i] for m in ms) for i in range(len(self.g))]
        e = [x - y for x, y in zip(gcdexp(f.numer), gcdexp(f.denom))]
        h = [(x // 2 if x >= 0 else -((-x) // 2)) for x in e]
        if not any(h): return None
        m = self.F(1)
        for i, x in enumerate(h):
            if x: m = m * self.g[i] ** x
        return {frozenset(): m}, {frozenset(): f / m ** 2}
    def kernel(self, name, arg, mk=None):
        for nm, a, g in self.kern:
            if nm == name and (a == arg if not isinstance(a, dict) else self.close(a, arg)): return self.gen(g)
        g = self.newgen(); self.kern.append((name, arg, g)); return self.gen(g)
    def trig(self, arg):
        """(cos, sin) of a sum of integer multiples of variables, or of any argument"""
        if set(arg) <= {frozenset()} and arg:
            f = arg[frozenset()]
            terms = dict(f.numer); den = dict(f.denom)
            if all(not any(m) for m in den):
                d0 = list(den.values())[0]; parts = []
                for m, c in terms.items():
                    c = Fraction(int((c / d0).numerator), int((c / d0).denominator))
                    parts.append((m, c))
                if len(parts) > 1 or (abs(parts[0][1]) != 1 and parts[0][1].denominator == 1 and abs(parts[0][1]) < 6):
                    if all(c.denominator == 1 and abs(c) < 6 for m, c in parts):
                        C, S_ = self.one, self.zero
                        for m, c in parts:
                            t = self.F(1)
                            for i, x in enumerate(m):
                                if x: t = t * self.g[i] ** x
                            c1, s1 = self.trig({frozenset(): t})
                            if c < 0: s1 = self.scale(s1, self.F(-1))
                            for _ in range(abs(int(c))):
                                C, S_ = self.sub(self.mul(C, c1), self.mul(S_, s1)), self.add(self.mul(S_, c1), self.mul(C, s1))
                        return C, S_
        c = self.kernel('cos', arg)
        # the sine is a radical of 1 - cos^2 of its own (identified with its cosine)
        key = ('sin', list(c[frozenset()].numer)[0])
        if key not in self.cache:
            self.rads.append(self.sub(self.one, self.mul(c, c))); self.cache[key] = {frozenset([len(self.rads) - 1]): self.F(1)}
            self.sinof = getattr(self, 'sinof', {}); self.sinof[len(self.rads) - 1] = arg
        return c, self.cache[key]
    def pw(self, a, p):
        """a ** p for a product of powers of positive variables and kernels, p a non-integer constant"""
        if set(a) != {frozenset()}: raise Unsupported('power of a radical expression')
        f = a[frozenset()]
        num, den = dict(f.numer), dict(f.denom)
        if len(num) != 1 or len(den) != 1: raise Unsupported('power of a sum')
        (mn, cn), (md, cd) = list(num.items())[0], list(den.items())[0]
        c = Fraction(int((cn / cd).numerator), int((cn / cd).denominator))
        if c <= 0: raise Unsupported('power of a negative number')
        r = self.const(Fraction(repr(float(c) ** float(p)))) if c != 1 else self.one
        for i, (x, y) in enumerate(zip(mn, md)):
            e = (x - y) * p
            if not e: continue
            e = Fraction(e).limit_denominator(10 ** 6); n = math.floor(e); fr = e - n
            t = self.ipow(self.gen(i), n) if n else self.one
            if fr: t = self.mul(t, self.kernel('pow', (i, fr)))
            r = self.mul(r, t)
        return r
    # -- from solver terms
    def conv(self, e, leaf):
        k = e.get_id()
        if k in self.cache: return self.cache[k][1]
        r = self._conv(e, leaf); self.cache[k] = (e, r)
        return r
    def _conv(self, e, leaf):
        u = unwrap(e)
        if u is not None: return self.const(Fraction(u))
        i = leaf(e)
        if i is not None: return self.gen(self.var[i])
        d, ch = e.decl(), [c for c in e.children()]
        K = d.kind()
        if K == z3.Z3_OP_TO_REAL: return self.conv(ch[0], leaf)
        if K == z3.Z3_OP_UMINUS: return self.scale(self.conv(ch[0], leaf), self.F(-1))
        if K in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            r = self.conv(ch[0], leaf)
            for c in ch[1:]:
                q = self.conv(c, leaf)
                r = {z3.Z3_OP_ADD: self.add, z3.Z3_OP_SUB: self.sub, z3.Z3_OP_MUL: self.mul, z3.Z3_OP_DIV: self.div}[K](r, q)
            return r
        if K == z3.Z3_OP_POWER:
            p = unwrap(ch[1])
            if p is not None and Fraction(p).denominator == 1: return self.ipow(self.conv(ch[0], leaf), int(p))
        n = d.name()
        if n == 'pow':
            p = unwrap(ch[1])
            if p is None: raise Unsupported('variable exponent')
            return self.pw(self.conv(ch[0], leaf), dec(Fraction(p)))
        if n == 'sqrt': return self.sqrt(self.conv(ch[0], leaf))
        if len(ch) == 1 and n in ('log', 'exp', 'cos', 'sin', 'tan', 'tanh', 'sinh', 'cosh'):
            return self.fn(n, self.conv(ch[0], leaf))
        if not ch and n in ('pi', 'const_pi', 'np.pi'): return self.kernel('pi', 0)
        raise Unsupported('expression %s' % str(e)[:80])
    def fn(self, n, a):
        if n == 'log': return self.kernel('log', a)
        if n == 'exp': return self.kernel('exp', a)
        if n in ('cos', 'sin', 'tan'):
            c, s_ = self.trig(a); return c if n == 'cos' else s_ if n == 'sin' else self.div(s_, c)
        t = self.kernel('tanh', a)
        if n == 'tanh': return t
        q = self.inv(self.sub(self.one, self.mul(t, t)))        # cosh^2
        ch = self.sqrt(q)
        return ch if n == 'cosh' else self.mul(t, ch)
    # -- derivative with respect to variable i
    def diff(self, a, i):
        r = {}
        for k, v in a.items():
            base = {k: self.F(1)}
            # coefficient
            dv = self.dfrac(v, i)
            if dv: r = self.add(r, self.mul(dv, base))
            # radicals
            for q in k:
                rest = {k - {q}: v}
                dq = self.drad(q, i)
                if dq: r = self.add(r, self.mul(rest, dq))
        return r
    def drad(self, q, i):
        s_ = getattr(self, 'sinof', {})
        if q in s_:
            da = self.diff(s_[q], i)
            return self.mul(self.kernel('cos', s_[q]), da) if da else {}
        dr = self.diff(self.rads[q], i)
        if not dr: return {}
        return self.div(dr, self.scale({frozenset([q]): self.F(1)}, self.F(2)))
    def dkern(self, g, i):
        if g < self.n: return self.one if g == i else {}
        nm, a, _ = next(k for k in self.kern if k[2] == g)
        if nm == 'pi': return {}
        if nm == 'pow':
            b, p = a; db = self.dkern(b, i)
            return self.mul(self.scale(self.div(self.gen(g), self.gen(b)), self.F(QQ(p.numerator, p.denominator))), db) if db else {}
        da = self.diff(a, i)
        if not da: return {}
        if nm == 'log': return self.div(da, a)
        if nm == 'exp': return self.mul(da, self.gen(g))
        if nm == 'cos': return self.scale(self.mul(self.trig(a)[1], da), self.F(-1))
        if nm == 'tanh': return self.mul(self.sub(self.one, self.mul(self.gen(g), self.gen(g))), da)
        raise Unsupported('derivative of %s' % nm)
    def dfrac(self, f, i):
        used = {j for m in itertools.chain(dict(f.numer), dict(f.denom)) for j, x in enumerate(m) if x}
        r = {}
        for j in sorted(used):
            dj = self.dkern(j, i)
            if dj: r = self.add(r, self.scale(dj, f.diff(self.g[j])) if hasattr(f, 'diff') else r)
        return r
