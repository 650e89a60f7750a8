"""Symbolic scalars: mathematical reals/integers extended with +inf, -inf and nan flags.

Concrete numbers stay Python ints / Fractions.  Everything else is `Sym` (a z3 arithmetic
term plus three optional z3 Boolean flags) or a raw z3 BoolRef.
"""
import z3
from fractions import Fraction
import math

class Unsupported(Exception):
    """construct outside the verifier's subset"""

INF = float('inf')
NAN = float('nan')

def is_bool(x): return isinstance(x, (bool, z3.BoolRef))

# ---- Booleans --------------------------------------------------------------------
def And(*a):
    out = []
    for x in a:
        if x is True: continue
        if x is False: return False
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)

def Or(*a):
    out = []
    for x in a:
        if x is False: continue
        if x is True: return True
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)

def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    if a.eq(b): return True
    return a == b

def IfB(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is True and b is False: return c
    if a is False and b is True: return Not(c)
    if a is True: return Or(c, b)
    if a is False: return And(Not(c), b)
    if b is True: return Or(Not(c), a)
    if b is False: return And(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)

def toz3b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

# ---- Sym -------------------------------------------------------------------------
class Sym(object):
    __slots__ = ('e', 'pi', 'ni', 'na')
    def __init__(self, e, pi=False, ni=False, na=False):
        self.e, self.pi, self.ni, self.na = e, pi, ni, na
    def __repr__(self):
        s = str(self.e)
        if not self.plain: s += '{+%s,-%s,n%s}' % (self.pi, self.ni, self.na)
        return s
    @property
    def plain(self): return self.pi is False and self.ni is False and self.na is False
    @property
    def isint(self): return self.plain and z3.is_int(self.e)
    def __bool__(self): raise Unsupported('python truth of a symbolic number')
    __hash__ = object.__hash__

def const(x):
    """concrete python number -> z3 value"""
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + '/' + str(x.denominator))
    raise Unsupported('const %r' % (x,))

def S(x):
    if isinstance(x, Sym): return x
    if isinstance(x, bool): return Sym(z3.IntVal(int(x)))
    if isinstance(x, (int, Fraction)): return Sym(const(x))
    if isinstance(x, float):
        if x == INF: return Sym(z3.RealVal(0), pi=True)
        if x == -INF: return Sym(z3.RealVal(0), ni=True)
        if x != x: return Sym(z3.RealVal(0), na=True)
        return Sym(const(frac(x)))
    if isinstance(x, z3.BoolRef): return Sym(z3.If(x, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, z3.ArithRef): return Sym(x)
    raise Unsupported('scalar %r' % (type(x),))

def frac(x):
    if isinstance(x, Fraction): return x
    if isinstance(x, int): return Fraction(x)
    return Fraction(repr(x))

def conc(x): return isinstance(x, (bool, int, Fraction, float))

def R(e):
    """coerce z3 arith term to Real"""
    if z3.is_int(e):
        if z3.is_app_of(e, z3.Z3_OP_ITE): return z3.If(e.arg(0), R(e.arg(1)), R(e.arg(2)))
        return z3.RealVal(e.as_long()) if z3.is_int_value(e) else z3.ToReal(e)
    return e

def unwrap(e):
    """z3 numeral -> python number wherever possible"""
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None

def mk(e, pi=False, ni=False, na=False):
    if pi is False and ni is False and na is False:
        v = unwrap(e)
        if v is not None: return v
    elif pi is True: return INF
    elif ni is True: return -INF
    elif na is True: return NAN
    return Sym(e, pi, ni, na)

def fin(a): return Not(Or(a.pi, a.ni, a.na))
def isinf_(a): return Or(a.pi, a.ni)
def pos_(a): return Or(a.pi, And(fin(a), a.e > 0))
def neg_(a): return Or(a.ni, And(fin(a), a.e < 0))
def zero_(a): return And(fin(a), a.e == 0)

def isfinite(x):
    if conc(x): return not (isinstance(x, float) and (x != x or x in (INF, -INF)))
    if is_bool(x): return True
    return fin(x)
def isinf(x):
    if conc(x): return isinstance(x, float) and x in (INF, -INF)
    return isinf_(S(x))
def isnan(x):
    if conc(x): return isinstance(x, float) and x != x
    return S(x).na

def _pair(a, b):
    """z3 terms with a common sort"""
    ea, eb = a.e, b.e
    if z3.is_int(ea) and z3.is_int(eb): return ea, eb
    return R(ea), R(eb)

def _cc(a, b):
    return conc(a) and conc(b)

def _num(x):
    return int(x) if isinstance(x, bool) else x

def _fl(x): return isinstance(x, float)

def add(a, b):
    if _cc(a, b):
        a, b = _num(a), _num(b)
        if _fl(a) or _fl(b): return _cfloat(lambda p, q: p + q, a, b)
        return a + b
    if conc(a) and not _fl(a) and a == 0 and not is_bool(b): return b
    if conc(b) and not _fl(b) and b == 0 and not is_bool(a): return a
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if a.plain and b.plain: return mk(x + y)
    na = Or(a.na, b.na, And(a.pi, b.ni), And(a.ni, b.pi))
    return mk(x + y, And(Not(na), Or(a.pi, b.pi)), And(Not(na), Or(a.ni, b.ni)), na)

def _cfloat(op, *a):
    try:
        r = op(*[float(x) if not isinstance(x, float) else x for x in a])
    except ZeroDivisionError:
        return NAN
    if r != r or r in (INF, -INF): return r
    return frac(r)

def neg(a):
    if conc(a): return -_num(a)
    a = S(a)
    return mk(-a.e, a.ni, a.pi, a.na)

def sub(a, b):
    if conc(b) and not conc(a) and not _fl(b) and b == 0 and not is_bool(a): return a
    if isinstance(a, Sym) and isinstance(b, Sym) and a.plain and b.plain:
        if a.e.eq(b.e): return 0
        x, y = _pair(a, b)
        return mk(x - y)
    return add(a, neg(b))

def mul(a, b):
    if _cc(a, b):
        a, b = _num(a), _num(b)
        if _fl(a) or _fl(b): return _cfloat(lambda p, q: p * q, a, b)
        return a * b
    for x, y in ((a, b), (b, a)):
        if conc(x) and not _fl(x):
            if x == 1 and not is_bool(y): return y
            if x == 0 and S(y).plain: return 0
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if a.plain and b.plain: return mk(x * y)
    na = Or(a.na, b.na, And(isinf_(a), zero_(b)), And(zero_(a), isinf_(b)))
    anyinf = Or(isinf_(a), isinf_(b))
    same = Iff(pos_(a), pos_(b))
    return mk(x * y, And(Not(na), anyinf, same), And(Not(na), anyinf, Not(same)), na)

DEFINED = [False]     # calculus mode: every expression is taken at points where it is defined (denominators nonzero, radicands positive)
NONZERO = [lambda e: False]      # hook: can the context show e != 0 ?

def div(a, b):
    """true division, numpy semantics (x/0 -> +-inf, 0/0 -> nan; zeros are unsigned)"""
    if _cc(a, b):
        a, b = _num(a), _num(b)
        if _fl(a) or _fl(b): return _cfloat(lambda p, q: p / q, a, b)
        if b == 0:
            return NAN if a == 0 else (INF if a > 0 else -INF)
        return Fraction(a) / Fraction(b)
    if conc(b) and not _fl(b) and b != 0:
        if b == 1 and isinstance(a, Sym): return Sym(R(a.e), a.pi, a.ni, a.na)
        return mul(a, Fraction(1) / Fraction(b)) if not z3.is_int(S(a).e) else mul(Sym(R(S(a).e), S(a).pi, S(a).ni, S(a).na), Fraction(1)/Fraction(b))
    a, b = S(a), S(b)
    x, y = R(a.e), R(b.e)
    bz = And(fin(b), y == 0)
    if bz is not False and b.plain and (unwrap(y) not in (None,) and unwrap(y) != 0): bz = False
    if bz is not False and NONZERO[0](y): bz = False if b.plain else And(fin(b), False)
    if DEFINED[0] and a.plain and b.plain: return mk(x / y)
    val = CANON[0](x, 12) / CANON[0](y, 12)
    if a.plain and b.plain and bz is False: return mk(val)
    na = Or(a.na, b.na, And(isinf_(a), isinf_(b)), And(bz, zero_(a)))
    binf = isinf_(b)
    pi = And(Not(na), Or(And(bz, pos_(a)), And(isinf_(a), Not(bz), Iff(pos_(a), pos_(b)))))
    ni = And(Not(na), Or(And(bz, neg_(a)), And(isinf_(a), Not(bz), Not(Iff(pos_(a), pos_(b))))))
    if binf is not False: val = z3.If(toz3b(binf), z3.RealVal(0), val)
    return mk(val, pi, ni, na)

def floordiv(a, b):
    if _cc(a, b):
        return a // b
    a, b = S(a), S(b)
    if a.isint and b.isint:
        if unwrap(b.e) is None or unwrap(b.e) <= 0: raise Unsupported('floordiv by symbolic')
        return mk(a.e / b.e)
    raise Unsupported('floor division of reals')

def mod(a, b):
    if _cc(a, b): return a % b
    a, b = S(a), S(b)
    if a.isint and b.isint:
        if unwrap(b.e) is None or unwrap(b.e) <= 0: raise Unsupported('mod by symbolic')
        return mk(a.e % b.e)
    raise Unsupported('mod of reals')

# ---- elementary functions as uninterpreted symbols with instantiated axioms --------
_RR = {}
def uf(name, n=1):
    k = (name, n)
    if k not in _RR:
        _RR[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _RR[k]

def isqrt_frac(x):
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    return None

CANON = [lambda e, n=0: e]      # canonical form of an argument (set by the context)
def sqrt_term(e):
    if z3.is_app_of(e, z3.Z3_OP_ITE): return z3.If(e.arg(0), sqrt_term(e.arg(1)), sqrt_term(e.arg(2)))
    v = unwrap(e)
    if v is not None and v >= 0:
        r = isqrt_frac(Fraction(v))
        if r is not None: return R(const(r))
    return uf('sqrt')(CANON[0](e))

def sqrt(a):
    if conc(a):
        if _fl(a): return a if a == INF else NAN
        if a < 0: return NAN
        r = isqrt_frac(Fraction(a))
        if r is not None: return r
        return Sym(uf('sqrt')(R(const(a if not isinstance(a, bool) else int(a)))))
    a = S(a)
    e = R(a.e)
    neg = And(fin(a), e < 0)
    if is_nonneg(e) or (z3.is_app_of(e, z3.Z3_OP_TO_REAL) and LOGPOS[0](e + 1)): neg = False
    if DEFINED[0] and a.plain: return Sym(uf('sqrt')(e))
    if a.plain and neg is False: return Sym(sqrt_term(e))
    return mk(sqrt_term(e), a.pi, False, Or(a.na, a.ni, neg))

def _cond_nonneg(c, z, negated):
    """does c (or its negation) say syntactically that z >= 0?"""
    while z3.is_not(c): c, negated = c.arg(0), not negated
    if not z3.is_app(c) or c.num_args() != 2: return False
    a, b = c.children(); k = c.decl().kind()
    if negated: k = {z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT}.get(k)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): return a.eq(z) and unwrap(b) is not None and unwrap(b) >= 0
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT): return b.eq(z) and unwrap(a) is not None and unwrap(a) >= 0
    return False

def is_nonneg(e):
    """cheap syntactic nonnegativity"""
    v = unwrap(e)
    if v is not None: return v >= 0
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            ch = e.children()
            if len(ch) == 2 and ch[0].eq(ch[1]): return True
            cs = sorted(c.get_id() for c in ch if unwrap(c) is None)
            consts = [unwrap(c) for c in ch if unwrap(c) is not None]
            if all(c >= 0 for c in consts) and len(cs) % 2 == 0 and all(cs[2*i] == cs[2*i+1] for i in range(len(cs)//2)): return True
            return all(is_nonneg(c) for c in ch)
        if k == z3.Z3_OP_ADD: return all(is_nonneg(c) for c in e.children())
        if k == z3.Z3_OP_POWER:
            p = unwrap(e.arg(1))
            if p is not None and p == int(p) and int(p) % 2 == 0: return True
        if k == z3.Z3_OP_ITE:
            c, x, y = e.children()
            for neg_, z in ((False, x), (True, y)):     # max(z, 0): the branch taken is the nonnegative one
                w = y if z is x else x
                if is_nonneg(w) and _cond_nonneg(c, z, neg_): return True
            return is_nonneg(x) and is_nonneg(y)
        if k == z3.Z3_OP_TO_REAL: return is_nonneg(e.arg(0))
        if e.decl().name() in ('sqrt', 'exp'): return True
        if e.decl().name() in NONNEG_SYMS: return True
    return False
NONNEG_SYMS = set()

def _unary(name, nanif=None):
    def f(a):
        if conc(a):
            if _fl(a): raise Unsupported('%s of %r' % (name, a))
            if a == 0 and name in ('sin', 'tan', 'arctan', 'sinh'): return 0
            if a == 0 and name in ('cos', 'exp', 'cosh'): return 1
            if a == 1 and name == 'log': return 0
            return f(Sym(R(const(_num(a)))))
        a = S(a)
        if not a.plain:
            if name == 'exp':
                e = uf('exp')(CANON[0](R(a.e)))
                return mk(z3.If(toz3b(a.ni), z3.RealVal(0), e), a.pi, False, a.na)
            raise Unsupported('%s of a possibly non-finite value' % name)
        if DEFINED[0]: return Sym(uf(name)(R(a.e)))
        e = CANON[0](R(a.e))
        if name == 'log':
            z = R(a.e) == 0
            n = R(a.e) < 0
            if LOGPOS[0](e): return Sym(uf('log')(e))
            return mk(uf('log')(e), False, z, n)
        return Sym(uf(name)(e))
    return f
LOGPOS = [lambda e: False]
exp = _unary('exp'); log = _unary('log'); sin = _unary('sin'); cos = _unary('cos'); tan = _unary('tan')
arctan = _unary('arctan'); sinh = _unary('sinh'); cosh = _unary('cosh'); tanh = _unary('tanh'); arcsin=_unary('arcsin'); arccos=_unary('arccos')

def power(a, p):
    if _cc(a, p):
        a, p = _num(a), _num(p)
        if isinstance(p, Fraction) and p.denominator == 1: p = int(p)
        if not _fl(a) and isinstance(p, int):
            if a == 0 and p < 0: return INF
            return Fraction(a) ** p if p < 0 else a ** p
        if not _fl(a) and isinstance(p, Fraction): return power(Sym(R(const(a))), p) if p != Fraction(1, 2) else sqrt(a)
    if conc(p) and not _fl(p):
        p = _num(p)
        if isinstance(p, Fraction) and p.denominator == 1: p = int(p)
        if isinstance(p, int):
            if p == 0: return 1
            if p < 0: return div(1, power(a, -p))
            if p > 12: raise Unsupported('large power')
            r = a
            for _ in range(p - 1): r = mul(r, a)
            return r
        if p == Fraction(1, 2): return sqrt(a)
        if p == Fraction(-1, 2): return div(1, sqrt(a))
        if p.denominator == 2:
            k = (p.numerator - 1) // 2
            return mul(power(a, k), sqrt(a))
        a = S(a)
        if not a.plain: raise Unsupported('power of non-finite')
        return Sym(uf('pow', 2)(R(a.e), const(p)))
    a, p = S(a), S(p)
    if not (a.plain and p.plain): raise Unsupported('power of non-finite')
    return Sym(uf('pow', 2)(R(a.e), R(p.e)))

def abs_(a):
    if conc(a): return abs(_num(a))
    a = S(a)
    if a.plain and is_nonneg(a.e): return a
    return mk(z3.If(a.e >= 0, a.e, -a.e), Or(a.pi, a.ni), False, a.na)

# ---- comparisons -------------------------------------------------------------------
def lt(a, b):
    if _cc(a, b): return _num(a) < _num(b)
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if a.plain and b.plain:
        if x.eq(y): return False
        return x < y
    nn = Not(Or(a.na, b.na))
    return And(nn, Or(And(a.ni, Not(b.ni)), And(b.pi, Not(a.pi)), And(fin(a), fin(b), x < y)))

def le(a, b):
    if _cc(a, b): return _num(a) <= _num(b)
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if a.plain and b.plain:
        if x.eq(y): return True
        return x <= y
    nn = Not(Or(a.na, b.na))
    return And(nn, Or(a.ni, b.pi, And(fin(a), fin(b), x <= y)))

def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)

def eq(a, b):
    if is_bool(a) and is_bool(b) and not _cc(a, b): return Iff(a, b)
    if _cc(a, b): return a == b
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if a.plain and b.plain:
        if x.eq(y): return True
        r = x == y
        if unwrap(x) is not None and unwrap(y) is not None: return unwrap(x) == unwrap(y)
        return r
    nn = Not(Or(a.na, b.na))
    return And(nn, Or(And(a.pi, b.pi), And(a.ni, b.ni), And(fin(a), fin(b), x == y)))

def ne(a, b): return Not(eq(a, b))

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if is_bool(a) and is_bool(b):
        return IfB(c, a, b)
    if conc(a) and conc(b) and a == b and type(a) == type(b): return a
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if x.eq(y): v = x
    else: v = z3.If(c, x, y)
    return mk(v, IfB(c, a.pi, b.pi), IfB(c, a.ni, b.ni), IfB(c, a.na, b.na))

def minimum(a, b):
    """numpy.minimum: propagates nan"""
    if _cc(a, b): return min(_num(a), _num(b))
    a, b = S(a), S(b)
    r = ite(le(a, b), a, b)
    if a.na is False and b.na is False: return r
    r = S(r); na = Or(a.na, b.na)
    return mk(r.e, And(Not(na), r.pi), And(Not(na), r.ni), na)

def maximum(a, b):
    if _cc(a, b): return max(_num(a), _num(b))
    a, b = S(a), S(b)
    r = ite(ge(a, b), a, b)
    if a.na is False and b.na is False: return r
    r = S(r); na = Or(a.na, b.na)
    return mk(r.e, And(Not(na), r.pi), And(Not(na), r.ni), na)

def pymin(a, b):
    """builtin min(a, b): b if b < a else a"""
    if _cc(a, b): return min(_num(a), _num(b))
    return ite(lt(b, a), b, a)
def pymax(a, b):
    if _cc(a, b): return max(_num(a), _num(b))
    return ite(gt(b, a), b, a)

def sign(a):
    if conc(a): return (a > 0) - (a < 0)
    return ite(gt(a, 0), 1, ite(lt(a, 0), -1, 0))

def same(a, b):
    """specification equality (nan equals nan)"""
    if is_bool(a) or is_bool(b):
        return Iff(a if is_bool(a) else ne(a, 0), b if is_bool(b) else ne(b, 0))
    if conc(a) and conc(b):
        if a != a and b != b: return True
        return a == b
    a, b = S(a), S(b)
    x, y = _pair(a, b)
    if a.plain and b.plain: return True if x.eq(y) else x == y
    return And(Iff(a.na, b.na), Iff(a.pi, b.pi), Iff(a.ni, b.ni), Or(Not(fin(a)), x == y))
