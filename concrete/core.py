"""Harness core: cases, seeded inputs, comparisons."""
import numpy as np, hashlib, zlib
CASES = []
class Skip(Exception): pass
class Fail(Exception): pass
class Hang(BaseException): pass
class Case(object):
    def __init__(self, fn, n, limit, funcs): self.fn, self.n, self.limit, self.funcs, self.name = fn, n, limit, funcs, fn.__name__
def case(n=20, limit=180, funcs=()):
    def deco(fn): CASES.append(Case(fn, n, limit, tuple(funcs))); return fn
    return deco
def subseed(seed, name, k): return (zlib.crc32(('%d/%s/%d' % (seed, name, k)).encode()) & 0x7fffffff)
class T(object):
    def __init__(self, seed, name):
        self.rng = np.random.RandomState(seed); self.n = 0; self.seed = seed
        self._d = []; self.h = hashlib.sha1()
    # inputs worth showing / hashing
    def note(self, **kw):
        for k, v in kw.items():
            s = '%s=%s' % (k, np.array2string(v, precision=6, threshold=40) if isinstance(v, np.ndarray) else repr(v))
            self._d.append(s[:300]); self.h.update(s.encode())
    def digest(self): return self.h.hexdigest() if self._d else str(self.seed)
    def desc(self): return '; '.join(self._d)[:1500]
    # comparisons
    def ok(self, cond, what, **kw):
        self.n += 1
        if not bool(cond): raise Fail(what + ('' if not kw else ' (%s)' % ', '.join('%s=%s' % (k, np.array2string(np.asarray(v), precision=6, threshold=20)) for k, v in kw.items())) + '  [' + self.desc()[:700] + ']')
    def close(self, a, b, what, rtol=1e-7, atol=1e-9):
        self.n += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape: raise Fail('%s: shape %s != %s  [%s]' % (what, a.shape, b.shape, self.desc()[:500]))
        bad = ~(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=False) | (a == b))
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            raise Fail('%s: got %r, expected %r at %s  [%s]' % (what, float(a[i]), float(b[i]), i, self.desc()[:600]))
    def shape(self, a, sh, what):
        self.n += 1
        if np.shape(a) != tuple(sh): raise Fail('%s: shape %s, expected %s  [%s]' % (what, np.shape(a), tuple(sh), self.desc()[:500]))
    def raises(self, exc, fn, what):
        self.n += 1
        try: fn()
        except exc: return
        except Exception as e: raise Fail('%s: raised %s instead of %s' % (what, type(e).__name__, exc))
        raise Fail('%s: no exception' % what)
