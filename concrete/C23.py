from core import *
import tempfile, os, shutil
from psdr.pgf import PGF

def table(T):
    r = T.rng; k = int(r.randint(1, 6)); n = int(r.randint(0, 8))
    names = []
    while len(names) < k:
        s = ''.join(r.choice(list('abcXYZ_019 -.^{}'), size=int(r.randint(1, 8)))).strip()
        if s and s not in names: names.append(s)
    cols = []
    for j in range(k):
        q = int(r.randint(0, 5))
        c = [r.randn(n) * 10.0 ** r.uniform(-300, 300), r.randint(-10 ** 6, 10 ** 6, size=n), r.choice([0., -0., np.inf, -np.inf, 1e-308, 5e-324, 1.7976931348623157e308, .1], size=n) if n else np.zeros(0), r.randn(n).astype(np.float32), list(map(float, r.rand(n)))][q]
        cols.append(c)
    T.note(names=names, cols=cols); return names, cols

@case(80, funcs=['PGF.add', 'PGF.write', 'PGF.read'])
def roundtrip(T):
    """written columns are read back with the same names, order and values"""
    names, cols = table(T); p = PGF()
    for a, c in zip(names, cols): p.add(a, c)
    T.ok(list(p.keys()) == names, 'columns kept in order')
    for a, c in zip(names, cols): T.ok(np.array_equal(np.asarray(p[a], float), np.asarray(c, float)), 'column retrievable by name', name=a)
    d = tempfile.mkdtemp(prefix='c23')
    try:
        fn = os.path.join(d, 'x.dat'); p.write(fn); q = PGF()
        if T.rng.rand() < .3: q.add('old', [1.])
        q.read(fn)
        T.ok(list(q.keys()) == names, 'names read back', got=q.keys())
        T.ok(len(q.columns) == len(names), 'one column per name')
        for a, c in zip(names, cols): T.ok(np.array_equal(np.asarray(q[a], float), np.asarray(c, float)), 'values read back', name=a, got=q[a], want=c)
        fn2 = os.path.join(d, 'y.dat'); q.write(fn2); T.ok(open(fn).read() == open(fn2).read(), 'writing what was read gives the same file')
    finally: shutil.rmtree(d)

@case(40, funcs=['PGF.add'])
def lengths(T):
    """a column of another length is rejected and leaves the table unchanged; stored columns are copies"""
    names, cols = table(T); p = PGF(); n = len(cols[0])
    for a, c in zip(names, cols): p.add(a, c)
    before = [list(map(float, c)) for c in p.columns]
    for m in set([n + 1, max(n - 1, 0), 2 * n]) - {n}:
        T.raises(Exception, lambda: p.add('bad', np.zeros(m)), 'column of length %d accepted after columns of length %d' % (m, n))
        T.ok(list(p.keys()) == names and [list(map(float, c)) for c in p.columns] == before, 'rejected column leaves the table unchanged')
    p = PGF(); c = np.arange(3.); p.add('a', c); c[:] = 9; T.ok(list(p['a']) == [0., 1., 2.], 'stored column is a copy')
    T.raises(Exception, lambda: p['missing'], 'unknown name')
