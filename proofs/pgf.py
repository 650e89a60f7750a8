"""C23: plot data files.  Files are sequences of lines; the text of a number is an opaque piece without white space that float()
maps back to the number (shortest round-trip decimals), names are arbitrary texts without tabs and line breaks."""
from .ext import *
from pv.interp import IObj, IClass
import re
PG = 'psdr.pgf:PGF'

class Files(object):
    """text files: open / write / iterate"""
    def __init__(self, v):
        self.v, self.ip, self.d = v, v.ip, {}
        v.ip.builtins['open'] = Builtin('open', self.open)
        v.ip.iter_hooks = []
    def tokens(self, line):
        vals = []
        def sub(m): vals.append(self.ip.texts[int(m.group(1))]); return '\ue000\ue001'
        return (re.sub('\ue000(\\d+)\ue001', sub, line),) + tuple(vals)
    def line(self, t):
        it = iter(t[1:])
        def sub(m): self.ip.texts.append(next(it)); return '\ue000%d\ue001' % (len(self.ip.texts) - 1)
        return re.sub('\ue000\ue001', sub, t[0])
    def open(self, name, mode='r', *a, **k):
        ip = self.ip; st = {'buf': ''}
        if 'b' in mode or 'a' in mode or '+' in mode: raise Unsupported('file mode %s' % mode)
        if 'w' in mode:
            o = IObj(IClass('TextFile', [], {}, None)); rows = SList(0, None); o.d['rows'] = rows; self.d[name] = (rows, st)
            def hook():
                if st['buf']: raise Unsupported('line spans iterations of a loop')
            ip.iter_hooks = ip.iter_hooks + [hook]
            app = ip.getattr(rows, 'append')
            def write(x):
                if not isinstance(x, str): raise PyRaise('TypeError', 'write() argument must be str')
                if '?str' in x: raise Unsupported('text written is unknown')
                old = st['buf']; u = lambda: st.update(buf=old); u.obj = ('list', st); ip.trail.append(u)
                *done, rest = (old + x).split('\n')
                st['buf'] = rest
                for l in done: ip.call(app, [self.tokens(l)])
            o.d['write'] = Builtin('write', write)
            def wl(xs):
                for x in ip.iter_list(xs): write(x)
            o.d['writelines'] = Builtin('writelines', wl)
            o.d['close'] = Builtin('close', lambda: None); o.d['flush'] = Builtin('flush', lambda: None)
            return o
        rows, st = self.d[name]
        def get(i): return self.line(rows.get(i)) + '\n'
        if st['buf']: raise Unsupported('last line without end')
        it = SList(rows.n, get)
        o = IObj(IClass('TextFile', [], {'__iter__': Builtin('__iter__', lambda f: it)}, None))
        o.d['readlines'] = Builtin('readlines', lambda: it); o.d['close'] = Builtin('close', lambda: None)
        return o

def name(v, i): v.ip.texts.append(('name', i)); return '\ue000%d\ue001' % (len(v.ip.texts) - 1)

def names_ok(v, got, want):
    key = lambda t: v.ip.texts[int(t[1:-1])] if isinstance(t, str) and re.fullmatch('\ue000(\\d+)\ue001', t) else t
    v.ob('names in order', [key(t) for t in got] == [key(t) for t in want])

def cols_ok(v, p, names, cols, n):
    """same names, order, values"""
    names_ok(v, v.call(p, 'keys'), names)
    cs = v.attr(p, 'columns'); v.ob('one column per name', len(cs) == len(cols))
    for c, d in zip(cs, cols):
        q = v.ip.as_seq(c); nn = len(q) if isinstance(q, list) else q.n
        v.ob('length kept', nn == n if isinstance(nn, int) and isinstance(n, int) else idx(nn) == idx(n))
        at = (lambda q: lambda j: (q[j] if isinstance(q, list) else q.get(j)))(q)
        v.forall('values kept', [n], lambda j: s.eq(v.ip.np.d['_cast'](v.ip.builtins['float'], at(j)), d.at(j)))

def table(v, k, tag=''):
    n = v.int('n', lo=0); return n, [name(v, i) for i in range(k)], [v.arr('c%d' % i, n) for i in range(k)]

def do_round(v, k, old):
    fs = Files(v); v.ip.peel['psdr.pgf:PGF.read'] = 1
    n, names, cols = table(v, k); p = v.new(PG)
    for a, c in zip(names, cols): v.call(p, 'add', a, c)
    cols_ok(v, p, names, cols, n)
    v.call(p, 'write', 'out')
    cols_ok(v, p, names, cols, n)
    q = v.new(PG)
    if old: v.call(q, 'add', 'old', [0, 1])
    v.call(q, 'read', 'out')
    cols_ok(v, q, names, cols, n)

@target('C23', PG + '.add', PG + '.write', PG + '.read', PG + '.keys')
def round1(v):
    """one column of any length: names, order and values survive writing and reading"""
    do_round(v, 1, False)
@target('C23', PG + '.add', PG + '.write', PG + '.read')
def round2(v):
    """two columns of any length; what the reader held before is replaced"""
    do_round(v, 2, True)
@target('C23', PG + '.add', PG + '.write', PG + '.read')
def round3(v):
    """three columns of any length"""
    do_round(v, 3, False)

@target('C23', PG + '.add')
def add_length(v):
    """a column of another length is rejected and nothing is stored; of the same length it is accepted"""
    n, names, cols = table(v, 2); k = v.int('k', lo=0); extra = v.arr('x', k); p = v.new(PG)
    for a, c in zip(names, cols): v.call(p, 'add', a, c)
    z = name(v, 9)
    try: v.call(p, 'add', z, extra); ok = True
    except PyRaise as e: ok = False
    if ok: v.ob('accepted only with the same length', idx(k) == idx(n)); cols_ok(v, p, names + [z], cols + [extra], n)
    else: v.ob('rejected only with another length', idx(k) != idx(n)); cols_ok(v, p, names, cols, n)

@target('C23', PG + '.add')
def add_first(v):
    """a first column of any length is accepted and copied"""
    n, names, cols = table(v, 1); p = v.new(PG); c = cols[0]; c0 = SArr((n,), c.getter()); v.call(p, 'add', names[0], c)
    A.setitem(c, slice(None), 7); cols_ok(v, p, names, [c0], n)

@target('C23', PG + '.__getitem__', PG + '.keys')
def getitem(v):
    """columns are retrieved by name"""
    n, names, cols = table(v, 3); p = v.new(PG)
    for a, c in zip(names, cols): v.call(p, 'add', a, c)
    for a, c in zip(names, cols): v.eq_arr('column by name', v.call(p, '__getitem__', a), (n,), lambda j: c.at(j))
