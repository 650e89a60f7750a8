"""Loops over a symbolic range: inference and verification of loop summaries (inductive invariants).

The body is executed once for a generic iteration k with every location it changes replaced by a
placeholder.  The new value of each location must have one of the recognised inductive forms
(element-wise write, additive / and / or / min / max fold, append, last write); the form is checked
with the solver, and the summary is the closed form whose inductive step was just checked."""
import z3
from fractions import Fraction
from . import sym as s
from . import arr as A
from .arr import SArr, SList, PyRaise, asarr, scalar
from .sym import Sym, S, And, Or, Not, Implies, Unsupported, conc, is_bool, toz3b, INF
from .ctx import idx, iterms

RL, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

def subst_t(t, sub):
    if isinstance(t, bool) or t is None: return t
    r = z3.substitute(t, *sub)
    return r

def subst(v, sub, depth=0):
    """substitute constants in a value"""
    if conc(v) or v is None or isinstance(v, str): return v
    if isinstance(v, z3.BoolRef):
        r = z3.substitute(v, *sub)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        r2 = z3.simplify(r) if len(iterms(r)) < 400 else r
        if z3.is_true(r2): return True
        if z3.is_false(r2): return False
        return r
    if isinstance(v, Sym):
        f = lambda b: b if isinstance(b, bool) else subst(b, sub)
        return s.mk(z3.substitute(v.e, *sub), f(v.pi), f(v.ni), f(v.na))
    if isinstance(v, z3.ArithRef): return z3.substitute(v, *sub)
    if isinstance(v, SArr):
        g = v.getter()
        sh = [d if isinstance(d, int) else A.ix(z3.substitute(d, *sub)) for d in v.shape]
        # evaluate under a neutral index so that captured k's are replaced afterwards
        def fn(*i):
            fr = [z3.Const('sb!%d!%d' % (depth, q), I) for q in range(len(i))]
            # indices may themselves mention the substituted constants: use fresh names, then put them back
            val = g(*fr)
            val = subst(val, sub, depth + 1)
            return subst(val, [(a, idx(b)) for a, b in zip(fr, i)], depth + 1) if i else val
        return SArr(sh, fn, v.kind)
    if isinstance(v, tuple): return tuple(subst(x, sub, depth) for x in v)
    if isinstance(v, list): return [subst(x, sub, depth) for x in v]
    if isinstance(v, dict): return {k: subst(x, sub, depth) for k, x in v.items()}
    if isinstance(v, SList):
        def get(i):
            c = z3.Const('sl!%d' % depth, I)
            return subst(subst(v.get(c), sub, depth + 1), [(c, idx(i))], depth + 1)
        n = v.n if isinstance(v.n, int) else z3.substitute(v.n, *sub)
        return SList(n, get)
    raise Unsupported('loop-carried value %r' % (type(v),))

def mentions(v, names):
    """does the value mention any symbol whose name is in names?"""
    def t(x):
        if isinstance(x, bool): return False
        for u in iterms(x):
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in names: return True
        return False
    if conc(v) or v is None or isinstance(v, str): return False
    if isinstance(v, (z3.BoolRef, z3.ArithRef)): return t(v)
    if isinstance(v, Sym): return t(v.e) or t(v.pi) or t(v.ni) or t(v.na)
    if isinstance(v, SArr):
        return mentions(v.at(*[z3.Const('mn!%d' % q, I) for q in range(v.ndim)]), names)
    if isinstance(v, (tuple, list)): return any(mentions(x, names) for x in v)
    if isinstance(v, SList): return mentions(v.get(z3.Const('mnl!', I)), names)
    raise Unsupported('loop-carried value %r' % (type(v),))

class Loc(object): pass
class LocList(list): pass

def reach(ip, fr):
    """ids of mutable containers that exist before the loop"""
    seen = {}
    st = []
    f = fr
    while f is not None:
        st.extend(f.l.values()); f = f.closure
    while st:
        v = st.pop()
        if id(v) in seen: continue
        from .interp import IObj, IMethod
        if isinstance(v, (list, tuple)): seen[id(v)] = v; st.extend(v)
        elif isinstance(v, dict): seen[id(v)] = v; st.extend(v.values())
        elif isinstance(v, IObj): seen[id(v)] = v; st.extend(v.d.values())
        elif isinstance(v, IMethod): seen[id(v)] = v; st.append(v.self_)
        elif isinstance(v, (SArr, SList)):
            seen[id(v)] = v
            if isinstance(v, SArr) and v.view is not None: st.append(v.view[0])
    return seen

def summarise(ip, st, fr, seq):
    ctx = ip.ctx
    n = seq.n
    pre = reach(ip, fr)
    birth0 = A.BIRTH[0]
    site = ctx.site()
    k = ctx.fresh('k')
    from .interp import _Continue, _Break, _Return

    def body():
        ctx.push_binder(site, k)
        try:
            ip.assign(st.target, seq.get(k), fr)
            for h in ip.iter_hooks: h()
            try: ip.block(st.body, fr)
            except _Continue: pass
            for h in ip.iter_hooks: h()
        finally: ctx.pop_binder()

    plen = len(ctx.path)
    rngk = z3.And(k >= 0, k < idx(n))
    ctx.path.append(rngk)
    try:
        return _summarise(ip, st, fr, seq, ctx, n, k, body, pre, birth0, plen)
    finally:
        # drop the generic-iteration assumption only (facts about the whole loop were added below it)
        if len(ctx.path) > plen and ctx.path[plen] is rngk: del ctx.path[plen]

def _outcome(out): return out

def _summarise(ip, st, fr, seq, ctx, n, k, body, pre, birth0, plen):
    # ---- 1. probe: which locations change?
    locs = {}
    pre_names = set(fr.l)
    fresh_names = set()
    def note(u):
        o = getattr(u, 'obj', None)
        if o is None: raise Unsupported('untracked mutation in a loop body (%s:%d)' % (fr.qual, st.lineno))
        if o[0] == 'name':
            if o[1] is not fr: return           # local of a called function / comprehension
            if o[2] in pre_names: locs[('name', o[2])] = o
            else: fresh_names.add(o[2])
        elif o[0] == 'arr':
            if o[1].birth <= birth0: locs[('arr', id(o[1]))] = o
        elif o[0] in ('list', 'slist', 'dict'):
            if id(o[1]) in pre: locs[(o[0], id(o[1]))] = o
        elif o[0] == 'attr':
            if id(o[1]) in pre:
                c = o[1].cls.lookup(o[2])[0]
                if getattr(c, 'cached', False): return     # memoised property: value-equivalent
                locs[('attr', id(o[1]), o[2])] = o
        else: raise Unsupported('mutation %r' % (o[0],))
    def probe_capture(out):
        for u in ip.trail[mark:]: note(u)
        return out[0]
    mark = len(ip.trail)
    targets = set(x.id for x in __import__('ast').walk(st.target) if hasattr(x, 'id'))
    ip.explore(body, probe_capture)
    for _ in range(3):
        before = set(locs)
        L, restore = install(ip, fr, locs, targets, ctx, n, k); L.birth0 = birth0
        mark = len(ip.trail)
        try: res = ip.explore(body, lambda out: (out[0], out[1], snapshot(ip, fr, L, out), [note(u) for u in ip.trail[mark:]]))
        finally: restore()
        if set(locs) == before: break
    else: raise Unsupported('loop effects do not stabilise')
    names = set()
    for l in L: names |= l.names
    # ---- 2. early exits
    normal = [(c, sn) for c, (kind, v, sn, _) in res if kind in ('val', 'cont')]
    exits = [(c, kind, v) for c, (kind, v, sn, _) in res if kind not in ('val', 'cont')]
    def at(v, j): return subst(v, [(k, idx(j))])
    exact_path = ctx.path[plen]
    def off():       # leave the generic iteration
        if len(ctx.path) > plen and ctx.path[plen] is exact_path: del ctx.path[plen]
    if exits:
        for c, kind, v in exits:
            if mentions(c, names): raise Unsupported('exit condition depends on loop state')
        cond = Or(*[c for c, _, _ in exits])
        kinds = set(kind for _, kind, _ in exits)
        off()
        anyc = ctx.any_(n, lambda j: at(cond, j)) if not isinstance(cond, bool) else And(cond, idx(n) > 0)
        if ip.decide(anyc):
            j0 = ctx.argext('argmin', n, lambda j: s.ite(at(cond, j) if not isinstance(cond, bool) else cond, 0, 1))
            ctx.learn(And(j0 >= 0, j0 < idx(n), at(cond, j0) if not isinstance(cond, bool) else cond))
            if kinds == {'exc'}: raise exits[0][2]
            if len(exits) == 1 and exits[0][1] == 'ret':
                from .interp import _Return
                raise _Return(at(exits[0][2], j0))
            raise Unsupported('early exit with loop state')
        ctx.path.insert(plen, exact_path)
        ctx.path.insert(plen + 1, toz3b(Not(cond)))
        try: upd = recognise(ip, fr, L, normal, ctx, n, k, names)
        finally: del ctx.path[plen + 1]
    else:
        upd = recognise(ip, fr, L, normal, ctx, n, k, names)
    off()
    # ---- 3. apply the closed forms
    for l, val in upd: l.set(val)
    for nm in fresh_names | targets:
        if nm in targets or nm in fresh_names:
            from .interp import Opaque
            ip.store_name(fr, nm, Opaque('loop-local %s' % nm))
    # a value of a fresh local after the loop is the one of the last iteration
    return

# ------------------------------------------------------------------------------------------------
def install(ip, fr, locs, targets, ctx, n, k):
    """put placeholders in every changed location"""
    L = LocList()
    undo = []
    ALIAS = L.alias = []
    for key, o in list(locs.items()):
        if key[0] == 'name' and key[1] in targets: continue
        if key[0] == 'name' and isinstance(fr.l[key[1]], SArr) and ('arr', id(fr.l[key[1]])) in locs:
            ALIAS.append((fr, key[1], fr.l[key[1]])); continue      # x op= y rebinding x to the same array
        l = Loc(); l.key = key
        tag = 'ph!%d' % ctx.nq if False else 'ph!%s' % ctx.site()
        l.names = set()
        if key[0] in ('name', 'attr'):
            if key[0] == 'name':
                l.init = fr.l[key[1]]
                l.get = (lambda nm: lambda: fr.l[nm])(key[1])
                l.set = (lambda nm: lambda v: ip.store_name(fr, nm, v))(key[1])
                l.raw = (lambda nm: lambda v: fr.l.__setitem__(nm, v))(key[1])
            else:
                ob, nm = o[1], o[2]
                if nm not in ob.d: raise Unsupported('attribute created in a loop')
                l.init = ob.d[nm]
                l.get = (lambda ob, nm: lambda: ob.d[nm])(ob, nm)
                l.set = (lambda ob, nm: lambda v: ip.setattr_raw(ob, nm, v))(ob, nm)
                l.raw = (lambda ob, nm: lambda v: ob.d.__setitem__(nm, v))(ob, nm)
            v = l.init
            if isinstance(v, (list, SList)): l.kind = 'list'; mk_list(l, tag)
            elif isinstance(v, SArr): l.kind = 'arr'; mk_arr(l, v, tag)
            elif is_bool(v): l.kind = 'bool'; l.ph = z3.Const(tag, B); l.names.add(tag)
            elif scalar(v): l.kind = 'num'; mk_num(l, v, tag)
            elif v is None or isinstance(v, str) or not scalar(v): l.kind = 'opaque'; mk_opaque(l)
            l.raw(l.ph); undo.append((l, l.init))
        elif key[0] == 'arr':
            a = o[1]; l.kind = 'arr'; l.obj = a
            if a.view is not None: raise Unsupported('loop writes through a view')
            mk_arr(l, a, tag)
            l.old = (a._fn, a._cache, a.meta)
            g = a.getter(); l.init = SArr(a.shape, g, a.kind)
            l.get = (lambda a: lambda: SArr(a.shape, a.getter(), a.kind))(a)
            l.set = (lambda a: lambda v: a.setfn(v.getter()))(a)
            a._fn, a._cache, a.meta = l.ph._fn, {}, {}
            undo.append((l, None))
        elif key[0] in ('list', 'slist'):
            ob = o[1]; l.kind = 'list'; l.obj = ob
            l.init = list(ob) if isinstance(ob, list) else SList(ob.n, ob.get)
            l.container = ob
            mk_list(l, tag)
            if isinstance(ob, list): ob[:] = l.ph
            else:
                def nope(i): raise Unsupported('loop reads the list it builds')
                ob.ph = list(l.ph); ob.n, ob.get = None, nope
            l.get = (lambda ob: lambda: list(ob) if isinstance(ob, list) else list(ob.ph))(ob)
            l.set = (lambda ob: lambda v: rebind(ip, fr, ob, v))(ob)
            undo.append((l, None))
        else: raise Unsupported('loop mutates a %s' % key[0])
        L.append(l)
    def restore():
        for l, v in undo:
            if l.key[0] in ('name', 'attr'): l.raw(v)
            elif l.key[0] == 'arr': l.obj._fn, l.obj._cache, l.obj.meta = l.old
            elif isinstance(l.obj, list): l.obj[:] = l.init
            else: l.obj.n, l.obj.get, l.obj.ph = l.init.n, l.init.get, None
    return L, restore

def mk_num(l, v, tag):
    e = z3.Const(tag, I if (isinstance(v, int) or (isinstance(v, Sym) and v.isint)) else RL)
    l.names.add(tag)
    l.flags = [z3.Const(tag + f, B) for f in ('p', 'n', 'a')]
    l.names |= {tag + f for f in 'pna'}
    l.e = e
    l.ph = Sym(e, *l.flags) if not z3.is_int(e) else Sym(e)
    l.isint = z3.is_int(e)

def mk_arr(l, a, tag):
    tag = tag.replace('ph!', 'pha!')
    nd = a.ndim
    if a.kind == 'b':
        f = z3.Function(tag, *([I] * nd + [B])); l.names.add(tag); l.f = f
        l.ph = SArr(a.shape, lambda *i: f(*[idx(x) for x in i]), 'b')
    else:
        srt = I if a.kind == 'i' else RL
        f = z3.Function(tag, *([I] * nd + [srt])); l.names.add(tag); l.f = f
        fl = [z3.Function(tag + q, *([I] * nd + [B])) for q in 'pna']; l.fl = fl
        l.names |= {tag + q for q in 'pna'}
        if a.kind == 'i': l.ph = SArr(a.shape, lambda *i: Sym(f(*[idx(x) for x in i])), 'i')
        else: l.ph = SArr(a.shape, lambda *i: Sym(f(*[idx(x) for x in i]), *[g(*[idx(x) for x in i]) for g in fl]), a.kind)

class PhMark(object):
    """placeholder prefix of a list under construction"""
    def __init__(self, tag): self.tag = tag
def mk_list(l, tag):
    l.mark = PhMark(tag); l.ph = [l.mark]
def mk_opaque(l):
    from .interp import Opaque
    l.ph = Opaque('loop state')

def snapshot(ip, fr, L, out):
    if out[0] not in ('val', 'cont'): return None
    for f, nm, ob in L.alias:
        if f.l.get(nm) is not ob: raise Unsupported('array variable %s is updated in place and rebound in a loop' % nm)
    def snap_list(v):
        # arrays made in this iteration are rolled back with the exploration: keep their current contents
        return [snap_arr(x) if isinstance(x, SArr) and x.birth > L.birth0 else x for x in v] if isinstance(v, list) else v
    return [snap_list(l.get()) if l.kind == 'list' else l.get() if l.kind != 'arr' or l.key[0] == 'arr' else snap_arr(l.get()) for l in L]
def snap_arr(v):
    return SArr(v.shape, v.getter(), v.kind, meta=dict(v.meta)) if isinstance(v, SArr) else v

def rebind(ip, fr, ob, v):
    """replace a list object by a symbolic list everywhere it is visible"""
    if isinstance(ob, SList):
        ob.n, ob.get = v.n, v.get; return
    if isinstance(v, list):
        old = list(ob)
        u = lambda: ob.__setitem__(slice(None), old)
        u.obj = ('list', ob); ip.trail.append(u)
        ob[:] = v; return
    hit = False
    f = fr
    while f is not None:
        for nm, x in list(f.l.items()):
            if x is ob: ip.store_name(f, nm, v); hit = True
        f = f.closure
    from .interp import IObj
    for x in reach(ip, fr).values():
        if isinstance(x, IObj):
            for nm, y in list(x.d.items()):
                if y is ob: ip.setattr_raw(x, nm, v); hit = True
        elif isinstance(x, list) and any(y is ob for y in x):
            if any(isinstance(y, tuple) and any(z is ob for z in y) for y in x): raise Unsupported('nested list built in a symbolic loop')
            old = list(x); u = (lambda x, old: lambda: x.__setitem__(slice(None), old))(x, old)
            u.obj = ('list', x); ip.trail.append(u)
            x[:] = [v if y is ob else y for y in x]; hit = True
        elif isinstance(x, tuple) and any(y is ob for y in x): raise Unsupported('nested list built in a symbolic loop')
    if not hit: raise Unsupported('list built in a symbolic loop is not visible')

# ------------------------------------------------------------------------------------------------
def recognise(ip, fr, L, normal, ctx, n, k, names):
    if not normal:
        return []
    todo = list(range(len(L)))
    solved = {}
    out = []
    msgs = []
    prefix = []         # (Loc, fn(j) -> value before iteration j)
    progress = True
    while todo and progress:
        progress = False
        for q in list(todo):
            l = L[q]
            others = set()
            for q2 in todo:
                if q2 != q: others |= L[q2].names
            conds = [c for c, _ in normal]
            vals = [sn[q] for _, sn in normal]
            # replace solved placeholders by their prefix values
            conds = [apply_prefix(c, prefix, k) for c in conds]
            vals = [apply_prefix(v, prefix, k) for v in vals]
            try: r = form(ip, fr, l, list(zip(conds, vals)), ctx, n, k, others)
            except Unsupported as e: msgs.append(str(e)); continue
            out.append((l, r[0])); todo.remove(q); progress = True
            if r[1] is not None: prefix.append((l, r[1]))
    if todo: raise Unsupported('loop at %s not summarised: %s' % (fr.qual, '; '.join(msgs[-3:])))
    return out

def apply_prefix(v, prefix, k):
    for l, pf in prefix:
        if l.kind in ('num',):
            w = S(pf(k))
            sub = [(l.e, w.e if z3.is_int(l.e) == z3.is_int(w.e) else s.R(w.e))] + [(f, s.toz3b(b)) for f, b in zip(l.flags, (w.pi, w.ni, w.na))]
        elif l.kind == 'bool': sub = [(l.ph, toz3b(pf(k)))]
        else: continue
        if isinstance(v, (Sym, z3.BoolRef, SArr)) : v = subst(v, sub)
        elif isinstance(v, list): v = [x if isinstance(x, PhMark) else subst(x, sub) for x in v]
    return v

def gen(ctx, cond): return ctx.refutable(Not(cond)) if not isinstance(cond, bool) else cond

def quick(f, names):
    """validity of a formula whose subterms free of the loop state are taken as arbitrary values"""
    if isinstance(f, bool): return f
    f = z3.simplify(f)
    memo, fresh = {}, {}
    def has(t):
        k = t.get_id()
        if k not in memo: memo[k] = (z3.is_app(t) and t.decl().name() in names) or any([has(c) for c in t.children()]) if z3.is_app(t) else True
        return memo[k]
    out = {}
    def go(t):
        k = t.get_id()
        if k in out: return out[k][1]
        if z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t): r = t
        elif not has(t) and not (z3.is_bool(t) and (z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_eq(t) or z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t))) and t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_ITE, z3.Z3_OP_UMINUS):
            if z3.is_mul(t) and any(z3.is_rational_value(c) for c in t.children()): r = t.decl()(*[go(c) for c in t.children()])
            else: r = z3.FreshConst(t.sort(), 'ab')
        elif t.num_args() == 0: r = t
        else: r = t.decl()(*[go(c) for c in t.children()])
        out[k] = (t, r); return r
    if not z3.is_quantifier(f):
        try: g = go(f)
        except z3.Z3Exception: return False
        so = z3.Solver(); so.set('timeout', 1000); so.add(z3.Not(g))
        return so.check() == z3.unsat
    return False

def provably(ctx, f):
    if isinstance(f, bool): return f
    return ctx.prove(f, timeout=4000)[0] == 'proved'

def form(ip, fr, l, cv, ctx, n, k, others):
    at = lambda v, j: subst(v, [(k, idx(j))])
    if l.kind == 'list': return form_list(ip, fr, l, cv, ctx, n, k, others)
    if l.kind == 'opaque': return form_opaque(ip, l, cv, ctx, n, k, others)
    v = ip.merge(cv)
    if l.kind in ('num', 'bool') and not scalar(v): return last_write(ip, l, v, ctx, n, k, others)
    if l.kind == 'num':
        if is_bool(v): v = s.mk(S(v).e)
        return form_num(ip, l.init, lambda: (l.e, l.flags), v, l.names, ctx, n, k, others, l.isint, at)
    if l.kind == 'bool':
        v = v if is_bool(v) else s.ne(v, 0)
        return form_bool(ip, l.init, l.ph, v, l.names, ctx, n, k, others, at)
    if l.kind == 'arr': return form_arr(ip, l, v, ctx, n, k, others, at)
    raise Unsupported('loop state %s' % l.kind)

def pick(ip, n, j, a, b):
    """a if n > 0 else b"""
    if isinstance(n, int): return a if n > 0 else b
    return ip.ite(idx(n) > 0, a, b) if not ip.ctx.refutable(idx(n) <= 0) else a

def last_write(ip, l, v, ctx, n, k, others):
    if mentions(v, l.names | others): raise Unsupported('loop-carried value %s' % (l.key[1],))
    fin = subst(v, [(k, idx(A.isub(n, 1)))])
    if ctx.refutable(idx(n) <= 0): return fin, None
    return ip.ite(idx(n) > 0, fin, l.init), None

def form_opaque(ip, l, cv, ctx, n, k, others):
    v = ip.merge(cv)
    from .interp import Opaque
    if isinstance(v, Opaque): return l.init, None
    return last_write(ip, l, v, ctx, n, k, others)

def form_num(ip, init, ph, v, names, ctx, n, k, others, isint, at):
    e, flags = ph()
    if mentions(v, others): raise Unsupported('loop-carried value depends on unresolved state')
    if not mentions(v, names):
        fin = at(v, A.isub(n, 1))
        if not ctx.refutable(idx(n) <= 0): fin = s.ite(idx(n) > 0, fin, init)
        return fin, lambda j: s.ite(A.ile(1, j), at(v, A.isub(j, 1)), init)
    v = S(v)
    FF = [(f, z3.BoolVal(False)) for f in flags]
    # additive: finite part = e + delta
    vf = S(subst(v, FF))
    if vf.plain and not isinstance(vf, (int, Fraction)):
        p = dict(ctx.poly(s.R(vf.e)))
        ee = ctx._atom(s.R(e)); key = list(ee)[0]
        if p.get(key) == 1:
            del p[key]
            delta = frompoly(ctx, p)
            if not mentions(delta, names):
                dl = (lambda j: Sym(z3.substitute(delta, (k, idx(j)))))
                iv = init
                if not conc(iv) and not S(iv).plain: raise Unsupported('fold from a non-finite value')
                if isint and z3.is_to_real(delta) or isint:
                    pass
                tot = lambda m: s.add(init, ctx.sum_(m, dl) if not isinstance(m, int) else ctx.sum_(m, dl))
                return tot(n), tot
        # multiplicative
        if len(p) == 1 and list(p.values())[0] == 1:
            (mon, _), = p.items()
            ids = dict(mon)
            if ids.get(s.R(e).get_id()) == 1:
                rest = [ctx.atoms[a] for a, q in mon for _ in range(q) if a != s.R(e).get_id()]
                f = rest[0]
                for r in rest[1:]: f = f * r
                if not mentions(f, names):
                    tot = lambda m: s.mul(init, ctx.prod_(m, lambda j: Sym(z3.substitute(f, (k, idx(j))))))
                    return tot(n), tot
    num_ = lambda c: z3.IntVal(c) if z3.is_int(e) else z3.RealVal(c)
    full = Sym(e, *flags) if not z3.is_int(e) else Sym(e)
    for pv_ in (lambda f: quick(f, names), lambda f: provably(ctx, f)):
        # conditional additive / multiplicative: the update at 0 (at 1) is the increment (the factor)
        if vf.plain and not isinstance(vf, (int, Fraction)) and z3.is_app(vf.e):
            fits = lambda op, d: pv_(s.eq(vf, op(Sym(e), d))) and (conc(init) or S(init).plain or pv_(Implies(And(Not(And(full.pi, full.ni)), Not(And(full.pi, full.na)), Not(And(full.ni, full.na))), s.same(v, op(full, d)))))
            d0 = subst(vf, [(e, num_(0))])
            if not mentions(d0, names) and fits(s.add, d0):
                tot = lambda m: s.add(init, ctx.sum_(m, lambda j: subst(d0, [(k, idx(j))])))
                return tot(n), tot
            d1 = subst(vf, [(e, num_(1))])
            if not mentions(d1, names) and fits(s.mul, d1):
                tot = lambda m: s.mul(init, ctx.prod_(m, lambda j: subst(d1, [(k, idx(j))])))
                return tot(n), tot
        # min / max fold
        for kind, acc, op in (('argmin', INF, s.pymin), ('argmax', -INF, s.pymax)):
            sub = [(flags[0], z3.BoolVal(acc == INF)), (flags[1], z3.BoolVal(acc == -INF)), (flags[2], z3.BoolVal(False)), (e, z3.RealVal(0) if not z3.is_int(e) else z3.IntVal(0))]
            c = subst(v, sub)
            c = Sym(z3.simplify(c.e), c.pi, c.ni, c.na) if isinstance(c, Sym) else c
            if mentions(c, names): continue
            goal = Implies(And(Not(full.na) if not isinstance(full.na, bool) else True, Not(And(full.pi, full.ni))),
                           And(s.same(v, op(full, c)), Not(s.isnan(c))))
            if pv_(goal):
                def tot(m):
                    if isinstance(m, int) and m == 0: return init
                    w = ctx.argext(kind, m, lambda j: at(c, j))
                    r = op(init, at(c, w))
                    if isinstance(m, int) or ctx.refutable(idx(m) <= 0): return r
                    return s.ite(idx(m) > 0, r, init)
                return tot(n), tot
    raise Unsupported('numeric loop state has no recognised inductive form')

def frompoly(ctx, p):
    tot = None
    for mon, c in p.items():
        t = None if (c == 1 and mon) else s.R(s.const(Fraction(c)))
        for a, q in mon:
            for _ in range(q): t = ctx.atoms[a] if t is None else t * ctx.atoms[a]
        tot = t if tot is None else tot + t
    return z3.RealVal(0) if tot is None else s.R(tot)

def form_bool(ip, init, ph, v, names, ctx, n, k, others, at):
    if mentions(v, others): raise Unsupported('loop-carried value depends on unresolved state')
    if not mentions(v, names):
        fin = at(v, A.isub(n, 1))
        if not ctx.refutable(idx(n) <= 0): fin = s.ite(idx(n) > 0, fin, init)
        return fin, None
    vt, vf = subst(v, [(ph, z3.BoolVal(True))]), subst(v, [(ph, z3.BoolVal(False))])
    if vf is False or provably(ctx, Not(vf)):
        tot = lambda m: And(init, ctx.all_(m, lambda j: at(vt, j)))
        return tot(n), tot
    if vt is True or provably(ctx, vt):
        tot = lambda m: Or(init, ctx.any_(m, lambda j: at(vf, j)))
        return tot(n), tot
    raise Unsupported('boolean loop state has no recognised inductive form')

def form_arr(ip, l, v, ctx, n, k, others, at):
    if not isinstance(v, SArr): raise Unsupported('array becomes a scalar in a loop')
    if v.ndim != l.ph.ndim or any(A.dimeq(a, b) is not True for a, b in zip(v.shape, l.ph.shape)):
        if not mentions(v, l.names | others): return last_write(ip, l, v, ctx, n, k, others)
        raise Unsupported('array changes shape in a loop')
    nd = v.ndim
    ii = [0 if isinstance(d, int) and d == 1 else ctx.fresh('i') for d in v.shape]
    rng = And(*[And(i >= 0, i < idx(d)) for i, d in zip(ii, v.shape) if not isinstance(i, int)])
    g = v.getter(); init = l.init.getter()
    plen = len(ctx.path)
    if rng is not True: ctx.path.append(rng)
    try:
        gv = g(*ii)
        if mentions(gv, others): raise Unsupported('array update depends on unresolved state')
        pv = l.ph.at(*ii)
        sub_i = lambda val, idxs: subst(val, [(a, idx(b)) for a, b in zip(ii, idxs) if not isinstance(a, int)])
        if not mentions(gv, l.names):
            fin = at(gv, A.isub(n, 1))
            nn = ctx.refutable(idx(n) <= 0)
            return SArr(v.shape, lambda *i: sub_i(fin, i) if nn else s.ite(idx(n) > 0, sub_i(fin, i), init(*i)), v.kind), None
        # element-wise write along one axis
        for ax in range(nd):
            if isinstance(ii[ax], int): continue
            off = None
            for cand in offsets(gv, ii[ax], k):
                off = cand; break
            if off is None:
                if not guarded(gv, ii[ax]): continue
                off = 0
            other = provably(ctx, Implies(ii[ax] != A.idx(A.iadd(k, off)), s.same(gv, pv) if l.ph.kind != 'b' else s.Iff(gv, pv)))
            if not other: continue
            val = subst(gv, [(ii[ax], idx(A.iadd(k, off)))])
            if mentions(val, l.names):
                # may read its own old element (in-place update of row k): replace by the initial value
                val2 = repl_self(l, val, init)
                if mentions(val2, l.names): continue
                val = val2
            def fn(*i):
                j = A.isub(i[ax], off)
                w = subst(val, [(ii[q], idx(i[q])) for q in range(nd) if q != ax and not isinstance(ii[q], int)] + [(k, idx(j))])
                c = And(A.ile(0, j), A.ilt(j, n))
                if c is True: return w
                if c is False: return init(*i)
                if ctx.refutable(Not(c)): return w
                return s.ite(c, w, init(*i))
            return SArr(v.shape, fn, v.kind), None
        # folds element by element
        if l.ph.kind == 'b':
            phb = z3.Const('phel', B)
            gv2 = z3.substitute(toz3b(gv), (pv, phb))
            if mentions(gv2, l.names): raise Unsupported('array fold reads other elements')
            def fn(*i):
                r, _ = form_bool(ip, init(*i), phb, sub_i(gv2, i), {'phel'}, ctx, n, k, set(), at)
                return r
            form_bool(ip, init(*ii), phb, gv2, {'phel'}, ctx, n, k, set(), at)
            return SArr(v.shape, fn, 'b'), None
        pe = z3.Const('phel', I if l.ph.kind == 'i' else RL); pf = [z3.Const('phel' + q, B) for q in 'pna']
        sub = [(pv.e, pe)] + [(b, f) for b, f in zip((pv.pi, pv.ni, pv.na), pf) if not isinstance(b, bool)]
        gv2 = subst(gv, sub)
        if mentions(gv2, l.names):
            # other elements read only where they are this one (guarded by index equalities)
            gw = self_reads(l, gv, ii)
            if gw is not None and provably(ctx, s.same(gv, gw)): gv2 = subst(gw, sub)
        nm = {'phel', 'phelp', 'pheln', 'phela'}
        if mentions(gv2, l.names): raise Unsupported('array fold reads other elements')
        def fn(*i):
            return form_num(ip, init(*i), lambda: (pe, pf), sub_i(gv2, i), nm, ctx, n, k, set(), l.ph.kind == 'i', at)[0]
        form_num(ip, init(*ii), lambda: (pe, pf), gv2, nm, ctx, n, k, set(), l.ph.kind == 'i', at)
        return SArr(v.shape, fn, v.kind), None
    finally: del ctx.path[plen:]

def offsets(gv, i, k):
    """candidate c with an equation  i == k + c  in the value"""
    ts = []
    if isinstance(gv, Sym):
        for x in (gv.e, gv.pi, gv.ni, gv.na):
            if not isinstance(x, bool): ts += iterms(x)
    elif isinstance(gv, z3.BoolRef): ts = iterms(gv)
    for t in ts:
        if z3.is_eq(t) and z3.is_int(t.arg(0)):
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if a.eq(i):
                    d = z3.simplify(b - k)
                    if not any(u.eq(k) or u.eq(i) for u in iterms(d)):
                        v = s.unwrap(d); yield d if v is None else v

def guarded(gv, i):
    """the value compares the index with something"""
    for x in ((gv.e, gv.pi, gv.ni, gv.na) if isinstance(gv, Sym) else (gv,)):
        if isinstance(x, bool): continue
        for t in iterms(x):
            if z3.is_app(t) and t.num_args() == 2 and z3.is_bool(t) and z3.is_int(t.arg(0)) and any(u.eq(i) for c in t.children() for u in iterms(c)): return True
    return False

def self_reads(l, val, ii):
    """every placeholder element read replaced by the current element"""
    if not isinstance(val, Sym): return None
    sub = []
    for x in (val.e, val.pi, val.ni, val.na):
        if isinstance(x, bool): continue
        for t in iterms(x):
            if z3.is_app(t) and t.decl().name() in l.names and t.num_args() == len(ii):
                sub.append((t, t.decl()(*[idx(i) for i in ii])))
    return subst(val, sub)

def repl_self(l, val, init):
    """replace placeholder element reads by the initial contents"""
    for _ in range(20):
        hit = None
        ts = []
        for x in ((val.e, val.pi, val.ni, val.na) if isinstance(val, Sym) else (val,)):
            if not isinstance(x, bool): ts += iterms(x)
        for t in ts:
            if z3.is_app(t) and t.decl().name() in l.names and not any(z3.is_app(c) and c.decl().name() in l.names for a in t.children() for c in iterms(a)):
                hit = t; break
        if hit is None: return val
        w = init(*[A.ix(c) for c in hit.children()])
        nm = hit.decl().name()
        if l.ph.kind == 'b': val = subst(val, [(hit, toz3b(w))])
        else:
            w = S(w)
            if hit.decl().eq(l.f): val = subst(val, [(hit, w.e if z3.is_int(hit) == z3.is_int(w.e) else s.R(w.e))])
            else:
                q = [f.name() for f in l.fl].index(nm)
                val = subst(val, [(hit, toz3b((w.pi, w.ni, w.na)[q]))])
    raise Unsupported('nested self reads')

def form_list(ip, fr, l, cv, ctx, n, k, others):
    """append, conditional append"""
    adds = []
    for c, v in cv:
        if not isinstance(v, list) or not v or v[0] is not l.mark:
            raise Unsupported('list state is not an append')
        adds.append((c, v[1:]))
    init = l.init
    nonempty = [(c, a) for c, a in adds if a]
    if not nonempty: return init, None
    lens = set(len(a) for c, a in adds)
    for c, a in adds:
        for x in a:
            if isinstance(x, PhMark) or mentions(x, l.names | others): raise Unsupported('appended value depends on loop state')
    if len(lens) == 1 and list(lens)[0] == 1:
        val = ip.merge([(c, a[0]) for c, a in adds])
        new = SList(n, memo(lambda i: subst(val, [(k, idx(i))])))
        return ip.listcat(init, new), None
    if lens == {0, 1}:
        cond = Or(*[c for c, a in nonempty])
        if mentions(cond, l.names | others): raise Unsupported('append condition depends on loop state')
        val = ip.merge([(c, a[0]) for c, a in nonempty])
        cnt, sel, inv = ctx.select(idx(n), lambda j: z3.substitute(toz3b(cond), (k, idx(j))))
        new = SList(cnt, memo(lambda i: subst(val, [(k, idx(sel(i)))])))
        return ip.listcat(init, new), None
    raise Unsupported('several appends per iteration')

def memo(f):
    c = {}
    return lambda i: A.cached_at(c, f, (i,))
