"""Trusted models of the functions that are not executed from /repo's text:
the harness API (vc_*), libm, the allocator, LLVM intrinsics and the C++ runtime."""
import time
from fractions import Fraction
from . import expr as X, ints, poly, solve
from .expr import E, isE

NOFINISH = object()


class H:
    def __init__(self, fn, override=False):
        self.fn, self.override = fn, override

    def __call__(self, *a):
        return self.fn(*a)


TAB = {}
PREFIX = []


def reg(*names, override=False):
    def d(f):
        h = H(f, override)
        for n in names:
            TAB[n] = h
        return f
    return d


def pre(*names, override=True):
    def d(f):
        h = H(f, override)
        for n in names:
            PREFIX.append((n, h))
        return f
    return d


_cache = {}


def lookup(name):
    if name in _cache:
        return _cache[name]
    h = TAB.get(name)
    if h is None:
        for p, q in PREFIX:
            if name.startswith(p):
                h = q
                break
    _cache[name] = h
    return h


def cstr(ex, st, p):
    o = ex.deref(st, p, 1)
    out = []
    i = p.off
    while True:
        c = ex.load(st, type(p)(p.obj, i), ('int', 8))
        if isE(c) or c == 0:
            break
        out.append(chr(c & 255))
        i += 1
        if len(out) > 4000:
            break
    return ''.join(out)


# ---------------------------------------------------------------- harness API
def once(st, nm):
    """every input of an entry has a name of its own: one name for two inputs would silently make them equal"""
    from .symex import Unsupported
    if not nm:
        raise Unsupported('input without a name')
    if ('in', nm) in st.info:
        raise Unsupported('input name used twice: ' + nm)
    st.info[('in', nm)] = 1


@reg('vc_again_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    if ('in', nm) not in st.info:
        from .symex import Unsupported
        raise Unsupported('no input of that name: ' + nm)
    return X.var(nm, 'R')


@reg('vc_real_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    once(st, nm)
    return X.var(nm, 'R')


@reg('vc_limit_', override=True)
def _(ex, st, a, n):
    once(st, cstr(ex, st, a[0]))
    v = X.limit_var(cstr(ex, st, a[0]))
    ex.assume(st, X.lt(1, v))
    return v


@reg('vc_int_', override=True)
def vc_int(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    lo, hi = a[1], a[2]
    once(st, nm)
    for k in range(hi, lo, -1):
        s2 = st.copy()
        s2.choices[nm] = k
        fr = s2.frames[-1]
        ins = fr.fn.blocks[fr.blk][fr.ip]
        ex.finish_call(s2, ins, k)
        ex.work.append(s2)
    st.choices[nm] = lo
    return lo


@reg('vc_symint_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    once(st, nm)
    v = X.var(nm, 'I')
    ex.assume(st, ints.le(a[1], v))
    ex.assume(st, ints.le(v, a[2]))
    return v


@reg('vc_len_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    once(st, 'len:' + nm)
    v = X.var('len:' + nm, 'I')
    st.info['haslen'] = 1
    ex.assume(st, ints.le(a[1], v))
    return v


@reg('vc_bool_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    once(st, nm)
    return X.var(nm, 'B')


def asbool(v):
    if isE(v):
        if v.sort == 'I':
            return X.not_(ints.eq(v, 0))
        return v
    return bool(v)


@reg('vc_assume_', override=True)
def _(ex, st, a, n):
    from .symex import PathEnd
    c = asbool(a[0])
    if isE(c):
        ex.assume(st, c)
        if c.op in ('or', 'and') or True:
            if not ex.feasible(st, True) if False else False:
                raise PathEnd
    else:
        ex.assume(st, c)
    return None


@reg('vc_assert_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    ex.oblige(st, nm, asbool(a[1]))
    return None


@reg('vc_eq_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    ex.oblige(st, nm, X.eq(X.fr(a[1]), X.fr(a[2])))
    return None


@reg('vc_reach_', override=True)
def _(ex, st, a, n):
    nm = cstr(ex, st, a[0])
    if ex.reached.get(nm) != 'sat':
        r = solve.check(st.pc, 3000)[0] if st.pc else 'sat'
        if r == 'sat' or nm not in ex.reached:
            ex.reached[nm] = r
    return None


@reg('vc_note_', override=True)
def _(ex, st, a, n):
    ex.notes.add(cstr(ex, st, a[0]))
    return None


@reg('vc_native_', override=True)
def _(ex, st, a, n):
    return 0


@reg('vc_fresh_', override=True)
def _(ex, st, a, n):
    return X.fresh(cstr(ex, st, a[0]), 'R')


@reg('vc_fun_', override=True)
def _(ex, st, a, n):
    p, k = a[1], a[2]
    args = [ex.load(st, type(p)(p.obj, p.off + 8 * i), ('fp', 'double')) for i in range(k)]
    return X.app('u:' + cstr(ex, st, a[0]), *args)


@reg('vc_symarray_', override=True)
def _(ex, st, a, n):
    from .symex import SymArr
    nm = cstr(ex, st, a[0])
    once(st, 'arr:' + nm)
    p = ex.alloc(st, ints.mul(a[1], a[2]), 'heap', nm)
    st.mem[p.obj].sym = SymArr(nm, a[1], a[2])
    return p


@reg('vc_arrsort_', override=True)
def _(ex, st, a, n):
    """declare the sort of one field of a symbolic array: 'I' / 'R' / 'B'"""
    o = st.w(a[0].obj)
    s = {0: 'R', 1: 'I'}[a[2]]
    o.sym.f[a[1]] = [('base', '%s.%d' % (o.sym.name, a[1]), s)]
    return None


@reg('vc_jac_', override=True)
def _(ex, st, a, n):
    """in, out, n, m, J"""
    pin, pout, nn, mm, pj = a
    D = ('fp', 'double')
    P = type(pin)
    ins = [ex.load(st, P(pin.obj, pin.off + 8 * i), D) for i in range(nn)]
    outs = [ex.load(st, P(pout.obj, pout.off + 8 * i), D) for i in range(mm)]
    for j, v in enumerate(ins):
        if not (isE(v) and v.op == 'var'):
            raise Unsup('vc_jac: input %d is not a variable' % j)
        memo = {}
        for i, o in enumerate(outs):
            if isE(o):
                o = resolve_fabs(ex, st, o)
            ex.store(st, P(pj.obj, pj.off + 8 * (i * nn + j)), D, X.diff(o, v, memo))
    return None


def resolve_fabs(ex, st, e):
    return e


def Unsup(s):
    from .symex import Unsupported
    return Unsupported(s)


# ---------------------------------------------------------------- libm
def m1(f):
    def g(ex, st, a, n):
        return X.func(f, a[0])
    return g


for _f in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'exp', 'log', 'fabs', 'log10', 'log2',
           'expm1', 'log1p', 'erf', 'erfc', 'cbrt', 'tgamma', 'lgamma', 'floor', 'ceil', 'trunc', 'round', 'nearbyint', 'rint',
           'asinh', 'acosh', 'atanh', 'exp2'):
    h = H(m1(_f), True)
    TAB[_f] = h
    TAB['llvm.%s.f64' % _f] = h


def _exp2(ex, st, a, n):
    return X.func('pow', Fraction(2), a[0])


TAB['exp2'] = TAB['llvm.exp2.f64'] = H(_exp2, True)


def _ldexp(ex, st, a, n):
    if isE(a[1]):
        raise Unsup('ldexp')
    return X.mul(Fraction(2) ** a[1], X.fr(a[0]))


TAB['ldexp'] = TAB['llvm.ldexp.f64.i32'] = H(_ldexp, True)


def _round(ex, st, a, n):
    # half away from zero
    v = X.fr(a[0])
    h = Fraction(1, 2)
    return X.ite(X.le(Fraction(0), v), X.func('floor', X.add(v, h)), X.neg(X.func('floor', X.sub(h, v))))


TAB['round'] = TAB['llvm.round.f64'] = H(_round, True)
for _f in ('floor', 'ceil', 'trunc'):
    def _fl(ex, st, a, n, f=_f):
        v = X.fr(a[0])
        if not isE(v):
            import math
            return Fraction(getattr(math, f)(v))
        return X.func(f, v)
    TAB[_f] = TAB['llvm.%s.f64' % _f] = H(_fl, True)


@reg('llvm.fabs.f64', 'fabs', override=True)
def _(ex, st, a, n):
    x = a[0]
    if isinstance(x, list):
        return [X.func('fabs', y) for y in x]
    x = X.fr(x)
    if not isE(x):
        return abs(x)
    c = X.le(Fraction(0), x)
    r = ex.decide(st, c) if ex.o.get('fabs_decide', True) else None
    if r is True:
        return x
    if r is False:
        return X.neg(x)
    return X.func('fabs', x)


@reg('sqrt', 'llvm.sqrt.f64', override=True)
def _(ex, st, a, n):
    x = X.fr(a[0])
    if isE(x) and not ex.o.get('nosqrt'):
        key = ('sq', x.id)
        if key not in st.info:
            st.info[key] = 1
            ex.oblige(st, 'safe:square root of a non-negative value', X.le(Fraction(0), x), 'safety')
    elif not isE(x) and x < 0:
        ex.oblige(st, 'safe:square root of a non-negative value', False, 'safety')
    r = X.func('sqrt', x)
    # sqrt(y*y) = |y|
    if isE(r) and r.op == 'app' and isE(x) and x.op == '*' and x.args[0] is x.args[1]:
        return TAB['fabs'].fn(ex, st, [x.args[0]], 'fabs')
    return r


@reg('pow', 'llvm.pow.f64', override=True)
def _(ex, st, a, n):
    return X.func('pow', a[0], a[1])


@reg('llvm.powi.f64.i32', override=True)
def _(ex, st, a, n):
    return X.func('pow', a[0], Fraction(a[1]))


def polar(ex, st, x, y):
    """(r, b) when x = r cos b, y = r sin b for an angle b written in x and y, with r > 0 and |b| < pi proved"""
    if not isE(x) or not isE(y):
        return None
    cs = {t.args[1] for t in X.topo([x]) if t.op == 'app' and t.args[0] == 'cos'} & \
         {t.args[1] for t in X.topo([y]) if t.op == 'app' and t.args[0] == 'sin'}
    for b in cs:
        if not isE(b):
            continue
        s, c = X.func('sin', b), X.func('cos', b)
        try:
            if not poly.prove_zero(X.sub(X.mul(y, c), X.mul(x, s)), time.time() + 5):
                continue
        except (poly.TooBig, ZeroDivisionError):
            continue
        r = X.add(X.mul(x, c), X.mul(y, s))
        pi = Fraction(314159265, 100000000)
        if ex.decide(st, X.lt(Fraction(0), r)) is True and ex.decide(st, X.and_(X.lt(-pi, b), X.lt(b, pi))) is True:
            return r, b
    return None


@reg('atan2', override=True)
def _(ex, st, a, n):
    y, x = X.fr(a[0]), X.fr(a[1])
    if not isE(y) and y == 0 and not isE(x) and x > 0:
        return Fraction(0)
    p = polar(ex, st, x, y)
    return p[1] if p else X.func('atan2', y, x)


def of_atan2(f):
    g = m1(f)

    def h(ex, st, a, n):
        t = X.fr(a[0])
        if ex.o.get('polar') and isE(t) and t.op == 'app' and t.args[0] == 'atan2':
            y, x = t.args[1], t.args[2]
            q = X.add(X.mul(x, x), X.mul(y, y))
            v = X.div(x if f == 'cos' else y, X.func('sqrt', q))
            if ex.decide(st, X.lt(Fraction(0), q)) is True:
                return v
            return X.ite(X.eq(q, Fraction(0)), Fraction(1 if f == 'cos' else 0), v)
        return g(ex, st, a, n)
    return h


for _f in ('cos', 'sin'):
    TAB[_f] = TAB['llvm.%s.f64' % _f] = H(of_atan2(_f), True)


@reg('hypot', override=True)
def _(ex, st, a, n):
    return X.func('sqrt', X.add(X.mul(X.fr(a[0]), X.fr(a[0])), X.mul(X.fr(a[1]), X.fr(a[1]))))


@reg('cabs', override=True)
def _(ex, st, a, n):
    re, im = cplx(ex, st, a)
    p = polar(ex, st, X.fr(re), X.fr(im))
    if p:
        return p[0]
    return X.func('sqrt', X.add(X.mul(re, re), X.mul(im, im)))


@reg('carg', override=True)
def _(ex, st, a, n):
    re, im = cplx(ex, st, a)
    return TAB['atan2'].fn(ex, st, [im, re], 'atan2')


@reg('cexp', override=True)
def _(ex, st, a, n):
    re, im = cplx(ex, st, a)
    e = X.func('exp', re)
    return [X.mul(e, X.func('cos', im)), X.mul(e, X.func('sin', im))]


def cplx(ex, st, a):
    if len(a) == 1 and isinstance(a[0], list):
        return X.fr(a[0][0]), X.fr(a[0][1])
    return X.fr(a[0]), X.fr(a[1])


@reg('__muldc3', override=True)
def _(ex, st, a, n):
    p, q, r, s = [X.fr(v) for v in a]
    return [X.sub(X.mul(p, r), X.mul(q, s)), X.add(X.mul(p, s), X.mul(q, r))]


@reg('__divdc3', override=True)
def _(ex, st, a, n):
    p, q, r, s = [X.fr(v) for v in a]
    d = X.add(X.mul(r, r), X.mul(s, s))
    return [ex.fdiv(st, X.add(X.mul(p, r), X.mul(q, s)), d), ex.fdiv(st, X.sub(X.mul(q, r), X.mul(p, s)), d)]


@reg('fmod', override=True)
def _(ex, st, a, n):
    from .symex import fmod
    return fmod(a[0], a[1])


@reg('fmin', 'llvm.minnum.f64', override=True)
def _(ex, st, a, n):
    x, y = X.fr(a[0]), X.fr(a[1])
    return pick(ex, st, X.le(x, y), x, y)


@reg('fmax', 'llvm.maxnum.f64', override=True)
def _(ex, st, a, n):
    x, y = X.fr(a[0]), X.fr(a[1])
    return pick(ex, st, X.le(x, y), y, x)


@reg('_ZSt3minIdET_St16initializer_listIS0_E', '_ZSt3maxIdET_St16initializer_listIS0_E', override=True)
def _(ex, st, a, n):
    """extremum of a braced list: the value that bounds all of them and equals one of them"""
    from .symex import Ptr
    if isE(a[1]) or a[1] < 1:
        raise NotImplementedError
    vs = [X.fr(ex.load(st, Ptr(a[0].obj, ints.add(a[0].off, 8 * i)), ('fp', 'double'))) for i in range(a[1])]
    if all(not isE(v) for v in vs):
        return min(vs) if 'min' in n else max(vs)
    m = X.fresh('extremum', 'R')
    some = False
    for v in vs:
        ex.assume(st, X.le(m, v) if 'min' in n else X.le(v, m))
        some = X.or_(some, X.eq(m, v))
    ex.assume(st, some)
    return m


def pick(ex, st, c, x, y):
    r = ex.decide(st, c)
    if r is None:
        from .symex import ForkCond
        raise ForkCond(c)
    return x if r else y


@reg('llvm.copysign.f64', 'copysign', override=True)
def _(ex, st, a, n):
    x, s = X.func('fabs', X.fr(a[0])), X.fr(a[1])
    return pick(ex, st, X.le(Fraction(0), s), x, X.neg(x))


@reg('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma', override=True)
def _(ex, st, a, n):
    return X.add(X.mul(X.fr(a[0]), X.fr(a[1])), X.fr(a[2]))


@reg('modf', override=True)
def _(ex, st, a, n):
    t = X.func('trunc', a[0])
    ex.store(st, a[1], ('fp', 'double'), t)
    return X.sub(X.fr(a[0]), t)


@reg('llvm.is.fpclass.f64', '__isnan', 'isnan', '__isinf', 'isinf', override=True)
def _(ex, st, a, n):
    return 0


@reg('__finite', 'finite', 'isfinite', override=True)
def _(ex, st, a, n):
    return 1


def mmi(f):
    def g(ex, st, a, n):
        x, y = a[0], a[1]
        c = ints.le(x, y)
        t, u = (x, y) if f == 'min' else (y, x)
        if not isE(c):
            return t if c else u
        return pick(ex, st, c, t, u)
    return g


for _b in (32, 64):
    for _s in 'su':
        TAB['llvm.%smin.i%d' % (_s, _b)] = H(mmi('min'), True)
        TAB['llvm.%smax.i%d' % (_s, _b)] = H(mmi('max'), True)


@reg('llvm.abs.i32', 'llvm.abs.i64', 'abs', 'labs', override=True)
def _(ex, st, a, n):
    x = a[0]
    if not isE(x):
        return abs(x)
    return pick(ex, st, ints.le(0, x), x, ints.mul(x, -1))


# ---------------------------------------------------------------- memory
@reg('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', override=True)
def _(ex, st, a, n):
    p = ex.alloc(st, a[0], 'heap', 'new')
    if isE(a[0]):
        from .symex import SymArr
        c, d = ints.parts(a[0])
        if c == 0 and len(d) == 1:
            (v, k), = d.items()
            st.mem[p.obj].sym = SymArr('uninit!%d' % p.obj, k, v)
        else:
            import math
            g = 0
            for k in list(d.values()) + [c]:
                g = math.gcd(g, k)
            st.mem[p.obj].sym = SymArr('uninit!%d' % p.obj, g, ints.divexact(a[0], g))
    return p


@reg('calloc', override=True)
def _(ex, st, a, n):
    p = ex.alloc(st, ints.mul(a[0], a[1]), 'heap', 'calloc')
    st.mem[p.obj].zero = True
    return p


@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm', override=True)
def _(ex, st, a, n):
    p = a[0]
    if p.obj is None:
        return None
    o = st.mem.get(p.obj)
    if o is None or o.kind != 'heap':
        ex.fail(st, 'delete of a non-heap object')
    if isE(p.off) or p.off != 0:
        ex.fail(st, 'delete of an interior pointer')
    if not o.alive:
        ex.fail(st, 'double free')
    st.w(p.obj).alive = False
    return None


@reg('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove', override=True)
def _(ex, st, a, n):
    if isE(a[2]):
        from . import loops
        loops.symcopy(ex, st, a[0], a[1], a[2])
    else:
        ex.memcpy(st, a[0], a[1], a[2])
    return a[0] if n[0] == 'm' else None


@reg('llvm.memset.p0.i64', 'memset', override=True)
def _(ex, st, a, n):
    p, v, k = a[0], a[1], a[2]
    if isE(k):
        o = st.mem[p.obj]
        if not isE(v) and v == 0 and o.sym is None and isE(o.size) and not isE(p.off) and p.off == 0:
            st.w(p.obj).zero = True
            return p
        raise Unsup('symbolic memset')
    if k == 0:
        return p
    ex.deref(st, p, k)
    o = st.w(p.obj)
    if v != 0 or isE(v):
        if isE(v):
            raise Unsup('memset value')
        for i in range(k):
            ex.put(o, p.off + i, 1, v)
        return p
    if k == o.size:
        o.cells.clear()
        o.zero = True
        return p
    for c in [c for c, x in o.cells.items() if c < p.off + k and c + x[0] > p.off]:
        x = o.cells[c]
        if c >= p.off and c + x[0] <= p.off + k:
            del o.cells[c]
        else:
            ex.put(o, max(c, p.off), 1, 0)
    if not o.zero:
        i = 0
        while i < k:
            s = 8 if (p.off + i) % 8 == 0 and i + 8 <= k else 4 if (p.off + i) % 4 == 0 and i + 4 <= k else 1
            o.cells[p.off + i] = (s, 0)
            i += s
    return p


@reg('memcmp', 'strncmp', override=True)
def _(ex, st, a, n):
    if isE(a[2]):
        raise Unsup('memcmp')
    P = type(a[0])
    for i in range(a[2]):
        x = ex.load(st, P(a[0].obj, a[0].off + i), ('int', 8))
        y = ex.load(st, P(a[1].obj, a[1].off + i), ('int', 8))
        if isE(x) or isE(y):
            raise Unsup('memcmp of symbolic bytes')
        if x != y:
            return -1 if (x & 255) < (y & 255) else 1
        if n == 'strncmp' and x == 0:
            return 0
    return 0


@reg('strlen', override=True)
def _(ex, st, a, n):
    return len(cstr(ex, st, a[0]))


@reg('strcmp', override=True)
def _(ex, st, a, n):
    x, y = cstr(ex, st, a[0]), cstr(ex, st, a[1])
    return 0 if x == y else -1 if x < y else 1


@reg('memchr', override=True)
def _(ex, st, a, n):
    P = type(a[0])
    for i in range(a[2]):
        x = ex.load(st, P(a[0].obj, a[0].off + i), ('int', 8))
        if isE(x):
            raise Unsup('memchr of symbolic bytes')
        if (x & 255) == (a[1] & 255):
            return P(a[0].obj, a[0].off + i)
    return P(None, 0)


# ---------------------------------------------------------------- intrinsics
@pre('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.invariant.', 'llvm.stackrestore',
     'llvm.prefetch', 'llvm.va_', 'llvm.donothing')
def _(ex, st, a, n):
    return None


@pre('llvm.expect.')
def _(ex, st, a, n):
    return a[0]


@pre('llvm.trap', 'llvm.ubsantrap')
def _(ex, st, a, n):
    ex.fail(st, 'trap')


@pre('llvm.stacksave')
def _(ex, st, a, n):
    return type('x', (), {})() if False else 0


@pre('llvm.ctlz.')
def _(ex, st, a, n):
    if isE(a[0]):
        return X.fresh('ctlz', 'I')
    bits = int(n.split('.i')[1])
    v = a[0] & ((1 << bits) - 1)
    return bits - v.bit_length()


@pre('llvm.cttz.')
def _(ex, st, a, n):
    bits = int(n.split('.i')[1])
    v = a[0] & ((1 << bits) - 1)
    return bits if v == 0 else (v & -v).bit_length() - 1


@pre('llvm.umul.with.overflow.')
def _(ex, st, a, n):
    return [ints.mul(a[0], a[1]), 0]


@pre('llvm.is.constant')
def _(ex, st, a, n):
    return 0


@pre('llvm.objectsize')
def _(ex, st, a, n):
    return -1


@reg('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0', override=True)
def _(ex, st, a, n):
    return ex.tid(a[0].obj[1] if isinstance(a[0].obj, tuple) else '')


# ---------------------------------------------------------------- C++ runtime
@reg('__cxa_allocate_exception', override=True)
def _(ex, st, a, n):
    return ex.alloc(st, a[0], 'heap', 'exception')


@reg('__cxa_free_exception', '__cxa_atexit', '__cxa_guard_abort', override=True)
def _(ex, st, a, n):
    return 0


@reg('__cxa_throw', override=True)
def _(ex, st, a, n):
    ex.throw(st, a[0], a[1].obj[1])
    return NOFINISH


@reg('__cxa_rethrow', override=True)
def _(ex, st, a, n):
    c = st.info.get('caught', ())
    e = c[-1] if c else st.exc
    ex.throw(st, e[0], e[1])
    return NOFINISH


@reg('__cxa_begin_catch', override=True)
def _(ex, st, a, n):
    st.info['caught'] = st.info.get('caught', ()) + (st.exc,)
    return a[0]


@reg('__cxa_end_catch', override=True)
def _(ex, st, a, n):
    c = st.info.get('caught', ())
    if not c or st.exc is c[-1]:        # not while another exception leaves the handler
        st.exc = None
    st.info['caught'] = c[:-1]
    return None


@reg('__cxa_get_exception_ptr', override=True)
def _(ex, st, a, n):
    return a[0]


@reg('__cxa_guard_acquire', override=True)
def _(ex, st, a, n):
    p = a[0]
    o = st.mem[p.obj]
    c = o.cells.get(p.off)
    if c is not None and c[1] == 1:
        return 0
    return 1


@reg('__cxa_guard_release', override=True)
def _(ex, st, a, n):
    ex.store(st, a[0], ('int', 8), 1)
    return None


def thrower(ti):
    def f(ex, st, a, n):
        p = ex.alloc(st, 64, 'heap', 'exception')
        ex.throw(st, p, ti)
        return NOFINISH
    return f


for _n, _t in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('__cxa_bad_cast', '_ZTISt8bad_cast'), ('__cxa_throw_bad_array_new_length', '_ZTISt9bad_alloc'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt9exception')):
    TAB[_n] = H(thrower(_t), True)


@reg('_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__cxa_call_unexpected', '__assert_fail', '__cxa_call_terminate', override=True)
def _(ex, st, a, n):
    ex.fail(st, 'call of ' + n)


@reg('exit', override=True)
def _(ex, st, a, n):
    ex.fail(st, 'process exit')


@reg('__dynamic_cast', override=True)
def _(ex, st, a, n):
    p, src, dst, hint = a
    if p.obj is None:
        return p
    vt = ex.load(st, p, ('ptr',))
    P = type(p)
    # find complete object: offset-to-top at vtable[-2], typeinfo at vtable[-1]
    top = ex.load(st, P(vt.obj, vt.off - 16), ('int', 64))
    ti = ex.load(st, P(vt.obj, vt.off - 8), ('ptr',))
    full = P(p.obj, ints.add(p.off, top))
    r = find_base(ex, st, full, ti.obj[1], dst.obj[1])
    return r if r is not None else P(None, 0)


def find_base(ex, st, p, ti, want):
    if ti == want:
        return p
    if ti not in ex.m.globals or ex.m.globals[ti][1]:
        return None
    _, init = ex.m_init(ti)
    if not init or init[0] != 'agg':
        return None
    items = [v for t, v in init[1]]
    kind = str(items[0])
    P = type(p)
    if '__si_class_type_info' in kind:
        return find_base(ex, st, p, items[2][1], want)
    if '__vmi_class_type_info' in kind:
        i = 4
        while i + 1 < len(items):
            bt, off = items[i][1], items[i + 1][1]
            o = off >> 8
            if off & 1:     # virtual base: offset in the vtable
                vt = ex.load(st, p, ('ptr',))
                o = ex.load(st, P(vt.obj, vt.off + o), ('int', 64))
            r = find_base(ex, st, P(p.obj, ints.add(p.off, o)), bt, want)
            if r is not None:
                return r
            i += 2
    return None


# streams: formatted output has no effect on the verified state; every call returns its stream
@pre('_ZNSo', '_ZStlsI', '_ZSt16__ostream_insert', '_ZSt4endlI', '_ZSt5flushI', '_ZSt4endsI', '_ZNSt9basic_ios', '_ZNSt8ios_base',
     '_ZNSt6localeC', '_ZNSt6localeD', '_ZNSt7__cxx1115basic_stringbuf', '_ZNSt7__cxx1118basic_stringstream',
     '_ZNSt7__cxx1119basic_ostringstream', '_ZNSt7__cxx1119basic_istringstream', '_ZNSt14basic_ofstream', '_ZNSt14basic_ifstream',
     '_ZNSt13basic_filebuf', '_ZNSt15basic_streambuf', '_ZNKSt14basic_ofstream', '_ZStlsISt11char_traits', '_ZNSolsE',
     '_ZNSt13basic_fstream')
def _(ex, st, a, n):
    ex.notes.add('formatted stream output is modelled as having no effect on program state')
    return a[0] if a else None


@pre('_ZNSi', '_ZStrsI', '_ZSt7getlineI', '_ZSt2wsI')
def _(ex, st, a, n):
    raise Unsup('stream input ' + n)


@pre('_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3str', '_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3str',
     '_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE3str')
def _(ex, st, a, n):
    # sret: empty std::string
    p = a[0]
    P = type(p)
    ex.store(st, p, ('ptr',), P(p.obj, p.off + 16))
    ex.store(st, P(p.obj, p.off + 8), ('int', 64), 0)
    ex.store(st, P(p.obj, p.off + 16), ('int', 8), 0)
    return None


@reg('puts', 'printf', 'putchar', 'fflush', 'fprintf', override=True)
def _(ex, st, a, n):
    return 0


@reg('rand', override=True)
def _(ex, st, a, n):
    v = X.fresh('rand', 'I')
    ex.assume(st, ints.le(0, v))
    return v


@reg('__gxx_personality_v0', override=True)
def _(ex, st, a, n):
    return 0


@reg('clock', 'time', override=True)
def _(ex, st, a, n):
    return 0


# standard exception objects: the text of what() is not modelled
_STR = 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
for _c in ('13runtime_error', '11logic_error', '12out_of_range', '16invalid_argument', '12length_error', '11range_error', '12domain_error'):
    for _k in ('C1', 'C2', 'D1', 'D2', 'D0'):
        for _s in ('E' + _STR, 'EPKc', 'Ev', 'ERKS_'):
            if _k[0] == 'D' and _s != 'Ev':
                continue
            TAB['_ZNSt' + _c + _k + _s] = H(lambda ex, st, a, n: None, False)
