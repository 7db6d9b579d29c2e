"""Hash-consed expression DAG over the sorts R (real), I (integer), B (boolean).

Python Fractions stand for real constants, ints for integer constants and bools
for boolean constants, so folding happens in the smart constructors below."""
from fractions import Fraction
import itertools

_tab = {}
_cnt = itertools.count()


class E:
    __slots__ = ('op', 'args', 'sort', 'id', 'cache')

    def __repr__(self):
        return show(self)


def mk(op, sort, *args):
    key = (op, sort) + tuple((a.id if isinstance(a, E) else (type(a), a)) for a in args) \
        + tuple(isinstance(a, E) for a in args)
    e = _tab.get(key)
    if e is None:
        e = E.__new__(E)
        e.op, e.args, e.sort, e.id, e.cache = op, args, sort, next(_cnt), None
        _tab[key] = e
    return e


def show(e, depth=6):
    if not isinstance(e, E):
        return str(e)
    if e.op == 'var':
        return e.args[0]
    if depth == 0:
        return '..'
    return '(' + e.op + ' ' + ' '.join(show(a, depth - 1) for a in e.args) + ')'


_fresh = itertools.count()


def var(name, sort):
    return mk('var', sort, name)


def fresh(prefix, sort):
    return mk('var', sort, '%s!%d' % (prefix, next(_fresh)))


def isE(x):
    return isinstance(x, E)


def conc(*xs):
    return not any(isinstance(x, E) for x in xs)


# ---- reals -----------------------------------------------------------------
def fr(x):
    return x if isinstance(x, (Fraction, E)) else Fraction(x)


def add(a, b):
    if conc(a, b):
        return a + b
    if not isE(a) and a == 0:
        return b
    if not isE(b) and b == 0:
        return a
    if not isE(b):           # constant first
        a, b = b, a
    if not isE(a) and b.op == '+' and not isE(b.args[0]):
        return add(a + b.args[0], b.args[1])
    s = _sort(a, b)
    return mk('+', s, a, b)


def _sort(a, b):
    return a.sort if isE(a) else b.sort


def neg(a):
    if not isE(a):
        return -a
    if a.op == '*' and not isE(a.args[0]):
        return mul(-a.args[0], a.args[1])
    return mul(-1 if a.sort == 'I' else Fraction(-1), a)


def sub(a, b):
    if conc(a, b):
        return a - b
    if a is b:
        return 0 if a.sort == 'I' else Fraction(0)
    return add(a, neg(b))


def mul(a, b):
    if conc(a, b):
        return a * b
    if not isE(b):
        a, b = b, a
    if not isE(a):
        if a == 0:
            return a
        if a == 1:
            return b
        if b.op == '*' and not isE(b.args[0]):
            return mul(a * b.args[0], b.args[1])
    s = _sort(a, b)
    return mk('*', s, a, b)


def div(a, b):
    """real division"""
    if not isE(b) and b != 0:
        return mul(1 / Fraction(b), a) if isE(a) else Fraction(a) / b
    if not isE(a) and a == 0 and isE(b):
        return Fraction(0)
    if a is b and isE(a):
        return Fraction(1)
    if INFINITE is not None and INFINITE in map(id, _factors(b)):
        return Fraction(0)
    return mk('/', 'R', a, b)


def _factors(e):
    while isE(e) and e.op == '*':
        yield from _factors(e.args[1])
        e = e.args[0]
    if isE(e):
        yield e


INFINITE = None         # id of the variable standing for a limit to infinity (vc_limit)


def limit_var(name):
    global INFINITE
    v = var('limit:' + name, 'R')
    INFINITE = id(v)
    return v


def app(f, *args):
    return mk('app', 'R', f, *args)


def ite(c, a, b):
    if not isE(c):
        return a if c else b
    if a is b or (conc(a, b) and a == b and type(a) == type(b)):
        return a
    if isE(a):
        s = a.sort
    elif isE(b):
        s = b.sort
    else:
        s = 'B' if isinstance(a, bool) else 'R' if isinstance(a, Fraction) else 'I'
    if s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    return mk('ite', s, c, a, b)


# ---- booleans --------------------------------------------------------------
def not_(a):
    if not isE(a):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', 'B', a)


def and_(a, b):
    if not isE(a):
        return b if a else False
    if not isE(b):
        return a if b else False
    if a is b:
        return a
    return mk('and', 'B', a, b)


def or_(a, b):
    if not isE(a):
        return True if a else b
    if not isE(b):
        return True if b else a
    if a is b:
        return a
    return mk('or', 'B', a, b)


def xor_(a, b):
    if not isE(a):
        return not_(b) if a else b
    if not isE(b):
        return not_(a) if b else a
    return mk('xor', 'B', a, b)


def lt(a, b):
    if conc(a, b):
        return a < b
    if a is b:
        return False
    return mk('<', 'B', a, b)


def le(a, b):
    if conc(a, b):
        return a <= b
    if a is b:
        return True
    return mk('<=', 'B', a, b)


def eq(a, b):
    if conc(a, b):
        return a == b
    if a is b:
        return True
    if not isE(a):
        a, b = b, a
    return mk('==', 'B', a, b)


# ---- real functions --------------------------------------------------------
def func(f, *a):
    a = tuple(fr(x) for x in a)
    if f == 'fabs':
        x = a[0]
        if not isE(x):
            return abs(x)
        if x.op == 'app' and x.args[0] in ('fabs', 'sqrt', 'exp', 'cosh'):
            return x
        if x.op == '*' and not isE(x.args[0]):
            return mul(abs(x.args[0]), app('fabs', x.args[1]))
        return app('fabs', x)
    if f == 'sqrt':
        x = a[0]
        if not isE(x):
            import math
            if x >= 0:
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n * n == x.numerator and d * d == x.denominator:
                    return Fraction(n, d)
        return app('sqrt', x)
    if f in ('sin', 'tan', 'sinh', 'tanh', 'atan', 'asin', 'log1p', 'expm1') and not isE(a[0]) and a[0] == 0:
        return Fraction(0)
    if f in ('cos', 'cosh', 'exp') and not isE(a[0]) and a[0] == 0:
        return Fraction(1)
    if f == 'log' and not isE(a[0]) and a[0] == 1:
        return Fraction(0)
    if f == 'tan':
        return div(func('sin', a[0]), func('cos', a[0]))
    if f == 'tanh':
        return div(func('sinh', a[0]), func('cosh', a[0]))
    if f == 'pow':
        x, n = a
        if not isE(n):
            if n.denominator == 1 and abs(n) <= 16:
                k = abs(int(n))
                r = Fraction(1)
                for _ in range(k):
                    r = mul(r, x)
                return r if n >= 0 else div(Fraction(1), r)
            if n.denominator == 2 and abs(n) < 8:
                s = func('sqrt', x)
                return func('pow', s, 2 * n)
        return app('pow', x, n)
    return app(f, *a)


def children(e):
    return [x for x in e.args if isinstance(x, E)]


def topo(roots):
    """all sub-expressions, children first"""
    seen, out, st = set(), [], [(r, False) for r in roots if isE(r)]
    while st:
        e, done = st.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        st.append((e, True))
        for c in children(e):
            if c.id not in seen:
                st.append((c, False))
    return out


def rebuild(e, args):
    op = e.op
    if op == '+':
        return add(*args)
    if op == '*':
        return mul(*args)
    if op == '/':
        return div(*args)
    if op == 'app':
        return func(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'xor':
        return xor_(*args)
    if op == '<':
        return lt(*args)
    if op == '<=':
        return le(*args)
    if op == '==':
        return eq(*args)
    return mk(op, e.sort, *args)


def subst(e, m):
    """m: dict id -> replacement"""
    if not isE(e):
        return e
    memo = dict(m)
    for x in topo([e]):
        if x.id in memo:
            continue
        if not children(x):
            memo[x.id] = x
            continue
        args = [memo[c.id] if isE(c) else c for c in x.args]
        memo[x.id] = x if all(p is q for p, q in zip(args, x.args)) else rebuild(x, args)
    return memo[e.id]


def variables(e):
    return [x for x in topo([e]) if x.op == 'var'] if isE(e) else []


def diff(e, v, memo):
    """d e / d v for real expressions; memo: dict"""
    if not isE(e):
        return Fraction(0)
    for x in topo([e]):
        if x.id in memo:
            continue
        memo[x.id] = _d1(x, v, memo)
    return memo[e.id]


def _d1(x, v, memo):
    z = Fraction(0)

    def d(a):
        return memo[a.id] if isE(a) else z
    if x is v:
        return Fraction(1)
    op = x.op
    if op == 'var' or x.sort == 'B':
        return z
    if op == '+':
        return add(d(x.args[0]), d(x.args[1]))
    if op == '*':
        a, b = x.args
        return add(mul(d(a), b), mul(a, d(b)))
    if op == '/':
        a, b = x.args
        da, db = d(a), d(b)
        if not isE(db) and db == 0:
            return div(da, b)
        return div(sub(mul(da, b), mul(a, db)), mul(b, b))
    if op == 'ite':
        return ite(x.args[0], d(x.args[1]), d(x.args[2]))
    if op == 'app':
        f = x.args[0]
        a = x.args[1]
        da = d(a)
        if all(not isE(d(k)) and d(k) == 0 for k in x.args[1:]):
            return z
        if len(x.args) != 2:
            raise NotImplementedError('derivative of ' + f)
        if f == 'sin':
            return mul(da, func('cos', a))
        if f == 'cos':
            return neg(mul(da, func('sin', a)))
        if f == 'sinh':
            return mul(da, func('cosh', a))
        if f == 'cosh':
            return mul(da, func('sinh', a))
        if f == 'exp':
            return mul(da, x)
        if f == 'log':
            return div(da, a)
        if f == 'sqrt':
            return div(da, mul(Fraction(2), x))
        if f == 'asin':
            return div(da, func('sqrt', sub(Fraction(1), mul(a, a))))
        if f == 'atan':
            return div(da, add(Fraction(1), mul(a, a)))
        if f == 'fabs':
            return mul(da, div(x, a))
        raise NotImplementedError('derivative of ' + f)
    if x.sort == 'I':
        return z
    if op in ('sel', 'sum', 'toreal', 'floor') and not any(w is v for w in variables(x)):
        return z
    raise NotImplementedError('derivative of ' + op)


def _lin_rebuild(args):
    from . import ints
    r = args[0]
    for a, k in zip(args[1::2], args[2::2]):
        r = ints.add(r, ints.mul(a, k))
    return r


_old_rebuild = rebuild


def rebuild(e, args):          # noqa: F811
    if e.op == 'lin':
        return _lin_rebuild(args)
    if e.sort == 'I' and e.op == '*':
        from . import ints
        return ints.mul(*args)
    if e.op in ('<', '<=', '==') and any((isE(a) and a.sort == 'I') for a in e.args):
        from . import ints
        return {'<': ints.lt, '<=': ints.le, '==': ints.eq}[e.op](*args)
    return _old_rebuild(e, args)
