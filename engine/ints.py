"""canonical linear forms for integer expressions"""
from . import expr as X
from .expr import E, isE


def parts(e):
    if not isE(e):
        return e, {}
    if e.op == 'lin':
        return e.args[0], {a: c for a, c in zip(e.args[1::2], e.args[2::2])}
    return 0, {e: 1}


def make(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    flat = []
    for a, k in sorted(d.items(), key=lambda t: t[0].id):
        flat += [a, k]
    return X.mk('lin', 'I', c, *flat)


def add(a, b, k=1):
    if not isE(a) and not isE(b):
        return a + k * b
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    d = dict(d1)
    for x, v in d2.items():
        d[x] = d.get(x, 0) + k * v
    return make(c1 + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if not isE(a) and not isE(b):
        return a * b
    if isE(a) and isE(b):
        ca, da = parts(a)
        cb, db = parts(b)
        r = ca * cb
        d = {}
        for x, v in da.items():
            d[x] = d.get(x, 0) + v * cb
        for x, v in db.items():
            d[x] = d.get(x, 0) + v * ca
        for x, v in da.items():
            for y, w in db.items():
                p, q = (x, y) if x.id <= y.id else (y, x)
                m = X.mk('*', 'I', p, q)
                d[m] = d.get(m, 0) + v * w
        return make(r, d)
    if isE(b):
        a, b = b, a
    c, d = parts(a)
    return make(c * b, {x: v * b for x, v in d.items()})


def divexact(a, k):
    """a / k if every coefficient is divisible, else None"""
    if not isE(a):
        return a // k if a % k == 0 else None
    c, d = parts(a)
    if c % k or any(v % k for v in d.values()):
        return None
    return make(c // k, {x: v // k for x, v in d.items()})


def cmp0(a, b):
    """a-b if it is a constant, else None"""
    r = sub(a, b)
    return None if isE(r) else r


def lt(a, b):
    r = sub(b, a)
    return (r > 0) if not isE(r) else X.mk('<', 'B', 0, r)


def le(a, b):
    r = sub(b, a)
    return (r >= 0) if not isE(r) else X.mk('<=', 'B', 0, r)


def eq(a, b):
    r = sub(b, a)
    if not isE(r):
        return r == 0
    c, d = parts(r)
    if next(iter(sorted(d.items(), key=lambda t: t[0].id)))[1] < 0:
        r = mul(r, -1)
    return X.mk('==', 'B', r, 0)
