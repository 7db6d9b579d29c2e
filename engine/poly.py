"""Ring back end: normal form of real expressions as rational functions over
opaque atoms, modulo  sin^2+cos^2=1, cosh^2-sinh^2=1, sqrt(a)^2=a, fabs(a)^2=a^2
and the addition theorems.  Deciding an equality = its cross-multiplied
difference reduces to the zero polynomial.  Sound, not complete."""
from fractions import Fraction
from math import gcd
import time
from . import expr as X
from .expr import E, isE


class TooBig(Exception):
    pass


LIMIT = 60000

# polynomial: dict monomial -> Fraction ; monomial: tuple of (atom, exp) sorted by atom
ONE = ((), )


def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


def padd(p, q, k=1):
    if len(p) < len(q) and k == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    out = []
    while i < len(m) and j < len(n):
        a, b = m[i], n[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m[i:])
    out.extend(n[j:])
    return tuple(out)


def pkey(p):
    return tuple(sorted(p.items()))


class Ring:
    def __init__(self, deadline=None, limit=LIMIT):
        self.atoms = {}        # key -> index
        self.keys = []
        self.info = []         # index -> (kind, data)
        self.rules = {}        # atom -> polynomial for atom^2
        self.memo = {}
        self.units = {}        # monomial-normal-form key of trig arguments -> unit coefficient
        self.deadline = deadline
        self.limit = limit
        self.dens = []

    # -- atoms
    def atom(self, key, kind=None, data=None):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.info)
            self.atoms[key] = i
            self.info.append((kind, data))
            self.keys.append((key, kind, data))
        return i

    def check(self, n=0):
        if n > self.limit:
            raise TooBig('polynomial with %d terms' % n)
        if self.deadline and time.time() > self.deadline:
            raise TooBig('time')

    # -- polynomial multiplication with reduction
    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) == 1 and () in p:
            c = p[()]
            return {m: c * v for m, v in q.items()}
        if len(q) == 1 and () in q:
            c = q[()]
            return {m: c * v for m, v in p.items()}
        self.check(len(p) * len(q) // 16)
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        self.check(len(r))
        return self.reduce(r)

    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        while True:
            todo = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in rules:
                        todo = True
                        break
                if todo:
                    break
            if not todo:
                return p
            out = {}
            for m, c in p.items():
                hit = None
                for idx, (a, e) in enumerate(m):
                    if e >= 2 and a in rules:
                        hit = idx
                        break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                a, e = m[hit]
                rest = m[:hit] + (((a, e % 2),) if e % 2 else ()) + m[hit + 1:]
                rp = rules[a]
                pw = {(): Fraction(1)}
                for _ in range(e // 2):
                    nn = {}
                    for m1, c1 in pw.items():
                        for m2, c2 in rp.items():
                            k = mmul(m1, m2)
                            nn[k] = nn.get(k, 0) + c1 * c2
                    pw = nn
                for m1, c1 in pw.items():
                    k = mmul(rest, m1)
                    v = out.get(k, 0) + c * c1
                    if v:
                        out[k] = v
                    else:
                        out.pop(k, None)
            self.check(len(out))
            p = out

    # -- rational functions: (num, den) ; den: dict polykey -> (poly, exp)
    def rconst(self, c):
        return (pconst(c), {})

    def rmul(self, a, b):
        n = self.pmul(a[0], b[0])
        if not n:
            return ({}, {})
        d = dict(a[1])
        for k, (p, e) in b[1].items():
            d[k] = (p, d[k][1] + e) if k in d else (p, e)
        return self.cancel(n, d)

    def expandden(self, d, skip=None):
        r = {(): Fraction(1)}
        for k, (p, e) in d.items():
            for _ in range(e - (skip.get(k, 0) if skip else 0)):
                r = self.pmul(r, p)
        return r

    def radd(self, a, b, sign=1):
        if not a[0]:
            return (b[0] if sign == 1 else {m: -c for m, c in b[0].items()}, b[1])
        if not b[0]:
            return a
        if a[1].keys() == b[1].keys() and all(a[1][k][1] == b[1][k][1] for k in a[1]):
            n = padd(a[0], b[0], sign)
            return self.cancel(n, a[1]) if n else ({}, {})
        lcm = dict(a[1])
        for k, (p, e) in b[1].items():
            if k not in lcm or lcm[k][1] < e:
                lcm[k] = (p, e)
        fa = {(): Fraction(1)}
        fb = {(): Fraction(1)}
        for k, (p, e) in lcm.items():
            for _ in range(e - (a[1][k][1] if k in a[1] else 0)):
                fa = self.pmul(fa, p)
            for _ in range(e - (b[1][k][1] if k in b[1] else 0)):
                fb = self.pmul(fb, p)
        n = padd(self.pmul(a[0], fa), self.pmul(b[0], fb), sign)
        return self.cancel(n, lcm) if n else ({}, {})

    def cancel(self, n, d):
        """cancel monomial denominators and denominators equal to the numerator"""
        if not d or not n:
            return (n, d if n else {})
        d2 = None
        for k, (p, e) in d.items():
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    a = m[0][0]
                    low = min((dict(mm).get(a, 0) for mm in n))
                    q = min(low, e)
                    if q:
                        nn = {}
                        for mm, cc in n.items():
                            out = []
                            for (aa, ee) in mm:
                                if aa == a:
                                    if ee > q:
                                        out.append((aa, ee - q))
                                else:
                                    out.append((aa, ee))
                            nn[tuple(out)] = cc
                        n = nn
                        d2 = dict(d) if d2 is None else d2
                        if e == q:
                            del d2[k]
                        else:
                            d2[k] = (p, e - q)
            elif len(p) == len(n):
                # numerator a constant multiple of the factor
                it = iter(p.items())
                m0, c0 = next(it)
                if m0 in n:
                    r = n[m0] / c0
                    if all(n.get(mm) == r * cc for mm, cc in p.items()):
                        n = {(): r}
                        d2 = dict(d) if d2 is None else d2
                        if e == 1:
                            del d2[k]
                        else:
                            d2[k] = (p, e - 1)
        return (n, d if d2 is None else d2)

    def pdiv(self, n, p):
        """exact quotient n / p, or None"""
        lk = (lambda m: tuple((-a, e) for a, e in m))
        lp = max(p, key=lk)
        cp, dp = p[lp], dict(lp)
        rest = dict(n)
        q = {}
        steps = 0
        while rest:
            steps += 1
            if steps > 400:
                return None
            m = max(rest, key=lk)
            dm = dict(m)
            for a, e in dp.items():
                if dm.get(a, 0) < e:
                    return None
                dm[a] -= e
            t = tuple(sorted((a, e) for a, e in dm.items() if e))
            c = rest[m] / cp
            q[t] = c
            for mm, cc in p.items():
                x = mmul(mm, t)
                v = rest.get(x, 0) - c * cc
                if v:
                    rest[x] = v
                else:
                    rest.pop(x, None)
        return q

    def cancel2(self, n, d):
        d = dict(d)
        for k, (p, e) in list(d.items()):
            if len(p) < 2:
                continue
            while e:
                q = self.pdiv(n, p)
                if q is None:
                    break
                n = q
                e -= 1
                if e:
                    d[k] = (p, e)
                else:
                    del d[k]
        return n, d

    def rinv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError
        num = self.expandden(d)
        # factor numerator: monomial content + primitive part
        den = {}
        c = None
        items = list(n.items())
        common = dict(items[0][0])
        for m, _ in items[1:]:
            md = dict(m)
            for k in list(common):
                e = min(common[k], md.get(k, 0))
                if e:
                    common[k] = e
                else:
                    del common[k]
        lead = n[min(n)]
        prim = {}
        for m, cc in items:
            out = []
            for (aa, ee) in m:
                q = common.get(aa, 0)
                if ee > q:
                    out.append((aa, ee - q))
            prim[tuple(out)] = cc / lead
        for a_, e in common.items():
            p = {((a_, 1),): Fraction(1)}
            den[pkey(p)] = (p, e)
        if not (len(prim) == 1 and () in prim):
            den[pkey(prim)] = (prim, 1)
        else:
            lead = lead * prim[()]
        num = {m: v / lead for m, v in num.items()}
        return self.cancel(num, den)

    # -- conversion
    def collect_units(self, roots):
        for x in X.topo(roots):
            if x.op == 'app' and x.args[0] in ('sin', 'cos', 'sinh', 'cosh', 'exp') and isE(x.args[1]):
                self.note_arg(x.args[1])

    def note_arg(self, a):
        for key, coef, _ in self.split_arg(a):
            u = self.units.get(key)
            if u is None:
                self.units[key] = abs(coef)
            else:
                n = gcd(u.numerator * coef.denominator, abs(coef.numerator) * u.denominator)
                self.units[key] = Fraction(n, u.denominator * coef.denominator)

    def split_arg(self, a):
        """argument normal form -> list of (key, coefficient, (mono, den))"""
        n, d = self.conv(a)
        dk = tuple(sorted((k, e) for k, (p, e) in d.items()))
        return [((m, dk), c, (m, d)) for m, c in sorted(n.items())]

    def conv(self, e):
        if not isE(e):
            return self.rconst(e)
        r = self.memo.get(e.id)
        if r is not None:
            return r
        for x in X.topo([e]):
            if x.id in self.memo or x.sort == 'B':
                continue
            self.check()
            self.memo[x.id] = self.conv1(x)
        return self.memo[e.id]

    def mono(self, i):
        return ({((i, 1),): Fraction(1)}, {})

    def rkey(self, r):
        return (pkey(r[0]), tuple(sorted((k, e) for k, (p, e) in r[1].items())))

    def conv1(self, x):
        op = x.op
        g = (lambda a: self.memo[a.id] if isE(a) else self.rconst(a))
        if op == 'var':
            return self.mono(self.atom(('v', x.id), 'var', x))
        if op == '+':
            return self.radd(g(x.args[0]), g(x.args[1]))
        if op == '*':
            return self.rmul(g(x.args[0]), g(x.args[1]))
        if op == '/':
            b = g(x.args[1])
            if not b[0]:
                return self.mono(self.atom(('undef', x.id), 'undef', x))
            self.dens.append(x.args[1])
            return self.rmul(g(x.args[0]), self.rinv(b))
        if op == 'toreal':
            return g(x.args[0])
        if op == 'lin':
            r = self.rconst(x.args[0])
            for a, k in zip(x.args[1::2], x.args[2::2]):
                r = self.radd(r, self.rmul(self.rconst(k), g(a)))
            return r
        if op == 'sum':
            return self.sum_(x)
        if op == 'ite':
            c = x.args[0]
            k = ('ite', c.id, self.rkey(g(x.args[1])), self.rkey(g(x.args[2])))
            return self.mono(self.atom(k, 'ite', x))
        if op == 'app':
            f = x.args[0]
            a = [g(y) for y in x.args[1:]]
            if f in ('sin', 'cos') or f in ('sinh', 'cosh'):
                s, c = self.trig(f in ('sinh', 'cosh'), x.args[1])
                return s if f in ('sin', 'sinh') else c
            if f == 'exp':
                return self.exp_(x.args[1])
            if f == 'sqrt':
                return self.sqrt_(x, a[0])
            if f == 'fabs':
                r = a[0]
                # canonical sign
                if r[0]:
                    lead = r[0][min(r[0])]
                    if lead < 0:
                        r = ({m: -c for m, c in r[0].items()}, r[1])
                i = self.atom(('fabs', self.rkey(r)), 'fabs', x)
                if i not in self.rules and not r[1]:
                    sq = self.pmul(r[0], r[0])
                    self.rules[i] = sq
                return self.mono(i)
            k = (f,) + tuple(self.rkey(r) for r in a)
            return self.mono(self.atom(k, 'app', x))
        if op == 'sel':            # functional array read
            k = ('sel', x.args[0]) + tuple(self.rkey(g(a)) for a in x.args[1:])
            return self.mono(self.atom(k, 'sel', x))
        k = (op,) + tuple(a.id if isE(a) else a for a in x.args)
        return self.mono(self.atom(k, op, x))

    def depends(self, i, bid, memo):
        r = memo.get(i)
        if r is None:
            key, kind, data = self.keys[i]
            if data is not None:
                r = any(v.id == bid for v in X.variables(data)) if isE(data) else False
            else:
                r = deepdep(self, key, bid, memo)
            memo[i] = r
        return r

    def sum_(self, x):
        body, bv, n = x.args
        # constant offsets in the upper limit are peeled
        from . import ints
        c, d = ints.parts(n)
        if c and isE(n) and abs(c) <= 8 and len(d):
            base = ints.make(0, d)
            r = self.conv(X.mk('sum', x.sort, body, bv, base))
            for i in range(abs(c)):
                at = ints.add(base, i) if c > 0 else ints.add(base, -1 - i)
                r = self.radd(r, self.conv(X.subst(body, {bv.id: at})), 1 if c > 0 else -1)
            return r
        k0 = X.var('k$0', 'I')
        if isE(body) and bv is not k0 and not any(y.op == 'sum' and any(v is bv for v in X.variables(y)) for y in X.topo([body])) \
                and not freein(body, k0):
            return self.conv(X.mk('sum', x.sort, X.subst(body, {bv.id: k0}), k0, n))
        num, den = self.conv(body)
        num, den = self.cancel2(num, den)
        memo = {}
        nr = self.conv(n)
        nk = self.rkey(nr)
        outden, depden = {}, {}
        for k, (p, e) in den.items():
            if any(self.depends(i, bv.id, memo) for m in p for i, _ in m):
                depden[k] = (p, e)
            else:
                outden[k] = (p, e)
        tot = self.rconst(0)
        dk = tuple(sorted((k, e) for k, (p, e) in depden.items()))
        for m, cf in num.items():
            dep = tuple((i, e) for i, e in m if self.depends(i, bv.id, memo))
            ind = tuple((i, e) for i, e in m if not self.depends(i, bv.id, memo))
            if not dep and not dk:
                t = nr
            else:
                a = self.atom(('sum', dep, dk, bv.id, nk), 'sum', None)
                t = self.mono(a)
            tot = self.radd(tot, self.rmul(({ind: cf}, dict(outden)), t))
        return tot

    def powx(self, b, e):
        r = b
        for _ in range(e - 1):
            r = X.mul(r, b)
        return r

    def sqrt_(self, x, r):
        n, d = r
        if not n:
            return ({}, {})
        # sqrt(n/d) with d: treat radicand n*d as polynomial under sqrt when d simple: sqrt(n/d)=atom, rule needs polynomial
        if not d:
            # pull out rational square content
            cont = None
            i = self.atom(('sqrt', pkey(n)), 'sqrt', x)
            self.rules.setdefault(i, n)
            return self.mono(i)
        if all(e % 2 == 0 and len(p) == 1 and len(next(iter(p))) == 1 and self.info[next(iter(p))[0][0]][0] == 'sqrt' for p, e in d.values()):
            # denominators that are squares of roots
            big = x.args[1]
            for p, e in d.values():
                (m, c), = p.items()
                r = self.info[m[0][0]][1]
                big = X.mul(big, self.powx(r.args[1], e // 2))
            i = self.atom(('sqrt', pkey(n)), 'sqrt', X.func('sqrt', big))
            self.rules.setdefault(i, n)
            return self.cancel({((i, 1),): Fraction(1)}, {k: (p, e // 2) for k, (p, e) in d.items()})
        if len(d) == 1:
            (k, (p, e)), = d.items()
            if e == 1 and ('sqrt', k) in self.atoms:
                # sqrt(n/p) = sqrt(n)/sqrt(p): sqrt(p) occurs by itself, so p >= 0 has its own obligation
                i = self.atom(('sqrt', pkey(n)), 'sqrt', X.func('sqrt', X.mul(x.args[1], self.info[self.atoms[('sqrt', k)]][1].args[1])))
                self.rules.setdefault(i, n)
                return self.rmul(self.mono(i), self.rinv(self.mono(self.atoms[('sqrt', k)])))
        den = self.expandden(d)
        rad = self.pmul(n, den)          # sqrt(n/den) = sqrt(n*den)/|den| ; keep as own atom s with s^2*den^2 = n*den
        # own atom t = sqrt(n/den): t^2 = n/den. represent t = w/den with w^2 = n*den (sign of den folded into w)
        i = self.atom(('sqrtq', self.rkey(r)), 'sqrt', x)
        self.rules.setdefault(i, rad)
        return self.cancel({((i, 1),): Fraction(1)}, dict(d))

    def trig(self, hyp, arg):
        parts = self.split_arg(arg)
        S, C = self.rconst(0), self.rconst(1)
        for key, coef, (m, d) in parts:
            u = self.units.get(key)
            if u is None or (coef / u).denominator != 1:
                u = abs(coef) if u is None else u
                if key not in self.units:
                    self.units[key] = u
            q = coef / u
            if q.denominator != 1:
                # unit was fixed too coarse: separate atom
                key = (key, u, q.denominator)
                q = Fraction(q.numerator)
            n = abs(int(q))
            if n > 64:
                raise TooBig('trig multiple')
            t = 'h' if hyp else 't'
            si = self.atom((t + 's', key), 'app', None)
            ci = self.atom((t + 'c', key), 'app', None)
            if si not in self.rules:
                # s^2 = 1 - c^2  |  sh^2 = ch^2 - 1
                self.rules[si] = ({((ci, 2),): Fraction(1), (): Fraction(-1)} if hyp
                                  else {((ci, 2),): Fraction(-1), (): Fraction(1)})
            s1, c1 = self.mono(si), self.mono(ci)
            sn, cn = self.rconst(0), self.rconst(1)
            for _ in range(n):
                sn, cn = self.addth(hyp, sn, cn, s1, c1)
            if q < 0:
                sn = self.rmul(self.rconst(-1), sn)
            S, C = self.addth(hyp, S, C, sn, cn)
        return S, C

    def addth(self, hyp, s, c, s1, c1):
        ns = self.radd(self.rmul(s, c1), self.rmul(c, s1))
        nc = self.radd(self.rmul(c, c1), self.rmul(s, s1), 1 if hyp else -1)
        return ns, nc

    def exp_(self, arg):
        parts = self.split_arg(arg)
        R = self.rconst(1)
        for key, coef, _ in parts:
            u = self.units.setdefault(key, abs(coef))
            q = coef / u
            if q.denominator != 1:
                key = (key, u, q.denominator)
                q = Fraction(q.numerator)
            i = self.atom(('exp', key), 'app', None)
            b = self.mono(i)
            if q < 0:
                b = self.rinv(b)
            for _ in range(abs(int(q))):
                R = self.rmul(R, b)
        return R

    def is_zero(self, e):
        self.collect_units_multi([e])
        n, d = self.conv(e)
        return not n

    def collect_units_multi(self, roots):
        # two passes: the first fixes the units of the trig arguments
        apps = [x for x in X.topo(roots) if x.op == 'app'
                and x.args[0] in ('sin', 'cos', 'sinh', 'cosh', 'exp') and isE(x.args[1])]
        done = set(self.memo)
        for x in apps:
            if x.id not in self.memo:
                self.note_arg(x.args[1])


def deepdep(ring, key, bid, memo):
    """does an atom key (nested tuples of monomials) mention the bound variable"""
    if isinstance(key, tuple):
        if len(key) == 5 and key[0] == 'sum':
            return deepdep(ring, key[1], bid, memo) and key[3] != bid or deepdep(ring, key[4], bid, memo)
        if len(key) == 2 and isinstance(key[0], int) and isinstance(key[1], int) and key[0] < len(ring.keys) :
            return ring.depends(key[0], bid, memo)
        return any(deepdep(ring, k, bid, memo) for k in key)
    return False


def freein(e, v):
    """v occurs free (outside sums that bind it)"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if not isE(x) or x.id in seen:
            continue
        seen.add(x.id)
        if x is v:
            return True
        if x.op == 'sum' and x.args[1] is v:
            st.append(x.args[2])
            continue
        st.extend(X.children(x))
    return False


def prove_zero(e, deadline=None, limit=LIMIT):
    """True if e == 0 as a rational function modulo the relations"""
    if not isE(e):
        return e == 0
    r = Ring(deadline, limit)
    return r.is_zero(e)
