"""Back ends: ring normal form, z3 (nlsat) and cvc5."""
import time
from fractions import Fraction
import z3
from . import expr as X, poly
from .expr import E, isE

z3.set_param('verbose', 0)


class Ctx:
    """translation of expressions to z3 with the axioms of the real functions that occur"""

    def __init__(self, norm=False):
        self.norm = norm
        self.memo = {}
        self.ax = []
        self.ring = poly.Ring(limit=3000)
        self.fkeys = {}
        self.vars = {}

    def arith(self, a):
        if isE(a):
            return self.memo[a.id]
        if isinstance(a, bool):
            return z3.BoolVal(a)
        if isinstance(a, int):
            return z3.IntVal(a)
        return z3.Q(a.numerator, a.denominator)

    def conv(self, e):
        if not isE(e):
            return self.arith(e)
        for x in X.topo([e]):
            if x.id not in self.memo:
                self.memo[x.id] = self.conv1(x)
        return self.memo[e.id]

    def key(self, x):
        """canonical key of a function application"""
        try:
            ks = []
            for a in x.args[1:]:
                n, d = self.ring.conv(a)
                ks.append(self.ring.rkey((n, d)))
            return (x.args[0], tuple(ks))
        except Exception:
            return (x.args[0],) + tuple(a.id if isE(a) else a for a in x.args[1:])

    def fn(self, name, key):
        k = (name, key)
        v = self.fkeys.get(k)
        if v is None:
            v = z3.Real('%s#%d' % (name, len(self.fkeys)))
            self.fkeys[k] = v
            return v, True
        return v, False

    def conv1(self, x):
        op = x.op
        a = [self.arith(y) for y in x.args] if op not in ('var', 'app', 'lin', 'sel', 'sum') else None
        if op == 'var':
            n = x.args[0]
            v = z3.Real(n) if x.sort == 'R' else z3.Int(n) if x.sort == 'I' else z3.Bool(n)
            self.vars[n] = v
            return v
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            return a[0] / a[1]
        if op == 'lin':
            r = z3.IntVal(x.args[0])
            for t, k in zip(x.args[1::2], x.args[2::2]):
                r = r + k * self.arith(t)
            return r
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(a[0], a[1])
        if op == 'or':
            return z3.Or(a[0], a[1])
        if op == 'xor':
            return z3.Xor(a[0], a[1])
        if op in ('<', '<=', '=='):
            z = self.normcmp(x) if self.norm else None
            if z is not None:
                return z < 0 if op == '<' else z <= 0 if op == '<=' else z == 0
        if op == '<':
            return a[0] < a[1]
        if op == '<=':
            return a[0] <= a[1]
        if op == '==':
            return a[0] == a[1]
        if op == 'toreal':
            return z3.ToReal(a[0])
        if op == 'floor':
            return z3.ToInt(a[0])
        if op == 'mod':
            return a[0] % a[1]
        if op == 'idiv':
            return a[0] / a[1]
        if op == 'app':
            return self.app(x)
        if op in ('sel', 'sum'):
            try:
                k = self.ring.rkey(self.ring.conv(x)) if x.sort == 'R' else (op, x.id)
            except Exception:
                k = (op, x.id)
            if x.sort == 'R':
                return self.fn(op, k)[0]
            k = (op, x.sort, x.id)
            if k not in self.fkeys:
                nm = '%s#%d' % (op, len(self.fkeys))
                self.fkeys[k] = z3.Int(nm) if x.sort == 'I' else z3.Bool(nm)
            return self.fkeys[k]
        raise NotImplementedError('z3: ' + op)

    def normcmp(self, x):
        """left minus right side of a comparison with quotients: numerator times the odd denominators of the cancelled
        fraction (the denominators are non-zero: every division has its own obligation)"""
        if x.args[0].sort != 'R' if isE(x.args[0]) else (isE(x.args[1]) and x.args[1].sort != 'R'):
            return None
        if not any(y.op == '/' for y in X.topo([y for y in x.args if isE(y)])):
            return None
        R = self.ring
        try:
            n, d = R.cancel2(*R.conv(X.sub(x.args[0], x.args[1])))
        except (poly.TooBig, ZeroDivisionError, RecursionError):
            return None
        if len(n) > 40 or any(len(p) > 12 for p, e in d.values()):
            return None
        t = self.polyz(n)
        if t is None:
            return None
        for p, e in d.values():
            if any(isinstance(R.keys[i][0], tuple) and R.keys[i][0][0] in ('ts', 'tc', 'hs', 'hc') for m in p for i, _ in m):
                return None
            if e % 2:
                q = self.polyz(p)
                if q is None:
                    return None
                t = t * q
        return t

    def polyz(self, n):
        out = None
        for m, c in n.items():
            t = z3.Q(c.numerator, c.denominator)
            for i, e in m:
                k = self.ring.keys[i][0]
                a = self.tatom(k) if isinstance(k, tuple) and k[0] in ('ts', 'tc', 'hs', 'hc') else self.atomz(i)
                if a is None:
                    return None
                for _ in range(e):
                    t = t * a
            out = t if out is None else out + t
        return z3.RealVal(0) if out is None else out

    def trig(self, x):
        """angle-addition normal form over the atomic angles"""
        n, d = self.ring.conv(x)
        if d or len(n) > 24:
            return None
        R = self.ring
        out = z3.RealVal(0)
        for m, c in n.items():
            t = z3.Q(c.numerator, c.denominator)
            for i, e in m:
                k = R.keys[i][0]
                if not (isinstance(k, tuple) and k[0] in ('ts', 'tc', 'hs', 'hc')):
                    return None
                for _ in range(e):
                    t = t * self.tatom(k)
            out = out + t
        return out

    def tatom(self, k):
        v, new = self.fn(k[0], k[1])
        if new:
            o, n2 = self.fn({'ts': 'tc', 'tc': 'ts', 'hs': 'hc', 'hc': 'hs'}[k[0]], k[1])
            if n2:
                if k[0] in ('ts', 'tc'):
                    self.ax.append(v * v + o * o == 1)
                    a = self.angle(k[1])
                    if a is not None:
                        s, c = (v, o) if k[0] == 'ts' else (o, v)
                        self.ax.append(z3.Implies(a == 0, z3.And(c == 1, s == 0)))
                else:
                    s, c = (v, o) if k[0] == 'hs' else (o, v)
                    self.ax.append(c * c == 1 + s * s)
                    self.ax.append(c >= 1)
                    a = self.angle(k[1])
                    if a is not None:
                        self.ax.append(z3.And(z3.Implies(a > 0, s > 0), z3.Implies(a < 0, s < 0), z3.Implies(a == 0, s == 0)))
        return v

    def angle(self, key):
        """z3 term with the sign of the atomic angle; None when it is not expressible"""
        if len(key) == 3:
            key = key[0]
        m, dk = key
        t = z3.RealVal(1)
        num = [(i, e) for i, e in m]
        for i, e in num:
            a = self.atomz(i)
            if a is None:
                return None
            for _ in range(e):
                t = t * a
        for pk, e in dk:
            if len(pk) != 1 or pk[0][1] <= 0:
                return None
            for i, ee in pk[0][0]:
                a = self.atomz(i)
                if a is None:
                    return None
                for _ in range(ee * e):
                    t = t * a        # the sign of 1/a is the sign of a
        return t

    def atomz(self, i):
        key, kind, data = self.ring.keys[i]
        if isE(data) and data.sort == 'R':
            return self.conv(data)
        return None

    def app(self, x):
        f = x.args[0]
        A = [self.arith(y) for y in x.args[1:]]
        if f == 'fabs':
            return z3.If(A[0] >= 0, A[0], -A[0])
        if f == 'floor':
            return z3.ToReal(z3.ToInt(A[0]))
        if f == 'ceil':
            return -z3.ToReal(z3.ToInt(-A[0]))
        if f == 'trunc':
            return z3.If(A[0] >= 0, z3.ToReal(z3.ToInt(A[0])), -z3.ToReal(z3.ToInt(-A[0])))
        if f in ('sin', 'cos', 'sinh', 'cosh'):
            try:
                t = self.trig(x)
            except (poly.TooBig, ZeroDivisionError):
                t = None
            if t is not None:
                return t
        k = self.key(x)[1]
        v, new = self.fn(f, k)
        if new:
            if f == 'sqrt':
                self.ax.append(z3.Implies(A[0] >= 0, z3.And(v >= 0, v * v == A[0])))
            elif f in ('sin', 'cos'):
                o, _ = self.fn('cos' if f == 'sin' else 'sin', k)
                self.ax.append(v * v + o * o == 1)
                c, s = (v, o) if f == 'cos' else (o, v)
                self.ax.append(z3.Implies(A[0] == 0, z3.And(c == 1, s == 0)))
            elif f in ('sinh', 'cosh'):
                o, _ = self.fn('cosh' if f == 'sinh' else 'sinh', k)
                c, s = (v, o) if f == 'cosh' else (o, v)
                self.ax.append(c * c == 1 + s * s)
                self.ax.append(c >= 1)
                self.ax.append(z3.And(z3.Implies(A[0] > 0, s > 0), z3.Implies(A[0] < 0, s < 0),
                                      z3.Implies(A[0] == 0, s == 0)))
            elif f == 'exp':
                self.ax.append(v > 0)
            elif f == 'log':
                self.ax.append(z3.And(z3.Implies(A[0] == 1, v == 0), z3.Implies(A[0] > 1, v > 0),
                                      z3.Implies(z3.And(A[0] > 0, A[0] < 1), v < 0)))
            elif f == 'atan2':
                pass
            elif f == 'pow':
                self.ax.append(z3.Implies(A[0] > 0, v > 0))
        return v


class Stats:
    def __init__(self):
        self.n = {}
        self.t = {}

    def add(self, be, t):
        self.n[be] = self.n.get(be, 0) + 1
        self.t[be] = self.t.get(be, 0) + t


STATS = Stats()
_feas = {}


def check(pc, timeout=1000, want_model=False, norm=True):
    """'sat' / 'unsat' / 'unknown' (+ model dict)"""
    t0 = time.time()
    c = Ctx(norm)
    try:
        c.ring.collect_units_multi([p for p in pc if isE(p)])
    except (poly.TooBig, ZeroDivisionError):
        pass
    fs = [c.conv(p) for p in pc]
    s = z3.SolverFor('QF_NRA') if False else z3.Solver()
    s.set('timeout', int(timeout))
    for f in fs:
        s.add(f)
    for a in c.ax:
        s.add(a)
    r = s.check()
    if r == z3.unknown and timeout > 600:
        # second engine: nlsat tactic directly
        t = z3.TryFor(z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'qfnra'), int(timeout))
        try:
            s2 = t.solver()
            s2.set('timeout', int(timeout))
            for f in fs:
                s2.add(f)
            for a in c.ax:
                s2.add(a)
            r = s2.check()
            s = s2
        except z3.Z3Exception:
            pass
    STATS.add('z3', time.time() - t0)
    if r == z3.unsat:
        return ('unsat', None)
    if r == z3.sat:
        m = None
        if want_model:
            m = {}
            mod = s.model()
            for n, v in c.vars.items():
                val = mod.eval(v, model_completion=True)
                try:
                    if z3.is_bool(val):
                        m[n] = 1.0 if z3.is_true(val) else 0.0
                    elif z3.is_int_value(val):
                        m[n] = val.as_long()
                    elif z3.is_rational_value(val):
                        m[n] = float(val.as_fraction())
                    else:
                        m[n] = float(val.approx(20).as_fraction())
                except Exception:
                    pass
        return ('sat', m)
    return ('unknown', None)


def cvc5_check(pc, timeout):
    import subprocess, tempfile, os
    c = Ctx()
    try:
        c.ring.collect_units_multi([p for p in pc if isE(p)])
    except (poly.TooBig, ZeroDivisionError):
        pass
    s = z3.Solver()
    for p in pc:
        s.add(c.conv(p))
    for a in c.ax:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), '--nl-cov', f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        out = r.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(f.name)
    STATS.add('cvc5', time.time() - t0)
    return out if out in ('sat', 'unsat') else 'unknown'


def atoms_of(pc):
    """flatten conjunctions"""
    out = []
    st = list(pc)
    while st:
        p = st.pop()
        if not isE(p):
            if not p:
                return [False]
            continue
        if p.op == 'and':
            st.extend(p.args)
        elif p.op == 'not' and isE(p.args[0]) and p.args[0].op == 'or':
            st.extend(X.not_(a) for a in p.args[0].args)
        else:
            out.append(p)
    return out


def eq_subst(pc):
    """substitution from equalities var == expr in the path condition"""
    m = {}
    for p in atoms_of(pc):
        if not isE(p) or p.op != '==':
            continue
        a, b = p.args
        a = X.subst(a, m)
        b = X.subst(b, m)
        d = linear_solve(a, b)
        if d:
            v, r = d
            m = {k: X.subst(w, {v.id: r}) for k, w in m.items()}
            m[v.id] = r
    return m


def linear_solve(a, b):
    for x, y in ((a, b), (b, a)):
        if isE(x) and x.op == 'var' and (not isE(y) or all(v is not x for v in X.variables(y))):
            return x, y
    # sum with a lone variable:  (+ c (var)) == d ; integer lin
    from . import ints
    if isE(a) and a.sort == 'I':
        c, d = ints.parts(ints.sub(a, b))
        for v, k in d.items():
            if k in (1, -1) and v.op == 'var':
                rest = {q: w for q, w in d.items() if q is not v}
                r = ints.mul(ints.make(c, rest), -k)
                return v, r
        return None
    e = X.sub(a, b)
    terms = []
    st = [(Fraction(1), e)]
    const = Fraction(0)
    n = 0
    while st:
        k, t = st.pop()
        n += 1
        if n > 200:
            return None
        if not isE(t):
            const += k * t
        elif t.op == '+':
            st += [(k, t.args[0]), (k, t.args[1])]
        elif t.op == '*' and not isE(t.args[0]):
            st.append((k * t.args[0], t.args[1]))
        else:
            terms.append((k, t))
    for i, (k, t) in enumerate(terms):
        if t.op == 'var' and t.sort == 'R':
            others = [q for j, q in enumerate(terms) if j != i]
            if all(all(v is not t for v in X.variables(q)) for _, q in others):
                r = -const / k
                for kk, q in others:
                    r = X.add(r, X.mul(-kk / k, q))
                return t, r
    return None


def decide_ites(e, pc, timeout=500, budget=24):
    """resolve fabs / ite nodes whose condition is decided by the path condition"""
    m = {}
    n = 0
    for x in X.topo([e]):
        if x.op == 'app' and x.args[0] == 'fabs':
            c = X.le(Fraction(0), x.args[1])
        elif x.op == 'ite':
            c = x.args[0]
        else:
            continue
        n += 1
        if n > budget:
            break
        if check(list(pc) + [X.not_(c)], timeout)[0] == 'unsat':
            m[x.id] = x.args[1]
        elif check(list(pc) + [c], timeout)[0] == 'unsat':
            m[x.id] = X.neg(x.args[1]) if x.op == 'app' else x.args[2]
    if not m:
        return e
    for _ in range(8):
        e2 = X.subst(e, m)
        if e2 is e:
            break
        e = e2
    return e


def prove(pc, goal, timeout=10000):
    """-> (status, backend, info): status in proved / failed / unknown"""
    t0 = time.time()
    if not isE(goal):
        if goal:
            return ('proved', 'fold', None)
        r, m = check(pc, timeout, True)
        if r == 'unsat':
            return ('proved', 'z3', None)
        return ('failed' if r == 'sat' else 'unknown', 'z3', m)
    # conjunctions
    if goal.op == 'and':
        for g in goal.args:
            r = prove(pc, g, timeout)
            if r[0] != 'proved':
                return r
        return r
    for p in pc:
        if p is goal:
            return ('proved', 'assumption', None)
    if goal.op == '==' and goal.args[0].sort == 'R':
        a, b = goal.args
        d = X.sub(a, b)
        try:
            if poly.prove_zero(d, time.time() + timeout / 1000.0 * 2):
                STATS.add('ring', time.time() - t0)
                return ('proved', 'ring', None)
        except (poly.TooBig, ZeroDivisionError, RecursionError):
            pass
        m = eq_subst(pc)
        d2 = X.subst(d, m) if m else d
        try:
            if d2 is not d and poly.prove_zero(d2, time.time() + timeout / 1000.0):
                STATS.add('ring', time.time() - t0)
                return ('proved', 'ring', None)
        except (poly.TooBig, ZeroDivisionError, RecursionError):
            pass
        d3 = decide_ites(d2, pc) if isE(d2) else d2
        try:
            if d3 is not d2 and poly.prove_zero(d3, time.time() + timeout / 1000.0):
                STATS.add('ring', time.time() - t0)
                return ('proved', 'ring+z3', None)
        except (poly.TooBig, ZeroDivisionError, RecursionError):
            pass
        STATS.add('ring', time.time() - t0)
    if goal.op in ('<', '<=') and any(y.op == 'sum' for y in X.topo([goal])):
        # up to ring normalisation one of the assumptions
        for p in pc:
            if isE(p) and p.op in (goal.op, '<') and any(y.op == 'sum' for y in X.topo([p])):
                try:
                    d = decide_ites(X.sub(X.sub(goal.args[1], goal.args[0]), X.sub(p.args[1], p.args[0])), pc)
                    if poly.prove_zero(d, time.time() + 1):
                        return ('proved', 'ring', None)
                except (poly.TooBig, ZeroDivisionError, RecursionError, AttributeError):
                    pass
    neg = list(pc) + [X.not_(goal)]
    quo = any(y.op == '/' for y in X.topo([y for y in neg if isE(y)]))
    for norm, to in ((True, min(2000, timeout)), (False, min(2000, timeout)), (True, timeout), (False, timeout)) if quo else ((True, timeout),):
        r, m = check(neg, to, True, norm)
        if r == 'unsat':
            return ('proved', 'z3', None)
        if r == 'sat':
            return ('failed', 'z3', m)
    r2 = cvc5_check(list(pc) + [X.not_(goal)], timeout)
    if r2 == 'unsat':
        return ('proved', 'cvc5', None)
    return ('unknown', 'z3+cvc5', m)
