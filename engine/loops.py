"""Unbounded loops: one generic iteration k is executed symbolically, the loop-carried state is put
into closed form (affine counters, sums, last values, weighted means, pointwise array writes), the
closed form is checked to be inductive by the same generic iteration, and the states leaving the
loop continue with the closed form at an arbitrary k >= 0.  State that has no closed form is havoced."""
from fractions import Fraction
from . import expr as X, ints, solve, poly
from .expr import E, isE


class Cont:
    def __init__(self, fr, h, body, depth):
        self.h, self.body, self.old, self.depth = h, body, fr.cont, depth
        self.latch, self.exits = [], []


class Peel(Exception):
    pass


def summarise(ex, st, fr, h):
    from .symex import Unsupported
    d = next(i for i, f in enumerate(st.frames) if f is fr)
    snap = fr.snap.get(h) if fr.snap else None
    if snap is None:
        return False
    name = '%s:%s' % (fr.fn.name, h)
    npeel = fr.visits.get(('peel', h), 0)
    try:
        Summary(ex, snap, d, h, name, npeel < 2).run()
    except Peel:
        fr.visits[('peel', h)] = npeel + 1
        fr.visits[('peeling', h)] = 1
        return False
    if name not in ex.summarised:
        ex.summarised.append(name)
    return True


def conj(ps):
    r = True
    for p in ps:
        r = X.and_(r, p)
    return r


def sumdepth(e):
    m = 0
    if not isE(e):
        return 0
    for x in X.topo([e]):
        if x.op == 'sum':
            m = max(m, int(x.args[1].args[0][2:]) + 1)
    return m


def mksum(body, k, n):
    """sum_{k=0}^{n-1} body"""
    if not isE(body) and body == 0:
        return body
    if not isE(n):
        if n <= 0:
            return Fraction(0) if isinstance(body, Fraction) or isE(body) and body.sort == 'R' else 0
        if n <= 16:
            r = None
            for i in range(n):
                t = X.subst(body, {k.id: i}) if isE(body) else body
                r = t if r is None else (ints.add(r, t) if ssort(t) == 'I' and ssort(r) == 'I' else X.add(r, t))
            return r
    s = ssort(body)
    if not isE(body):
        return X.mul(body, X.mk('toreal', 'R', n)) if s == 'R' else ints.mul(n, body)
    if s == 'R':
        # start the sum at the first element of the array
        offs = set()
        for x in X.topo([body]):
            if x.op == 'sel':
                g, dd = ints.parts(x.args[-1])
                if k in dd:
                    offs.add(g if dd == {k: 1} else None)
        if len(offs) == 1:
            o = offs.pop()
            if o is not None and 0 < o <= 4:
                r = mksum(X.subst(body, {k.id: ints.add(k, -o)}), k, ints.add(n, o))
                for i in range(o):
                    r = X.sub(r, X.subst(body, {k.id: i - o}))
                return r
    bv = X.var('k$%d' % sumdepth(body), 'I')
    return X.mk('sum', s, X.subst(body, {k.id: bv}), bv, n)


def ssort(v):
    if isE(v):
        return v.sort
    return 'R' if isinstance(v, Fraction) else 'B' if isinstance(v, bool) else 'I'


def toreal(n):
    return X.mk('toreal', 'R', n) if isE(n) else Fraction(n)


class Summary:
    def __init__(self, ex, snap, depth, h, name, peel=False):
        self.ex, self.S, self.d, self.h, self.name, self.peel = ex, snap, depth, h, name, peel
        self.fn = snap.frames[depth].fn
        self.body = self.fn.loops[h]
        blk = self.fn.blocks[h]
        self.phis = []
        i = 0
        while blk[i][0] == 'phi':
            self.phis.append(blk[i][1])
            i += 1
        self.ip = i
        self.k = X.fresh('k', 'I')
        self.regs = {}      # phi -> form
        self.cells = {}     # (oid, off) -> form
        self.arrs = {}      # (oid, field) -> lo index

    # -- one pass over the body
    def go(self, inst, mute, extra=()):
        ex = self.ex
        s = self.S.copy()
        f = s.frames[self.d]
        del s.frames[self.d + 1:]
        f.snap = {}
        for p in extra:
            ex.assume(s, p)
        for r in self.phis:
            f.regs[r] = inst(('r', r), f.regs[r])
        for (oid, off), _ in self.cells.items():
            o = s.w(oid)
            sz, v = o.cells.get(off, self.cellsz.get((oid, off), (8, None)))[0:2]
            o.cells[off] = (sz, inst(('c', oid, off), v))
        for (oid, fld), lo in self.arrs.items():
            o = s.w(oid)
            L = o.sym.f.get(fld)
            if L is None:
                L = o.sym.f[fld] = [('base', '%s.%d' % (o.sym.name, fld), self.arrsort[(oid, fld)])]
            lay = inst(('a', oid, fld), None)
            if lay is not None:
                L.append(lay)
        c = Cont(f, self.h, self.body, self.d)
        f.cont = c
        f.visits = dict(f.visits)
        f.visits[self.h] = 0
        f.blk, f.ip = self.h, self.ip
        npc = len(s.pc)
        work, ex.work = ex.work, [s]
        ex.mute += mute
        try:
            ex.drain()
        finally:
            ex.mute -= mute
            ex.work = work
        return c, npc

    def changed(self, st):
        """locations of the snapshot's objects that differ in st"""
        out, arr = {}, {}
        for oid, o0 in self.S.mem.items():
            o1 = st.mem.get(oid)
            if o1 is None or o1 is o0:
                continue
            if o0.sym is not None:
                for fld, L1 in o1.sym.f.items():
                    L0 = o0.sym.f.get(fld)
                    if L0 is None and L1[0][0] == 'base' and len(L1) == 1:
                        continue
                    base = len(L0) if L0 is not None else 1
                    if len(L1) != base or (L0 is not None and any(a is not b and a != b for a, b in zip(L0, L1))):
                        arr[(oid, fld)] = L1
                continue
            for off in set(o0.cells) | set(o1.cells):
                a, b = o0.cells.get(off), o1.cells.get(off)
                if a is b or (a is not None and b is not None and a[0] == b[0] and same(a[1], b[1])):
                    continue
                if b is None:
                    from .symex import Unsupported
                    raise Unsupported('loop changes the layout of memory')
                out[(oid, off)] = (b[0], a[1] if a is not None else None)
        return out, arr

    def stores(self, st, key, nlay):
        """the single store this iteration made to an array field"""
        from .symex import Unsupported
        L = st.mem[key[0]].sym.f[key[1]]
        new = [x for x in L[nlay:] if x[0] == 'store']
        if len(new) != len(L) - nlay or len(new) > 1:
            raise Unsupported('loop writes an array field more than once per iteration')
        return new[0] if new else None

    def run(self):
        from .symex import Unsupported, Ptr
        ex = self.ex
        self.cellsz, self.arrsort = {}, {}
        c0, npc = self.go(lambda key, v: v, 1)
        if not c0.latch:
            raise Unsupported('loop %s: no iteration completes' % self.name)
        for st, newv in c0.latch:
            ch, ar = self.changed(st)
            self.note(ch, ar, st)
        guess = {}
        for rnd in range(6):
            # values after one iteration from the initial state
            for key, v0 in self.keys():
                vs = [self.after(st, newv, key) for st, newv in c0.latch]
                g = None
                if all(isinstance(v, Ptr) for v in vs) and isinstance(v0, Ptr):
                    cs = {ints.sub(v.off, v0.off) if v.obj == v0.obj else None for v in vs}
                    if len(cs) == 1:
                        g = ('ptr', v0.obj, v0.off, cs.pop())
                        if g[3] is None or isE(g[3]):
                            g = None
                    if g is None:
                        g = ('same',) if all(v == v0 for v in vs) else None
                elif v0 is not None and ssort0(v0) == 'I' and all(ssort0(v) == 'I' for v in vs):
                    cs = {ints.sub(v, v0) for v in vs}
                    if len(cs) == 1 and not isE(next(iter(cs))):
                        g = ('int', v0, cs.pop())
                guess[key] = g
            # generic iteration with everything else havoced
            hv = {}

            def inst(key, v):
                if key[0] == 'a':
                    lo = self.arrs[key[1:]]
                    return ('carried', lo, ints.add(lo, self.k), None)
                g = guess.get(key)
                if g is not None:
                    if g[0] == 'ptr':
                        return Ptr(g[1], ints.add(g[2], ints.mul(self.k, g[3])))
                    if g[0] == 'int':
                        return ints.add(g[1], ints.mul(self.k, g[2]))
                    return v
                s = 'R'
                if isinstance(v, Ptr):
                    raise Unsupported('loop %s: pointer without a closed form' % self.name)
                for x in [v] + [self.after(st, nv, key) for st, nv in c0.latch]:
                    if x is not None and ssort0(x) in ('R', 'I', 'B'):
                        s = ssort0(x)
                if key not in hv:
                    hv[key] = X.fresh('h', s)
                return hv[key]
            c1, npc = self.go(inst, 1, [ints.le(0, self.k)])
            if not c1.latch:
                raise Unsupported('loop %s: no generic iteration completes' % self.name)
            more = False
            for st, newv in c1.latch:
                ch, ar = self.changed2(st, hv, guess)
                more |= self.note(ch, ar, st)
            # verify the affine guesses
            bad = []
            for key, g in guess.items():
                if g is None or g[0] == 'same':
                    continue
                for st, newv in c1.latch:
                    v = self.after(st, newv, key)
                    want = ints.add(g[2] if g[0] == 'ptr' else g[1], ints.mul(ints.add(self.k, 1), g[3] if g[0] == 'ptr' else g[2]))
                    got = v.off if g[0] == 'ptr' and isinstance(v, Ptr) and v.obj == g[1] else v
                    if ssort0(got) != 'I' or ints.cmp0(got, want) != 0:
                        bad.append(key)
                        break
            for key in bad:
                if guess[key][0] == 'ptr':
                    raise Unsupported('loop %s: pointer without a closed form' % self.name)
                self.forced = getattr(self, 'forced', set())
                self.forced.add(key)
            if not more and not bad:
                break
            if bad:
                og = dict(guess)
                for key in bad:
                    guess[key] = None
                # keep the guess cleared on the next round
                keep = set(bad)
                self.keys_cleared = getattr(self, 'keys_cleared', set()) | keep
        else:
            raise Unsupported('loop %s: carried state does not stabilise' % self.name)
        closed = self.solve(c1, npc, hv)
        arrval = self.arrays(c1, npc, hv, closed)

        def inst2(key, v):
            if key[0] == 'a':
                return arrval.get(key[1:])
            if key in closed:
                return closed[key]
            return inst(key, v)
        K0 = ints.le(0, self.k)
        c2, npc = self.go(inst2, 1, [K0])
        # facts of the previous iteration
        alts = False
        for st, newv in c2.latch:
            alts = X.or_(alts, conj(p for p in st.pc[npc:] if isE(p)))
        prev = X.or_(ints.eq(self.k, 0), X.subst(alts, {self.k.id: ints.add(self.k, -1)}) if isE(alts) else alts)
        c3, npc = self.go(inst2, 0, [K0, prev])
        self.check_inductive(c3, guess, closed)
        for st, target in c3.exits:
            self.leave(st, target, npc)

    def keys(self):
        f = self.S.frames[self.d]
        for r in self.phis:
            if ('r', r) in getattr(self, 'keys_cleared', ()):
                continue
            yield ('r', r), f.regs[r]
        for (oid, off), v in self.cells.items():
            if ('c', oid, off) in getattr(self, 'keys_cleared', ()):
                continue
            yield ('c', oid, off), v

    def note(self, ch, ar, st):
        from .symex import Unsupported
        more = False
        for (oid, off), (sz, v0) in ch.items():
            if (oid, off) not in self.cells:
                self.cells[(oid, off)] = v0
                self.cellsz[(oid, off)] = (sz, v0)
                more = True
        for key, L in ar.items():
            if key not in self.arrs:
                o0 = self.S.mem[key[0]]
                L0 = o0.sym.f.get(key[1])
                s = self.stores(st, key, len(L0) if L0 is not None else 1)
                if s is None:
                    continue
                idx = X.subst(s[1], {self.k.id: 0}) if isE(s[1]) else s[1]
                self.arrs[key] = idx
                self.arrsort[key] = L[0][2] if L[0][0] == 'base' else 'R'
                more = True
        return more

    def changed2(self, st, hv, guess):
        ch, ar = self.changed(st)
        return {k: v for k, v in ch.items() if k not in self.cells}, {k: v for k, v in ar.items() if k not in self.arrs}

    def after(self, st, newv, key):
        if key[0] == 'r':
            return newv[key[1]]
        c = st.mem[key[1]].cells.get(key[2])
        return c[1] if c is not None else None

    # -- closed forms of the havoced values
    def merge(self, c, npc, val):
        """value over the latch paths"""
        from .symex import Unsupported
        r = None
        for st, newv in reversed(c.latch):
            v = val(st, newv)
            if r is None:
                r = v
            else:
                if same(r, v):
                    continue
                r = X.ite(conj(p for p in st.pc[npc:] if isE(p)), v, r)
        return r

    def solve(self, c, npc, hv):
        closed = {}
        todo = dict(hv)
        k = self.k
        new = {}
        for key, h in hv.items():
            try:
                new[key] = self.merge(c, npc, lambda st, nv: self.after(st, nv, key))
            except Exception:
                new[key] = None
        progress = True
        f0 = self.S.frames[self.d]
        while progress and todo:
            progress = False
            done = {hv[q].id: closed[q] for q in closed}
            for key in list(todo):
                h = hv[key]
                nv = new[key]
                if nv is None or (isE(nv) is False and ssort(nv) != h.sort and h.sort != 'R'):
                    continue
                if isE(nv):
                    nv = X.subst(nv, done)
                v0 = f0.regs[key[1]] if key[0] == 'r' else self.cells[key[1:]]
                others = {todo[q].id for q in todo if q != key}
                form = self.form(nv, h, others, v0)
                if form is not None:
                    closed[key] = form
                    del todo[key]
                    progress = True
                    break
        if todo and self.peel and self.special(c, npc):
            raise Peel
        for key in todo:
            self.ex.notes.add('loop-carried value without closed form abstracted to an arbitrary value')
            closed[key] = todo[key]
        return closed

    def special(self, c, npc):
        """does an iteration depend on whether it is the first one"""
        for st, newv in c.latch:
            for p in st.pc[npc:]:
                if isE(p) and X.subst(p, {self.k.id: 0}) is False:
                    return True
        return False

    def form(self, nv, h, others, v0):
        """closed form of h after k iterations of h := nv(h, k)"""
        k = self.k

        def free(e, ids):
            return not isE(e) or not any(v.id in ids for v in X.variables(e))
        if free(nv, {h.id}):
            # overwritten every iteration (or constant)
            if not free(nv, others):
                return None
            if v0 is not None and same(nv, v0):
                return v0
            prev = X.subst(nv, {k.id: ints.add(k, -1)}) if isE(nv) else nv
            if v0 is None or not okval(v0):
                return prev if free(prev, {k.id}) else X.ite(ints.eq(k, 0), X.fresh('undef', h.sort), prev)
            return X.ite(ints.eq(k, 0), v0, prev)
        if v0 is None or not okval(v0):
            return None
        if h.sort == 'I':
            dlt = intdelta(nv, h)
            if dlt is None or not free(dlt, others | {h.id}):
                return None
            return ints.add(v0, mksum(dlt, k, k))
        if h.sort != 'R':
            return None
        try:
            a = X.diff(nv, h, {})
        except NotImplementedError:
            return None
        b = X.subst(nv, {h.id: Fraction(0)})
        a = norm(a)
        try:
            if not zero(X.sub(nv, X.add(X.mul(a, h), b))):
                return None
        except (poly.TooBig, ZeroDivisionError):
            return None
        if not free(a, {h.id} | others):
            if zero(X.sub(a, Fraction(1))):
                a = Fraction(1)
            else:
                return None
        if not free(b, others):
            return None
        if zero(X.sub(a, Fraction(1))):
            return X.add(v0, mksum(b, k, k))
        kr = toreal(k)
        for cst in (0, 1, 2):
            g = X.add(kr, Fraction(cst))
            if zero(X.sub(X.mul(a, X.add(g, Fraction(1))), g)):
                # (k+c+1) h' = (k+c) h + (k+c+1) b
                s = X.add(X.mul(Fraction(cst), v0), mksum(X.mul(X.add(g, Fraction(1)), b), k, k))
                s = norm(s)
                if cst == 0:
                    return X.ite(ints.eq(k, 0), v0, X.div(s, g))
                return X.div(s, g)
        return None

    def arrays(self, c, npc, hv, closed):
        from .symex import Unsupported, Ptr
        out = {}
        done = {hv[q].id: closed[q] for q in closed}
        for key, lo in self.arrs.items():
            o0 = self.S.mem[key[0]]
            L0 = o0.sym.f.get(key[1])
            n0 = (len(L0) if L0 is not None else 1) + 1      # plus the carried layer
            vals = []
            for st, newv in c.latch:
                s = self.stores(st, key, n0)
                idx = ints.add(lo, self.k)
                if s is not None and ints.cmp0(s[1], idx) != 0:
                    raise Unsupported('loop %s: array index is not the loop index' % self.name)
                vals.append((st, s[2] if s is not None else None))
            if all(v is not None and isinstance(v, Ptr) for _, v in vals):
                if len(vals) > 1 and any(v != vals[0][1] for _, v in vals):
                    raise Unsupported('conditional pointer store')
                body = vals[0][1]
                bv = X.fresh('j', 'I')
                m = {self.k.id: ints.sub(bv, lo)}
                body = Ptr(body.obj, X.subst(body.off, m) if isE(body.off) else body.off)
                out[key] = ('map', lo, ints.add(lo, self.k), bv, body)
                continue
            sort = self.arrsort[key]
            r = None
            for st, v in reversed(vals):
                if v is None:
                    layers = st.mem[key[0]].sym.f[key[1]]
                    layers = [x for x in layers if x[0] != 'carried']
                    v = self.ex.layer_read(st, layers, len(layers) - 1, ints.add(lo, self.k), sort)
                r = v if r is None else (r if same(r, v) else X.ite(conj(p for p in st.pc[npc:] if isE(p)), v, r))
            if isE(r):
                r = X.subst(r, done)
                self.arrsort[key] = r.sort if r.sort != 'B' else sort
            bv = X.fresh('j', 'I')
            body = X.subst(r, {self.k.id: ints.sub(bv, lo)}) if isE(r) else r
            out[key] = ('map', lo, ints.add(lo, self.k), bv, body)
        return out

    def check_inductive(self, c, guess, closed):
        from .symex import Unsupported, Ptr
        for st, newv in c.latch:
            for key, g in guess.items():
                if g is None or key in closed:
                    continue
                v = self.after(st, newv, key)
                if g[0] == 'same':
                    continue
                want = ints.add(g[2] if g[0] == 'ptr' else g[1], ints.mul(ints.add(self.k, 1), g[3] if g[0] == 'ptr' else g[2]))
                got = v.off if isinstance(v, Ptr) else v
                if ints.cmp0(got, want) != 0:
                    raise Unsupported('loop %s: counter form is not inductive' % self.name)
            ch, ar = self.changed(st)
            if any(q not in self.cells for q in ch) or any(q not in self.arrs for q in ar):
                raise Unsupported('loop %s: frame condition fails' % self.name)

    def leave(self, st, target, npc):
        """continue behind the loop; k becomes the iteration that left it"""
        from .symex import PathEnd
        ex = self.ex
        f = st.frames[self.d]
        k = self.k
        # is k determined?
        for p in list(st.pc[npc:]):
            e = None
            if not isE(p):
                continue
            if p.op == '==' and (isE(p.args[0]) and p.args[0].sort == 'I'):
                e = (p.args[0], p.args[1])
            elif p.op == 'not' and isE(p.args[0]) and p.args[0].op in ('<', '<='):
                q = p.args[0]
                a, b = q.args
                if (isE(b) and b.sort == 'I') or (isE(a) and a.sort == 'I'):
                    cand = ints.sub(b, a)
                    if q.op == '<=':
                        cand = ints.add(cand, 1)
                    e = (cand, 0)
            if e is None:
                continue
            g, dd = ints.parts(ints.sub(e[0], e[1]))
            if k not in dd:
                continue
            kk = dd[k]
            rest = {q: w for q, w in dd.items() if q is not k}
            if g % kk or any(w % kk for w in rest.values()):
                continue
            sol = ints.make(-g // kk, {q: -w // kk for q, w in rest.items()})
            if isE(sol) and any(v is k for v in X.variables(sol)):
                continue
            eq = ints.eq(k, sol)
            if p.op != '==':
                if ex.decide(st, eq) is not True:
                    continue
            ex.subst_state(st, {k.id: sol})
            st.pc = [X.subst(q, {k.id: sol}) for q in st.pc]
            out = []
            dead = False
            for q in solve.atoms_of(st.pc):
                if not isE(q):
                    dead |= not q
                else:
                    out.append(q)
            if dead:
                return
            st.pc = out
            break
        ex.jump2(st, target)


def okval(v):
    return isE(v) or isinstance(v, (int, Fraction))


def ssort0(v):
    if isE(v):
        return v.sort
    if isinstance(v, Fraction):
        return 'R'
    if isinstance(v, bool):
        return 'B'
    if isinstance(v, int):
        return 'I'
    return '?'


def same(a, b):
    if isE(a) or isE(b):
        return a is b
    from .symex import Ptr
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return a == b
    try:
        return type(a) == type(b) and a == b
    except Exception:
        return False


def zero(e):
    return poly.prove_zero(e)


def norm(e):
    return e


def intdelta(nv, h):
    """nv - h for integer updates built from ite"""
    if nv is h:
        return 0
    if isE(nv) and nv.op == 'ite':
        a, b = intdelta(nv.args[1], h), intdelta(nv.args[2], h)
        if a is None or b is None:
            return None
        return X.ite(nv.args[0], a, b)
    d = ints.sub(nv, h)
    return d


def symcopy(ex, st, d, s, n):
    """memcpy of a whole symbolic array into fresh storage"""
    from .symex import Unsupported, SymArr
    so, do = st.mem.get(s.obj), st.mem.get(d.obj)
    if so is None or do is None or so.sym is None:
        raise Unsupported('symbolic memcpy')
    src = so.sym
    if do.sym is not None and do.cells:
        raise Unsupported('symbolic memcpy destination')
    cnt = ints.divexact(n, src.stride)
    soff = ints.divexact(s.off, src.stride)
    doff = d.off if not isE(d.off) else ints.divexact(d.off, src.stride)
    if cnt is None or soff is None or isE(soff) or soff != 0 or isE(doff) or doff != 0:
        raise Unsupported('partial symbolic memcpy')
    w = st.w(d.obj)
    w.sym = src.clone()
    if w.sym.n is not cnt:
        w.sym.n = ints.divexact(w.size, src.stride) if isE(w.size) else w.sym.n
