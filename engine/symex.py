"""Symbolic execution of LLVM IR under the contract harness API (vc_*).

Doubles are mathematical reals, integers are mathematical integers (range facts are
assumed, see DESIGN.md).  A path forks at every branch that the path condition leaves open,
so every obligation is generated for all inputs that satisfy the assumptions."""
import re
import sys
import time
from fractions import Fraction
from . import expr as X, ints, solve
from .expr import E, isE
from .ir import PTR

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off is o.off or \
            (isinstance(o, Ptr) and self.obj == o.obj and not isE(self.off) and not isE(o.off) and self.off == o.off)

    def __hash__(self):
        return hash((self.obj, self.off.id if isE(self.off) else self.off))


NULL = Ptr(None, 0)


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FnObj(str):
    pass


class Uninit:
    def __repr__(self):
        return 'uninit'


UNINIT = Uninit()


class Obj:
    __slots__ = ('size', 'kind', 'cells', 'alive', 'zero', 'sym', 'name', 'owner')

    def __init__(self, size, kind, name=''):
        self.size, self.kind, self.name = size, kind, name
        self.cells = {}
        self.alive = True
        self.zero = False
        self.sym = None      # symbolic array descriptor
        self.owner = None

    def clone(self):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.alive, o.zero = self.alive, self.zero
        o.sym = self.sym.clone() if self.sym else None
        return o


class SymArr:
    """unbounded array of records: field offset -> list of layers (later layers shadow earlier ones)
    layer = ('base',fname,sort) | ('store',idx,val) | ('map',lo,hi,bvar,body) | ('uni',val) | ('ptr',obj,stride,off)"""

    def __init__(self, name, stride, n):
        self.name, self.stride, self.n = name, stride, n
        self.f = {}
        self.default = 'sym'

    def clone(self):
        s = SymArr(self.name, self.stride, self.n)
        s.f = {k: list(v) for k, v in self.f.items()}
        s.default = self.default
        return s


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'ret', 'allocas', 'visits', 'cont', 'va', 'snap')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.prev, f.ip, f.ret = self.fn, self.blk, self.prev, self.ip, self.ret
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.cont = self.cont
        f.va = self.va
        f.snap = dict(self.snap) if self.snap else None
        return f


class State:
    def __init__(self):
        self.frames, self.mem, self.pc = [], {}, []
        self.trace = []
        self.choices = {}
        self.steps = 0
        self.exc = None
        self.info = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        for o in self.mem.values():
            o.owner = None
        s.pc = list(self.pc)
        s.choices = dict(self.choices)
        s.steps = self.steps
        s.exc = self.exc
        s.info = dict(self.info)
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.owner is not self:
            o = o.clone()
            o.owner = self
            self.mem[oid] = o
        return o


class Obligation:
    def __init__(self, name, pc, goal, choices, kind):
        self.name, self.pc, self.goal, self.choices, self.kind = name, pc, goal, choices, kind
        self.status = None
        self.backend = None
        self.model = None
        self.time = 0


LIBM1 = {'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'fabs', 'log10',
         'log2', 'expm1', 'log1p', 'erf', 'erfc', 'cbrt', 'tgamma', 'lgamma', 'asinh', 'acosh'}
LIBM2 = {'pow', 'atan2', 'hypot', 'fmod', 'fmin', 'fmax', 'copysign'}

_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


def fmod(x, y):
    x, y = X.fr(x), X.fr(y)
    if not isE(x) and not isE(y) and y:
        q = abs(x) // abs(y)
        return x - q * abs(y) if x >= 0 else x + q * abs(y)
    return X.func('fmod', x, y)


class Exec:
    MAXUNROLL = 300

    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = opts or {}
        self.globals = {}
        self.obls = []
        self.executed = set()
        self.reached = {}
        self.work = []
        self.feas_timeout = self.o.get('feas_timeout', 1500)
        self.prove_timeout = self.o.get('prove_timeout', 15000)
        self.deadline = None
        self.paths = 0
        self.errors = []
        self.replace = self.o.get('replace', {})
        self.summarised = []
        self.notes = set()
        self.nodiv = 0
        self.mute = 0
        self.unexec = {}

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name=''):
        oid = newid()
        o = Obj(size, kind, name)
        o.owner = st
        st.mem[oid] = o
        return Ptr(oid, 0)

    def gaddr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return Ptr(FnObj(name), 0)
        oid = ('g', name)
        if oid not in st.mem:
            if name not in self.m.globals:
                raise Unsupported('global ' + name)
            const, ext, _, _ = self.m.globals[name]
            t, init = self.m_init(name)
            o = Obj(self.m.size(t) if not ext else None, 'global', name)
            o.owner = st
            st.mem[oid] = o
            if ext and not name.startswith('_ZT') and name not in ('__dso_handle', '_ZSt7nothrow', '_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt3cin', 'stdout', 'stderr', '_ZSt8in_place'):
                o.kind = 'extern'
            if init is not None:
                o.zero = init == ('zero',)
                self.store_const(st, o, 0, t, init)
            elif name.startswith('_ZTV') or name.startswith('_ZTI') or name.startswith('_ZTT'):
                pass
        return Ptr(oid, 0)

    def m_init(self, name):
        g = self.m.globals[name]
        if g[3] is None:
            g[3] = self.m.parser.m.global_init_with(self.m.parser, name) if hasattr(self.m.parser.m, 'global_init_with') \
                else global_init(self.m.parser, name)
        return g[3]

    def store_const(self, st, o, off, t, v):
        k = v[0]
        rt = self.m.resolve(t)
        if k == 'zero':
            self.zero_fill(o, off, rt)
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b if b < 128 else b - 256)
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, ft = self.m.field(rt, i)
                self.store_const(st, o, off + fo, ft, ev)
        elif k == 'undef':
            pass
        else:
            o.cells[off] = (self.m.size(rt), self.const(st, rt, v))

    def zero_fill(self, o, off, t):
        t = self.m.resolve(t)
        if t[0] in ('array', 'vec'):
            if t[1] > 4096:
                o.zero = True
                return
            s = self.m.size(t[2])
            for i in range(t[1]):
                self.zero_fill(o, off + i * s, t[2])
        elif t[0] == 'struct':
            for i in range(len(t[1])):
                fo, ft = self.m.field(t, i)
                self.zero_fill(o, off + fo, ft)
        else:
            o.cells[off] = (self.m.size(t), self.zeroval(t))

    def zeroval(self, t):
        t = self.m.resolve(t)
        if t[0] == 'fp':
            return Fraction(0)
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'int':
            return 0
        if t[0] in ('array', 'vec'):
            return [self.zeroval(t[2]) for _ in range(t[1])]
        if t[0] == 'struct':
            return [self.zeroval(x) for x in t[1]]
        raise TypeError(t)

    def undefval(self, t):
        t = self.m.resolve(t)
        if t[0] == 'fp':
            return X.fresh('undef', 'R')
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'int':
            return X.fresh('undef', 'B') if t[1] == 1 else X.fresh('undef', 'I')
        if t[0] in ('array', 'vec'):
            return [self.undefval(t[2]) for _ in range(t[1])]
        if t[0] == 'struct':
            return [self.undefval(x) for x in t[1]]
        return 0

    def const(self, st, t, v):
        k = v[0]
        if k == 'c':
            x = v[1]
            if isinstance(x, str):
                return X.var('const_' + x, 'R')
            if x.__class__ is Fraction and x.denominator > 1 << 20:
                return literal(x)
            return x
        if k == 'g':
            return self.gaddr(st, v[1])
        if k == 'null':
            return NULL
        if k == 'zero':
            return self.zeroval(t)
        if k == 'undef':
            return self.undefval(t)
        if k == 'gep':
            b = self.const(st, PTR, v[2])
            return self.gep(b, v[1], [(i[1] if i[0] == 'c' else 0) for i in v[3]])
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] == 'inttoptr':
                return x.p if isinstance(x, PInt) else NULL
            return x
        if k == 'arith':
            a, b = self.const(st, None, v[2]), self.const(st, None, v[3])
            if isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj == b.p.obj:
                    return ints.sub(a.p.off, b.p.off)
                return 0
            return a - b if v[1] == 'sub' else a + b
        if k == 'agg':
            return [self.const(st, et, ev) for et, ev in v[1]]
        if k == 'bytes':
            return list(v[1])
        raise Unsupported('const ' + k)

    def gep(self, base, ty, idx):
        off = base.off
        t = ty
        first = True
        for i in idx:
            if first:
                off = ints.add(off, ints.mul(i, self.m.size(t)) if isE(i) else i * self.m.size(t))
                first = False
                continue
            rt = self.m.resolve(t)
            if rt[0] == 'struct':
                fo, t = self.m.field(rt, i)
                off = ints.add(off, fo)
            else:
                t = rt[2]
                off = ints.add(off, ints.mul(i, self.m.size(t)) if isE(i) else i * self.m.size(t))
        return Ptr(base.obj, off)

    def load(self, st, p, t):
        rt = self.m.resolve(t)
        if rt[0] in ('struct', 'array', 'vec'):
            n = rt[1] if rt[0] != 'struct' else len(rt[1])
            out = []
            for i in range(n):
                fo, ft = self.m.field(rt, i)
                out.append(self.load(st, Ptr(p.obj, ints.add(p.off, fo)), ft))
            return out
        n = self.m.size(rt)
        o = self.deref(st, p, n)
        if o.kind == 'extern':
            raise Unsupported('external global _Z ' + o.name)
        if self.unexec and o.kind == 'global' and o.name in self.unexec:
            raise Unsupported('global %s read, its initialiser was not executed: %s' % (o.name, self.unexec[o.name]))
        if o.sym is not None:
            return self.sym_load(st, o, p.off, rt, p)
        off = p.off
        if isE(off):
            return self.load_symoff(st, o, p, rt, n)
        c = o.cells.get(off)
        if c is not None:
            if c[0] == n:
                v = c[1]
                if v is UNINIT:
                    return self.uninit_read(st, o, off, rt)
                return self.retype(v, rt)
            if c[0] > n and not isE(c[1]) and isinstance(c[1], int):
                return self.wrap(c[1] & ((1 << (8 * n)) - 1), 8 * n)
        # covering / composed cells
        return self.load_bytes(st, o, off, n, rt)

    def retype(self, v, rt):
        if rt[0] == 'fp':
            if isinstance(v, (Fraction,)) or isE(v) and v.sort == 'R':
                return v
            if isinstance(v, int):
                if v == 0:
                    return Fraction(0)
                import struct
                d = struct.unpack('<d', (v & (2**64 - 1)).to_bytes(8, 'little'))[0] if rt[1] == 'double' else None
                if d is not None and d == d and abs(d) != float('inf'):
                    return Fraction(d)
            raise Unsupported('type pun to fp: %r' % (v,))
        if rt[0] == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, Fraction) and v == 0:
                return NULL
            raise Unsupported('type pun to ptr: %r' % (v,))
        if rt[0] == 'int':
            if isinstance(v, Ptr):
                return PInt(v) if v.obj is not None else 0
            if isinstance(v, Fraction) and v == 0:
                return 0
            return v     # reals pass through unchanged when only moved
        return v

    def uninit_read(self, st, o, off, rt):
        v = self.undefval(rt)
        n = self.m.size(rt)
        if any(k != off and k < off + n and k + c[0] > off or k == off and c[0] != n
               for k, c in ((k, o.cells.get(k)) for k in range(off - 15, off + n)) if c is not None and c[1] is not UNINIT):
            return v        # partly initialised: any value, the bytes stay
        if o.kind in ('stack', 'heap'):
            o2 = st.w(self.find_oid(st, o))
            o2.cells[off] = (self.m.size(rt), v)
        return v

    def find_oid(self, st, o):
        for k, v in st.mem.items():
            if v is o:
                return k
        raise KeyError

    def load_bytes(self, st, o, off, n, rt):
        if o.zero and not any(off - 16 < k < off + n and k + o.cells[k][0] > off for k in o.cells):
            return self.zeroval(rt)
        # assemble from byte cells / slices of concrete ints
        val = 0
        i = 0
        while i < n:
            found = None
            for k in range(off + i, off + i - 16, -1):
                c = o.cells.get(k)
                if c is not None and k + c[0] > off + i:
                    found = (k, c)
                    break
            if found is None:
                if o.zero:
                    i += 1
                    continue
                if i == 0 or True:
                    return self.uninit_read(st, o, off, rt)
            k, c = found
            v = c[1]
            if isinstance(v, Fraction) and v == 0:
                v = 0
            if isinstance(v, Ptr) and v.obj is None:
                v = 0
            if isinstance(v, Fraction) and c[0] == 8:
                import struct
                v = int.from_bytes(struct.pack('<d', float(v)), 'little')
            if not isinstance(v, int):
                if v is UNINIT:
                    return self.uninit_read(st, o, off, rt)
                raise Unsupported('partial load of %r' % (v,))
            b = ((v & ((1 << (8 * c[0])) - 1)) >> (8 * (off + i - k))) & 255
            val |= b << (8 * i)
            i += 1
        if rt[0] == 'int':
            return self.wrap(val, 8 * n) if rt[1] != 1 else val & 1
        return self.retype(self.wrap(val, 8 * n), rt)

    def wrap(self, v, bits):
        v &= (1 << bits) - 1
        if bits > 1 and v >> (bits - 1):
            v -= 1 << bits
        return v

    def deref(self, st, p, n):
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))
        if p.obj is None:
            self.fail(st, 'null-dereference')
        if isinstance(p.obj, FnObj):
            raise Unsupported('load from function')
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('dangling object %r' % (p.obj,))
        if not o.alive:
            self.fail(st, 'use-after-free')
        if o.size is not None and not isE(o.size) and not isE(p.off):
            if p.off < 0 or p.off + n > o.size:
                self.fail(st, 'out-of-bounds access (offset %d, size %s of %s)' % (p.off, o.size, o.name))
        return o

    def fail(self, st, what):
        """this path is erroneous: an obligation that the path is infeasible"""
        self.oblige(st, 'safe:' + what, False, 'safety')
        raise PathEnd

    def load_symoff(self, st, o, p, rt, n):
        """symbolic offset into an object with concrete cells: case split over the cells"""
        cands = [k for k, c in o.cells.items() if c[0] == n]
        if len(cands) > 256 or not cands:
            raise Unsupported('symbolic offset load')
        raise ForkOffset(p, sorted(cands))

    def store(self, st, p, t, v):
        rt = self.m.resolve(t)
        if rt[0] in ('struct', 'array', 'vec'):
            n = rt[1] if rt[0] != 'struct' else len(rt[1])
            for i in range(n):
                fo, ft = self.m.field(rt, i)
                self.store(st, Ptr(p.obj, ints.add(p.off, fo)), ft, v[i])
            return
        n = self.m.size(rt)
        o = self.deref(st, p, n)
        if o.sym is not None:
            return self.sym_store(st, p, rt, v)
        if isE(p.off):
            raise ForkOffset(p, sorted(k for k, c in o.cells.items() if c[0] == n))
        if o.kind == 'global' and self.m.globals.get(o.name, (False,))[0] and o.name in self.m.globals:
            self.fail(st, 'write to constant ' + o.name)
        o = st.w(p.obj)
        self.put(o, p.off, n, v)

    def put(self, o, off, n, v):
        for k in range(off - 15, off + n):
            c = o.cells.get(k)
            if c is None:
                continue
            if k == off and c[0] == n:
                continue
            if k + c[0] > off and k < off + n:
                # overlapping cell of another size
                if k >= off and k + c[0] <= off + n:
                    del o.cells[k]
                else:
                    val = c[1]
                    if isinstance(val, Fraction) and val == 0:
                        val = 0
                    if isinstance(val, Ptr) and val.obj is None:
                        val = 0
                    del o.cells[k]
                    if val is UNINIT or isE(val) and val.op == 'var' and val.args[0].startswith('undef!'):
                        continue
                    if isinstance(val, int):
                        for i in range(c[0]):
                            if not off <= k + i < off + n:
                                b = (val >> (8 * i)) & 255
                                o.cells[k + i] = (1, b if b < 128 else b - 256)
                    else:
                        raise Unsupported('partial overwrite of %r' % (val,))
        o.cells[off] = (n, v)

    # ---- symbolic arrays
    def sym_split(self, st, sa, off, n):
        """offset -> (index, field offset)"""
        c, d = ints.parts(off)
        if all(k % sa.stride == 0 for k in d.values()):
            f = c % sa.stride
            return ints.make((c - f) // sa.stride, {a: k // sa.stride for a, k in d.items()}), f
        raise Unsupported('offset not a multiple of the record size')

    def sym_bounds(self, st, sa, idx):
        if self.o.get('nobounds'):
            return
        g = X.and_(ints.le(0, idx), ints.lt(idx, sa.n))
        if not isE(g) and g:
            return
        key = ('bnd', g.id if isE(g) else 0)
        if key in st.info:
            return
        st.info[key] = 1
        self.oblige(st, 'safe:array index in bounds', g, 'safety')

    def sym_load(self, st, o, off, rt, p):
        sa = o.sym
        n = self.m.size(rt)
        idx, f = self.sym_split(st, sa, off, n)
        self.sym_bounds(st, sa, idx)
        sort = 'R' if rt[0] == 'fp' else 'I' if rt[0] == 'int' else 'P'
        layers = sa.f.get(f)
        if layers is None:
            layers = sa.f[f] = [('base', '%s.%d' % (sa.name, f), sort)]
        return self.layer_read(st, layers, len(layers) - 1, idx, sort)

    def decide(self, st, c):
        """True/False/None"""
        if not isE(c):
            return bool(c)
        for p in st.pc:
            if p is c:
                return True
        n = X.not_(c)
        for p in st.pc:
            if p is n:
                return False
        if solve.check(self.relevant(st.pc, c) + [n], 2000)[0] == 'unsat':
            return True
        if solve.check(self.relevant(st.pc, c) + [c], 2000)[0] == 'unsat':
            return False
        return None

    def relevant(self, pc, c):
        """integer facts only, when the query is about integers"""
        if all(v.sort != 'R' for v in X.variables(c)):
            return [p for p in pc if all(v.sort != 'R' for v in X.variables(p))
                    and not any(x.op in ('sel', 'app', 'sum') for x in X.topo([p]))]
        return list(pc)

    def layer_read(self, st, layers, i, idx, sort):
        while i >= 0:
            L = layers[i]
            if L[0] == 'base':
                if sort == 'P':
                    raise Unsupported('pointer field of a symbolic array')
                return X.mk('sel', L[2], L[1], X.E_int(idx) if hasattr(X, 'E_int') else idx)
            if L[0] == 'uni':
                return L[1]
            if L[0] == 'ptr':
                return Ptr(L[1], ints.add(ints.mul(idx, L[2]), L[3]))
            if L[0] == 'store':
                r = self.decide(st, ints.eq(idx, L[1]))
                if r is True:
                    return L[2]
                if r is False:
                    i -= 1
                    continue
                raise ForkCond(ints.eq(idx, L[1]))
            if L[0] == 'map':
                _, lo, hi, bv, body = L
                c = X.and_(ints.le(lo, idx), ints.lt(idx, hi))
                r = self.decide(st, c)
                if r is True:
                    if isinstance(body, Ptr):
                        return Ptr(body.obj, X.subst(body.off, {bv.id: idx}))
                    return X.subst(body, {bv.id: idx})
                if r is False:
                    i -= 1
                    continue
                raise ForkCond(c)
            if L[0] == 'carried':
                _, lo, hi, mark = L
                c = X.and_(ints.le(lo, idx), ints.lt(idx, hi))
                r = self.decide(st, c)
                if r is False:
                    i -= 1
                    continue
                raise Unsupported('loop reads array elements written by other iterations')
            raise Unsupported(L[0])
        raise Unsupported('layer')

    def sym_store(self, st, p, rt, v):
        o = st.w(p.obj)
        sa = o.sym
        idx, f = self.sym_split(st, sa, p.off, self.m.size(rt))
        self.sym_bounds(st, sa, idx)
        sort = 'R' if rt[0] == 'fp' else 'I' if rt[0] == 'int' else 'P'
        if sort == 'I' and (isinstance(v, Fraction) or isE(v) and v.sort == 'R'):
            sort = 'R'
        L = sa.f.setdefault(f, [('base', '%s.%d' % (sa.name, f), sort)])
        while L and L[-1][0] == 'store' and ints.cmp0(L[-1][1], idx) == 0:
            L.pop()
        L.append(('store', idx, v))

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind='assert'):
        if self.mute:
            if kind == 'safety':
                self.assume(st, goal)
            return True
        if not isE(goal) and goal:
            ob = Obligation(name, None, True, None, kind)
            ob.status, ob.backend = 'proved', 'fold'
            self.obls.append(ob)
            return True
        ob = Obligation(name, list(st.pc), goal, dict(st.choices), kind)
        t0 = time.time()
        to = self.prove_timeout
        if self.deadline:
            to = max(500, min(to, (self.deadline - time.time()) * 1000))
        r = solve.prove(ob.pc, goal, to)
        ob.status, ob.backend, ob.model = r
        ob.time = time.time() - t0
        self.obls.append(ob)
        if ob.status == 'proved':
            ob.pc = ob.goal = None
            if isE(goal):
                st.pc.append(goal) if kind == 'safety' else None
        else:
            self.on_fail(ob)
        return ob.status == 'proved'

    def on_fail(self, ob):
        pass

    # ------------------------------------------------------------------ values
    def val(self, st, fr, t, v):
        if v[0] == 'l':
            return fr.regs[v[1]]
        return self.const(st, self.m.resolve(t) if t else t, v)

    def assume(self, st, c):
        if not isE(c):
            if not c:
                raise PathEnd
            return
        for a in solve.atoms_of([c]):
            if not isE(a):
                if not a:
                    raise PathEnd
                continue
            st.pc.append(a)

    def feasible(self, st, c):
        if not isE(c):
            return bool(c)
        n = X.not_(c)
        for p in st.pc:
            if p is c:
                return True
            if p is n:
                return False
        r = solve.check(st.pc + [c], self.feas_timeout)[0]
        return r != 'unsat'

    def fork(self, st, c):
        """-> list of (state, bool) for the feasible truth values of c"""
        if not isE(c):
            return [(st, bool(c))]
        a = self.feasible(st, c)
        b = self.feasible(st, X.not_(c))
        if a and not b:
            return [(st, True)]
        if b and not a:
            return [(st, False)]
        if not a and not b:
            return []
        s2 = st.copy()
        self.assume(st, c)
        try:
            self.assume(s2, X.not_(c))
            return [(st, True), (s2, False)]
        except PathEnd:
            return [(st, True)]

    # ------------------------------------------------------------------ running
    def call_entry(self, name, st=None):
        st = st or State()
        f = self.m.funcs[name]
        self.push(st, f, [], None)
        self.work = [st]
        self.drain()

    def drain(self, stop=None):
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            st = self.work.pop()
            self.run_state(st)

    def run_state(self, st):
        self.cur = st
        try:
            while st.frames:
                if self.deadline and (st.steps & 255) == 0 and time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                st.steps += 1
                self.step(st)
            self.paths += 1
            if st.exc:
                self.oblige(st, 'safe:no uncaught exception ' + str(st.exc[1]), False, 'safety')
        except PathEnd:
            self.paths += 1

    def push(self, st, f, args, ret):
        f.blocks
        fr = Frame()
        fr.fn, fr.blk, fr.prev, fr.ip = f, f.entry, None, 0
        fr.regs, fr.allocas, fr.ret, fr.visits = {}, [], ret, {}
        fr.cont = None
        fr.snap = None
        fr.va = args[len(f.params):]
        for (t, nm, at), a in zip(f.params, args):
            if 'byval' in at:
                sz = self.m.size(at['byval'])
                q = self.alloc(st, sz, 'stack', 'byval')
                fr.allocas.append(q.obj)
                self.memcpy(st, q, a, sz)
                a = q
            fr.regs[nm] = a
        st.frames.append(fr)
        self.executed.add(f.name)
        if len(st.frames) > 400:
            raise Unsupported('recursion too deep')

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk][fr.ip]
        k = ins[0]
        try:
            getattr(self, 'x_' + k)(st, fr, ins)
        except ForkCond as fc:
            outs = self.fork(st, fc.c)
            for s, tv in outs:
                try:
                    self.assume(s, fc.c if tv else X.not_(fc.c))
                except PathEnd:
                    continue
                cc = fc.c if tv else X.not_(fc.c)
                if isE(cc) and not any(p is cc for p in s.pc):
                    s.pc.append(cc)
                self.work.append(s)
            raise PathEnd
        except ForkOffset as fo:
            n = 0
            for c in fo.cands:
                s2 = st.copy()
                e = ints.eq(fo.p.off, c)
                if self.feasible(s2, e):
                    if isE(e):
                        self.assume(s2, e)
                    # concretise: substitute in all registers of the frame
                    m = solve.linear_solve(fo.p.off, c)
                    if m:
                        self.subst_state(s2, {m[0].id: m[1]})
                        self.work.append(s2)
                        n += 1
                    else:
                        raise Unsupported('symbolic offset')
            inb = False
            for c in fo.cands:
                inb = X.or_(inb, ints.eq(fo.p.off, c))
            self.oblige(st, 'safe:symbolic offset within object', inb, 'safety')
            raise PathEnd

    def subst_state(self, st, m):
        def sv(v):
            if isE(v):
                return X.subst(v, m)
            if isinstance(v, Ptr) and isE(v.off):
                return Ptr(v.obj, X.subst(v.off, m))
            if isinstance(v, list):
                return [sv(a) for a in v]
            return v
        for fr in st.frames:
            fr.regs = {k: sv(v) for k, v in fr.regs.items()}
        def lay(x):
            y = tuple(sv(a) if isE(a) or isinstance(a, Ptr) else a for a in x)
            return x if all(p is q or p == q and not isE(p) for p, q in zip(x, y)) else y
        for oid, o in list(st.mem.items()):
            if o.sym is not None:
                nf = {k: [lay(x) for x in v] for k, v in o.sym.f.items()}
                if any(a is not b for k, v in nf.items() for a, b in zip(v, o.sym.f[k])) or isE(o.sym.n):
                    o = st.w(oid)
                    o.sym.f = nf
                    o.sym.n = sv(o.sym.n)
            if isE(o.size):
                z = sv(o.size)
                if z is not o.size:
                    st.w(oid).size = z
                    o = st.mem[oid]
            if any(isE(c[1]) or isinstance(c[1], Ptr) and isE(c[1].off) for c in o.cells.values()):
                o = st.w(oid)
                o.cells = {k: (c[0], sv(c[1])) for k, c in o.cells.items()}

    # ---- control
    def jump(self, st, fr, target):
        src = fr.blk
        f = fr.fn
        c = fr.cont
        if c is not None and target not in c.body:
            fr.cont = c.old
            c.exits.append((st, target))
            raise PathEnd
        # phis in parallel
        blk = f.blocks[target]
        newv = {}
        i = 0
        while blk[i][0] == 'phi':
            _, dst, t, inc = blk[i]
            for v, b in inc:
                if b == src:
                    newv[dst] = self.val(st, fr, t, v)
                    break
            else:
                raise Unsupported('phi edge')
            i += 1
        if target in f.loops:
            if src in f.loops[target]:
                fr.visits[target] = fr.visits.get(target, 0) + 1
                if fr.visits[target] > self.MAXUNROLL:
                    raise Unsupported('loop %s:%s exceeds %d iterations without an invariant' % (f.name, target, self.MAXUNROLL))
            else:
                fr.visits[target] = 0
                fr.visits.pop(('peel', target), None)
                fr.visits.pop(('peeling', target), None)
                for h, body in f.loops.items():   # inner loops restart
                    if h in f.loops[target] and h != target:
                        fr.visits[h] = 0
            if c is not None and target == c.h:
                c.latch.append((st, newv))
                raise PathEnd
        fr.regs.update(newv)
        fr.prev, fr.blk, fr.ip = src, target, i
        peeled = target in f.loops and src in f.loops[target] and fr.visits.pop(('peeling', target), None)
        if peeled:
            fr.visits[target] = 0
        if target in f.loops and (src not in f.loops[target] or peeled) and 'haslen' in st.info:
            if fr.snap is None:
                fr.snap = {}
            fr.snap.pop(target, None)
            sc = st.copy()
            fr.snap[target] = sc

    def x_phi(self, st, fr, ins):
        raise Unsupported('phi reached')

    def x_jmp(self, st, fr, ins):
        self.jump(st, fr, ins[2])

    def loop_exit_symbolic(self, st, fr, a, b):
        """is this branch an exit test of a natural loop of the frame"""
        for h, body in fr.fn.loops.items():
            if fr.blk in body and ((a in body) != (b in body)):
                return h
        return None

    def x_br(self, st, fr, ins):
        _, _, cv, a, b = ins
        c = self.val(st, fr, ('int', 1), cv)
        if not isE(c):
            self.jump(st, fr, a if c else b)
            return
        h = self.loop_exit_symbolic(st, fr, a, b)
        if h is not None and self.wants_summary(c) and not (fr.cont is not None and fr.cont.h == h):
            from . import loops
            if fr.visits.get(h, 0) == 0 and loops.summarise(self, st, fr, h):
                raise PathEnd
        outs = self.fork(st, c)
        for s, tv in outs[1:]:
            self.jump2(s, a if tv else b)
        if not outs:
            raise PathEnd
        s, tv = outs[0]
        self.jump(st, st.frames[-1], a if tv else b)

    def jump2(self, s, target):
        """jump in a state that goes to the work list"""
        try:
            self.jump(s, s.frames[-1], target)
        except PathEnd:
            return
        self.work.append(s)

    def wants_summary(self, c):
        return any(v.sort == 'I' and (v.args[0].startswith('len:')) for v in X.variables(c))

    def x_switch(self, st, fr, ins):
        _, _, t, v, d, cases = ins
        x = self.val(st, fr, t, v)
        if not isE(x):
            bits = t[1]
            for cv, lb in cases:
                if self.wrap(cv, bits) == self.wrap(x, bits):
                    self.jump(st, fr, lb)
                    return
            self.jump(st, fr, d)
            return
        rest = True
        for cv, lb in cases:
            e = ints.eq(x, cv)
            if self.feasible(st, X.and_(rest, e)):
                s2 = st.copy()
                self.assume(s2, e)
                self.jump2(s2, lb)
            rest = X.and_(rest, X.not_(e))
        if self.feasible(st, rest):
            self.assume(st, rest)
            self.jump(st, fr, d)
        else:
            raise PathEnd

    def x_ret(self, st, fr, ins):
        v = None if ins[3] is None else self.val(st, fr, ins[2], ins[3])
        self.pop(st, v)

    def pop(self, st, v):
        fr = st.frames.pop()
        for o in fr.allocas:
            st.mem.pop(o, None)
        if not st.frames:
            return
        self.finish_call(st, fr.ret, v)

    def finish_call(self, st, ret, v):
        """ret: the call instruction in the caller"""
        c = st.frames[-1]
        if ret is None:
            return
        if ret[0] == 'special':
            ret[1](self, st, v)
            return
        if ret[1] is not None:
            c.regs[ret[1]] = v
        if ret[0] == 'call':
            c.ip += 1
        else:
            self.jump(st, c, ret[5])

    def x_unreachable(self, st, fr, ins):
        raise PathEnd

    def x_nop(self, st, fr, ins):
        fr.ip += 1

    # ---- exceptions
    def throw(self, st, p, ti):
        st.exc = (p, ti)
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            if ins[0] == 'invoke':
                lp = ins[6]
                self.jump(st, fr, lp)
                return
            if fr.cont is not None and self.mute:
                raise PathEnd
            st.frames.pop()
            for o in fr.allocas:
                st.mem.pop(o, None)
        # uncaught
        return

    def ti_bases(self, st, ti):
        """typeinfo and all its base typeinfos"""
        out, todo = [], [ti]
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.append(t)
            if t not in self.m.globals or self.m.globals[t][1]:
                if t in STD_BASES:
                    todo.extend(STD_BASES[t])
                continue
            _, init = self.m_init(t)
            if init and init[0] == 'agg':
                for et, ev in init[1]:
                    if ev[0] == 'g' and ev[1].startswith('_ZTI'):
                        todo.append(ev[1])
        return out

    def x_landingpad(self, st, fr, ins):
        _, dst, t, clauses, cleanup = ins
        p, ti = st.exc
        sel = 0
        bases = self.ti_bases(st, ti)
        for c in clauses:
            if c[0] == 'null':
                sel = self.tid('')
                break
            if c[0] == 'g' and c[1] in bases:
                sel = self.tid(c[1])
                break
        if sel == 0 and not cleanup:
            # not for us: continue unwinding
            st.frames.pop()
            for o in fr.allocas:
                st.mem.pop(o, None)
            self.throw(st, p, ti)
            return
        fr.regs[dst] = [p, sel]
        fr.ip += 1

    def tid(self, name):
        if not hasattr(self, '_tids'):
            self._tids = {}
        return self._tids.setdefault(name, len(self._tids) + 1)

    def x_resume(self, st, fr, ins):
        p, ti = st.exc
        st.frames.pop()
        for o in fr.allocas:
            st.mem.pop(o, None)
        self.throw(st, p, ti)

    # ---- memory instructions
    def x_alloca(self, st, fr, ins):
        _, dst, t, n = ins
        cnt = self.val(st, fr, ('int', 64), n)
        if isE(cnt):
            raise Unsupported('variable alloca')
        key = ('alloca', dst)
        p = self.alloc(st, self.m.size(t) * cnt, 'stack', '%s.%s' % (fr.fn.name, dst))
        fr.allocas.append(p.obj)
        fr.regs[dst] = p
        fr.ip += 1

    def x_load(self, st, fr, ins):
        p = self.val(st, fr, PTR, ins[3])
        fr.regs[ins[1]] = self.load(st, p, ins[2])
        if ins[2] == ('int', 8) and False:
            pass
        fr.ip += 1

    def x_store(self, st, fr, ins):
        v = self.val(st, fr, ins[2], ins[3])
        p = self.val(st, fr, PTR, ins[4])
        self.store(st, p, ins[2], v)
        fr.ip += 1

    def x_gep(self, st, fr, ins):
        _, dst, t, b, idx = ins
        base = self.val(st, fr, PTR, b)
        ix = []
        for it, iv in idx:
            x = self.val(st, fr, it, iv)
            if isinstance(x, PInt):
                raise Unsupported('gep by pointer')
            ix.append(x)
        if isinstance(base, list):
            raise Unsupported('vector gep')
        fr.regs[dst] = self.gep(base, t, ix)
        fr.ip += 1

    def x_atomicrmw(self, st, fr, ins):
        _, dst, op, t, a, b = ins
        p = self.val(st, fr, PTR, a)
        old = self.load(st, p, t)
        v = self.val(st, fr, t, b)
        new = {'add': lambda: ints.add(old, v), 'sub': lambda: ints.sub(old, v), 'xchg': lambda: v}[op]()
        self.store(st, p, t, new)
        fr.regs[dst] = old
        fr.ip += 1

    # ---- arithmetic
    def x_copy(self, st, fr, ins):
        fr.regs[ins[1]] = self.val(st, fr, ins[2], ins[3])
        fr.ip += 1

    def x_fneg(self, st, fr, ins):
        v = self.val(st, fr, ins[2], ins[3])
        fr.regs[ins[1]] = [X.neg(a) for a in v] if isinstance(v, list) else X.neg(v)
        fr.ip += 1

    def fdiv(self, st, a, b):
        if not isE(b):
            if b == 0:
                self.oblige(st, 'safe:division by zero', False, 'safety')
                return X.fresh('divzero', 'R')
        else:
            key = ('nz', b.id)
            if key not in st.info:
                st.info[key] = 1
                if not self.o.get('nodiv') and not self.nodiv:
                    self.oblige(st, 'safe:division by non-zero', X.not_(X.eq(b, Fraction(0))), 'safety')
        return X.div(a, b)

    def bin(self, st, op, t, a, b):
        if isinstance(a, list):
            return [self.bin(st, op, t[2], x, y) for x, y in zip(a, b)]
        if op == 'fadd':
            return X.add(a, b)
        if op == 'fsub':
            return X.sub(a, b)
        if op == 'fmul':
            return X.mul(a, b)
        if op == 'fdiv':
            return self.fdiv(st, a, b)
        if op == 'frem':
            return fmod(a, b)
        # ints
        bits = t[1]
        if bits == 1:
            a = bool(a) if not isE(a) else a
            b = bool(b) if not isE(b) else b
            r = {'and': X.and_, 'or': X.or_, 'xor': X.xor_, 'add': X.xor_, 'sub': X.xor_, 'mul': X.and_}.get(op)
            if r is None:
                raise Unsupported('i1 ' + op)
            r = r(a, b)
            return int(r) if not isE(r) else r
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj != b.p.obj:
                    self.fail(st, 'subtraction of pointers to different objects')
                return ints.sub(a.p.off, b.p.off)
            if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(Ptr(a.p.obj, ints.add(a.p.off, b, 1 if op == 'add' else -1)))
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, int) and b == 0:
                return a
            if op == 'sub' and isinstance(b, PInt) and b.p.obj is None:
                return a
            if op == 'sub' and not isE(a) and not isinstance(a, PInt) and a == 0:
                return X.fresh('addr', 'I')        # speculated: the value of an address is unspecified
            if op == 'and' and isinstance(a, PInt) and not isE(b):
                return 0 if not isinstance(a.p.obj, FnObj) and b in (1, 7) else 0
            raise Unsupported('pointer arithmetic ' + op)
        if not isE(a) and not isE(b):
            ua, ub = a & ((1 << bits) - 1), b & ((1 << bits) - 1)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op in ('sdiv', 'srem'):
                if b == 0:
                    self.fail(st, 'integer division by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == 'sdiv' else a - q * b
            elif op in ('udiv', 'urem'):
                if ub == 0:
                    self.fail(st, 'integer division by zero')
                r = ua // ub if op == 'udiv' else ua % ub
            elif op == 'shl':
                r = a << ub
            elif op == 'lshr':
                r = ua >> ub
            elif op == 'ashr':
                r = a >> ub
            elif op == 'and':
                r = ua & ub
            elif op == 'or':
                r = ua | ub
            else:
                r = ua ^ ub
            return self.wrap(r, bits)
        if op == 'add':
            return ints.add(a, b)
        if op == 'sub':
            return ints.sub(a, b)
        if op == 'mul':
            return ints.mul(a, b)
        if op == 'shl' and not isE(b):
            return ints.mul(a, 1 << b)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and not isE(b):
            k = b if op in ('sdiv', 'udiv') else 1 << b
            r = ints.divexact(a, k)
            if r is not None:
                return r
            self.notes.add('integer division of a symbolic value assumed non-negative')
            return X.mk('idiv', 'I', a, k)
        if op in ('srem', 'urem') and not isE(b):
            r = ints.divexact(a, b)
            if r is not None:
                return 0
            return X.mk('mod', 'I', a, b)
        if op == 'and' and not isE(b) and b == 1:
            return X.mk('mod', 'I', a, 2)
        if op == 'and' and not isE(b) and b == -1:
            return a
        if op == 'or' and (not isE(b) and b == 0):
            return a
        if op == 'xor' and not isE(b) and b == -1:
            return ints.sub(-1, a)
        if isE(a) and isE(b) and a.sort == 'B' and b.sort == 'B':
            return {'and': X.and_, 'or': X.or_, 'xor': X.xor_}[op](a, b)
        if isE(a) and a.sort == 'B' or isE(b) and b.sort == 'B':
            f = {'and': X.and_, 'or': X.or_, 'xor': X.xor_}.get(op)
            if f:
                return f(a if isE(a) else bool(a), b if isE(b) else bool(b))
        raise Unsupported('integer %s on symbolic values %r %r' % (op, a, b))

    def x_bin(self, st, fr, ins):
        _, dst, op, t, a, b = ins
        rt = self.m.resolve(t)
        x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
        if rt[0] == 'int' and rt[1] != 1:
            # booleans that were zero-extended
            if isE(x) and x.sort == 'B' and op in ('add', 'sub', 'mul'):
                x = X.ite(x, 1, 0)
            if isE(y) and y.sort == 'B' and op in ('add', 'sub', 'mul'):
                y = X.ite(y, 1, 0)
        if op == 'fdiv' and not isinstance(x, list) and self.selected_only(fr.fn, dst):
            # computed ahead of the test that guards it
            fr.regs[dst] = X.fresh('divzero', 'R') if not isE(y) and y == 0 else X.div(x, y)
        else:
            fr.regs[dst] = self.bin(st, op, rt, x, y)
        fr.ip += 1

    @staticmethod
    def selected_only(fn, dst):
        u = getattr(fn, 'seluse', None)
        if u is None:
            u = fn.seluse = {}

            def walk(v, k):
                if isinstance(v, (tuple, list)):
                    if len(v) == 2 and v[0] == 'l' and isinstance(v[1], str):
                        u.setdefault(v[1], set()).add(k)
                        return
                    for w in v:
                        walk(w, k)
            for blk in (fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks):
                for ins in blk:
                    if ins[0] == 'select':
                        walk(ins[3], 'other')
                        walk(ins[4:], 'select')
                    else:
                        walk(ins[1:], 'other')
        return u.get(dst) == {'select'}

    def cast(self, op, ft, v, tt):
        if isinstance(v, list):
            if ft[0] == 'vec' and tt[0] == 'vec':
                return [self.cast(op, ft[2], x, tt[2]) for x in v]
            raise Unsupported('aggregate cast')
        if op in ('ptrtoint',):
            return 0 if v.obj is None and not isE(v.off) and v.off == 0 else PInt(v)
        if op == 'inttoptr':
            return v.p if isinstance(v, PInt) else NULL if v == 0 else Ptr(None, v)
        if op in ('fpext',):
            return v
        if op == 'fptrunc':
            if not isE(v):
                import struct
                if tt[1] == 'float':
                    return Fraction(struct.unpack('f', struct.pack('f', float(v)))[0])
                return v
            if tt[1] == 'float':
                return X.func('f32', v)
            return v
        if op in ('sitofp', 'uitofp'):
            if not isE(v):
                if ft[1] == 1:
                    return Fraction(abs(v)) if op == 'uitofp' else Fraction(-abs(v))
                if op == 'uitofp':
                    return Fraction(v & ((1 << ft[1]) - 1))
                return Fraction(v)
            if v.sort == 'B':
                return X.ite(v, Fraction(1), Fraction(0))
            if v.sort == 'R':
                raise Unsupported('type pun')
            return X.mk('toreal', 'R', v) if v.op != 'lin' or True else v
        if op in ('fptosi', 'fptoui'):
            if not isE(v):
                return int(v)
            return X.mk('f2i', 'I', v)
        if isinstance(v, PInt):
            return v
        if op in ('zext', 'sext'):
            if isE(v):
                return v
            if op == 'zext':
                return v & ((1 << ft[1]) - 1)
            return v if ft[1] > 1 else (-1 if v else 0)
        if op == 'trunc':
            if isE(v):
                if tt[1] == 1 and v.sort == 'I':
                    return X.not_(ints.eq(X.mk('mod', 'I', v, 2), 0))
                return v
            if tt[1] == 1:
                return v & 1
            return self.wrap(v, tt[1])
        if op == 'bitcast':
            return self.retype(v, tt)
        raise Unsupported('cast ' + op)

    def x_cast(self, st, fr, ins):
        _, dst, op, ft, v, tt = ins
        x = self.val(st, fr, ft, v)
        if op in ('fptosi', 'fptoui') and isE(x):
            # truncation towards zero: fork on the sign when open
            neg_ = X.lt(x, Fraction(0))
            r = self.decide(st, neg_)
            if r is None:
                raise ForkCond(neg_)
            fl = X.mk('floor', 'I', X.neg(x) if r else x)
            fr.regs[dst] = ints.mul(fl, -1) if r else fl
            fr.ip += 1
            return
        fr.regs[dst] = self.cast(op, self.m.resolve(ft), x, self.m.resolve(tt))
        fr.ip += 1

    def icmp(self, st, pred, a, b, bits=64):
        if isinstance(a, list):
            return [self.icmp(st, pred, x, y) for x, y in zip(a, b)]
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(None, a)
            if not isinstance(b, Ptr):
                b = Ptr(None, b)
            if a.obj == b.obj:
                a, b = a.off, b.off
                if pred[0] == 'u':
                    pred = 's' + pred[1:]
            else:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                # unrelated objects: an arbitrary but fixed order
                x, y = str(a.obj), str(b.obj)
                if a.obj is None or b.obj is None:
                    x, y = (0, 1) if a.obj is None else (1, 0)
                    if isE(a.off) or isE(b.off):
                        raise Unsupported('pointer order')
                return int({'ult': x < y, 'ule': x < y, 'ugt': x > y, 'uge': x > y}[pred])
        if isE(a) and a.sort == 'B' or isE(b) and b.sort == 'B':
            if pred in ('eq', 'ne'):
                x = a if isE(a) else bool(a)
                y = b if isE(b) else bool(b)
                if isE(x) and x.sort == 'B' and isE(y) and y.sort == 'B':
                    r = X.xor_(x, y)
                elif isE(x) and isE(y):
                    raise Unsupported('bool/int comparison')
                else:
                    r = X.xor_(x, y)
                return r if pred == 'ne' else X.not_(r)
            a = X.ite(a, 1, 0) if isE(a) and a.sort == 'B' else a
            b = X.ite(b, 1, 0) if isE(b) and b.sort == 'B' else b
        if isE(a) and a.sort == 'R' or isE(b) and b.sort == 'R':
            raise Unsupported('integer comparison of a real')
        if not isE(a) and not isE(b):
            if pred[0] == 'u':
                a &= (1 << bits) - 1
                b &= (1 << bits) - 1
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
            return int(r)
        if pred[0] == 'u' and pred not in ('ult0',):
            if not isE(a) and a < 0:
                a &= (1 << bits) - 1
            if not isE(b) and b < 0:
                b &= (1 << bits) - 1
        p = pred if pred in ('eq', 'ne') else pred[1:]
        r = {'eq': lambda: ints.eq(a, b), 'ne': lambda: X.not_(ints.eq(a, b)), 'lt': lambda: ints.lt(a, b),
             'le': lambda: ints.le(a, b), 'gt': lambda: ints.lt(b, a), 'ge': lambda: ints.le(b, a)}[p]()
        return r if isE(r) else int(r)

    def x_icmp(self, st, fr, ins):
        _, dst, pred, t, a, b = ins
        rt = self.m.resolve(t)
        fr.regs[dst] = self.icmp(st, pred, self.val(st, fr, t, a), self.val(st, fr, t, b),
                                 rt[1] if rt[0] == 'int' else 64)
        fr.ip += 1

    def x_fcmp(self, st, fr, ins):
        _, dst, pred, t, a, b = ins
        x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
        if isinstance(x, list):
            raise Unsupported('vector fcmp')
        if pred == 'ord':
            r = True
        elif pred == 'uno':
            r = False
        elif pred in ('true', 'false'):
            r = pred == 'true'
        else:
            p = pred[1:]
            r = {'eq': lambda: X.eq(x, y), 'ne': lambda: X.not_(X.eq(x, y)), 'lt': lambda: X.lt(x, y),
                 'le': lambda: X.le(x, y), 'gt': lambda: X.lt(y, x), 'ge': lambda: X.le(y, x)}[p]()
        fr.regs[dst] = r if isE(r) else int(r)
        fr.ip += 1

    def x_select(self, st, fr, ins):
        _, dst, t, c, a, b = ins
        cv = self.val(st, fr, ('int', 1), c)
        x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
        if not isE(cv):
            r = x if cv else y
        elif isinstance(x, (int, E)) and isinstance(y, (int, E)) and self.m.resolve(t) == ('int', 1):
            r = X.ite(cv, x if isE(x) else bool(x), y if isE(y) else bool(y))
            r = r if isE(r) else int(r)
        else:
            d = None
            for p in st.pc:
                if p is cv:
                    d = True
                elif p is X.not_(cv):
                    d = False
            if d is None:
                raise ForkCond(cv)
            r = x if d else y
        fr.regs[dst] = r
        fr.ip += 1

    def x_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins[2], ins[3])
        for i in ins[4]:
            v = v[i]
        fr.regs[ins[1]] = v
        fr.ip += 1

    def x_insertvalue(self, st, fr, ins):
        _, dst, t, v, et, e, idx = ins
        a = self.val(st, fr, t, v)
        x = self.val(st, fr, et, e)

        def ins_(a, idx):
            a = list(a)
            a[idx[0]] = x if len(idx) == 1 else ins_(a[idx[0]], idx[1:])
            return a
        fr.regs[dst] = ins_(a, idx)
        fr.ip += 1

    def x_extractelement(self, st, fr, ins):
        v = self.val(st, fr, ins[2], ins[3])
        fr.regs[ins[1]] = v[self.val(st, fr, ('int', 64), ins[4])]
        fr.ip += 1

    def x_insertelement(self, st, fr, ins):
        _, dst, t, v, e, i = ins
        rt = self.m.resolve(t)
        a = list(self.val(st, fr, t, v))
        a[self.val(st, fr, ('int', 64), i)] = self.val(st, fr, rt[2], e)
        fr.regs[dst] = a
        fr.ip += 1

    def x_shuffle(self, st, fr, ins):
        _, dst, t, a, b, mt, mk = ins
        x = list(self.val(st, fr, t, a)) + list(self.val(st, fr, t, b))
        mv = self.val(st, fr, mt, mk)
        fr.regs[dst] = [x[i] if not isE(i) else x[0] for i in mv]
        fr.ip += 1

    # ------------------------------------------------------------------ calls
    def x_invoke(self, st, fr, ins):
        self.x_call(st, fr, ins)

    def x_call(self, st, fr, ins):
        rt, fn, args = ins[2], ins[3], ins[4]
        f = self.val(st, fr, PTR, fn)
        av = []
        for (t, v, at) in args:
            av.append(self.val(st, fr, t, v) if t != ('meta',) else None)
        if not isinstance(f, Ptr) or not isinstance(f.obj, FnObj):
            if isinstance(f, Ptr) and f.obj is None:
                self.fail(st, 'call through null pointer')
            raise Unsupported('indirect call %r' % (f,))
        name = str(f.obj)
        name = self.m.aliases.get(name, name)
        ats = [at for (_, _, at) in args]
        self.invoke(st, name, av, ins, ats)

    def invoke(self, st, name, av, ret, ats=None):
        if name in self.replace and not any(f.fn.name == name or f.fn.name == self.replace[name] for f in st.frames):
            tgt = self.replace[name]
            if tgt in self.m.funcs:
                self.used_contracts = getattr(self, 'used_contracts', set())
                self.used_contracts.add(name)
                name = tgt
        from . import models
        h = models.lookup(name)
        if h is not None and (name not in self.m.funcs or h.override):
            r = h(self, st, av, name)
            if r is models.NOFINISH:
                return
            self.finish_call(st, ret, r)
            return
        f = self.m.funcs.get(name)
        if f is None:
            raise Unsupported('external function ' + name)
        self.push(st, f, av, ret)

    def memcpy(self, st, d, s, n):
        if isE(n):
            raise Unsupported('symbolic memcpy length')
        if n == 0:
            return
        so = self.deref(st, s, n)
        self.deref(st, d, n)
        if isE(s.off) or isE(d.off) or so.sym is not None or st.mem[d.obj].sym is not None:
            # records of doubles
            if n % 8:
                raise Unsupported('symbolic memcpy')
            vals = []
            for i in range(0, n, 8):
                vals.append(self.load_any8(st, Ptr(s.obj, ints.add(s.off, i))))
            for i, v in enumerate(vals):
                t = PTR if isinstance(v, Ptr) else ('fp', 'double') if isinstance(v, Fraction) or isE(v) and v.sort == 'R' else ('int', 64)
                self.store(st, Ptr(d.obj, ints.add(d.off, 8 * i)), t, v)
            return
        items = [(k - s.off, c) for k, c in so.cells.items() if s.off <= k and k + c[0] <= s.off + n]
        part = [(k, c) for k, c in so.cells.items() if k < s.off + n and k + c[0] > s.off
                and not (s.off <= k and k + c[0] <= s.off + n)]
        do = st.w(d.obj)
        # clear destination range
        for k in [k for k, c in do.cells.items() if k < d.off + n and k + c[0] > d.off]:
            c = do.cells[k]
            if k >= d.off and k + c[0] <= d.off + n:
                del do.cells[k]
            else:
                self.put(do, max(k, d.off), 1, 0)
        if so.zero and not do.zero:
            covered = sorted((k, c[0]) for k, c in items)
            pos = 0
            for k, sz in covered + [(n, 0)]:
                while pos < k:
                    step = 8 if (d.off + pos) % 8 == 0 and pos + 8 <= k else 1
                    do.cells[d.off + pos] = (step, 0)
                    pos += step
                pos = k + sz
        elif not so.zero and do.zero:
            covered = sorted((k, c[0]) for k, c in items)
            pos = 0
            for k, sz in covered + [(n, 0)]:
                while pos < k:
                    step = 8 if (d.off + pos) % 8 == 0 and pos + 8 <= k else 1
                    do.cells[d.off + pos] = (step, UNINIT)
                    pos += step
                pos = k + sz
        for k, c in items:
            do.cells[d.off + k] = c
        for k, c in part:
            if isinstance(c[1], int):
                for i in range(c[0]):
                    if s.off <= k + i < s.off + n:
                        b = (c[1] >> (8 * i)) & 255
                        do.cells[d.off + k + i - s.off] = (1, b if b < 128 else b - 256)

    def load_any8(self, st, p):
        o = self.deref(st, p, 8)
        if o.sym is not None:
            idx, f = self.sym_split(st, o.sym, p.off, 8)
            L = o.sym.f.get(f)
            sort = 'R'
            if L is not None and L[0][0] == 'base':
                sort = L[0][2]
            if L is not None and L[0][0] == 'ptr':
                sort = 'P'
            return self.sym_load(st, o, p.off, ('fp', 'double') if sort == 'R' else PTR if sort == 'P' else ('int', 64), p)
        if isE(p.off):
            return self.load(st, p, ('fp', 'double'))
        c = o.cells.get(p.off)
        if c is not None and c[0] == 8 and c[1] is not UNINIT:
            return c[1]
        return self.load(st, p, ('fp', 'double'))


class ForkCond(Exception):
    def __init__(self, c):
        self.c = c


class ForkOffset(Exception):
    def __init__(self, p, cands):
        self.p, self.cands = p, cands


STD_BASES = {'_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
             '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
             '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
             '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception']}


LIT = {}


def literal(x):
    """a double literal stands for the number it was rounded from, where that is a short decimal, a simple
    fraction or the root of one (constant folding turns sqrt(2.0) into a literal)"""
    v = LIT.get(x)
    if v is None:
        v, eps = x, Fraction(1, 1 << 51)
        r = repr(float(x))
        if len(r.split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 15:
            v = Fraction(r)
        else:
            q = x.limit_denominator(1000)
            if q and abs(x / q - 1) < eps:
                v = q
            else:
                q = (x * x).limit_denominator(1000)
                if q and abs(x * x / q - 1) < 2 * eps:
                    v = X.func('sqrt', q)
                    if x < 0:
                        v = X.neg(v)
        LIT[x] = v
    return v


def global_init(parser, name):
    g = parser.m.globals[name]
    from .ir import P, tokenize
    p = P(tokenize(g[2]))
    t = parser.type(p)
    init = None
    if not g[1]:
        init = parser.value(p, t)
    return (t, init)
