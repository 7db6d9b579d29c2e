"""Parser for the textual LLVM 18 IR (opaque pointers) that clang prints."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<gid>@(?:"[^"]*"|[-\w$.]+))
|(?P<lid>%(?:"[^"]*"|[-\w$.]+))
|(?P<attr>\#\d+)
|(?P<md>!(?:[-\w.]+|"[^"]*")?)
|(?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
|(?P<word>[A-Za-z_.$][-\w.$]*)
|(?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('tokenize: ' + s[i:i + 60])
        if m.end() == i:
            break
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        if i < n and s[i:].lstrip().startswith(';'):
            break
    return out


# types: ('int',n) ('fp',name) ('ptr',) ('void',) ('struct',[t],packed) ('named',name) ('array',n,t) ('vec',n,t) ('func',...) ('label',) ('meta',)
PTR = ('ptr',)
FP = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}


class P:
    """token stream"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError('expected %r got %r near %r' % (v, x, self.t[max(0, self.i - 6):self.i + 6]))

    def eof(self):
        return self.i >= len(self.t)


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'nofree', 'immarg', 'swiftself', 'nest', 'noalias', 'allocptr', 'allocalign',
               'writable', 'dead_on_unwind'}


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, {}, {}
        self._sz = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            return 16 if b > 8 else 1 << (b - 1).bit_length() if b else 1
        if k == 'fp':
            return FP[t[1]]
        if k == 'ptr':
            return 8
        if k == 'array':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            return 1 if t[2] else max([1] + [self.align(x) for x in t[1]])
        raise TypeError(t)

    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._size(t)
            self._sz[t] = r
        return r

    def _size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            return 1 << (b - 1).bit_length() if b else 0
        if k == 'fp':
            return FP[t[1]]
        if k == 'ptr':
            return 8
        if k == 'array':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise TypeError(t)

    def field(self, t, i):
        """(offset, type) of field i of aggregate t"""
        t = self.resolve(t)
        if t[0] in ('array', 'vec'):
            return i * self.size(t[2]), t[2]
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise IndexError


def unq(s):
    return s[2:-1] if len(s) > 1 and s[1] == '"' else s[1:]


class Parser:
    def __init__(self):
        self.m = Module()

    # ---- types
    def type(self, p):
        k, v = p.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('int', int(v[1:]))
            elif v in FP:
                t = ('fp', v)
            elif v == 'ptr':
                t = PTR
            elif v == 'void':
                t = ('void',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'opaque':
                t = ('struct', (), False)
            elif v == 'token':
                t = ('token',)
            else:
                raise SyntaxError('type ' + v)
        elif k == 'lid':
            t = ('named', unq(v))
        elif v == '{':
            t = self.structbody(p, False)
        elif v == '<':
            if p.peek()[1] == '{':
                p.next()
                t = self.structbody(p, True)
                p.expect('>')
            else:
                n = int(p.next()[1])
                p.expect('x')
                e = self.type(p)
                p.expect('>')
                t = ('vec', n, e)
        elif v == '[':
            n = int(p.next()[1])
            p.expect('x')
            e = self.type(p)
            p.expect(']')
            t = ('array', n, e)
        else:
            raise SyntaxError('type at %r' % (v,))
        while p.peek()[1] == '(' :   # function type
            p.next()
            args = []
            while not p.accept(')'):
                if p.accept('...'):
                    pass
                else:
                    args.append(self.type(p))
                p.accept(',')
            t = ('func', t, tuple(args))
        return t

    def structbody(self, p, packed):
        fs = []
        while not p.accept('}'):
            fs.append(self.type(p))
            p.accept(',')
        return ('struct', tuple(fs), packed)

    # ---- values: ('l',name) ('g',name) ('c',const) ('agg',[..]) ('gep',ty,base,idx) ('undef',) ('null',) ('zero',) ('cast',..)
    def value(self, p, t):
        k, v = p.next()
        if k == 'lid':
            return ('l', unq(v))
        if k == 'gid':
            return ('g', unq(v))
        if k == 'num':
            rt = self.m.resolve(t) if t[0] == 'named' else t
            if rt[0] == 'fp':
                return ('c', self.fp(v))
            return ('c', int(v, 0))
        if k == 'str':
            raw = v[2:-1] if v[0] == 'c' else v[1:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\' and i + 2 < len(raw) + 1 and re.match(r'[0-9A-Fa-f]{2}', raw[i + 1:i + 3]):
                    b.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                elif raw[i] == '\\' and raw[i + 1] == '\\':
                    b.append(92)
                    i += 2
                else:
                    b.append(ord(raw[i]) & 255)
                    i += 1
            return ('bytes', bytes(b))
        if k == 'word':
            if v in ('true', 'false'):
                return ('c', 1 if v == 'true' else 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'null':
                return ('null',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                while p.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    p.next()
                p.expect('(')
                ty = self.type(p)
                p.expect(',')
                bt = self.type(p)
                base = self.value(p, bt)
                idx = []
                while p.accept(','):
                    while p.peek()[1] in ('inrange',):
                        p.next()
                    it = self.type(p)
                    idx.append(self.value(p, it))
                p.expect(')')
                return ('gep', ty, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                p.expect('(')
                ft = self.type(p)
                x = self.value(p, ft)
                p.expect('to')
                tt = self.type(p)
                p.expect(')')
                return ('cast', v, ft, x, tt)
            if v in ('sub', 'add'):
                while p.peek()[1] != '(':
                    p.next()
                p.expect('(')
                t1 = self.type(p)
                a = self.value(p, t1)
                p.expect(',')
                t2 = self.type(p)
                b = self.value(p, t2)
                p.expect(')')
                return ('arith', v, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(p, t)
            if v in ('blockaddress',):
                raise SyntaxError('blockaddress')
            raise SyntaxError('value ' + v)
        if v in ('{', '['):
            close = '}' if v == '{' else ']'
            out = []
            while not p.accept(close):
                et = self.type(p)
                out.append((et, self.value(p, et)))
                p.accept(',')
            return ('agg', out)
        if v == '<':
            packed = p.accept('{')
            out = []
            while p.peek()[1] not in ('>', '}'):
                et = self.type(p)
                out.append((et, self.value(p, et)))
                p.accept(',')
            if packed:
                p.expect('}')
            p.expect('>')
            return ('agg', out)
        if k == 'md':
            # metadata operand: skip
            if p.peek()[1] == '(' or p.peek()[1] == '{':
                depth = 0
                while True:
                    a = p.next()[1]
                    if a in '({':
                        depth += 1
                    elif a in ')}':
                        depth -= 1
                        if depth == 0:
                            break
            return ('undef',)
        raise SyntaxError('value at %r %r' % (k, v))

    def fp(self, v):
        if v.startswith('0x'):
            if v[2] in 'KLMHR':
                if v[2] == 'K':
                    h = int(v[3:], 16)
                    se, man = h >> 64, h & ((1 << 64) - 1)
                    if man == 0:
                        return Fraction(0)
                    f = Fraction(man) * Fraction(2) ** ((se & 0x7fff) - 16383 - 63)
                    return -f if se >> 15 else f
                raise SyntaxError('fp ' + v)
            d = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
        else:
            d = float(v)
        if d != d:
            return 'nan'
        if d in (float('inf'), float('-inf')):
            return 'inf' if d > 0 else '-inf'
        return Fraction(d)

    def skip_attrs(self, p):
        at = {}
        while True:
            k, v = p.peek()
            if k == 'word' and v in PARAM_ATTRS:
                p.next()
            elif k == 'word' and v in ('align',) and p.peek(1)[0] == 'num':
                p.next()
                p.next()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'memory', 'captures',
                                       'range', 'nofpclass', 'allocsize', 'alignstack', 'initializes'):
                p.next()
                if p.peek()[1] == '(':
                    d = 0
                    while True:
                        a = p.next()[1]
                        d += a == '('
                        d -= a == ')'
                        if d == 0:
                            break
                elif p.peek()[0] == 'num':
                    p.next()
            elif k == 'word' and v in ('sret', 'byval', 'elementtype', 'inalloca', 'byref', 'preallocated'):
                p.next()
                if p.accept('('):
                    at[v] = self.type(p)
                    p.expect(')')
            elif k == 'str':
                p.next()
                if p.accept('='):
                    p.next()
            elif k == 'attr':
                p.next()
            else:
                return at

    # ---- module
    def parse(self, text):
        lines = text.split('\n')
        # types first
        for ln in lines:
            m = re.match(r'^%("[^"]*"|[-\w$.]+) = type (.*)$', ln)
            if m:
                name = m.group(1).strip('"')
                self.m.types[name] = self.type(P(tokenize(m.group(2))))
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('@'):
                self.global_(ln)
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                self.m.decls[unq(m.group(1))] = ln
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func(self, ln, lines[i + 1:j])
                self.m.funcs[f.name] = f
                i = j
            i += 1
        return self.m

    def global_(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
        name = unq(m.group(1))
        rest = m.group(2)
        a = re.search(r'\balias\b ', rest)
        if a and not re.search(r'\b(global|constant)\b', rest[:a.start()]):
            g = re.findall(r'@(?:"[^"]*"|[-\w$.]+)', rest)
            self.m.aliases[name] = unq(g[-1])
            return
        g = re.search(r'\b(global|constant)\b ', rest)
        const = g.group(1) == 'constant'
        ext = 'external' in rest[:g.start()].split()
        self.m.globals[name] = [const, ext, rest[g.end():], None]

    def global_init(self, name):
        g = self.m.globals[name]
        if g[3] is None:
            p = P(tokenize(g[2]))
            t = self.type(p)
            init = None
            if not g[1]:
                init = self.value(p, t)
            g[3] = (t, init)
        return g[3]


class Func:
    """lazily parsed function body"""

    def __init__(self, parser, header, body):
        self.parser, self.header, self.body = parser, header, body
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', header)
        self.name = unq(m.group(1))
        self._blocks = None
        self._head = header[m.end() - 1:]
        pre = header[6:m.start()]
        self._pre = pre

    def _parse(self):
        pr = self.parser
        p = P(tokenize(self._head))
        p.expect('(')
        self.params = []
        self.vararg = False
        while not p.accept(')'):
            if p.accept('...'):
                self.vararg = True
            else:
                t = pr.type(p)
                at = pr.skip_attrs(p)
                nm = None
                if p.peek()[0] == 'lid':
                    nm = unq(p.next()[1])
                else:
                    nm = str(len(self.params))
                self.params.append((t, nm, at))
            p.accept(',')
        self._blocks = {}
        self.order = []
        nxt = len(self.params)
        cur = None
        lines = self.body
        i = 0
        # implicit names were printed explicitly by llvm-dis for instructions; entry block label may be implicit
        for ln in lines:
            if not ln.strip():
                continue
            if ln[0] != ' ' and not ln.startswith(';'):
                m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
                cur = m.group(1).strip('"')
                self._blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = str(len([1 for _, nm, _ in self.params if nm.isdigit()]))
                self._blocks[cur] = []
                self.order.append(cur)
            self._blocks[cur].append(ln)
        # join continuation lines (invoke/switch/landingpad span lines)
        for b, ls in self._blocks.items():
            out = []
            for ln in ls:
                s = ln.strip()
                if out and (s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch ')
                            or s.startswith('filter ') or (out[-1].startswith('switch') and not out[-1].rstrip().endswith(']'))):
                    out[-1] += ' ' + s
                else:
                    out.append(s)
            self._blocks[b] = [self.instr(s) for s in out]
        self.entry = self.order[0]
        self._loops()

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def instr(self, s):
        # strip metadata
        s = re.sub(r'(, !\w+ !\d+)+\s*$', '', s)
        pr = self.parser
        m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = (.*)$', s)
        dst = None
        if m:
            dst, s = unq(m.group(1)), m.group(2)
        p = P(tokenize(s))
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        r = getattr(self, 'i_' + op, None)
        if r is None:
            if op in BINOPS:
                while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
                                      'contract', 'afn', 'reassoc'):
                    p.next()
                t = pr.type(p)
                a = pr.value(p, t)
                p.expect(',')
                b = pr.value(p, t)
                return ('bin', dst, op, t, a, b)
            if op in CASTS:
                while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                    p.next()
                t = pr.type(p)
                a = pr.value(p, t)
                p.expect('to')
                return ('cast', dst, op, t, a, pr.type(p))
            raise SyntaxError('instr ' + s)
        return r(dst, p)

    def i_alloca(self, dst, p):
        t = self.parser.type(p)
        n = ('c', 1)
        while p.accept(','):
            if p.peek()[1] == 'align':
                p.next()
                p.next()
            else:
                nt = self.parser.type(p)
                n = self.parser.value(p, nt)
        return ('alloca', dst, t, n)

    def i_load(self, dst, p):
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = self.parser.type(p)
        p.expect(',')
        pt = self.parser.type(p)
        return ('load', dst, t, self.parser.value(p, pt))

    def i_store(self, dst, p):
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = self.parser.type(p)
        v = self.parser.value(p, t)
        p.expect(',')
        pt = self.parser.type(p)
        return ('store', None, t, v, self.parser.value(p, pt))

    def i_getelementptr(self, dst, p):
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = self.parser.type(p)
        p.expect(',')
        bt = self.parser.type(p)
        b = self.parser.value(p, bt)
        idx = []
        while p.accept(','):
            it = self.parser.type(p)
            idx.append((it, self.parser.value(p, it)))
        return ('gep', dst, t, b, idx)

    def callcommon(self, p):
        while p.peek()[0] == 'word' and p.peek()[1] in (
                'fastcc', 'coldcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        self.parser.skip_attrs(p)
        rt = self.parser.type(p)
        if rt[0] == 'func':
            rt = rt[1]
        fn = self.parser.value(p, PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            if p.peek()[1] == 'metadata':
                # skip metadata argument
                d = 0
                while True:
                    a = p.peek()[1]
                    if d == 0 and a in (',', ')'):
                        break
                    d += a in '({['
                    d -= a in ')}]'
                    p.next()
                args.append((('meta',), ('undef',), {}))
            else:
                t = self.parser.type(p)
                at = self.parser.skip_attrs(p)
                args.append((t, self.parser.value(p, t), at))
            p.accept(',')
        self.parser.skip_attrs(p)
        return rt, fn, args

    def i_call(self, dst, p):
        rt, fn, args = self.callcommon(p)
        return ('call', dst, rt, fn, args)

    def i_invoke(self, dst, p):
        rt, fn, args = self.callcommon(p)
        while p.peek()[1] != 'to':
            p.next()
        p.expect('to')
        p.expect('label')
        n = unq(p.next()[1])
        p.expect('unwind')
        p.expect('label')
        u = unq(p.next()[1])
        return ('invoke', dst, rt, fn, args, n, u)

    def i_br(self, dst, p):
        if p.accept('label'):
            return ('jmp', None, unq(p.next()[1]))
        t = self.parser.type(p)
        c = self.parser.value(p, t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1])
        return ('br', None, c, a, b)

    def i_switch(self, dst, p):
        t = self.parser.type(p)
        v = self.parser.value(p, t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = self.parser.type(p)
            cv = self.parser.value(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next()[1])))
        return ('switch', None, t, v, d, cases)

    def i_ret(self, dst, p):
        t = self.parser.type(p)
        return ('ret', None, t, None if t[0] == 'void' else self.parser.value(p, t))

    def i_unreachable(self, dst, p):
        return ('unreachable', None)

    def i_phi(self, dst, p):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        t = self.parser.type(p)
        inc = []
        while True:
            p.expect('[')
            v = self.parser.value(p, t)
            p.expect(',')
            b = unq(p.next()[1])
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return ('phi', dst, t, inc)

    def i_select(self, dst, p):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        ct = self.parser.type(p)
        c = self.parser.value(p, ct)
        p.expect(',')
        t = self.parser.type(p)
        a = self.parser.value(p, t)
        p.expect(',')
        t2 = self.parser.type(p)
        b = self.parser.value(p, t2)
        return ('select', dst, t, c, a, b)

    def i_icmp(self, dst, p):
        if p.peek()[1] == 'samesign':
            p.next()
        pred = p.next()[1]
        t = self.parser.type(p)
        a = self.parser.value(p, t)
        p.expect(',')
        return ('icmp', dst, pred, t, a, self.parser.value(p, t))

    def i_fcmp(self, dst, p):
        while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        pred = p.next()[1]
        t = self.parser.type(p)
        a = self.parser.value(p, t)
        p.expect(',')
        return ('fcmp', dst, pred, t, a, self.parser.value(p, t))

    def i_fneg(self, dst, p):
        t = self.parser.type(p)
        return ('fneg', dst, t, self.parser.value(p, t))

    def i_freeze(self, dst, p):
        t = self.parser.type(p)
        return ('copy', dst, t, self.parser.value(p, t))

    def i_extractvalue(self, dst, p):
        t = self.parser.type(p)
        v = self.parser.value(p, t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return ('extractvalue', dst, t, v, idx)

    def i_insertvalue(self, dst, p):
        t = self.parser.type(p)
        v = self.parser.value(p, t)
        p.expect(',')
        et = self.parser.type(p)
        e = self.parser.value(p, et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return ('insertvalue', dst, t, v, et, e, idx)

    def i_extractelement(self, dst, p):
        t = self.parser.type(p)
        v = self.parser.value(p, t)
        p.expect(',')
        it = self.parser.type(p)
        return ('extractelement', dst, t, v, self.parser.value(p, it))

    def i_insertelement(self, dst, p):
        t = self.parser.type(p)
        v = self.parser.value(p, t)
        p.expect(',')
        et = self.parser.type(p)
        e = self.parser.value(p, et)
        p.expect(',')
        it = self.parser.type(p)
        return ('insertelement', dst, t, v, e, self.parser.value(p, it))

    def i_shufflevector(self, dst, p):
        t = self.parser.type(p)
        a = self.parser.value(p, t)
        p.expect(',')
        t2 = self.parser.type(p)
        b = self.parser.value(p, t2)
        p.expect(',')
        mt = self.parser.type(p)
        mk = self.parser.value(p, mt)
        return ('shuffle', dst, t, a, b, mt, mk)

    def i_landingpad(self, dst, p):
        t = self.parser.type(p)
        clauses = []
        cleanup = False
        while not p.eof():
            if p.accept('cleanup'):
                cleanup = True
            elif p.accept('catch'):
                ct = self.parser.type(p)
                clauses.append(self.parser.value(p, ct))
            elif p.accept('filter'):
                ft = self.parser.type(p)
                self.parser.value(p, ft)
            else:
                break
        return ('landingpad', dst, t, clauses, cleanup)

    def i_resume(self, dst, p):
        t = self.parser.type(p)
        return ('resume', None, t, self.parser.value(p, t))

    def i_atomicrmw(self, dst, p):
        p.accept('volatile')
        op = p.next()[1]
        pt = self.parser.type(p)
        a = self.parser.value(p, pt)
        p.expect(',')
        t = self.parser.type(p)
        return ('atomicrmw', dst, op, t, a, self.parser.value(p, t))

    def i_fence(self, dst, p):
        return ('nop', None)

    def i_va_arg(self, dst, p):
        pt = self.parser.type(p)
        a = self.parser.value(p, pt)
        p.expect(',')
        return ('va_arg', dst, self.parser.type(p), a)

    # ---- natural loops
    def succs(self, b):
        t = self._blocks[b][-1]
        k = t[0]
        if k == 'jmp':
            return [t[2]]
        if k == 'br':
            return [t[3], t[4]]
        if k == 'switch':
            return [t[4]] + [c[1] for c in t[5]]
        if k == 'invoke':
            return [t[5], t[6]]
        return []

    def _loops(self):
        # dominators by iterative sets
        order = self.order
        idx = {b: i for i, b in enumerate(order)}
        reach = []
        seen = set()
        st = [order[0]]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            reach.append(b)
            st.extend(self.succs(b))
        preds = {b: [] for b in reach}
        for b in reach:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(reach) for b in reach}
        dom[order[0]] = {order[0]}
        changed = True
        rl = [b for b in order if b in seen]
        while changed:
            changed = False
            for b in rl:
                if b == order[0]:
                    continue
                new = set.intersection(*[dom[q] for q in preds[b]]) | {b} if preds[b] else {b}
                if new != dom[b]:
                    dom[b] = new
                    changed = True
        self.loops = {}
        for b in rl:
            for s in self.succs(b):
                if s in dom[b]:      # back edge b -> s
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        q = st.pop()
                        if q in body:
                            continue
                        body.add(q)
                        st.extend(preds[q])
        self.preds = preds


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
