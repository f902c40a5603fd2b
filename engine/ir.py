"""Parser for the textual LLVM IR that clang/opt 18 print (opaque pointers)."""
import re

# --------------------------------------------------------------------- types
# ('i',bits) ('p',) ('f',bits) ('v',) ('a',n,elt) ('s',fields,packed) ('n',name)
# ('m',) metadata ('o',) opaque ('x', ...) function type / label


class Types:
    def __init__(self):
        self.named = {}
        self._sz = {}
        self._off = {}

    def resolve(self, t):
        while t[0] == 'n':
            t = self.named[t[1]]
        return t

    def sizealign(self, t):
        k = t
        r = self._sz.get(k)
        if r:
            return r
        t = self.resolve(t)
        o = t[0]
        if o == 'i':
            b = max(1, (t[1] + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif o == 'p':
            r = (8, 8)
        elif o == 'f':
            r = {32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[t[1]]
        elif o == 'a':
            s, a = self.sizealign(t[2])
            r = (s * t[1], a)
        elif o == 's':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.sizealign(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif o == 'vec':
            s, a = self.sizealign(t[2])
            r = (s * t[1], s * t[1])
        else:
            r = (0, 1)
        self._sz[k] = r
        return r

    def size(self, t):
        return self.sizealign(t)[0]

    def offsets(self, t):
        r = self._off.get(t)
        if r is not None:
            return r
        rt = self.resolve(t)
        off, out = 0, []
        for f in rt[1]:
            s, a = self.sizealign(f)
            if rt[2]:
                a = 1
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        self._off[t] = out
        return out


TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<qid>[%@]"(?:[^"\\]|\\.)*")
 | (?P<id>[%@][-a-zA-Z$._0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-fKLMHR]+|-?[0-9]+)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<q>"(?:[^"\\]|\\.)*")
 | (?P<dots>\.\.\.)
 | (?P<w>[a-zA-Z_][-a-zA-Z_0-9.$]*)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ValueError('tokenize: %r' % s[i:i + 60])
        if m.end() == i:
            break
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
        i = m.end()
        while i < n and s[i] in ' \t':
            i += 1
    return out


def unq(v):
    # strip sigil and quotes
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ValueError('expected %r got %r in %r' % (v, x, self.t[:40]))

    # types
    def type(self):
        k, v = self.next()
        if k == 'w':
            if v == 'ptr':
                t = ('p',)
                if self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'void':
                t = ('v',)
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = ('l',)
            elif v == 'metadata':
                t = ('m',)
            elif v == 'opaque':
                t = ('o',)
            elif v == 'half':
                t = ('f', 32)
            else:
                raise ValueError('type? %r' % v)
        elif k in ('id', 'qid'):
            t = ('n', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            t = self._struct(False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise ValueError('type? %r' % ((k, v),))
        # function type
        if self.peek()[1] == '(' and self._looks_fnty():
            self.next()
            ps, va = [], False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    ps.append(self.type())
                self.accept(',')
            t = ('fn', t, tuple(ps), va)
        return t

    def _looks_fnty(self):
        # after a type, '(' begins a function type only in call/define contexts
        return True

    def _struct(self, packed):
        fs = []
        while not self.accept('}'):
            fs.append(self.type())
            self.accept(',')
        return ('s', tuple(fs), packed)


PARAM_ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture',
              'readonly', 'writeonly', 'readnone', 'returned', 'immarg', 'noreturn', 'nofree',
              'swiftself', 'allocalign', 'allocptr', 'nest'}
PARAM_ATTR_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret',
                'elementtype', 'byref', 'preallocated', 'inalloca', 'nofpclass', 'captures'}


def skip_attrs(p):
    while True:
        k, v = p.peek()
        if k == 'w' and v in PARAM_ATTR:
            p.next()
        elif k == 'w' and v in PARAM_ATTR_P:
            p.next()
            if p.peek()[1] == '(':
                depth = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
            else:
                p.next()  # align N
        elif k == 'q' or k == 'attr':
            p.next()
            if p.accept('='):
                p.next()
        else:
            return


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'x', 'loc', 'uid', 'fn', 'blk', 'idx', 'va')

    def __init__(self, op, dest, ty, a, x, loc):
        self.op, self.dest, self.ty, self.a, self.x, self.loc = op, dest, ty, a, x, loc
        self.va = None

    def __repr__(self):
        return '%s=%s %s %s' % (self.dest, self.op, self.a, self.x)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # register names
        self.ptypes = []
        self.ret = None
        self.vararg = False
        self.blocks = []      # names in order
        self.body = {}        # name -> [Instr]
        self.dbg = None
        self.defined = False
        self.internal = False

    def instrs(self):
        for b in self.blocks:
            for i in self.body[b]:
                yield i


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'defined', 'dbg', 'internal')


class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}
        self.funcs = {}
        self.meta = {}
        self._locs = {}
        self._files = {}
        self._uid = 0
        self._byuid = {}
        self._parse(text)
        for f in self.funcs.values():
            if f.defined:
                self._post(f)

    # ---- top level
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        # first pass: named types + metadata + globals + functions
        bodies = []
        gl = []
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == '!':
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            elif c == '%':
                p = P(tokenize(ln), self)
                name = unq(p.next()[1])
                p.expect('=')
                p.expect('type')
                self.types.named[name] = p.type()
            elif c == '@':
                gl.append(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                bodies.append((ln, lines[i + 1:j]))
                i = j
            elif ln.startswith('declare'):
                self._header(ln, False)
            i += 1
        for ln in gl:
            self._global(ln)
        for h, b in bodies:
            f = self._header(h, True)
            self._body(f, b)

    def _header(self, ln, defined):
        dbg = re.search(r'!dbg !(\d+)', ln)
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        f = self.funcs.get(name) or Function(name)
        self.funcs[name] = f
        f.internal = ' internal ' in ln[:m.start()] or ' private ' in ln[:m.start()]
        f.dbg = int(dbg.group(1)) if dbg else None
        # return type: token before name
        pre = ln[:m.start()].split(None, 1)[1]
        p = P(tokenize(pre), self)
        while True:
            k, v = p.peek()
            if k == 'w' and v in ('internal', 'private', 'dso_local', 'weak', 'linkonce_odr',
                                  'available_externally', 'external', 'hidden', 'local_unnamed_addr',
                                  'unnamed_addr', 'default', 'weak_odr', 'linkonce'):
                p.next()
            else:
                before = p.i
                skip_attrs(p)
                if p.i == before:
                    break
        f.ret = p.type()
        q = P(tokenize(ln[m.end():]), self)
        f.params, f.ptypes = [], []
        while not q.accept(')'):
            if q.accept('...'):
                f.vararg = True
                continue
            if q.accept(','):
                continue
            t = q.type()
            skip_attrs(q)
            f.ptypes.append(t)
            if q.peek()[0] in ('id', 'qid'):
                f.params.append(unq(q.next()[1]))
        if not defined:
            f.nparams = len(f.ptypes)
        f.defined = f.defined or defined
        return f

    def _global(self, ln):
        dbg = re.search(r'!dbg !(\d+)', ln)
        p = P(tokenize(ln), self)
        g = Global()
        g.name = unq(p.next()[1])
        p.expect('=')
        g.const = False
        g.defined = True
        g.internal = False
        g.dbg = int(dbg.group(1)) if dbg else None
        while True:
            k, v = p.peek()
            if v in ('constant', 'global'):
                g.const = v == 'constant'
                p.next()
                break
            if v in ('external', 'extern_weak'):
                g.defined = False
            if v in ('internal', 'private'):
                g.internal = True
            if v == '(':
                # thread_local(...) etc.
                while p.next()[1] != ')':
                    pass
                continue
            if k == 'eof':
                return
            if v == 'alias':
                return
            p.next()
        g.ty = p.type()
        g.init = None
        if g.defined:
            g.init = self.const(p, g.ty)
        self.globals[g.name] = g

    # ---- constants: ints; ('g',name,off); 'undef'; ('agg',[..]); ('str',bytes); ('zero',); ('fp',s)
    def const(self, p, ty):
        k, v = p.next()
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', fpval(v))
            return int(v)
        if k == 'w':
            if v == 'true':
                return 1
            if v == 'false':
                return 0
            if v == 'null':
                return 0
            if v in ('undef', 'poison'):
                return 'undef'
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return 0
            if v == 'getelementptr':
                while p.peek()[0] == 'w' and p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    p.next()
                p.expect('(')
                bt = p.type()
                p.expect(',')
                pt = p.type()
                base = self.const(p, pt)
                idx = []
                while p.accept(','):
                    p.accept('inrange')
                    it = p.type()
                    idx.append(self.const(p, it))
                p.expect(')')
                off = self.gep_const(bt, idx)
                if isinstance(base, tuple) and base[0] == 'g':
                    return ('g', base[1], base[2] + off)
                return base
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
                p.expect('(')
                t = p.type()
                c = self.const(p, t)
                p.expect('to')
                p.type()
                p.expect(')')
                return c
            if v in ('sub', 'add', 'mul', 'shl', 'or', 'and', 'xor', 'icmp', 'select'):
                depth = 0
                while True:
                    x = p.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
                return 'undef'
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.const(p, ty)
        if k in ('id', 'qid') and v[0] == '@':
            return ('g', unq(v), 0)
        if k == 'str':
            return ('str', cstr(v))
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            out = []
            while not p.accept(close):
                t = p.type()
                out.append(self.const(p, t))
                p.accept(',')
            return ('agg', out)
        if v == '<':
            out = []
            if p.accept('{'):
                while not p.accept('}'):
                    t = p.type()
                    out.append(self.const(p, t))
                    p.accept(',')
                p.expect('>')
            else:
                while not p.accept('>'):
                    t = p.type()
                    out.append(self.const(p, t))
                    p.accept(',')
            return ('agg', out)
        raise ValueError('const? %r %r' % (k, v))

    def gep_const(self, bt, idx):
        off = idx[0] * self.types.size(bt) if isinstance(idx[0], int) else 0
        t = bt
        for ix in idx[1:]:
            t = self.types.resolve(t)
            if t[0] == 's':
                off += self.types.offsets(t)[ix]
                t = t[1][ix]
            else:
                off += ix * self.types.size(t[2])
                t = t[2]
        return off

    # ---- bodies
    def _body(self, f, lines):
        cur = None
        i = 0
        n = len(lines)
        f.blocks, f.body = [], {}
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            if ln[0] != ' ':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    if ln[0] == ';':
                        continue
                    raise ValueError('label? ' + ln)
                cur = m.group(1).strip('"')
                f.blocks.append(cur)
                f.body[cur] = []
                continue
            if cur is None:
                cur = 'entry'
                f.blocks.append(cur)
                f.body[cur] = []
            s = ln.strip()
            if s.startswith('switch') or (' = landingpad' in s):
                while not (lines[i - 1].strip().startswith(']') or ' ]' in lines[i - 1]):
                    s += ' ' + lines[i].strip()
                    i += 1
            if 'llvm.dbg.' in s or 'llvm.lifetime' in s:
                if 'dbg.value' in s or 'dbg.declare' in s:
                    self._dbgvar(f, s)
                continue
            ins = self._instr(s)
            if ins is not None:
                f.body[cur].append(ins)

    def _dbgvar(self, f, s):
        m = re.search(r'metadata (?:ptr|i\d+|double|float) (%[-a-zA-Z$._0-9]+), metadata !(\d+)', s)
        if m:
            d = getattr(f, 'varnames', None)
            if d is None:
                d = f.varnames = {}
            d.setdefault(m.group(1)[1:], int(m.group(2)))

    def _val(self, p, ty):
        k, v = p.peek()
        if k in ('id', 'qid') and v[0] == '%':
            p.next()
            return ('r', unq(v))
        if k == 'w' and v == 'asm':
            raise ValueError('asm')
        return self.const(p, ty)

    def _tv(self, p):
        t = p.type()
        skip_attrs(p)
        return t, self._val(p, t)

    def _instr(self, s):
        loc = None
        k = s.rfind('!dbg !')
        if k >= 0:
            m = re.match(r'!dbg !(\d+)', s[k:])
            loc = int(m.group(1))
        # cut trailing metadata
        k = re.search(r', !(?:dbg|llvm|tbaa|srcloc|range|nonnull|prof|noundef|heapallocsite|annotation|unpredictable)', s)
        if k:
            s = s[:k.start()]
        toks = tokenize(s)
        p = P(toks, self)
        dest = None
        if p.peek()[0] in ('id', 'qid') and p.peek(1)[1] == '=':
            dest = unq(p.next()[1])
            p.next()
        k, op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op == 'load':
            p.accept('volatile'); p.accept('atomic')
            t = p.type()
            p.expect(',')
            _, a = self._tv(p)
            return Instr('load', dest, t, (a,), None, loc)
        if op == 'store':
            p.accept('volatile'); p.accept('atomic')
            t, v = self._tv(p)
            p.expect(',')
            _, a = self._tv(p)
            return Instr('store', None, t, (v, a), None, loc)
        if op == 'getelementptr':
            while p.peek()[0] == 'w' and p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            _, base = self._tv(p)
            idx = []
            while p.accept(','):
                it, iv = self._tv(p)
                idx.append((iv, it))
            return Instr('gep', dest, bt, (base,) + tuple(x[0] for x in idx),
                         tuple(x[1] for x in idx), loc)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = self._val(p, t)
            p.expect(',')
            b = self._val(p, t)
            return Instr(op, dest, t, (a, b), pred, loc)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl',
                  'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek()[0] == 'w' and p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan',
                                                         'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.add(p.next()[1])
            t = p.type()
            a = self._val(p, t)
            p.expect(',')
            b = self._val(p, t)
            return Instr('bin', dest, t, (a, b), op, loc)
        if op == 'fneg':
            t = p.type()
            a = self._val(p, t)
            return Instr('cast', dest, t, (a,), ('fneg', t), loc)
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi',
                  'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek()[0] == 'w' and p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            t, a = self._tv(p)
            p.expect('to')
            t2 = p.type()
            return Instr('cast', dest, t2, (a,), (op, t), loc)
        if op == 'alloca':
            t = p.type()
            n = 1
            if p.accept(','):
                if p.peek()[1] != 'align':
                    _, n = self._tv(p)
            return Instr('alloca', dest, t, (n,), None, loc)
        if op == 'br':
            if p.accept('label'):
                return Instr('br', None, None, (), (unq(p.next()[1]),), loc)
            t, c = self._tv(p)
            p.expect(',')
            p.expect('label')
            a = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            b = unq(p.next()[1])
            return Instr('br', None, None, (c,), (a, b), loc)
        if op == 'switch':
            t, c = self._tv(p)
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t2, v = self._tv(p)
                p.expect(',')
                p.expect('label')
                cases.append((v, unq(p.next()[1])))
            return Instr('switch', None, t, (c,), (d, tuple(cases)), loc)
        if op == 'ret':
            t = p.type()
            if t[0] == 'v':
                return Instr('ret', None, t, (), None, loc)
            return Instr('ret', None, t, (self._val(p, t),), None, loc)
        if op == 'unreachable':
            return Instr('unreachable', None, None, (), None, loc)
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan'):
                p.next()
            t = p.type()
            inc = []
            while p.accept('['):
                v = self._val(p, t)
                p.expect(',')
                inc.append((v, unq(p.next()[1])))
                p.expect(']')
                p.accept(',')
            return Instr('phi', dest, t, tuple(x[0] for x in inc), tuple(x[1] for x in inc), loc)
        if op == 'select':
            _, c = self._tv(p)
            p.expect(',')
            t, a = self._tv(p)
            p.expect(',')
            _, b = self._tv(p)
            return Instr('select', dest, t, (c, a, b), None, loc)
        if op == 'call':
            while p.peek()[0] == 'w' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'fast'):
                p.next()
            skip_attrs(p)
            t = p.type()
            ret = t[1] if t[0] == 'fn' else t
            k, v = p.peek()
            if v == 'asm':
                # inline asm: opaque
                return Instr('call', dest, ret, (), ('asm',), loc)
            callee = self._val(p, ('p',))
            p.expect('(')
            args, tys = [], []
            while not p.accept(')'):
                if p.accept(','):
                    continue
                at = p.type()
                skip_attrs(p)
                if at[0] == 'm':
                    # metadata arg
                    depth = 0
                    while p.peek()[1] not in (',', ')') or depth:
                        x = p.next()[1]
                        if x == '(':
                            depth += 1
                        if x == ')':
                            depth -= 1
                    args.append('undef')
                else:
                    args.append(self._val(p, at))
                tys.append(at)
            ins = Instr('call', dest, ret, tuple(args), (callee, tuple(tys)), loc)
            # number of fixed arguments of a variadic call
            ins.va = len(t[2]) if t[0] == 'fn' and t[3] else None
            return ins
        if op == 'extractvalue':
            t, a = self._tv(p)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()[1]))
            return Instr('extractvalue', dest, t, (a,), tuple(ix), loc)
        if op == 'insertvalue':
            t, a = self._tv(p)
            p.expect(',')
            _, b = self._tv(p)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()[1]))
            return Instr('insertvalue', dest, t, (a, b), tuple(ix), loc)
        if op == 'freeze':
            t, a = self._tv(p)
            return Instr('cast', dest, t, (a,), ('bitcast', t), loc)
        if op == 'va_arg':
            t, a = self._tv(p)
            p.expect(',')
            t2 = p.type()
            return Instr('vaarg', dest, t2, (a,), None, loc)
        if op in ('atomicrmw', 'cmpxchg', 'fence'):
            return Instr('opaque', dest, ('i', 64), (), op, loc)
        raise ValueError('instr? ' + s)

    # ---- debug locations
    def enum(self, name):
        for v in self.meta.values():
            if 'DIEnumerator' in v and 'name: "%s"' % name in v:
                return int(re.search(r'value: (-?\d+)', v).group(1))
        raise ValueError('no enumerator %s in the debug information' % name)

    def fields(self, tag):
        """{member name: byte offset} and size of a structure, from the debug information"""
        c = self.__dict__.setdefault('_fields', {})
        if tag in c:
            return c[tag]
        r = None
        for k, v in self.meta.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in v and 'name: "%s"' % tag in v and 'elements:' in v:
                sz = int(re.search(r'size: (\d+)', v).group(1)) // 8
                el = self.meta[int(re.search(r'elements: !(\d+)', v).group(1))]
                d = {}
                for n in re.findall(r'!(\d+)', el):
                    e = self.meta.get(int(n), '')
                    nm = re.search(r'name: "([^"]*)"', e)
                    off = re.search(r'offset: (\d+)', e)
                    if nm:
                        d[nm.group(1)] = int(off.group(1)) // 8 if off else 0
                r = (d, sz)
                break
        if r is None:
            # an anonymous structure behind a typedef
            for k, v in self.meta.items():
                if 'DW_TAG_typedef' in v and 'name: "%s"' % tag in v:
                    b = re.search(r'baseType: !(\d+)', v)
                    t = self.meta.get(int(b.group(1)), '') if b else ''
                    if 'elements:' in t:
                        sz = int(re.search(r'size: (\d+)', t).group(1)) // 8
                        el = self.meta[int(re.search(r'elements: !(\d+)', t).group(1))]
                        d = {}
                        for n in re.findall(r'!(\d+)', el):
                            e = self.meta.get(int(n), '')
                            nm = re.search(r'name: "([^"]*)"', e)
                            off = re.search(r'offset: (\d+)', e)
                            if nm:
                                d[nm.group(1)] = int(off.group(1)) // 8 if off else 0
                        r = (d, sz)
                        break
        c[tag] = r
        return r

    def by_uid(self, n):
        return self._byuid.get(n)

    def loc(self, lid):
        """('file', line) of a !DILocation id"""
        if lid is None:
            return ('?', 0)
        r = self._locs.get(lid)
        if r:
            return r
        t = self.meta.get(lid, '')
        m = re.search(r'line: (\d+)', t)
        line = int(m.group(1)) if m else 0
        m = re.search(r'scope: !(\d+)', t)
        r = (self.scope_file(int(m.group(1))) if m else '?', line)
        self._locs[lid] = r
        return r

    def scope_file(self, sid):
        r = self._files.get(sid)
        if r:
            return r
        t = self.meta.get(sid, '')
        m = re.search(r'file: !(\d+)', t)
        r = '?'
        if m:
            ft = self.meta.get(int(m.group(1)), '')
            mm = re.search(r'filename: "([^"]*)"', ft)
            if mm:
                r = mm.group(1)
                dm = re.search(r'directory: "([^"]*)"', ft)
                if not r.startswith('/') and dm:
                    r = dm.group(1) + '/' + r
                for pre in ('/repo/',):
                    if r.startswith(pre):
                        r = r[len(pre):]
        self._files[sid] = r
        return r

    def fn_loc(self, f):
        if f.dbg is None:
            return ('?', 0)
        t = self.meta.get(f.dbg, '')
        m = re.search(r'line: (\d+)', t)
        return (self.scope_file(f.dbg), int(m.group(1)) if m else 0)

    # ---- post-processing: register numbering, predecessors, RPO, liveness
    def _post(self, f):
        regs = {}
        for nm in f.params:
            regs[nm] = len(regs)
        for ins in f.instrs():
            if ins.dest is not None and ins.dest not in regs:
                regs[ins.dest] = len(regs)
        f.regs = regs
        f.regnames = {v: k for k, v in regs.items()}

        def cv(o):
            if isinstance(o, tuple) and o and o[0] == 'r':
                return ('r', regs[o[1]])
            return o
        for b in f.blocks:
            for i, ins in enumerate(f.body[b]):
                ins.a = tuple(cv(o) for o in ins.a)
                if ins.op == 'call' and ins.x[0] != 'asm':
                    ins.x = (cv(ins.x[0]), ins.x[1])
                if ins.dest is not None:
                    ins.dest = regs[ins.dest]
                self._uid += 1
                ins.uid = self._uid
                self._byuid[self._uid] = ins
                ins.fn, ins.blk, ins.idx = f, b, i
        # CFG
        f.succ, f.pred = {}, {b: [] for b in f.blocks}
        for b in f.blocks:
            t = f.body[b][-1]
            if t.op == 'br':
                s = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else:
                s = []
            f.succ[b] = s
            for x in s:
                f.pred[x].append(b)
        # RPO
        seen, order = set(), []
        stack = [(f.blocks[0], iter(f.succ[f.blocks[0]]))]
        seen.add(f.blocks[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        # loop heads: targets of back edges (RPO based)
        f.heads = set()
        for b in order:
            for s in f.succ[b]:
                if f.rpo[s] <= f.rpo[b]:
                    f.heads.add(s)
        # liveness (registers live-in per block; phi uses attributed to preds)
        use, dfn, phiuse = {}, {}, {b: set() for b in f.blocks}
        for b in order:
            u, d = set(), set()
            for ins in f.body[b]:
                if ins.op == 'phi':
                    d.add(ins.dest)
                    for v, pb in zip(ins.a, ins.x):
                        if isinstance(v, tuple) and v[0] == 'r':
                            phiuse.setdefault(pb, set()).add(v[1])
                    continue
                ops = ins.a
                for v in ops:
                    if isinstance(v, tuple) and v and v[0] == 'r' and v[1] not in d:
                        u.add(v[1])
                if ins.op == 'call' and ins.x[0] != 'asm':
                    v = ins.x[0]
                    if isinstance(v, tuple) and v[0] == 'r' and v[1] not in d:
                        u.add(v[1])
                if ins.dest is not None:
                    d.add(ins.dest)
            use[b], dfn[b] = u, d
        livein = {b: set() for b in f.blocks}
        liveout = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                lo = set(phiuse.get(b, ()))
                for s in f.succ[b]:
                    lo |= livein[s]
                li = use[b] | (lo - dfn[b])
                if lo != liveout[b] or li != livein[b]:
                    liveout[b], livein[b] = lo, li
                    ch = True
        f.livein, f.liveout = livein, liveout


def fpval(v):
    if v.startswith('0x'):
        h = v[2:]
        if h[0] in 'KLMHR':
            return 0.0
        import struct
        return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    return float(v)


def cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1', 'replace')
            i += 1
    return bytes(out)


if __name__ == '__main__':
    import sys, time
    for f in sys.argv[1:]:
        t = time.time()
        m = Module(open(f).read())
        d = [x for x in m.funcs.values() if x.defined]
        print(f, len(d), 'functions', sum(1 for x in d for _ in x.instrs()), 'instrs', round(time.time() - t, 2))
