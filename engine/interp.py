"""The abstract interpreter: executes LLVM IR over the domain of core.py."""
import heapq, os
from core import *
import ir as IR

PTR = ('p',)


def is_lit(o):
    return not (type(o) is tuple and o and o[0] == 'r')


def deep(x, fs, fo):
    """rename symbols/objects inside arbitrary nested tuples/values"""
    if type(x) is not tuple:
        return x
    if x in fs:
        return fs[x]
    if x in fo:
        return fo[x]
    if not x:
        return x
    if x[0] == 'L' and len(x) == 3 and type(x[2]) is tuple:
        # numeric term
        acc, d = x[1], {}
        ch = False
        for s, k in x[2]:
            n = deep(s, fs, fo)
            if n is not s:
                ch = True
            if type(n) is tuple and n[0] == 'L' and len(n) == 3 and type(n[2]) is tuple:
                acc += n[1] * k
                for s2, k2 in n[2]:
                    d[s2] = d.get(s2, 0) + k * k2
            elif type(n) is int:
                acc += n * k
            else:
                d[n] = d.get(n, 0) + k
        return mklin(acc, d) if ch else x
    out, ch = [], False
    for e in x:
        n = deep(e, fs, fo) if type(e) is tuple else e
        if n is not e:
            ch = True
        out.append(n)
    return tuple(out) if ch else x


def atoms(x, out):
    """plain symbols ('c'/'w'/'e' kinds) and objects mentioned in nested tuples"""
    if type(x) is not tuple or not x:
        return
    t = x[0]
    if t in ('c', 'w', 'e', 'h', 'a', 's') :
        out.add(x)
        if t in ('c', 'w', 'e', 's'):
            return
        return
    if t == 'p' and len(x) > 1 and x[1] in ('c', 'w', 'e', 's'):
        out.add(x)
        return
    for e in x:
        if type(e) is tuple:
            atoms(e, out)


class Ctx:
    """interned call strings"""

    def __init__(self):
        self.tab = {}
        self.rev = [None]

    def get(self, parent, ins):
        k = (parent, ins.uid if ins is not None else 0)
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = len(self.rev)
            self.rev.append((parent, ins))
        return r


class Entry:
    __slots__ = ('state', 'count', 'gens', 'key')

    def __init__(self, state, gens, key):
        self.state, self.count, self.gens, self.key = state, 1, gens, key


class Interp:
    def __init__(self, mod, models, opts=None):
        self.mod = mod
        self.T = mod.types
        self.models = models
        self.evcount = {}
        self.site_names = {}
        self.opts = opts or {}
        self.ctx = Ctx()
        self.findings = {}
        self.entry = None
        self.monitors = []
        self.steps = 0
        self.max_steps = self.opts.get('max_steps', 4000000)
        self.consts = {}
        self.stats = {'functions': set(), 'calls': set(), 'unknown_ext': set(), 'bounds_ok': {},
                      'bounds_unk': {}, 'loads': 0, 'forks': 0, 'merges': 0, 'exits': 0, 'derefs': set()}
        self.inert = self._inert()
        self.K = self.opts.get('K', 4)
        self.check_bounds = self.opts.get('bounds', False)
        self.exits = []
        self._gid = {}
        self.ins = None
        self.wcb = {}
        self.sites = {}
        self.i64slots = set()

    # ------------------------------------------------------------ inert functions
    INERT_EXT = {'fprintf', 'fflush', 'syslog', 'strerror', 'getprogname', 'vsnprintf', 'printf', 'puts',
                 'llvm.va_start', 'llvm.va_end', 'llvm.va_copy', 'llvm.va_start.p0', 'llvm.va_end.p0',
                 'vfprintf', 'fputs', 'fputc', 'vsyslog', 'snprintf', '__errno_location', 'memcpy',
                 'llvm.memcpy.p0.p0.i64', 'memset', 'llvm.memset.p0.i64', 'strlen', 'isatty', 'fileno'}

    def _inert(self):
        """functions whose only effects are on their own locals and on log output"""
        good = {}
        m = self.mod
        cand = {}
        for f in m.funcs.values():
            if not f.defined:
                continue
            ok = True
            callees = set()
            own = set()
            for i in f.instrs():
                if i.op in ('alloca',):
                    own.add(i.dest)
                elif i.op in ('gep', 'cast', 'phi', 'select'):
                    if any(type(o) is tuple and o and o[0] == 'r' and o[1] in own for o in i.a):
                        own.add(i.dest)
                elif i.op == 'store':
                    p = i.a[1]
                    if not (type(p) is tuple and p[0] == 'r' and p[1] in own):
                        ok = False
                        break
                elif i.op == 'call':
                    c = i.x[0]
                    if type(c) is tuple and c[0] == 'g':
                        callees.add(c[1])
                        if c[1] in ('memcpy', 'memset', 'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'vsnprintf', 'snprintf'):
                            p = i.a[0]
                            if not (type(p) is tuple and p[0] == 'r' and p[1] in own):
                                ok = False
                                break
                    elif c != 'asm':
                        ok = False
                        break
                elif i.op in ('opaque', 'vaarg', 'unreachable'):
                    ok = False
                    break
            if ok and f.ret[0] == 'v':
                cand[f.name] = callees
        ch = True
        while ch:
            ch = False
            for n in list(cand):
                for c in cand[n]:
                    if c in self.INERT_EXT or c.startswith('llvm.dbg'):
                        continue
                    if c in cand:
                        continue
                    cf = m.funcs.get(c)
                    if cf is not None and cf.defined and self._pure(cf, set()):
                        continue
                    del cand[n]
                    ch = True
                    break
        return {n for n in cand if self._logs(n, cand, set())}

    def _logs(self, n, cand, seen):
        # inert functions must really be loggers (reach an output call)
        if n in seen:
            return False
        seen.add(n)
        for c in cand[n]:
            if c in ('fprintf', 'syslog', 'vsyslog', 'vfprintf', 'fputs', 'printf', 'puts'):
                return True
            if c in cand and self._logs(c, cand, seen):
                return True
        return False

    def _pure(self, f, seen):
        if f.name in seen:
            return True
        seen.add(f.name)
        for i in f.instrs():
            if i.op in ('store', 'opaque', 'unreachable'):
                return False
            if i.op == 'call':
                c = i.x[0]
                if not (type(c) is tuple and c[0] == 'g'):
                    return False
                cf = self.mod.funcs.get(c[1])
                if c[1] in self.INERT_EXT:
                    continue
                if cf is None or not cf.defined or not self._pure(cf, seen):
                    return False
        return True

    # ------------------------------------------------------------ reporting
    def stack(self, ctx):
        out = []
        while ctx:
            parent, ins = self.ctx.rev[ctx]
            if ins is not None:
                f, l = self.mod.loc(ins.loc)
                out.append('%s (%s:%d)' % (ins.fn.name.split('.')[0], f, l))
            ctx = parent
        return out

    def report(self, st, rule, msg, ins=None, where=None):
        ins = ins or self.ins
        f, l = self.mod.loc(ins.loc) if ins is not None else ('?', 0)
        fn = ins.fn.name.split('.')[0] if ins is not None else '?'
        if where:
            f, l, fn = where if type(where) is tuple else (f, l, where)
        if ins is None:
            # found between two callbacks: the one that ran last is where to look
            g = self.mod.funcs.get(fn.split(' ')[-1].split('(')[0]) if where else None
            if g is not None and sum(n.split('.')[0] == g.name.split('.')[0] for n in self.mod.funcs) > 1:
                g = None        # several static functions of that name
            g = g if g is not None and g.defined else self.entry
            if g is not None:
                x = [i for i in g.instrs() if i.loc is not None]
                if x:
                    f, l = self.mod.loc(x[-1].loc)
                if not where:
                    fn = g.name.split('.')[0]
        k = (rule, f, l, msg, fn if where else None)
        if k in self.findings:
            return
        tr = []
        t = st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        tr.reverse()
        ctx = st.frames[-1].ctx if st.frames else 0
        fd = Finding(rule, msg, f, l, [fn] + self.stack(ctx), tr)
        fd.fn = fn
        self.findings[k] = fd

    def result(self):
        fs = []
        for f in self.findings.values():
            fs.append({'rule': f.rule, 'message': f.msg, 'file': f.file.split('/repo/')[-1], 'line': f.line,
                       'function': f.fn, 'stack': list(f.stack), 'trace': [str(t)[:400] for t in f.trace]})
        fn = sorted(x.split('.')[0] for x in self.stats['functions'])
        mon = {}
        for m in self.monitors:
            for k, v in (getattr(m, 'n', None) or {}).items():
                mon['%s/%s' % (type(m).__name__, k)] = v
        return {'findings': fs, 'functions': fn, 'events': dict(self.evcount), 'abstract_steps': self.steps,
                'modelled_calls': sorted(self.stats['calls']), 'obligations': mon,
                'instructions': sum(1 for x in self.stats['functions'] for _ in self.mod.funcs[x].instrs()),
                'memory_accesses_checked': len(self.stats['bounds_ok']) + len(self.stats['derefs']),
                'undecided_bounds': ['%s: %s' % (k, str(sorted(v, key=str))[:160]) for k, v in self.stats['bounds_unk'].items()],
                'unmodelled': sorted(self.stats['unknown_ext']),
                'sources': [x.split('/repo/')[-1] for x in getattr(getattr(self.mod, 'compiled', None), 'sources', ())]}

    def note(self, st, text):
        ins = self.ins
        if ins is not None:
            f, l = self.mod.loc(ins.loc)
            text = '%s:%d: %s' % (f.split('/')[-1], l, text)
        st.trace = (st.trace, text)

    def emit(self, st, ev, *a):
        self.evcount[ev] = self.evcount.get(ev, 0) + 1
        for m in self.monitors:
            h = getattr(m, 'on_' + ev, None)
            if h is not None:
                h(self, st, *a)

    # ------------------------------------------------------------ symbols
    def used(self, st, sym):
        """is sym mentioned in live parts of the state?"""
        for fr in st.frames:
            for v in fr.regs.values():
                if type(v) is tuple and self._mentions(v, sym):
                    return True
            for v in fr.va:
                if type(v) is tuple and self._mentions(v, sym):
                    return True
        for o, ob in st.mem.items():
            if self._mentions(o, sym) or self._mentions(ob.size, sym):
                return True
            for off, (sz, v) in ob.cells.items():
                if type(v) is tuple and self._mentions(v, sym):
                    return True
                if type(off) is tuple and self._mentions(off, sym):
                    return True
            for k, v in ob.attrs.items():
                if self._mentions(k, sym) or self._mentions(v, sym):
                    return True
        for k, v in st.ghost.items():
            if self._mentions(k, sym) or self._mentions(v, sym):
                return True
        return False

    def _mentions(self, x, sym):
        if x is sym or x == sym:
            return True
        if type(x) is tuple:
            for e in x:
                if type(e) is tuple and self._mentions(e, sym):
                    return True
        return False

    def clear_name(self, st, sym):
        """make the name sym free: rename a live older one, drop facts of a dead one"""
        known = sym in st.iv or sym in st.ne or sym in st.mem or ('X', sym) in st.mem or \
            sym in st.ghost.get('names', ())
        if not self.used(st, sym):
            if known:
                self.drop_sym(st, sym)
            return
        n = 1
        while True:
            new = sym + ('~%d' % n,)
            if not self.used(st, new):
                break
            n += 1
            if n > 12:
                raise StateLimit('symbol generations: %r' % (sym,))
        self.drop_sym(st, new)
        self.rename(st, {sym: new}, {})

    def drop_sym(self, st, sym):
        for s in [s for s in st.iv if s == sym or self._mentions(s, sym)]:
            del st.iv[s]
        for s in [s for s in st.ne if s == sym or self._mentions(s, sym)]:
            del st.ne[s]
        if st.rel:
            st.rel = frozenset(f for f in st.rel if not any(s == sym or self._mentions(s, sym) for s, _ in f[2]))
        if sym in st.mem:
            del st.mem[sym]
        if ('X', sym) in st.mem:
            del st.mem[('X', sym)]

    def rename(self, st, fs, fo):
        def d(x):
            return deep(x, fs, fo) if type(x) is tuple else x
        for i, fr in enumerate(st.frames):
            nf = fr.copy()
            nf.regs = {k: d(v) for k, v in fr.regs.items()}
            nf.va = tuple(d(v) for v in fr.va)
            nf.allocas = tuple(d(v) for v in fr.allocas)
            st.frames[i] = nf
        mem = {}
        for o, ob in st.mem.items():
            n = Obj(ob.kind, d(ob.size), ob.status, {d(k): (sz, d(v)) for k, (sz, v) in ob.cells.items()},
                    ob.default, ob.ver, {d(k): d(v) for k, v in ob.attrs.items()})
            mem[d(o)] = n
        st.mem = mem
        st.iv = {d(k): v for k, v in st.iv.items() if type(d(k)) is tuple and d(k)[0] != 'L'}
        st.ne = {d(k): v for k, v in st.ne.items() if type(d(k)) is tuple and d(k)[0] != 'L'}
        st.rel = frozenset(x for x in (d(f) for f in st.rel) if is_lin(x))
        st.ghost = {d(k): d(v) for k, v in st.ghost.items()}

    def fresh(self, st, tag, ptr=False, lo=None, hi=None, ins=None):
        """a new symbol for the result of the current instruction"""
        ins = ins or self.ins
        ctx = st.frames[-1].ctx if st.frames else 0
        sym = ('p', 'c', tag, ctx, ins.uid if ins else 0) if ptr else ('c', tag, ctx, ins.uid if ins else 0)
        if ins:
            self.site_names.setdefault((ctx, ins.uid), set()).add(sym)
        self.clear_name(st, sym)
        if lo is not None or hi is not None:
            st.iv[sym] = (lo, hi)
        return lin(sym)

    def func_sym(self, st, sym, lo=None, hi=None):
        """a functional symbol (same operands -> same symbol)"""
        if sym not in st.iv and (lo is not None or hi is not None):
            st.iv[sym] = (lo, hi)
        return lin(sym)

    def new_obj(self, st, size, kind='heap', tag='', default='U', ins=None, attrs=None, cells=None):
        ins = ins or self.ins
        ctx = st.frames[-1].ctx if st.frames else 0
        o = ('h', tag, ctx, ins.uid if ins else 0)
        self.clear_name(st, o)
        st.mem[o] = Obj(kind, size, default=default, attrs=attrs, cells=cells)
        return o

    # ------------------------------------------------------------ operands
    def const(self, c, ty=None):
        if type(c) is int:
            return c
        if c == 'undef':
            return 'U'
        t = c[0]
        if t == 'g':
            n = c[1]
            if n in self.mod.funcs and n not in self.mod.globals:
                return ('F', n)
            return ('P', ('g', n), c[2])
        if t == 'fp':
            return ('D', c[1])
        if t == 'zero':
            return 0
        return 'U'

    def val(self, st, o):
        if type(o) is tuple and o and o[0] == 'r':
            return st.frames[-1].regs.get(o[1], 'U')
        return self.const(o)

    # ------------------------------------------------------------ memory
    def obj(self, st, o):
        ob = st.mem.get(o)
        if ob is not None:
            return ob
        if o[0] == 'g':
            ob = self.consts.get(o)
            if ob is not None:
                return ob
            g = self.mod.globals.get(o[1])
            if g is None or not g.defined:
                ob = Obj('ext', None, default='T')
                st.mem[o] = ob
                return ob
            size = self.T.size(g.ty)
            ob = Obj('global', size, default='T')
            if g.const or g.internal or True:
                if type(g.init) is tuple and g.init[0] == 'str':
                    ob.attrs['bytes'] = g.init[1]
                    ob.default = 'B'
                else:
                    self._init_cells(ob.cells, g.ty, g.init, 0)
                    ob.default = 'Z'
            if g.const:
                self.consts[o] = ob
            else:
                st.mem[o] = ob
            return ob
        if o[0] == 'X':
            ob = Obj('ext', None, default='T')
            st.mem[o] = ob
            return ob
        return None

    def _init_cells(self, cells, ty, c, off):
        t = self.T.resolve(ty)
        if c is None or c == 'undef' or (type(c) is tuple and c[0] == 'zero'):
            return
        if type(c) is int or (type(c) is tuple and c[0] in ('g', 'fp')):
            v = self.const(c)
            cells[off] = (self.T.size(t), v)
            return
        if c[0] == 'str':
            for i, b in enumerate(c[1]):
                cells[off + i] = (1, b - 256 if b > 127 else b)
            return
        if c[0] == 'agg':
            if t[0] == 'a':
                es = self.T.size(t[2])
                for i, e in enumerate(c[1]):
                    self._init_cells(cells, t[2], e, off + i * es)
            else:
                offs = self.T.offsets(t)
                for i, e in enumerate(c[1]):
                    self._init_cells(cells, t[1][i], e, off + offs[i])

    def to_obj(self, st, p):
        """pointer value -> (obj id, off) or None"""
        if type(p) is tuple:
            if p[0] == 'P':
                return p[1], p[2]
            if p[0] == 'L':
                base = None
                for s, k in p[2]:
                    if s[0] == 'p' and k == 1:
                        if base is not None:
                            return None
                        base = s
                if base is not None:
                    off = ladd(p, lin(base), -1)
                    return ('X', base), off
        return None

    def access(self, st, p, size, write, what=None):
        """validate an access; returns (obj id, off) or None when it cannot be resolved/continued"""
        r = self.to_obj(st, p)
        if r is None:
            if p == 0:
                self.report(st, 'null-deref', 'dereference of a null pointer')
                return None
            if p == 'U':
                self.report(st, 'uninit', 'use of an uninitialised pointer')
                return None
            if type(p) is tuple and p[0] == 'F':
                return None
            return ('?',)
        o, off = r
        if o[0] == 'X' and type(p) is tuple and p[0] == 'L':
            b = st.bounds1(o[1])
            if b == (0, 0):
                self.report(st, 'null-deref', 'dereference of a null pointer')
                return None
            if b[0] == 0:
                if o[1] in st.ghost.get('maybe_null', ()):
                    self.report(st, 'null-deref', 'dereference of a possibly null pointer')
                st.iv[o[1]] = (1, b[1])
        ob = self.obj(st, o)
        if ob is None:
            self.report(st, 'use-after-return', 'use of a dead local variable')
            return None
        if ob.status != 'alive':
            self.report(st, 'use-after-free', '%s freed memory%s' % ('write to' if write else 'read of',
                        ' (%s)' % what if what else ''))
            return None
        if ob.size is not None and size is not None:
            self.bounds(st, o, ob, off, size, write, what)
        return o, st.simp(off) if type(off) is tuple else off

    def bounds(self, st, o, ob, off, size, write, what=None):
        """obligation 0 <= off and off+size <= ob.size"""
        if type(off) is int and type(size) is int and type(ob.size) is int:
            if off < 0 or off + size > ob.size:
                self.report(st, 'bounds', '%s of %d byte(s) at offset %d of a %d-byte object%s' % (
                    'write' if write else 'read', size, off, ob.size, ' by ' + what if what else ''))
            return
        f, l = self.mod.loc(self.ins.loc)
        key = (f, l, self.ins.fn.name.split('.')[0], write)
        end = ladd(off, size)
        lo_ok = st.prove_ge0(off)
        rest = lsub(ob.size, end)
        hi_ok = st.prove_ge0(rest, 3)
        if not hi_ok and st.prove_ge0(lmul(size, -1)):
            hi_ok = lo_ok = True  # empty access
        if lo_ok and hi_ok:
            self.stats['bounds_ok'][key] = self.stats['bounds_ok'].get(key, 0) + 1
            return
        # definite violation?
        neg = ladd(lmul(rest, -1), -1)
        definite = st.prove_ge0(neg)
        rb = st.bounds(rest)
        self.stats['bounds_unk'].setdefault(key, set()).add(
            ('definite ' if definite else '') + ('low ' if not lo_ok else '') + ('high' if not hi_ok else ''))
        self.emit(st, 'bounds', o, ob, off, size, write, what, lo_ok, hi_ok, definite, rb)

    def load(self, st, p, ty):
        size = self.T.size(ty)
        r = self.access(st, p, size, False)
        if r is None:
            return None
        if r[0] == '?':
            return self.unknown(st, ty, 'ld')
        o, off = r
        ob = self.obj(st, o)
        return self.read_cell(st, o, ob, off, size, ty)

    def read_cell(self, st, o, ob, off, size, ty):
        isptr = ty[0] == 'p'
        c = ob.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isptr and type(v) is tuple and v[0] == 'L':
                pass
            return v
        if type(off) is int:
            if c is not None and c[0] > size and type(c[1]) is int:
                return wrapc(c[1], size * 8)
            if ob.cells:
                for k, (sz, v) in ob.cells.items():
                    if type(k) is int and k < off + size and off < k + sz:
                        if type(v) is int and k <= off and off + size <= k + sz:
                            return wrapc(v >> (8 * (off - k)), size * 8)
                        if v == 'U':
                            return 'U'
                        return self.unknown(st, ty, 'mix')
            d = ob.default
            if d == 'B':
                by = ob.attrs['bytes']
                if off + size <= len(by):
                    return wrapc(int.from_bytes(by[off:off + size], 'little'), size * 8)
                return self.unknown(st, ty, 'oob')
            if d == 'Z':
                return 0 if ty[0] != 'f' else ('D', 0.0)
            if d == 'U':
                return 'U'
        else:
            if ob.default == 'U' and not ob.cells:
                return 'U'
        # location symbol
        if isptr:
            return lin(('p', 'm', o, off, ob.ver))
        if size == 1:
            return self.func_sym(st, ('b', o, off, ob.ver), -128, 127)
        if size == 4 and ty[0] == 'i':
            return self.func_sym(st, ('m', o, off, ob.ver, 4), *I32)
        if size == 2 and ty[0] == 'i':
            return self.func_sym(st, ('m', o, off, ob.ver, 2), -32768, 32767)
        return lin(('m', o, off, ob.ver, size))

    def store(self, st, p, ty, v, what=None):
        size = self.T.size(ty)
        r = self.access(st, p, size, True, what)
        if r is None:
            return False
        if r[0] == '?':
            return True
        o, off = r
        if ty[0] == 'i' and size == 8:
            self.i64slots.add((o, off))
        self.write_cell(st, o, off, size, v)
        return True

    def write_cell(self, st, o, off, size, v):
        ob = self.obj(st, o)
        n = ob.copy()
        if type(off) is int:
            for k in [k for k, (sz, _) in n.cells.items() if (k < off + size and off < k + sz
                      if type(k) is int else True)]:
                if type(k) is not int:
                    # symbolic cell: keep when provably disjoint
                    sz = n.cells[k][0]
                    if st.prove_ge0(lsub(k, off + size)) or st.prove_ge0(lsub(off, ladd(k, sz))):
                        continue
                del n.cells[k]
        else:
            for k in list(n.cells):
                if k == off:
                    continue
                sz = n.cells[k][0]
                if st.prove_ge0(lsub(k, ladd(off, size))) or st.prove_ge0(lsub(off, ladd(k, sz))):
                    continue
                del n.cells[k]
            if n.default in ('U', 'Z', 'B'):
                n.default = 'T'
            n.ver += 1
        if n.size is not None and size == 1 or type(off) is not int:
            n.ver = n.ver if type(off) is not int else n.ver + 1
        if n.ver > 40:
            n.ver = 20
            self.drop_ver(st, o)
        n.cells[off] = (size, v)
        if n.attrs:
            n.attrs = {k: a for k, a in n.attrs.items() if k in KEEP_ATTRS}
        st.mem[o] = n
        self.emit(st, 'store', o, off, size, v)

    def drop_ver(self, st, o):
        def m(s):
            return self._mentions(s, o)
        st.iv = {s: v for s, v in st.iv.items() if not (s[0] in ('b', 'm', 'len', 'chr') and m(s))}
        st.ne = {s: v for s, v in st.ne.items() if not (s[0] in ('b', 'm', 'len', 'chr') and m(s))}

    def havoc(self, st, o, off=None, size=None):
        ob = self.obj(st, o)
        if ob is None:
            return
        n = ob.copy()
        if off is None or type(off) is not int or (size is not None and type(size) is not int):
            if off is not None:
                for k in list(n.cells):
                    sz = n.cells[k][0]
                    if type(k) is int and type(off) is int and k + sz <= off:
                        continue
                    if off is not None and st.prove_ge0(lsub(off, ladd(k, sz))):
                        continue
                    if size is not None and st.prove_ge0(lsub(k, ladd(off, size))):
                        continue
                    del n.cells[k]
            else:
                n.cells = {}
            n.default = 'T'
        else:
            hi = off + size if size is not None else None
            for k in list(n.cells):
                sz = n.cells[k][0]
                if type(k) is int and (k + sz <= off or (hi is not None and k >= hi)):
                    continue
                del n.cells[k]
            n.default = 'T'
        n.ver += 1
        if n.ver > 40:
            n.ver = 20
            self.drop_ver(st, o)
        n.attrs = {k: a for k, a in n.attrs.items() if k in KEEP_ATTRS}
        st.mem[o] = n

    def free(self, st, o, how='free'):
        ob = st.mem.get(o)
        n = Obj(ob.kind, ob.size, 'freed', {}, 'U', ob.ver, {})
        self.emit(st, 'freed', o, ob, how)
        st.mem[o] = n

    def unknown(self, st, ty, tag):
        if ty[0] == 'p':
            return self.fresh(st, tag, ptr=True)
        if ty[0] == 'i':
            if ty[1] == 1:
                return self.fresh(st, tag, lo=0, hi=1)
            if ty[1] <= 32:
                return self.fresh(st, tag, lo=-(1 << ty[1] - 1), hi=(1 << ty[1] - 1) - 1)
        return self.fresh(st, tag)

    # ------------------------------------------------------------ arithmetic
    def concretize(self, st, v):
        """fork a pending comparison into 0/1: [(state, value)]"""
        if type(v) is tuple and v[0] == 'B':
            t = st.truth(v)
            if t is not None:
                return [(st, 1 if t else 0)]
            s2 = st.copy()
            out = []
            if self.assume(st, v, True):
                out.append((st, 1))
            if self.assume(s2, v, False):
                out.append((s2, 0))
            return out
        return [(st, v)]

    def assume(self, st, v, truth):
        if not st.assume(v, truth):
            return False
        if type(v) is tuple and v[0] == 'B':
            self.learn(st, v[2])
            self.learn(st, v[3])
        elif type(v) is tuple and v[0] == 'L':
            self.learn(st, v)
        return True

    def learn(self, st, v):
        """string semantics: byte facts refine length facts"""
        if type(v) is tuple and v[0] == 'L' and len(v[2]) == 1:
            s = v[2][0][0]
            if s[0] in ('b', 'zx') :
                b = s if s[0] == 'b' else (s[1][2][0][0] if is_lin(s[1]) else None)
                if b is None or b[0] != 'b':
                    return
                if s[0] == 'zx':
                    lo, hi = st.bounds1(s)
                    if lo == 0 and hi == 0:
                        st.iv[b] = (0, 0)
                    elif lo is not None and lo > 0:
                        st.ne[b] = st.ne.get(b, frozenset()) | {0}
                _, o, off, ver = b
                lo, hi = st.bounds1(b)
                nz = (lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in st.ne.get(b, ())
                ln = ('len', o, ver)
                ob = st.mem.get(o)
                if ob is not None and ob.ver == ver and ln not in st.iv and (nz or lo == hi == 0):
                    st.iv[ln] = (0, None)
                    for k, (sz, cv) in ob.cells.items():
                        if sz == 1 and cv == 0 and st.prove_ge0(k if type(k) is not tuple or k[0] == 'L' else -1):
                            st.assume_ge0(lsub(k, lin(ln)))
                if lo == 0 and hi == 0:
                    # first NUL at or before off
                    L = self.func_sym(st, ln, 0, None)
                    st.assume_ge0(lsub(off, L))
                elif nz:
                    L = self.func_sym(st, ln, 0, None)
                    if st.prove_ge0(lsub(L, off)):
                        st.assume_ge0(ladd(lsub(L, off), -1))
        self.emit(st, 'learn', v)

    def binop(self, st, op, ty, a, b):
        bits = ty[1] if ty[0] == 'i' else 64
        if ty[0] == 'f':
            if type(a) is tuple and type(b) is tuple and a[0] == 'D' and b[0] == 'D':
                try:
                    x, y = a[1], b[1]
                    return ('D', {'fadd': x + y, 'fsub': x - y, 'fmul': x * y, 'fdiv': x / y if y else 0.0}[op])
                except KeyError:
                    pass
            return lin(('fop', op, a, b))
        if a == 'U' or b == 'U':
            if op == 'and' and type(b) is int:
                return 0        # clearing a bit-field in an otherwise unset unit
            return 'U'
        if is_ptr(a) or is_ptr(b):
            if op == 'sub' and is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                return lsub(a[2], b[2])
            if op == 'add' and is_ptr(a) and is_num(b):
                return ('P', a[1], ladd(a[2], b))
            if op == 'sub' and is_ptr(a) and is_num(b):
                return ('P', a[1], lsub(a[2], b))
            if op == 'sub' and is_ptr(a) and a[1][0] == 'X' and is_lin(b):
                return lsub(ladd(lin(a[1][1]), a[2]), b)
            if op == 'sub' and is_ptr(b) and b[1][0] == 'X' and is_lin(a):
                return lsub(a, ladd(lin(b[1][1]), b[2]))
            return lin(('op', op, a, b))
        if not (is_num(a) and is_num(b)):
            return lin(('op', op, a, b))
        if op == 'add':
            r = ladd(a, b)
            return wrapc(r, bits) if type(r) is int else r
        if op == 'sub':
            r = lsub(a, b)
            return wrapc(r, bits) if type(r) is int else r
        a, b = st.simp(a), st.simp(b)
        if op == 'mul':
            if type(a) is int and type(b) is int:
                return wrapc(a * b, bits)
            if type(b) is int:
                return lmul(a, b)
            if type(a) is int:
                return lmul(b, a)
            la, lb = st.bounds(a), st.bounds(b)
            lo = 0 if la[0] is not None and la[0] >= 0 and lb[0] is not None and lb[0] >= 0 else None
            return self.func_sym(st, ('op', op, a, b), lo, None)
        if type(a) is int and type(b) is int:
            ua, ub = a & ((1 << bits) - 1), b & ((1 << bits) - 1)
            try:
                if op == 'and':
                    r = ua & ub
                elif op == 'or':
                    r = ua | ub
                elif op == 'xor':
                    r = ua ^ ub
                elif op == 'shl':
                    r = ua << ub
                elif op == 'lshr':
                    r = ua >> ub
                elif op == 'ashr':
                    r = a >> ub
                elif op == 'udiv':
                    r = ua // ub
                elif op == 'urem':
                    r = ua % ub
                elif op == 'sdiv':
                    r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif op == 'srem':
                    r = abs(a) % abs(b) * (1 if a >= 0 else -1)
                else:
                    r = 0
            except ZeroDivisionError:
                self.report(st, 'div0', 'division by zero')
                return self.unknown(st, ty, 'div0')
            return wrapc(r, bits)
        lo = hi = None
        la, ha = st.bounds(a)
        if op == 'and':
            for m, o, l, h in ((a, b, *st.bounds(b)), (b, a, la, ha)):
                if type(m) is int and m >= 0:
                    if l is not None and l >= 0 and h is not None and m & -m > h:
                        return 0        # all of the mask's bits are above the value's
                    lo, hi = 0, m
            if type(b) is int and b == -1:
                return a
        elif op == 'shl' and type(b) is int:
            return lmul(a, 1 << b)
        elif op in ('lshr', 'ashr', 'udiv', 'sdiv') and type(b) is int and la is not None and la >= 0:
            k = (1 << b) if op in ('lshr', 'ashr') else b
            if k > 0:
                lo, hi = la // k, (ha // k if ha is not None else None)
                r = self.func_sym(st, ('op', op, a, b), lo, hi)
                return r
        elif op in ('urem', 'srem') and type(b) is int and b > 0:
            if la is not None and la >= 0:
                lo, hi = 0, b - 1
            elif op == 'urem':
                lo, hi = 0, b - 1
            else:
                lo, hi = -(b - 1), b - 1
        elif op == 'or':
            if a == 0:
                return b
            if b == 0:
                return a
            if la is not None and la >= 0:
                lb = st.bounds(b)[0]
                if lb is not None and lb >= 0:
                    lo = 0
        elif op == 'xor' and type(b) is int and b == -1:
            return ladd(lmul(a, -1), -1)
        if lo is None and hi is None and bits == 32:
            lo, hi = I32
        return self.func_sym(st, ('op', op, a, b), lo, hi)

    def cast(self, st, op, t1, t2, v):
        if v == 'U':
            return 'U'
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op == 'zext':
            if type(v) is int:
                return v & ((1 << t1[1]) - 1)
            if v[0] == 'B':
                return v
            if v[0] == 'L':
                lo, hi = st.bounds(v)
                if (lo is not None and lo >= 0) or st.prove_ge0(v):
                    return v
                r = self.func_sym(st, ('zx', v, t1[1]), 0, (1 << t1[1]) - 1)
                if hi is not None and hi < 0:
                    return ladd(v, 1 << t1[1])
                return r
            return v
        if op == 'sext':
            if type(v) is tuple and v[0] == 'B':
                return lin(('op', 'sext', v, 0))
            return v
        if op == 'trunc':
            n = t2[1]
            if type(v) is int:
                return wrapc(v, n)
            if v[0] == 'B':
                return v
            if n == 1:
                lo, hi = st.bounds(v) if v[0] == 'L' else (None, None)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    return v
                return self.func_sym(st, ('op', 'and', v, 1), 0, 1)
            if v[0] == 'L':
                lo, hi = st.bounds(v)
                if lo is not None and hi is not None and lo >= -(1 << n - 1) and hi < (1 << n - 1):
                    return v
                if len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1:
                    s = v[2][0][0]
                    if s[0] == 'zx' and s[2] == n:
                        return s[1]
                if n == 32:
                    # lengths and counts narrowed to int: assumed to fit (DESIGN: no >2 GiB objects)
                    if (lo is not None and lo >= 0) or st.prove_ge0(v):
                        return v
                return self.func_sym(st, ('tr', v, n), -(1 << n - 1), (1 << n - 1) - 1)
            return v
        # floating point
        if type(v) is tuple and v[0] == 'D' and op in ('fpext', 'fptrunc'):
            return v
        if op in ('sitofp', 'uitofp') and type(v) is int:
            return ('D', float(v))
        return lin(('fc', op, v))

    def icmp(self, st, pred, a, b):
        if a == 'U' or b == 'U':
            self.report(st, 'uninit', 'comparison of an uninitialised value')
            return self.fresh(st, 'cmpU', lo=0, hi=1)
        if type(a) is tuple and a[0] == 'B' or type(b) is tuple and b[0] == 'B':
            x, y = (a, b) if type(a) is tuple and a[0] == 'B' else (b, a)
            if y == 0 and pred == 'eq':
                return ('B', NEG[x[1]], x[2], x[3])
            if y == 0 and pred == 'ne':
                return x
            if y in (1, -1) and pred == 'eq':
                return x
            if y in (1, -1) and pred == 'ne':
                return ('B', NEG[x[1]], x[2], x[3])
        r = st.cmp(pred, a, b)
        if r is not None:
            return 1 if r else 0
        # comparisons between different pointer representations
        if type(a) is tuple and type(b) is tuple and pred not in ('eq', 'ne'):
            if a[0] == 'P' and a[1][0] == 'X' and b[0] == 'L':
                a = ladd(lin(a[1][1]), a[2])
            if b[0] == 'P' and b[1][0] == 'X' and a[0] == 'L':
                b = ladd(lin(b[1][1]), b[2])
        return ('B', pred, a, b)

    # ------------------------------------------------------------ joins
    def join(self, a, b, widen=False, thr=(), keeprel=False):
        """facts of a joined with b (same shape); returns new state and whether a changed"""
        r = a.copy()
        ch = False
        iv = {}
        for s, (lo, hi) in a.iv.items():
            l2, h2 = b.bounds1(s)
            nl = lo if lo is not None and l2 is not None and l2 >= lo else (
                None if lo is None or l2 is None else l2)
            nh = hi if hi is not None and h2 is not None and h2 <= hi else (
                None if hi is None or h2 is None else h2)
            if (nl, nh) != (lo, hi):
                ch = True
                if widen:
                    if nl != lo and nl is not None:
                        c = [t for t in thr if t <= nl]
                        nl = max(c) if c else None
                    if nh != hi and nh is not None:
                        c = [t for t in thr if t >= nh]
                        nh = min(c) if c else None
            if nl is not None or nh is not None:
                iv[s] = (nl, nh)
        ne = {}
        for s in set(a.ne) | set(b.ne) | {s for s in set(a.iv) & set(b.iv)}:
            cand = a.ne.get(s, frozenset()) | b.ne.get(s, frozenset()) | {0}
            keep = frozenset(v for v in cand if self._excl(a, s, v) and self._excl(b, s, v))
            lo, hi = iv.get(s, (None, None))
            keep = frozenset(v for v in keep if not ((lo is not None and v < lo) or (hi is not None and v > hi)))
            if keep:
                ne[s] = keep
            if a.ne.get(s, frozenset()) - keep:
                ex = a.ne[s] - keep
                if any(not self._excl(r, s, v) for v in ex) or True:
                    ch = ch or any(not ((lo is not None and v < lo) or (hi is not None and v > hi)) for v in ex)
        rel = frozenset(f for f in a.rel if f in b.rel or b.prove_ge0(f))
        if rel != a.rel:
            ch = True
        if not widen or keeprel:
            rel |= frozenset(f for f in b.rel if f not in rel and a.prove_ge0(f))
        r.iv, r.ne, r.rel = iv, ne, rel
        if b.ghost is not a.ghost:
            pass
        return r, ch

    def _excl(self, st, s, v):
        if v in st.ne.get(s, ()):
            return True
        lo, hi = st.bounds1(s)
        return (lo is not None and v < lo) or (hi is not None and v > hi)

    def live_atoms(self, st):
        out = set()
        for fr in st.frames:
            for v in fr.regs.values():
                if type(v) is tuple:
                    atoms(v, out)
            for v in fr.va:
                if type(v) is tuple:
                    atoms(v, out)
        for o, ob in st.mem.items():
            atoms(o, out)
            if type(ob.size) is tuple:
                atoms(ob.size, out)
            for off, (sz, v) in ob.cells.items():
                if type(v) is tuple:
                    atoms(v, out)
                if type(off) is tuple:
                    atoms(off, out)
            for k, v in ob.attrs.items():
                if type(k) is tuple:
                    atoms(k, out)
                if type(v) is tuple:
                    atoms(v, out)
        for k, v in st.ghost.items():
            if type(k) is tuple:
                atoms(k, out)
            if type(v) is tuple:
                atoms(v, out)
        return out

    def prune_facts(self, st):
        live = self.live_atoms(st)
        cache = {}

        def ok(s):
            r = cache.get(s)
            if r is None:
                a = set()
                atoms(s, a)
                r = cache[s] = all(x in live for x in a)
            return r
        st.iv = {s: v for s, v in st.iv.items() if ok(s)}
        st.ne = {s: v for s, v in st.ne.items() if ok(s)}
        if st.rel:
            st.rel = frozenset(f for f in st.rel if all(ok(s) for s, _ in f[2]))

    def refs(self, st):
        """objects referenced from anywhere in the state"""
        out = set()

        def add(v):
            if type(v) is tuple and v:
                t = v[0]
                if t == 'P':
                    out.add(v[1])
                elif t == 'L':
                    pass
                elif t in ('B', 'VA', 'T'):
                    self._objs(v, out)
        for fr in st.frames:
            for v in fr.regs.values():
                add(v)
            for v in fr.va:
                add(v)
        for o, ob in st.mem.items():
            for off, (sz, v) in ob.cells.items():
                add(v)
            for k, v in ob.attrs.items():
                if type(v) is tuple:
                    self._objs(v, out)
        for k, v in st.ghost.items():
            self._objs(k, out)
            self._objs(v, out)
        return out

    def _objs(self, x, out):
        if type(x) is tuple:
            if x and x[0] == 'P' and len(x) == 3:
                out.add(x[1])
                return
            if x and x[0] == 'h':
                out.add(x)
                return
            for e in x:
                if type(e) is tuple:
                    self._objs(e, out)

    def prune_freed(self, st):
        dead = [o for o, ob in st.mem.items() if ob.status != 'alive']
        if dead:
            r = self.refs(st)
            for o in dead:
                if o not in r:
                    del st.mem[o]

    def shape(self, st):
        frs = []
        for fr in st.frames:
            frs.append(frozenset(fr.regs.items()))
        return (tuple(frs), frozenset(st.mem.items()), frozenset(st.ghost.items()))

    # ------------------------------------------------------------ function execution
    def call_fn(self, st, f, args, ins=None, va=()):
        """inline execution; returns [(state, ret)] with the callee frame popped"""
        self.stats['functions'].add(f.name)
        depth = len(st.frames)
        if depth > 60:
            raise StateLimit('call depth')
        n = sum(1 for fr in st.frames if fr.fn is f)
        if n >= 2:
            self.report(st, 'recursion', '%s() is called recursively, the depth of the recursion is not bounded' % f.name)
            return [(st, self.unknown(st, f.ret, 'rec') if f.ret[0] != 'v' else None)]
        if not st.frames:
            self.entry = f
        parent = st.frames[-1].ctx if st.frames else 0
        ctx = self.ctx.get(parent, ins)
        regs = {}
        for i in range(len(f.params)):
            regs[i] = args[i] if i < len(args) else 'U'
        fr = Frame(f, regs, ctx, (), tuple(va))
        st.frames.append(fr)
        saved_ins = self.ins
        outs = self.run(st, f)
        res = []
        merged = {}
        for s, v in outs:
            top = s.frames.pop()
            for o in top.allocas:
                s.mem.pop(o, None)
            if s.frames:
                s.frames[-1] = s.frames[-1].copy()
            self.prune_freed(s)
            k = (self.shape(s), v)
            if k in merged:
                j, _ = self.join(merged[k][0], s)
                merged[k] = (j, v)
                self.stats['merges'] += 1
            else:
                merged[k] = (s, v)
        self.ins = saved_ins
        return self.merge_returns(f, list(merged.values()))

    def merge_returns(self, f, res):
        """merge results that differ only in symbolic quantities"""
        if len(res) < 3:
            return res
        groups = {}
        for s, v in res:
            if not s.frames:
                return res
            top = s.frames[-1].regs
            top['$ret'] = v if v is not None else 0
            sk, vals = self.slots(s)
            groups.setdefault(sk, []).append((s, dict(vals)))
        out = []
        thr = self.thresholds(f)
        free = self.opts.get('merge_objs', ())
        for sk, l in groups.items():
            while len(l) > 1:
                # find a mergeable pair
                done = True
                base, bv = l[0]
                for i in range(1, len(l)):
                    s2, v2 = l[i]
                    if set(bv) != set(v2):
                        continue
                    diff = [k for k in bv if bv[k] != v2[k]]
                    if all(k[0] == 'ver' or (is_lin(bv[k]) and is_lin(v2[k])) or k[0] == 'm' and k[1] in free for k in diff):
                        if diff:
                            g, _, _ = self.generalise(base, bv, s2, v2, diff, None if free else thr, ('ret', f.name))
                        else:
                            g, _ = self.join(base, s2)
                        _, gv = self.slots(g)
                        self.stats['merges'] += 1
                        l = [(g, dict(gv))] + [x for j, x in enumerate(l) if j not in (0, i)]
                        done = False
                        break
                if done:
                    out.append(l.pop(0)[0])
            out.extend(x[0] for x in l)
        r = []
        for s in out:
            v = s.frames[-1].regs.pop('$ret')
            r.append((s, v if f.ret[0] != 'v' else None))
        return r

    def run(self, st, f):
        outs = []
        pend = {}
        heap = []
        seq = 0
        entry = f.blocks[0]
        heads = {}
        thr = self.thresholds(f)

        def push(s, blk, back=False):
            nonlocal seq
            li = f.livein[blk]
            top = s.frames[-1]
            if len(top.regs) > len(li):
                top.regs = {k: v for k, v in top.regs.items() if k in li or self._phi_dest(f, blk, k)}
            self.prune_freed(s)
            for o in [o for o, ob in s.mem.items() if o[0] == 'X' and not ob.cells and not ob.attrs and not ob.ver
                      and ob.status == 'alive']:
                del s.mem[o]
            k = self.shape(s)
            if back:
                k = (k, True)
            d = pend.setdefault(blk, {})
            if k in d:
                d[k], _ = self.join(d[k], s)
                self.stats['merges'] += 1
            else:
                d[k] = s
                if len(d) == 1:
                    heapq.heappush(heap, (f.rpo[blk], seq, blk))
                    seq += 1
        push(st, entry)
        while heap:
            _, _, blk = heapq.heappop(heap)
            d = pend.pop(blk, None)
            if not d:
                continue
            states = list(d.items())
            for key, s in states:
                if blk in f.heads:
                    s = self.at_head(f, blk, s, heads.setdefault(blk, []), thr, len(key) == 2)
                    if s is None:
                        continue
                for s2, nxt, v in self.run_block(s, f, blk):
                    if nxt is None:
                        outs.append((s2, v))
                    else:
                        push(s2, nxt, f.rpo[nxt] <= f.rpo[blk])
        return outs

    def _phi_dest(self, f, blk, k):
        c = getattr(f, '_phid', None)
        if c is None:
            c = f._phid = {}
        r = c.get(blk)
        if r is None:
            r = c[blk] = {i.dest for i in f.body[blk] if i.op == 'phi'}
        return k in r

    def thresholds(self, f):
        t = getattr(f, '_thr', None)
        if t is None:
            t = {-1, 0, 1}
            for i in f.instrs():
                if i.op == 'icmp':
                    for o in i.a:
                        if type(o) is int and abs(o) < 1 << 40:
                            t |= {o - 1, o, o + 1}
            f._thr = t = tuple(sorted(t))
        return t

    # ---- loops
    def slots(self, st):
        """numeric slots of a state: list of (slotkey, value) and the skeleton"""
        vals = []
        sk = []
        for i, fr in enumerate(st.frames):
            if i < len(st.frames) - 1:
                sk.append(frozenset(fr.regs.items()))
                continue
            for r in sorted(fr.regs, key=str):
                v = fr.regs[r]
                sk.append(self._slot(('r', r), v, vals))
        for o in sorted(st.mem, key=srepr):
            ob = st.mem[o]
            cs = []
            for off in sorted((k for k in ob.cells if type(k) is int)):
                sz, v = ob.cells[off]
                cs.append((off, sz, self._slot(('m', o, off), v, vals)))
            for off in sorted((k for k in ob.cells if type(k) is not int), key=srepr):
                sz, v = ob.cells[off]
                n = len([1 for c in cs if c[0] == 'sym'])
                cs.append(('sym', sz, self._slot(('mo', o, n), off, vals), self._slot(('mv', o, n), v, vals)))
            at = []
            for k in sorted(ob.attrs, key=repr):
                at.append((k, ob.attrs[k]))
            sk.append((o, ob.kind, self._slot(('sz', o), ob.size, vals), ob.status, ob.default, tuple(cs), tuple(at)))
            vals.append((('ver', o), ob.ver))
        sk.append(frozenset(st.ghost.items()))
        return tuple(sk), vals

    def _slot(self, key, v, vals):
        if type(v) is int:
            vals.append((key, v))
            return '#'
        if type(v) is tuple:
            if v[0] == 'L':
                ps = [s for s, k in v[2] if s[0] == 'p']
                if ps:
                    # pointer term: the numeric slot is the offset from the base
                    off = v
                    for s in ps:
                        off = ladd(off, lin(s), -1)
                    if len(ps) == 1:
                        vals.append((key, off))
                        return ('#p', ps[0])
                    return v
                vals.append((key, v))
                return '#'
            if v[0] == 'P':
                vals.append((key, v[2]))
                if v[1][0] == 'X':
                    return ('#p', v[1][1])
                return ('#P', v[1])
        return v

    def put_slots(self, st, new):
        """write back numeric slots (dict slotkey -> value)"""
        fr = st.frames[-1]

        def mk(old, nv):
            if type(old) is tuple:
                if old[0] == 'L':
                    ps = [s for s, k in old[2] if s[0] == 'p']
                    if ps:
                        return ladd(lin(ps[0]), nv)
                    return nv
                if old[0] == 'P':
                    if old[1][0] == 'X':
                        return ladd(lin(old[1][1]), nv)
                    return ('P', old[1], nv)
            return nv
        objs = {}
        for k, nv in new.items():
            if k[0] == 'r':
                fr.regs[k[1]] = mk(fr.regs[k[1]], nv)
            else:
                objs.setdefault(k[1], []).append((k, nv))
        for o, l in objs.items():
            ob = st.mem[o]
            n = ob.copy()
            symk = sorted((k for k in ob.cells if type(k) is not int), key=srepr)
            for k, nv in l:
                if k[0] == 'm':
                    sz, v = n.cells[k[2]]
                    n.cells[k[2]] = (sz, mk(v, nv))
                elif k[0] == 'sz':
                    n.size = nv
                elif k[0] == 'ver':
                    n.ver = nv
                elif k[0] == 'mv':
                    sz, v = n.cells[symk[k[2]]]
                    n.cells[symk[k[2]]] = (sz, mk(v, nv))
                elif k[0] == 'mo':
                    c = n.cells.pop(symk[k[2]], None)
                    if c is not None and is_lin(nv):
                        n.cells[nv] = c
            st.mem[o] = n

    def counted(self, f, blk, st):
        """is the loop test at this head decided by concrete values?"""
        env = {}
        regs = st.frames[-1].regs

        def v(o):
            if type(o) is tuple and o and o[0] == 'r':
                if o[1] in env:
                    return env[o[1]]
                return regs.get(o[1])
            return o if type(o) is int else None
        n = 0
        cur = blk
        while n < 3:
            n += 1
            nxt = None
            for ins in f.body[cur]:
                if ins.op == 'phi':
                    continue
                if ins.dest is not None:
                    env[ins.dest] = None
                if ins.op == 'icmp':
                    a, b = v(ins.a[0]), v(ins.a[1])
                    if type(a) is int and type(b) is int:
                        env[ins.dest] = 1 if st.cmp(ins.x, a, b) else 0
                elif ins.op == 'cast' and ins.x[0] in ('zext', 'sext', 'trunc'):
                    a = v(ins.a[0])
                    if type(a) is int:
                        env[ins.dest] = a
                elif ins.op == 'br':
                    if not ins.a:
                        nxt = ins.x[0]
                    else:
                        return type(v(ins.a[0])) is int
                elif ins.op in ('load', 'gep', 'bin'):
                    continue
                else:
                    return False
            if nxt is None:
                return False
            cur = nxt
        return False

    def at_head(self, f, blk, st, entries, thr, back=True):
        self.prune_facts(st)
        key = self.shape(st)
        for e in entries:
            if e.key == key:
                j, ch = self.join(e.state, st, widen=e.count > 2, thr=thr if e.count < 14 else ())
                if not ch:
                    return None
                e.state = j
                e.count += 1
                if e.count > 60:
                    raise StateLimit('loop does not stabilise in %s' % f.name)
                return j.copy()
        sk, vals = self.slots(st)
        for e in entries:
            if not e.gens:
                continue
            esk, evals = e.gens[0], e.gens[1]
            if esk != sk:
                continue
            b = self.match(e, evals, vals, st)
            if b is None:
                continue
            if not back:
                ec, es = e.count, e.state
                ns = self.fold(e, st, b, thr)
                if ns is None:
                    return None
                e.count, e.state = ec, es
                continue
            ns = self.fold(e, st, b, thr)
            if ns is None:
                return None
            return ns
        for e in entries:
            if not e.gens or not back:
                continue
            r = self.relax(st, e.state)
            if r is None:
                continue
            s1 = r[0]
            esk1, evals1 = self.slots(r[1])
            if esk1 != e.gens[0] or [x for x in evals1 if x[0][0] != 'ver'] != [
                    x for x in e.gens[1] if x[0][0] != 'ver']:
                continue
            sk1, vals1 = self.slots(s1)
            if sk1 != e.gens[0]:
                continue
            b = self.match(e, e.gens[1], vals1, s1)
            if b is not None:
                return self.fold(e, s1, b, thr)
        if len(entries) > self.opts.get('max_loop_states', max(300, self.opts.get('max_counted', 0))):
            raise StateLimit('too many loop states in %s' % f.name)
        if not back or (self.counted(f, blk, st) and len(entries) < self.opts.get('max_counted', 64)):
            entries.append(Entry(st.copy(), None, key))
            return st
        best = None
        coarse = [e for e in entries if e.gens and e.gens[0] == sk]
        if len(coarse) >= 5:
            # stop looking for affine relations: one symbol per varying slot
            vary = set()
            nv = dict(vals)
            for e in coarse:
                for k, v in e.gens[1]:
                    if nv.get(k) != v:
                        vary.add(k)
            e = coarse[-1]
            ev = dict(e.gens[1])
            if set(ev) == set(nv):
                diff = [k for k, _ in vals if k in vary]
                s, gens, gsyms = self.generalise(e.state, ev, st, nv, diff, thr, (f.name, blk), coarse=True)
                nsk, nvals = self.slots(s)
                ent = Entry(s.copy(), None, self.shape(s))
                ent.gens = (nsk, nvals, dict(gens), gsyms)
                entries.append(ent)
                return s
        for e in entries:
            if e.gens:
                esk, evals = e.gens[0], e.gens[1]
            else:
                esk, evals = self.slots(e.state)
            if esk != sk:
                continue
            ev = dict(evals)
            if set(ev) != set(k for k, _ in vals):
                continue
            diff = [k for k, v in vals if ev[k] != v]
            if best is None or len(diff) <= best[0]:
                best = (len(diff), e, diff, ev)
        est = None
        if best is None:
            # differ in which parts of a buffer have been written: forget those
            for e in reversed(entries):
                r = self.relax(e.state, st)
                if r is not None:
                    est, st2 = r
                    esk, evals = self.slots(est)
                    sk2, vals2 = self.slots(st2)
                    if esk != sk2 or [k for k, _ in evals] != [k for k, _ in vals2]:
                        continue
                    st, vals, ev = st2, vals2, dict(evals)
                    diff = [k for k, v in vals if ev[k] != v]
                    best = (len(diff), e, diff, ev)
                    break
        if best is None:
            entries.append(Entry(st.copy(), None, key))
            return st
        _, e, diff, ev = best
        s, gens, gsyms = self.generalise(est or e.state, ev, st, dict(vals), diff, thr, (f.name, blk))
        nsk, nvals = self.slots(s)
        ent = Entry(s.copy(), None, self.shape(s))
        ent.gens = (nsk, nvals, dict(gens), gsyms)
        entries.append(ent)
        return s

    def relax(self, a, b):
        """copies of two states without the memory cells only one of them has"""
        if len(a.frames) != len(b.frames) or set(a.mem) != set(b.mem) or a.ghost != b.ghost:
            return None
        if set(a.frames[-1].regs) != set(b.frames[-1].regs):
            return None
        na = nb = None
        for o, x in a.mem.items():
            y = b.mem[o]
            if x is y:
                continue
            if x.kind != y.kind or x.status != y.status:
                return None
            ka = {k: c[0] for k, c in x.cells.items()}
            kb = {k: c[0] for k, c in y.cells.items()}
            if ka == kb and x.default == y.default and x.attrs == y.attrs:
                continue
            for k in KEEP_ATTRS:
                if x.attrs.get(k) != y.attrs.get(k):
                    return None
            keep = {k for k in ka if type(k) is int and kb.get(k) == ka[k]}
            for n in (x, y):
                for k, (sz, v) in n.cells.items():
                    # never forget pointers to owned memory
                    if k not in keep and type(v) is tuple and v[0] == 'P' and v[1][0] == 'h':
                        return None
            if x.default == 'B' or y.default == 'B':
                return None
            if na is None:
                na, nb = a.copy(), b.copy()
            ver = max(x.ver, y.ver) + 1
            for n, st in ((x, na), (y, nb)):
                c = n.copy()
                c.cells = {k: v for k, v in n.cells.items() if k in keep}
                c.attrs = {k: v for k, v in n.attrs.items() if k in KEEP_ATTRS or
                           (x.attrs.get(k) == y.attrs.get(k))}
                c.default = x.default if x.default == y.default and ka == kb else 'T'
                c.ver = ver
                st.mem[o] = c
        if na is None:
            return None
        return na, nb

    def generalise(self, a_st, ev, st, nv, diff, thr, where, coarse=False):
        """a state covering a_st and st, which differ in the numeric slots diff"""
        # affine groups
        ctx = st.frames[-1].ctx
        groups = []
        new = {}
        gens = {}
        s = st.copy()
        i = 0
        for k in diff:
            if k[0] == 'ver':
                new[k] = max(ev[k], nv[k]) + 1
                continue
            d = lsub(nv[k], ev[k])
            placed = False
            for g in groups if not coarse else ():
                k0, d0, sym = g
                # same delta: k = k0 + (ev[k]-ev[k0])
                if d == d0:
                    new[k] = ladd(lin(sym), lsub(ev[k], ev[k0]))
                    placed = True
                    break
                if type(d) is int and type(d0) is int and d0 and d % d0 == 0:
                    q = d // d0
                    new[k] = ladd(lmul(lin(sym), q), lsub(ev[k], lmul(ev[k0], q)))
                    placed = True
                    break
                if is_lin(d) and is_lin(d0) and lmul(d, -1) == d0:
                    new[k] = ladd(lmul(lin(sym), -1), ladd(ev[k], ev[k0]))
                    placed = True
                    break
            if not placed:
                sym = ('w', ctx) + where + (i,)
                i += 1
                self.clear_name(s, sym)
                groups.append((k, d, sym))
                gens[sym] = k
                new[k] = lin(sym)
        cands = self.rel_cands(s)
        for k0, d0, sym in groups:
            la, ha = a_st.tight0(ev[k0])
            lb, hb = st.tight0(nv[k0])
            lo = la if la is not None and lb is not None and lb >= la else None
            if lo is None and la is not None and lb is not None:
                t = [x for x in thr if x <= min(la, lb)] if thr is not None else [min(la, lb)]
                lo = max(t) if t else None
            hi = ha if ha is not None and hb is not None and hb <= ha else None
            if hi is None and ha is not None and hb is not None:
                t = [x for x in thr if x >= max(ha, hb)] if thr is not None else [max(ha, hb)]
                hi = min(t) if t else None
            if lo is not None or hi is not None:
                s.iv[sym] = (lo, hi)
            # template relations with other live symbols
            for t in cands:
                if t == sym:
                    continue
                for expr_a, expr_b, mk in (
                        (lsub(lin(t), ev[k0]), lsub(lin(t), nv[k0]), lsub(lin(t), lin(sym))),
                        (lsub(ev[k0], lin(t)), lsub(nv[k0], lin(t)), lsub(lin(sym), lin(t)))):
                    if is_lin(mk) and a_st.prove_ge0(expr_a) and st.prove_ge0(expr_b):
                        s.rel = s.rel | {mk}
        # pairwise relations between generalised slots
        for x in range(len(groups)):
            for y in range(len(groups)):
                if x != y:
                    kx, ky = groups[x][0], groups[y][0]
                    if a_st.prove_ge0(lsub(ev[kx], ev[ky])) and st.prove_ge0(lsub(nv[kx], nv[ky])):
                        s.rel = s.rel | {lsub(lin(groups[x][2]), lin(groups[y][2]))}
        # facts valid in both only
        jj, _ = self.join(s, self._with_facts(a_st, s, groups, ev))
        s.iv, s.ne, s.rel = jj.iv, jj.ne, jj.rel
        self.put_slots(s, new)
        return s, gens, tuple(g[2] for g in groups)

    def _with_facts(self, a, s, groups, ev):
        """a's facts plus the facts of the group symbols as they hold in a"""
        r = a.copy()
        for k0, d0, sym in groups:
            lo, hi = s.iv.get(sym, (None, None))
            if lo is not None or hi is not None:
                r.iv[sym] = (lo, hi)
        gs = {g[2] for g in groups}
        r.rel = r.rel | frozenset(f for f in s.rel if any(x in gs for x, _ in f[2]))
        return r

    def rel_cands(self, st):
        out = []
        # first of all what bounds the objects the function works on
        for v in st.frames[-1].regs.values():
            if is_ptr(v) and v[1] in st.mem:
                ob = st.mem[v[1]]
                s = ('len', v[1], ob.ver)
                if s in st.iv and s not in out:
                    out.append(s)
                if is_lin(ob.size):
                    out += [x for x, _ in ob.size[2] if x[0] != 'p' and x not in out]
        for s in st.iv:
            if s[0] != 'p' and s[0] in ('len', 'c', 'chr', 'w', '$', 's', 'e', 'm', 'op') and s not in out:
                out.append(s)
        for f in st.rel:
            for s, _ in f[2]:
                if s[0] != 'p' and s not in out:
                    out.append(s)
        for o, ob in st.mem.items():
            if is_lin(ob.size):
                for s, _ in ob.size[2]:
                    if s[0] != 'p' and s not in out:
                        out.append(s)
        for v in st.frames[-1].regs.values():
            if is_lin(v):
                for s, _ in v[2]:
                    if s[0] != 'p' and s not in out:
                        out.append(s)
        return out[:24]

    def match(self, e, evals, vals, st):
        """bind e's loop symbols to the values in st; None when not an instance"""
        gens = e.gens[2]
        nv = dict(vals)
        ev = dict(evals)
        if set(ev) != set(nv):
            return None
        b = {}
        for sym, k in gens.items():
            if k not in nv:
                return None
            v = ev[k]
            if v != lin(sym):
                return None
            b[sym] = nv[k]
        for k, v in evals:
            if k[0] == 'ver':
                continue
            w = deep(v, b, {}) if type(v) is tuple else v
            if w != nv[k]:
                return None
        return b

    def fold(self, e, st, b, thr):
        """join st (an instance of e under binding b) into e; None if already included"""
        es = e.state
        ch = False
        n = es.copy()
        widen = e.count > 1
        iv = {}
        for s, (lo, hi) in es.iv.items():
            v = b.get(s)
            l2, h2 = st.bounds(v) if v is not None else self._bnd(st, s, b)
            if v is not None and (lo is not None and (l2 is None or l2 < lo) or hi is not None and (h2 is None or h2 > hi)):
                l2, h2 = st.tight0(v)
            nl, nh = lo, hi
            if lo is not None and (l2 is None or l2 < lo):
                ch = True
                t = [x for x in thr if l2 is not None and x <= l2]
                nl = (max(t) if t else None) if l2 is not None else None
                if not widen and l2 is not None:
                    nl = l2
            if hi is not None and (h2 is None or h2 > hi):
                ch = True
                t = [x for x in thr if h2 is not None and x >= h2]
                nh = (min(t) if t else None) if h2 is not None else None
                if not widen and h2 is not None:
                    nh = h2
            if nl is not None or nh is not None:
                iv[s] = (nl, nh)
        rel = set()
        for f in es.rel:
            g = deep(f, b, {})
            if (type(g) is int and g >= 0) or (type(g) is tuple and st.prove_ge0(g, 3)):
                rel.add(f)
            else:
                ch = True
        ne = {}
        for s, xs in es.ne.items():
            keep = set()
            for x in xs:
                if s in b:
                    r = st.cmp('ne', b[s], x)
                    if r is True:
                        keep.add(x)
                elif self._excl(st, s, x):
                    keep.add(x)
            if keep != set(xs):
                ch = True
            if keep:
                ne[s] = frozenset(keep)
        if not ch:
            return None
        n.iv, n.ne, n.rel = iv, ne, frozenset(rel)
        e.state = n
        e.count += 1
        if e.count > 30:
            raise StateLimit('loop does not stabilise')
        n = n.copy()
        n.trace = st.trace
        return n

    def _bnd(self, st, s, b):
        t = deep(s, b, {})
        if t is s or t == s:
            return st.bounds1(s)
        return st.bounds1(t) if type(t) is tuple and t[0] != 'L' else (None, None)

    # ------------------------------------------------------------ blocks
    def run_block(self, st, f, blk):
        """[(state, next block or None, retval)]"""
        body = f.body[blk]
        work = [(st, 0)]
        out = []
        n = len(body)
        while work:
            st, i = work.pop()
            regs = st.frames[-1].regs
            while i < n:
                ins = body[i]
                self.ins = ins
                self.steps += 1
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                if op == 'load':
                    v = self.load(st, self.val(st, ins.a[0]), ins.ty)
                    if v is None:
                        break
                    regs[ins.dest] = v
                elif op == 'gep':
                    v = self.gep(st, ins)
                    if v is None:
                        break
                    regs[ins.dest] = v
                elif op == 'store':
                    v = self.val(st, ins.a[0])
                    if type(v) is tuple and v[0] == 'B':
                        rs = self.concretize(st, v)
                        ok = []
                        for s2, v2 in rs:
                            self.ins = ins
                            if self.store(s2, self.val(s2, ins.a[1]), ins.ty, v2):
                                ok.append(s2)
                        for s2 in ok[1:]:
                            work.append((s2, i + 1))
                        if not ok:
                            break
                        st = ok[0]
                        regs = st.frames[-1].regs
                    elif not self.store(st, self.val(st, ins.a[1]), ins.ty, v):
                        break
                elif op == 'icmp':
                    regs[ins.dest] = self.icmp(st, ins.x, self.val(st, ins.a[0]), self.val(st, ins.a[1]))
                elif op == 'call':
                    rs = self.call(st, ins)
                    self.ins = ins
                    if not rs:
                        break
                    if len(rs) > 1:
                        self.stats['forks'] += len(rs) - 1
                        for s2, v in rs[1:]:
                            if ins.dest is not None:
                                s2.frames[-1].regs[ins.dest] = v
                            work.append((s2, i + 1))
                    st, v = rs[0]
                    regs = st.frames[-1].regs
                    if ins.dest is not None:
                        regs[ins.dest] = v
                elif op == 'bin':
                    a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
                    if type(a) is tuple and a[0] == 'B' or type(b) is tuple and b[0] == 'B':
                        if ins.x == 'xor' and b == 1 or ins.x == 'xor' and b == -1:
                            regs[ins.dest] = ('B', NEG[a[1]], a[2], a[3])
                            i += 1
                            continue
                        rs = [(s3, x, y) for s2, x in self.concretize(st, a) for s3, y in self.concretize(s2, self.val(s2, ins.a[1]))]
                        if not rs:
                            break
                        for s2, x, y in rs[1:]:
                            s2.frames[-1].regs[ins.dest] = self.binop(s2, ins.x, ins.ty, x, y)
                            work.append((s2, i + 1))
                        st, a, b = rs[0]
                        regs = st.frames[-1].regs
                    regs[ins.dest] = self.binop(st, ins.x, ins.ty, a, b)
                elif op == 'cast':
                    v = self.val(st, ins.a[0])
                    if ins.x[0] == 'sext' and type(v) is tuple and v[0] == 'B':
                        rs = self.concretize(st, v)
                        if not rs:
                            break
                        for s2, x in rs[1:]:
                            s2.frames[-1].regs[ins.dest] = -x
                            work.append((s2, i + 1))
                        st, x = rs[0]
                        regs = st.frames[-1].regs
                        regs[ins.dest] = -x
                    else:
                        regs[ins.dest] = self.cast(st, ins.x[0], ins.x[1], ins.ty, v)
                elif op == 'alloca':
                    fr = st.frames[-1]
                    o = ('a', fr.ctx, ins.uid)
                    cnt = self.val(st, ins.a[0])
                    es = self.T.size(ins.ty)
                    size = es * cnt if type(cnt) is int else lmul(cnt, es)
                    st.mem[o] = Obj('stack', size)
                    fr.allocas = fr.allocas + (o,)
                    regs[ins.dest] = ('P', o, 0)
                elif op == 'br':
                    if not ins.a:
                        self.goto(st, f, blk, ins.x[0], out)
                        break
                    c = self.val(st, ins.a[0])
                    if c == 'U':
                        self.report(st, 'uninit', 'branch on an uninitialised value')
                        break
                    t = st.truth(c)
                    if t is True:
                        self.goto(st, f, blk, ins.x[0], out)
                    elif t is False:
                        self.goto(st, f, blk, ins.x[1], out)
                    else:
                        s2 = st.copy()
                        if self.assume(st, c, True):
                            self.goto(st, f, blk, ins.x[0], out)
                        self.ins = ins
                        if self.assume(s2, c, False):
                            self.goto(s2, f, blk, ins.x[1], out)
                    break
                elif op == 'ret':
                    if not ins.a:
                        out.append((st, None, None))
                    else:
                        v = self.val(st, ins.a[0])
                        for s2, v2 in self.concretize(st, v):
                            out.append((s2, None, v2))
                    break
                elif op == 'switch':
                    v = self.val(st, ins.a[0])
                    if v == 'U':
                        self.report(st, 'uninit', 'switch on an uninitialised value')
                        break
                    v = st.simp(v)
                    rest = st
                    done = False
                    for c, tgt in ins.x[1]:
                        r = st.cmp('eq', v, c) if rest is st else rest.cmp('eq', v, c)
                        if r is True:
                            self.goto(rest, f, blk, tgt, out)
                            done = True
                            break
                        if r is False:
                            continue
                        s2 = rest.copy()
                        if self.assume(s2, ('B', 'eq', v, c), True):
                            self.goto(s2, f, blk, tgt, out)
                        self.ins = ins
                        if not self.assume(rest, ('B', 'ne', v, c), True):
                            done = True
                            break
                    if not done:
                        self.goto(rest, f, blk, ins.x[0], out)
                    break
                elif op == 'select':
                    c = self.val(st, ins.a[0])
                    t = st.truth(c)
                    if t is None:
                        s2 = st.copy()
                        oka = self.assume(st, c, True)
                        okb = self.assume(s2, c, False)
                        if okb:
                            s2.frames[-1].regs[ins.dest] = self.val(s2, ins.a[2])
                            if oka:
                                work.append((s2, i + 1))
                            else:
                                st = s2
                        if oka:
                            st.frames[-1].regs[ins.dest] = self.val(st, ins.a[1])
                        elif not okb:
                            break
                        regs = st.frames[-1].regs
                    else:
                        regs[ins.dest] = self.val(st, ins.a[1 if t else 2])
                elif op == 'unreachable':
                    break
                elif op == 'fcmp':
                    regs[ins.dest] = self.fcmp(st, ins.x, self.val(st, ins.a[0]), self.val(st, ins.a[1]))
                elif op in ('extractvalue', 'insertvalue', 'vaarg', 'opaque'):
                    if op == 'extractvalue':
                        v = self.val(st, ins.a[0])
                        if type(v) is tuple and v[0] == 'T' and len(ins.x) == 1:
                            regs[ins.dest] = v[1][ins.x[0]]
                            i += 1
                            continue
                    if ins.dest is not None:
                        regs[ins.dest] = self.fresh(st, op)
                else:
                    raise Broken('op ' + op)
                i += 1
            if self.steps > self.max_steps:
                raise StateLimit('step limit in %s' % f.name)
        return out

    def fcmp(self, st, pred, a, b):
        if type(a) is tuple and type(b) is tuple and a[0] == 'D' and b[0] == 'D':
            x, y = a[1], b[1]
            p = pred[1:]
            return 1 if {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y,
                         'rd': True, 'no': False}.get(p, False) else 0
        if a == 'U' or b == 'U':
            self.report(st, 'uninit', 'comparison of an uninitialised value')
        s = ('fcmp', pred, a, b)
        return ('B', 'ne', self.func_sym(st, s, 0, 1), 0)

    def goto(self, st, f, src, dst, out):
        body = f.body[dst]
        if body[0].op == 'phi':
            regs = st.frames[-1].regs
            new = {}
            for ins in body:
                if ins.op != 'phi':
                    break
                v = 'U'
                for o, p in zip(ins.a, ins.x):
                    if p == src:
                        v = self.val(st, o)
                        break
                new[ins.dest] = v
            regs.update(new)
        out.append((st, dst, None))

    def gep(self, st, ins):
        base = self.val(st, ins.a[0])
        T = self.T
        off = 0
        t = ins.ty
        for i, ix in enumerate(ins.a[1:]):
            v = self.val(st, ix)
            if v == 'U':
                self.report(st, 'uninit', 'uninitialised index')
                return None
            if i == 0:
                es = T.size(t)
            else:
                rt = T.resolve(t)
                if rt[0] == 's':
                    off = ladd(off, T.offsets(t)[v])
                    t = rt[1][v]
                    continue
                if rt[0] in ('a', 'vec'):
                    t = rt[2]
                    es = T.size(t)
                else:
                    es = 1
            if type(v) is int:
                off = ladd(off, v * es)
            elif is_lin(v):
                off = ladd(off, lmul(v, es))
            else:
                off = ladd(off, lin(('op', 'ix', v, es)))
        if type(base) is tuple:
            if base[0] == 'P':
                return ('P', base[1], ladd(base[2], off))
            if base[0] == 'L':
                return ladd(base, off)
        if base == 'U':
            self.report(st, 'uninit', 'use of an uninitialised pointer')
            return None
        if type(base) is int:
            return ladd(base, off)
        return self.fresh(st, 'gep', ptr=True)

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        if ins.x[0] == 'asm':
            return [(st, self.unknown(st, ins.ty, 'asm') if ins.dest is not None else None)]
        callee = ins.x[0]
        if type(callee) is tuple and callee[0] == 'g':
            name = callee[1]
        else:
            v = self.val(st, callee)
            if type(v) is tuple and v[0] == 'F':
                name = v[1]
            elif v == 0 or (is_lin(v) and st.bounds(v) == (0, 0)):
                self.report(st, 'null-call', 'call through a null function pointer')
                return []
            elif v == 'U':
                self.report(st, 'uninit', 'call through an uninitialised function pointer')
                return []
            else:
                self.emit(st, 'unknown_call', v)
                r = self.unknown_call(st, ins, None, [self.val(st, a) for a in ins.a])
                return r
        names = self.site_names.get((st.frames[-1].ctx if st.frames else 0, ins.uid))
        if names:
            # results of an earlier execution of this call get another name before the operands are read
            for sym in sorted(names, key=repr):
                self.clear_name(st, sym)
        args = [self.val(st, a) for a in ins.a]
        return self.dispatch(st, name, args, ins)

    def dispatch(self, st, name, args, ins=None):
        base = name
        m = self.models.get(name)
        if m is None and '.' in name and not name.startswith('llvm.'):
            b = name.split('.')[0]
            if b in self.models:
                m = self.models[b]
        f = self.mod.funcs.get(name)
        if m is not None:
            self.stats['calls'].add(name)
            r = m(self, st, args, ins)
            if r is not NotImplemented:
                return r
        if f is not None and f.defined:
            if name in self.inert and (ins is None or not self.opts.get('run_inert')):
                for a in args:
                    self.touch(st, a, name)
                self.emit(st, 'log', name, args)
                return [(st, None)]
            n = len(f.params)
            return self.call_fn(st, f, args[:n], ins, args[n:] if f.vararg else ())
        return self.unknown_call(st, ins, name, args)

    def touch(self, st, a, name):
        """an argument handed to an outside function must not point to freed memory"""
        r = self.to_obj(st, a)
        if r is not None and r[0][0] not in ('X',):
            ob = self.obj(st, r[0])
            if ob is not None and ob.status != 'alive':
                self.report(st, 'use-after-free', 'freed memory passed to %s()' % name.split('.')[0])
                return False
        return True

    def unknown_call(self, st, ins, name, args):
        if name and not name.startswith('llvm.'):
            self.stats['unknown_ext'].add(name)
        for a in args:
            r = self.to_obj(st, a)
            if r is not None:
                ob = self.obj(st, r[0])
                if ob is not None and ob.status != 'alive':
                    self.report(st, 'use-after-free', 'freed memory passed to %s()' % (name or 'unknown function'))
                    return []
                if ob is not None and r[0][0] != 'X' and r[0] not in self.consts and ob.kind in ('stack',):
                    self.havoc(st, r[0])
        self.emit(st, 'extcall', name, args)
        if ins is None or ins.dest is None or ins.ty is None or ins.ty[0] == 'v':
            return [(st, None)]
        return [(st, self.unknown(st, ins.ty, name or 'ind'))]


KEEP_ATTRS = ('identity', 'tag', 'owner', 'ssl', 'res')
