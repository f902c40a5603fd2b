"""Path-sensitive abstract interpreter over LLVM IR.

Abstract values
  int                     constant (signed reading of the bit pattern)
  ('L', c, ((s,k),...))   linear term over abstract symbols (math. integers)
  ('P', obj, off)         pointer into an abstract object, off int or 'L' term
  ('F', name)             address of a function
  ('B', pred, a, b)       pending comparison (an i1, or its zero extension)
  ('VA', args)            captured variadic arguments
  ('D', x)                floating constant
  'U'                     uninitialised
Symbols are hashable tuples; a leading 'p' marks a pointer-valued symbol, which
is the base of an external object when it is dereferenced.

States are joined per control point: two states of the same shape (registers,
memory, ghost variables) are merged by taking the hull of their numeric facts;
at loop heads shapes are generalised (affine-equality preserving widening)
until a fixpoint is reached.  No solver is involved.
"""
import heapq
from collections import defaultdict

INF = None
I32 = (-(1 << 31), (1 << 31) - 1)


class Broken(Exception):
    pass


class StateLimit(Broken):
    pass


def lin(sym):
    return ('L', 0, ((sym, 1),))


def is_lin(v):
    return type(v) is tuple and v[0] == 'L'


def is_ptr(v):
    return type(v) is tuple and v[0] == 'P'


def is_num(v):
    return type(v) is int or is_lin(v)


def mklin(c, d):
    it = [(s, k) for s, k in d.items() if k]
    if not it:
        return c
    it.sort(key=_skey)
    return ('L', c, tuple(it))


_rk = {}


def _skey(x):
    s = x[0]
    r = _rk.get(s)
    if r is None:
        r = _rk[s] = repr(s)
    return r


def srepr(s):
    r = _rk.get(s)
    if r is None:
        r = _rk[s] = repr(s)
    return r


def ladd(a, b, kb=1):
    if type(a) is int and type(b) is int:
        return a + kb * b
    if type(a) is int:
        c, d = a, {}
    else:
        c, d = a[1], dict(a[2])
    if type(b) is int:
        c += kb * b
    else:
        c += kb * b[1]
        for s, k in b[2]:
            d[s] = d.get(s, 0) + kb * k
    return mklin(c, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return ('L', a[1] * k, tuple((s, c * k) for s, c in a[2]))


def wrapc(v, bits):
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1):
        v -= 1 << bits
    return v


class Obj:
    """Abstract memory object (immutable; use .with_*)."""
    __slots__ = ('kind', 'size', 'status', 'cells', 'default', 'ver', 'attrs', '_h', '_hash')

    def __init__(self, kind, size, status='alive', cells=None, default='U', ver=0, attrs=None):
        self.kind, self.size, self.status = kind, size, status
        self.cells = cells or {}
        self.default = default
        self.ver = ver
        self.attrs = attrs or {}
        self._h = None
        self._hash = None

    def copy(self):
        return Obj(self.kind, self.size, self.status, dict(self.cells), self.default, self.ver,
                   dict(self.attrs))

    def key(self):
        if self._h is None:
            self._h = (self.kind, self.size, self.status, frozenset(self.cells.items()),
                       self.default, self.ver, frozenset(self.attrs.items()))
        return self._h

    def __hash__(self):
        h = self._hash
        if h is None:
            h = self._hash = hash(self.key())
        return h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.key() == o.key())

    def __repr__(self):
        return 'Obj(%s,%s,%s,%s,%s)' % (self.kind, self.size, self.status, self.cells, self.attrs)


class Frame:
    __slots__ = ('fn', 'regs', 'ctx', 'allocas', 'va', 'site')

    def __init__(self, fn, regs, ctx, allocas=(), va=(), site=None):
        self.fn, self.regs, self.ctx, self.allocas, self.va, self.site = fn, regs, ctx, allocas, va, site

    def copy(self):
        return Frame(self.fn, dict(self.regs), self.ctx, self.allocas, self.va, self.site)


class State:
    __slots__ = ('frames', 'mem', 'iv', 'ne', 'rel', 'ghost', 'trace')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.iv = {}
        self.ne = {}
        self.rel = frozenset()
        self.ghost = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames[:]
        if s.frames:
            s.frames[-1] = s.frames[-1].copy()
        s.mem = dict(self.mem)
        s.iv = dict(self.iv)
        s.ne = dict(self.ne)
        s.rel = self.rel
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    # ---- numeric facts -------------------------------------------------
    def bounds1(self, s):
        r = self.iv.get(s)
        if r is not None:
            return r
        if s[0] == 'p':
            return (0, INF)
        return (INF, INF)

    def bounds(self, v):
        if type(v) is int:
            return (v, v)
        lo = hi = v[1]
        for s, k in v[2]:
            a, b = self.bounds1(s)
            if k < 0:
                a, b = b, a
            if lo is not None:
                lo = None if a is None else lo + k * a
            if hi is not None:
                hi = None if b is None else hi + k * b
        return (lo, hi)

    def tight(self, v):
        """bounds using the known relations as well"""
        lo, hi = self.bounds(v)
        if type(v) is int:
            return lo, hi
        ss = {s for s, k in v[2]}
        for f in self.rel:
            if not any(s in ss for s, k in f[2]):
                continue
            h = self.bounds(ladd(v, f))[1]
            if h is not None and (hi is None or h < hi):
                hi = h
            l = self.bounds(lsub(v, f))[0]
            if l is not None and (lo is None or l > lo):
                lo = l
        return lo, hi

    def tight0(self, v):
        lo, hi = self.bounds(v)
        if type(v) is not int and self.rel and (lo is None or hi is None or lo < 0):
            lo, hi = self.tight(v)
            if (lo is None or lo < 0) and self.prove_ge0(v):
                lo = 0
        return lo, hi

    def simp(self, v):
        """replace symbols known to be constants"""
        if type(v) is tuple and v[0] == 'L':
            for s, k in v[2]:
                r = self.iv.get(s)
                if r is not None and r[0] is not None and r[0] == r[1]:
                    break
            else:
                return v
            c, d = v[1], {}
            for s, k in v[2]:
                r = self.iv.get(s)
                if r is not None and r[0] is not None and r[0] == r[1]:
                    c += k * r[0]
                else:
                    d[s] = k
            return mklin(c, d)
        return v

    def prove_ge0(self, v, depth=2):
        lo, hi = self.bounds(v)
        if lo is not None and lo >= 0:
            return True
        if type(v) is int or depth == 0 or (hi is not None and hi < 0):
            return False
        syms = dict(v[2])
        for f in self.rel:
            hit = False
            for s, k in f[2]:
                kk = syms.get(s)
                if kk is not None and (kk > 0) == (k > 0):
                    hit = True
                    break
            if hit and self.prove_ge0(lsub(v, f), depth - 1):
                return True
        return False

    def sure_ge0(self, v):
        """prove_ge0 with longer chains of facts (for the obligations of monitors)"""
        return self.prove_ge0(v) or self.prove_ge0(v, 4)

    def same(self, a, b):
        """a and b are provably equal"""
        if self.cmp('eq', a, b) is True:
            return True
        if not (is_num(self.simp(a)) and is_num(self.simp(b))):
            return False
        d = lsub(a, b)
        return type(d) is not int and self.prove_ge0(d, 4) and self.prove_ge0(lmul(d, -1), 4)

    def cmp(self, pred, a, b):
        """True / False / None"""
        a, b = self.simp(a), self.simp(b)
        if not (is_num(a) and is_num(b)):
            return self.cmp_ptr(pred, a, b)
        d = lsub(a, b)
        if pred == 'eq' or pred == 'ne':
            r = None
            if type(d) is int:
                r = d == 0
            else:
                lo, hi = self.bounds(d)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    r = False
                elif len(d[2]) == 1:
                    s, k = d[2][0]
                    ex = self.ne.get(s)
                    if ex and (-d[1]) % k == 0 and (-d[1] // k) in ex:
                        r = False
                if r is None and self.rel:
                    if self.prove_ge0(ladd(d, -1)) or self.prove_ge0(ladd(lmul(d, -1), -1)):
                        r = False
                    elif self.prove_ge0(d) and self.prove_ge0(lmul(d, -1)):
                        r = True
            if r is None:
                return None
            return r if pred == 'eq' else not r
        if pred[0] == 'u':
            # unsigned: meaningful as math compare only when both are >= 0
            la, lb = self.bounds(a)[0], self.bounds(b)[0]
            if type(a) is int and a < 0 or type(b) is int and b < 0:
                # negative constant = huge unsigned
                if type(b) is int and b < 0 and la is not None and la >= 0:
                    return pred in ('ult', 'ule')
                if type(a) is int and a < 0 and lb is not None and lb >= 0:
                    return pred in ('ugt', 'uge')
                return None
            if la is None or la < 0 or lb is None or lb < 0:
                return None
        p = pred[1:]
        if p == 'lt':
            t, f = ladd(lmul(d, -1), -1), d
        elif p == 'le':
            t, f = lmul(d, -1), ladd(d, -1)
        elif p == 'gt':
            t, f = ladd(d, -1), lmul(d, -1)
        else:
            t, f = d, ladd(lmul(d, -1), -1)
        if self.prove_ge0(t):
            return True
        if self.prove_ge0(f):
            return False
        return None

    def cmp_ptr(self, pred, a, b):
        if pred not in ('eq', 'ne'):
            if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                return self.cmp(pred, a[2], b[2])
            return None
        r = None
        if a == 'U' or b == 'U':
            return None
        if a == b:
            r = True
        elif is_ptr(a) and is_ptr(b):
            if a[1] == b[1]:
                return self.cmp(pred, a[2], b[2])
            r = False
        elif (type(a) is tuple and a[0] in 'PF') or (type(b) is tuple and b[0] in 'PF'):
            x, y = (a, b) if (type(a) is tuple and a[0] in 'PF') else (b, a)
            if type(y) is int:
                r = False
            elif type(y) is tuple and y[0] in 'PF':
                r = False
            elif is_lin(y) and y[2][0][0][0] == 'p' :
                # external pointer vs own object: distinct unless it escaped
                r = None if x[0] == 'F' else False
        if r is None:
            return None
        return r if pred == 'eq' else not r

    def assume_ge0(self, v):
        """returns False when contradictory"""
        v = self.simp(v)
        if type(v) is int:
            return v >= 0
        lo, hi = self.bounds(v)
        if hi is not None and hi < 0:
            return False
        if lo is not None and lo >= 0:
            return True
        neg = ladd(lmul(v, -1), -1)
        if self.rel and self.prove_ge0(neg):
            return False
        if len(v[2]) == 1:
            s, k = v[2][0]
            a, b = self.bounds1(s)
            if k > 0:  # s >= -c/k
                m = -(v[1] // k)
                if a is None or m > a:
                    a = m
            else:      # s <= c/-k
                m = v[1] // (-k)
                if b is None or m < b:
                    b = m
            ex = self.ne.get(s)
            if ex:
                while a is not None and a in ex:
                    a += 1
                while b is not None and b in ex:
                    b -= 1
            if a is not None and b is not None and a > b:
                return False
            self.iv[s] = (a, b)
        else:
            self.rel = self.rel | {v}
            # propagate to single symbols
            for s, k in v[2]:
                rest = mklin(v[1], {x: y for x, y in v[2] if x != s})
                rl, rh = self.bounds(rest)
                if rh is None:
                    continue
                a, b = self.bounds1(s)
                if k > 0:
                    m = -(rh // k)
                    if a is None or m > a:
                        self.iv[s] = (m, b)
                else:
                    m = rh // (-k)
                    if b is None or m < b:
                        self.iv[s] = (a, m)
                a, b = self.iv.get(s, (None, None))
                if a is not None and b is not None and a > b:
                    return False
        return True

    def assume_cmp(self, pred, a, b, truth):
        if not truth:
            pred = NEG[pred]
        a, b = self.simp(a), self.simp(b)
        r = self.cmp(pred, a, b)
        if r is not None:
            return r
        if not (is_num(a) and is_num(b)):
            if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                return self.assume_cmp(pred, a[2], b[2], True)
            return True
        d = lsub(a, b)
        if type(d) is int:
            return True
        if pred == 'eq':
            return self.assume_ge0(d) and self.assume_ge0(lmul(self.simp(d), -1) if True else 0)
        if pred == 'ne':
            lo, hi = self.bounds(d)
            if len(d[2]) == 1:
                s, k = d[2][0]
                if (-d[1]) % k:
                    return True
                c = -d[1] // k
                x, y = self.bounds1(s)
                if x == c:
                    x = c + 1
                    ex = self.ne.get(s, ())
                    while x in ex:
                        x += 1
                    self.iv[s] = (x, y)
                    return y is None or x <= y
                if y == c:
                    y = c - 1
                    ex = self.ne.get(s, ())
                    while y in ex:
                        y -= 1
                    self.iv[s] = (x, y)
                    return x is None or x <= y
                self.ne[s] = self.ne.get(s, frozenset()) | {c}
                return True
            if lo == 0 or (lo is not None and lo >= 0) or self.prove_ge0(d):
                return self.assume_ge0(ladd(d, -1))
            if hi == 0 or self.prove_ge0(lmul(d, -1)):
                return self.assume_ge0(ladd(lmul(d, -1), -1))
            return True
        p = pred[1:]
        if pred[0] == 'u':
            la, lb = self.bounds(a)[0], self.bounds(b)[0]
            oka = la is not None and la >= 0
            okb = lb is not None and lb >= 0
            if not (oka and okb):
                # a <u b with b >= 0 known implies 0 <= a < b
                if okb and p in ('lt', 'le'):
                    return self.assume_ge0(a) and self.assume_ge0(
                        ladd(lsub(b, a), -1 if p == 'lt' else 0))
                if oka and p in ('gt', 'ge'):
                    return self.assume_ge0(b) and self.assume_ge0(
                        ladd(lsub(a, b), -1 if p == 'gt' else 0))
                return True
        if p == 'lt':
            t = ladd(lmul(d, -1), -1)
        elif p == 'le':
            t = lmul(d, -1)
        elif p == 'gt':
            t = ladd(d, -1)
        else:
            t = d
        return self.assume_ge0(t)

    def assume(self, v, truth):
        """assume i1 value v is truth"""
        if type(v) is int:
            return bool(v) == truth
        if v == 'U':
            return True
        if v[0] == 'B':
            return self.assume_cmp(v[1], v[2], v[3], truth)
        if v[0] == 'L':
            return self.assume_cmp('ne', v, 0, truth)
        if v[0] in ('P', 'F'):
            return truth
        return True

    def truth(self, v):
        if type(v) is int:
            return v != 0
        if v == 'U':
            return None
        if v[0] == 'B':
            return self.cmp(v[1], v[2], v[3])
        if v[0] == 'L':
            return self.cmp('ne', v, 0)
        if v[0] in ('P', 'F'):
            return True
        return None

    def shape(self):
        top = self.frames[-1] if self.frames else None
        return (frozenset(top.regs.items()) if top else None, frozenset(self.mem.items()),
                frozenset(self.ghost.items()))


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


# ------------------------------------------------------------------ symbols in values
def val_syms(v, out):
    if type(v) is tuple:
        t = v[0]
        if t == 'L':
            for s, _ in v[2]:
                out.add(s)
        elif t == 'P':
            if type(v[2]) is tuple:
                for s, _ in v[2][2]:
                    out.add(s)
        elif t == 'B':
            val_syms(v[2], out)
            val_syms(v[3], out)
        elif t == 'VA' or t == 'T':
            for x in v[1]:
                val_syms(x, out)


def val_objs(v, out):
    if type(v) is tuple:
        t = v[0]
        if t == 'P':
            out.append(v[1])
        elif t == 'L':
            for s, _ in v[2]:
                if s[0] == 'p':
                    out.append(('X', s))
        elif t == 'B':
            val_objs(v[2], out)
            val_objs(v[3], out)
        elif t == 'VA' or t == 'T':
            for x in v[1]:
                val_objs(x, out)


def val_map(v, fs, fo):
    """rename symbols (dict fs) and objects (dict fo) in a value; fs may map to lin/int values"""
    if type(v) is not tuple:
        return v
    t = v[0]
    if t == 'L':
        for s, _ in v[2]:
            if s in fs:
                break
        else:
            return v
        r = v[1]
        d = {}
        acc = r
        for s, k in v[2]:
            n = fs.get(s)
            if n is None:
                d[s] = d.get(s, 0) + k
            elif type(n) is tuple and n and n[0] == 'L' and len(n) == 3 and type(n[2]) is tuple:
                acc += n[1] * k
                for s2, k2 in n[2]:
                    d[s2] = d.get(s2, 0) + k * k2
            elif type(n) is int:
                acc += n * k
            else:
                d[n] = d.get(n, 0) + k
        return mklin(acc, d)
    if t == 'P':
        o = fo.get(v[1], v[1])
        off = v[2]
        if type(off) is tuple:
            off = val_map(off, fs, fo)
        if o is v[1] and off is v[2]:
            return v
        return ('P', o, off)
    if t == 'B':
        return ('B', v[1], val_map(v[2], fs, fo), val_map(v[3], fs, fo))
    if t in ('VA', 'T'):
        return (t, tuple(val_map(x, fs, fo) for x in v[1]))
    return v


def attr_syms(a, out):
    val_syms(a, out)


# ------------------------------------------------------------------ violations
class Finding:
    def __init__(self, rule, msg, file, line, stack, trace, key=None):
        self.rule, self.msg, self.file, self.line = rule, msg, file, line
        self.stack, self.trace, self.key = stack, trace, key

    def ident(self):
        return (self.rule, self.file, self.line, self.msg)

    def __repr__(self):
        return '%s: %s:%s: %s [%s]' % (self.rule, self.file, self.line, self.msg, ' < '.join(self.stack))
