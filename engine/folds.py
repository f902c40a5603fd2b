"""Loops that walk a string: what they do is a sum over the characters of the string.

A function that reads a string character by character and writes another one it
allocated (escaping, quoting, encoding) is decided for strings of every length and
content: one pass through the body of a loop is evaluated abstractly for each of the
255 characters, which gives, for each variable the loop carries, how much a character
adds to it, and what is stored where.  A loop is then replaced with its sum

    x  =  x0 + sum of d(s[j]) over the characters s[j] of the string

and bounds are compared character by character: if the size grows by at least as much
as the offset for every character, and covers the terminator, no string whatsoever
leads out of the memory; if not, some string does.

Only loops of this kind are decided; everything else is left to the other analyses.
"""
from collections import defaultdict

N = 256


class Cannot(Exception):
    pass


class V:
    """c + sum of coefficients of carried variables + sum over the string of m[character]"""
    __slots__ = ('c', 'p', 'm')

    def __init__(self, c, p=(), m=None):
        self.c, self.p = c, {k: x for k, x in dict(p).items() if x}
        self.m = m if m is not None and any(m) else None

    def __repr__(self):
        d = defaultdict(list)
        for a, x in enumerate(self.m or ()):
            if a:
                d[x].append(a)
        return 'V(%r %r %s)' % (self.c, self.p, {x: (len(k) if len(k) > 5 else k) for x, k in d.items()})

    def const(self):
        return not self.p and self.m is None


def add(a, b, k=1):
    p = dict(a.p)
    for x, y in b.p.items():
        p[x] = p.get(x, 0) + k * y
    m = a.m
    if b.m is not None:
        m = tuple((m[i] if m else 0) + k * b.m[i] for i in range(N))
    return V(a.c + k * b.c, p, m)


def scale(a, k):
    return V(a.c * k, {x: y * k for x, y in a.p.items()}, tuple(k * x for x in a.m) if a.m else None)


LEN = V(0, (), (0,) + (1,) * 255)


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b, self.o = b, o

    def __repr__(self):
        return 'Ptr(%s %r)' % (self.b, self.o)


class Obj:
    def __init__(self, size, ins):
        self.size, self.ins = size, ins
        self.stores = []          # (offset V, value, character or None, instruction)


T = None


def wrap(x, bits, signed=True):
    x &= (1 << bits) - 1
    return x - (1 << bits) if signed and x >= 1 << (bits - 1) else x


class Fold:
    """evaluates one function for an arbitrary string as its argument number `par`"""

    def __init__(self, mod, f, par):
        self.mod, self.f, self.par = mod, f, par
        self.objs = []
        self.loops = 0
        self.steps = 0
        self.char = None          # character at the position of the pass, while in a loop
        self.cursor = None        # carried variables the position is taken from, while in a loop
        self.pend = None

    # ------------------------------------------------------------------ run
    def run(self):
        env = {}
        for i in range(len(self.f.params)):
            env[i] = T
        env[self.par] = Ptr('in', V(0))
        self.walk(self.f, env, self.f.blocks[0], None, set())
        return self

    def val(self, env, o):
        if isinstance(o, int):
            return V(o)
        if isinstance(o, tuple) and o and o[0] == 'r':
            return env.get(o[1], T)
        if isinstance(o, tuple) and o and o[0] == 'g':
            return Ptr(('g', o[1]), V(o[2] if len(o) > 2 and isinstance(o[2], int) else 0))
        return T

    def heads(self, f):
        c = getattr(f, '_fold_heads', None)
        if c is None:
            c = f._fold_heads = natural_loops(f)
        return c

    def walk(self, f, env, blk, prev, stop, depth=0):
        """from block to return; ends early at a block of `stop` -> ('at', block, previous, env) or ('ret', value)"""
        if depth > 12:
            raise Cannot('depth')
        heads = self.heads(f)
        while True:
            self.steps += 1
            if self.steps > 200000:
                raise Cannot('steps')
            if (prev, blk) in stop:
                return ('at', blk, prev, env)
            if blk in heads and prev is not None and prev not in heads[blk]:
                r = self.loop(f, env, blk, prev, heads[blk], depth)
                blk, prev, env = r
                if (prev, blk) in stop:
                    return ('at', blk, prev, env)
            new = {}
            body = f.body[blk]
            for i in body:
                if i.op == 'phi':
                    for v, b in zip(i.a, i.x):
                        if b == prev:
                            new[i.dest] = self.val(env, v)
            env.update(new)
            nxt = None
            for i in body:
                if i.op == 'phi':
                    continue
                r = self.step(f, env, i, depth)
                if r is not None:
                    if r[0] == 'ret':
                        return r
                    nxt = r[1]
                    break
            if nxt is None:
                raise Cannot('unreachable')
            prev, blk = blk, nxt

    # ------------------------------------------------------------------ loops
    def loop(self, f, env, head, prev, body, depth):
        if self.char is not None:
            raise Cannot('nested loop')
        self.loops += 1
        phis = [i for i in f.body[head] if i.op == 'phi']
        init = {}
        for i in phis:
            for v, b in zip(i.a, i.x):
                if b == prev:
                    init[i.dest] = self.val(env, v)
        latches = {(b, head) for b in body if head in succ(f, b)}
        exits = {(b, s) for b in body for s in succ(f, b) if s not in body}
        delta = {}
        pend = []
        zero = {k for k, v in init.items()
                if isinstance(v, Ptr) and v.b == 'in' and v.o.const() and v.o.c == 0
                or isinstance(v, V) and v.const() and v.c == 0}
        cand = set(zero)
        # hypothesis: variables that start at the beginning and advance by one per character
        for attempt in range(len(phis) + 2):
            self.cursor = cand
            delta, ok, pend = {}, True, []
            final = None
            touched = set()
            for c in list(range(1, N)) + [0]:
                self.char = c
                self.pend = []
                e = dict(env)
                for i in phis:
                    v = init[i.dest]
                    if isinstance(v, Ptr):
                        e[i.dest] = Ptr(v.b, V(0, {i.dest: 1}))
                    elif isinstance(v, V):
                        e[i.dest] = V(0, {i.dest: 1})
                    else:
                        e[i.dest] = T
                # evaluate the body, starting behind the phis
                try:
                    r = self.walk_body(f, e, head, latches | exits, depth)
                finally:
                    pe, self.pend = self.pend, None
                    self.char = None
                if r[0] != 'at':
                    raise Cannot('returns from within the loop')
                _, b, pb, e = r
                if c == 0:
                    if (pb, b) not in exits:
                        raise Cannot('does not end with the string')
                    final = (b, pb, e)
                else:
                    if (pb, b) not in latches:
                        raise Cannot('ends before the string does')
                    for i in phis:
                        nv = [self.val(e, v) for v, x in zip(i.a, i.x) if x == pb][0]
                        old = init[i.dest]
                        d = T
                        if isinstance(nv, Ptr) and isinstance(old, Ptr) and nv.b == old.b:
                            nv = nv.o
                        elif isinstance(nv, Ptr) or isinstance(old, Ptr):
                            nv = T
                        if isinstance(nv, V):
                            q = add(nv, V(0, {i.dest: 1}), -1)
                            if q.const():
                                d = q.c
                        delta.setdefault(i.dest, [0] * N)[c] = d
                pend += [(c,) + x for x in pe]
            steppers = {k for k, d in delta.items() if k in zero and all(x == 1 for x in d[1:])}
            if cand == steppers:
                break
            cand = steppers
        else:
            raise Cannot('no position')
        self.cursor = None
        if not cand:
            raise Cannot('no position')
        sums = {}
        for i in phis:
            v, d = init[i.dest], delta[i.dest]
            if v is T or any(x is T for x in d):
                sums[i.dest] = T
                continue
            o = v.o if isinstance(v, Ptr) else v
            s = add(o, V(0, (), tuple(d)))
            sums[i.dest] = Ptr(v.b, s) if isinstance(v, Ptr) else s
        start = {k: (v.o if isinstance(v, Ptr) else v) for k, v in init.items()}
        for c, ob, off, v, ins, width in pend:
            # offset before the pass = start + sum of the characters in front
            o = V(off.c)
            pre = [0] * N
            for k, x in off.p.items():
                if start.get(k) is T or start[k] is None or delta[k] is T or any(y is T for y in delta[k]):
                    o = T
                    break
                o = add(o, start[k], x)
                pre = [a + x * y for a, y in zip(pre, delta[k])]
            if o is T or off.m is not None:
                raise Cannot('offset')
            if c == 0:
                # the last pass, in front of it are all characters
                ob.stores.append((add(o, V(0, (), tuple(pre))), None, v, None, ins))
            else:
                ob.stores.append((o, tuple(pre), v, c, ins))
        b, pb, e = final
        out = {}
        for k, v in e.items():
            out[k] = self.subst(v, sums)
        return b, pb, out

    def subst(self, v, sums):
        if isinstance(v, Ptr):
            o = self.subst(v.o, sums)
            return T if o is T else Ptr(v.b, o)
        if not isinstance(v, V) or not v.p:
            return v
        r = V(v.c, {}, v.m)
        for k, x in v.p.items():
            s = sums.get(k)
            if s is T or s is None:
                return T
            r = add(r, s.o if isinstance(s, Ptr) else s, x)
        return r

    def walk_body(self, f, env, head, stop, depth):
        """one pass: like walk(), from behind the phis of the head"""
        blk, prev, first = head, None, True
        heads = self.heads(f)
        n = 0
        while True:
            n += 1
            if n > 500:
                raise Cannot('body')
            if not first and (prev, blk) in stop:
                return ('at', blk, prev, env)
            if not first and blk in heads:
                raise Cannot('nested loop')
            new = {}
            if not first:
                for i in f.body[blk]:
                    if i.op == 'phi':
                        for v, b in zip(i.a, i.x):
                            if b == prev:
                                new[i.dest] = self.val(env, v)
                env.update(new)
            first = False
            nxt = None
            for i in f.body[blk]:
                if i.op == 'phi':
                    continue
                r = self.step(f, env, i, depth)
                if r is not None:
                    if r[0] == 'ret':
                        return r
                    nxt = r[1]
                    break
            if nxt is None:
                raise Cannot('unreachable')
            prev, blk = blk, nxt

    # ------------------------------------------------------------------ instructions
    def step(self, f, env, i, depth):
        op = i.op
        if op == 'ret':
            return ('ret', self.val(env, i.a[0]) if i.a else T)
        if op == 'br':
            if len(i.x) == 2 and i.x[1] is None or len(i.x) == 1:
                return ('go', i.x[0])
            v = self.val(env, i.a[0])
            if not isinstance(v, V) or not v.const():
                raise Cannot('branch')
            return ('go', i.x[0] if v.c & 1 else i.x[1])
        if op == 'switch':
            v = self.val(env, i.a[0])
            if not isinstance(v, V) or not v.const():
                raise Cannot('branch')
            for c, b in i.x[1]:
                if c == v.c:
                    return ('go', b)
            return ('go', i.x[0])
        if op == 'unreachable':
            raise Cannot('unreachable')
        if op == 'store':
            self.store(env, i)
            return None
        r = T
        if op == 'bin':
            r = self.bin(i.x, self.val(env, i.a[0]), self.val(env, i.a[1]), i.ty)
        elif op == 'icmp':
            r = self.icmp(i.x, self.val(env, i.a[0]), self.val(env, i.a[1]), i.ty)
        elif op == 'cast':
            v = self.val(env, i.a[0])
            if isinstance(v, V) and v.const():
                if i.x[0] == 'zext' and i.x[1][0] == 'i':
                    v = V(wrap(v.c, i.x[1][1], False))
                elif i.x[0] == 'sext' and i.x[1] == ('i', 1):
                    v = V(-(v.c & 1))
                elif i.x[0] == 'trunc' and i.ty[0] == 'i':
                    v = V(v.c & 1 if i.ty[1] == 1 else wrap(v.c, i.ty[1]))
            elif i.x[0] == 'trunc' and i.ty[0] == 'i' and i.ty[1] < 32:
                v = T
            r = v
        elif op == 'select':
            c = self.val(env, i.a[0])
            if isinstance(c, V) and c.const():
                r = self.val(env, i.a[1] if c.c & 1 else i.a[2])
        elif op == 'gep':
            r = self.gep(env, i)
        elif op == 'load':
            r = self.load(env, i)
        elif op == 'call':
            r = self.call(f, env, i, depth)
        elif op == 'alloca':
            r = Ptr(('a', i.uid), V(0))
        if i.dest is not None:
            env[i.dest] = r
        return None

    def bin(self, op, a, b, ty):
        if not isinstance(a, V) or not isinstance(b, V):
            return T
        if op == 'add':
            r = add(a, b)
        elif op == 'sub':
            r = add(a, b, -1)
        elif op == 'mul' and a.const():
            r = scale(b, a.c)
        elif op == 'mul' and b.const():
            r = scale(a, b.c)
        elif op == 'shl' and b.const() and 0 <= b.c < 32:
            r = scale(a, 1 << b.c)
        elif a.const() and b.const():
            x, y = a.c, b.c
            bits = ty[1] if ty and ty[0] == 'i' else 64
            ux, uy = wrap(x, bits, False), wrap(y, bits, False)
            r = {'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy,
                 'lshr': lambda: ux >> uy, 'ashr': lambda: x >> uy, 'udiv': lambda: ux // uy if uy else None,
                 'urem': lambda: ux % uy if uy else None,
                 'sdiv': lambda: int(x / y) if y else None}.get(op, lambda: None)()
            if r is None:
                return T
            r = V(r if bits == 1 else wrap(r, bits))
        else:
            return T
        if r.const() and ty and ty[0] == 'i' and ty[1] > 1:
            r = V(wrap(r.c, ty[1]))
        return r

    def icmp(self, op, a, b, ty):
        if isinstance(a, Ptr) and isinstance(b, V) and b.const() and b.c == 0:
            return V(1 if op == 'ne' else 0) if op in ('eq', 'ne') else T
        if isinstance(b, Ptr) and isinstance(a, V):
            return self.icmp(op, b, a, ty)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
            a, b = a.o, b.o
            op = {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(op, op)
            ty = ('i', 64)
        if not isinstance(a, V) or not isinstance(b, V):
            return T
        bits = ty[1] if ty and ty[0] == 'i' else 64
        if a.const() and b.const():
            x, y = a.c, b.c
            if op[0] == 'u':
                x, y = wrap(x, bits, False), wrap(y, bits, False)
            return V(int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y,
                          'ge': x >= y}[op if op in ('eq', 'ne') else op[1:]]))
        # the position compared with the length of the string
        if self.char is not None and self.cursor:
            d = add(a, b, -1)
            for s in (1, -1):
                e = scale(d, s)
                if len(e.p) == 1 and e.m == tuple(-x for x in LEN.m):
                    (k, x), = e.p.items()
                    if k in self.cursor and x == 1:
                        # e = position - length + c
                        if self.char == 0:
                            lo = hi = e.c
                        else:
                            lo, hi = None, e.c - 1
                        t = {'lt': True if hi < 0 else False if lo is not None and lo >= 0 else None,
                             'ge': False if hi < 0 else True if lo is not None and lo >= 0 else None,
                             'le': True if hi <= 0 else False if lo is not None and lo > 0 else None,
                             'gt': False if hi <= 0 else True if lo is not None and lo > 0 else None,
                             'eq': (lo == 0) if lo is not None else False if hi < 0 else None,
                             'ne': (lo != 0) if lo is not None else True if hi < 0 else None}
                        o = op if op in ('eq', 'ne') else op[1:]
                        if s < 0:
                            o = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(o, o)
                        return T if t[o] is None else V(int(t[o]))
        return T

    def gep(self, env, i):
        b = self.val(env, i.a[0])
        if not isinstance(b, Ptr):
            return T
        t, off = i.ty, b.o
        ts = self.mod.types
        for n, ix in enumerate(i.a[1:]):
            v = self.val(env, ix)
            if not isinstance(v, V):
                return T
            if n == 0:
                off = add(off, scale(v, ts.size(t)))
                continue
            rt = ts.resolve(t)
            if rt[0] == 's' and v.const():
                off = add(off, V(ts.offsets(rt)[v.c]))
                t = rt[1][v.c]
            elif rt[0] == 'a':
                off = add(off, scale(v, ts.size(rt[2])))
                t = rt[2]
            else:
                return T
        return Ptr(b.b, off)

    def load(self, env, i):
        p = self.val(env, i.a[0])
        if not isinstance(p, Ptr):
            return T
        if p.b == 'in' and i.ty == ('i', 8):
            o = p.o
            if self.char is not None and o.m is None and o.c == 0 and len(o.p) == 1:
                (k, x), = o.p.items()
                if x == 1 and k in self.cursor:
                    return V(wrap(self.char, 8))
            if o.m == LEN.m and not o.p and o.c == 0:
                return V(0)
            return T
        if isinstance(p.b, tuple) and p.b[0] == 'g' and p.o.const():
            g = self.mod.globals.get(p.b[1])
            if g is not None and g.const and isinstance(g.init, (bytes, tuple)) and i.ty == ('i', 8):
                d = g.init[1] if isinstance(g.init, tuple) and len(g.init) > 1 and isinstance(g.init[1], bytes) else g.init
                if isinstance(d, bytes) and 0 <= p.o.c < len(d):
                    return V(wrap(d[p.o.c], 8))
        return T

    def store(self, env, i):
        v, p = self.val(env, i.a[0]), self.val(env, i.a[1])
        if p is T:
            raise Cannot('store')
        if not isinstance(p, Ptr):
            raise Cannot('store')
        if isinstance(p.b, tuple):
            if p.b[0] in ('a', 'g'):
                if isinstance(v, Ptr) and (v.b == 'in' or isinstance(v.b, Obj)):
                    raise Cannot('escapes')
                return
        if p.b == 'in':
            raise Cannot('string modified')
        self.put(p, v, i)

    def put(self, p, v, i, n=1):
        if self.char is not None:
            self.pend.append((p.b, p.o, v, i, n))
        else:
            if p.o.p:
                raise Cannot('store')
            p.b.stores.append((p.o, None, v, None, i))

    def call(self, f, env, i, depth):
        g = i.x[0]
        nm = g[1] if isinstance(g, tuple) and g[0] == 'g' else None
        args = [self.val(env, a) for a in i.a]
        if nm is None:
            raise Cannot('call')
        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime'):
            return T
        if nm in ('strlen',) and isinstance(args[0], Ptr) and args[0].b == 'in' and args[0].o.const() and args[0].o.c == 0:
            return LEN
        if nm in ('malloc', 'calloc') or nm == 'realloc' and isinstance(args[0], V) and args[0].const() and args[0].c == 0:
            s = args[-1]
            if nm == 'calloc':
                s = self.bin('mul', args[0], args[1], None)
            if not isinstance(s, V) or s.p or self.char is not None:
                raise Cannot('size')
            o = Obj(s, i)
            self.objs.append(o)
            return Ptr(o, V(0))
        if nm == 'free':
            return T
        fn = self.mod.funcs.get(nm)
        mine = [a for a in args if isinstance(a, Ptr) and (a.b == 'in' or isinstance(a.b, Obj))]
        if fn is None or not fn.defined or fn.vararg:
            if any(isinstance(a.b, Obj) for a in mine):
                raise Cannot('call')
            if mine and not (fn is not None and fn.vararg):
                raise Cannot('call')
            return T
        e = {k: (args[k] if k < len(args) else T) for k in range(len(fn.params))}
        saved = self.char
        r = self.walk(fn, e, fn.blocks[0], None, set(), depth + 1)
        self.char = saved
        return r[1]


def succ(f, b):
    t = f.body[b][-1]
    if t.op == 'br':
        return [x for x in t.x if x is not None]
    if t.op == 'switch':
        return [t.x[0]] + [x for _, x in t.x[1]]
    return []


def natural_loops(f):
    """head -> blocks of the loop"""
    blocks = f.blocks
    idx = {b: k for k, b in enumerate(blocks)}
    pred = defaultdict(list)
    for b in blocks:
        for s in succ(f, b):
            pred[s].append(b)
    dom = {b: set(blocks) for b in blocks}
    dom[blocks[0]] = {blocks[0]}
    ch = True
    while ch:
        ch = False
        for b in blocks[1:]:
            ps = [dom[p] for p in pred[b]]
            n = ({b} | set.intersection(*ps)) if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    out = {}
    for b in blocks:
        for s in succ(f, b):
            if s in dom[b]:
                body = out.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += pred[x]
    return out


# ------------------------------------------------------------------ judging
def show(c):
    return {10: 'a newline', 92: 'a backslash', 9: 'a tab', 13: 'a carriage return'}.get(
        c, "'%c'" % c if 32 < c < 127 else 'character %d' % c)


def judge(F):
    """[(rule, instruction, message)] of one function that was evaluated completely, and what was proved"""
    out, proved = [], 0
    for ob in F.objs:
        if ob.size.m is None and not any(pre or off.m for off, pre, v, c, ins in ob.stores):
            continue
        sm = ob.size.m or (0,) * N
        done = set()
        for off, pre, v, c, ins in ob.stores:
            om = pre if pre is not None else (off.m or (0,) * N)
            short = [a for a in range(1, N) if sm[a] < om[a]]
            neg = [a for a in range(1, N) if sm[a] < 0]
            if neg:
                continue
            k = off.c
            room = ob.size.c + (sm[c] if c is not None else 0)
            if c is not None and pre is None:
                continue
            base = 0 if pre is None else 0
            if short:
                msg = 'each time the string has %s, more is written than allocated' % show(short[0])
                if ins.uid not in done:
                    done.add(ins.uid)
                    out.append(('fold-bounds', ins, msg))
            elif k >= room:
                if ins.uid not in done:
                    done.add(ins.uid)
                    what = 'when the string is ended' if c is None else 'for %s' % show(c)
                    out.append(('fold-bounds', ins, 'there are strings with which the memory allocated is exceeded by %d byte%s %s'
                                % (k - room + 1, '' if k == room else 's', what)))
            elif k < 0 and pre is not None and min(om[1:]) >= 0:
                out.append(('fold-bounds', ins, 'writes in front of the memory allocated'))
            else:
                proved += 1
        ch = chunks(ob)
        if ch is not None:
            changed = [c for c in range(1, N) if ch[c] != (wrap(c, 8),)]
            if changed:
                nl = [c for c in range(1, N) if 10 in ch[c]]
                if nl:
                    out.append(('fold-newline', ob.ins, 'the text produced may contain newlines (for %s)' % show(nl[0])))
                else:
                    proved += 255
                amb = prefix(ch)
                if amb is not None:
                    out.append(('fold-ambiguous', ob.ins, 'the text produced does not tell %s from text that starts like it (%s)'
                                % (show(amb[0]), show(amb[1]))))
                else:
                    proved += 1
    return out, proved


def chunks(ob):
    """what each character becomes, if each becomes a run of constant characters"""
    ch = {}
    for off, pre, v, c, ins in ob.stores:
        if c is None:
            continue
        if not isinstance(v, V) or not v.const():
            return None
        ch.setdefault(c, {})[off.c] = wrap(v.c, 8)
    out = {}
    for c in range(1, N):
        d = ch.get(c)
        if not d:
            return None
        lo = min(d)
        if sorted(d) != list(range(lo, lo + len(d))):
            return None
        out[c] = tuple(d[k] for k in sorted(d))
    # nothing but the text and its terminator
    return out


def prefix(ch):
    seen = {}
    for c, t in ch.items():
        if t in seen:
            return (seen[t], c)
        seen[t] = c
    for c, t in ch.items():
        for n in range(1, len(t)):
            if t[:n] in seen:
                return (seen[t[:n]], c)
    return None


def analyse(mod, src=None):
    """(findings, statistics) over every function of the module that has a loop and takes a string"""
    out, stats = [], {'functions': 0, 'decided': 0, 'loops': 0, 'proved': 0, 'undecided': {}}
    for f in mod.funcs.values():
        if not f.defined or not natural_loops(f):
            continue
        for k, t in enumerate(f.ptypes):
            if t != ('p',):
                continue
            stats['functions'] += 1
            try:
                F = Fold(mod, f, k).run()
            except Cannot as e:
                stats['undecided'][f.name] = str(e)
                continue
            if not F.loops:
                continue
            stats['decided'] += 1
            stats['loops'] += F.loops
            o, n = judge(F)
            out += [(r, f, i, m) for r, i, m in o]
            stats['proved'] += n
    return out, stats
