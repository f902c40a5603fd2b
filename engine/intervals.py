"""Interval analysis over SSA registers, one function at a time: are variable indices into arrays of
fixed size within their bounds?

Classic abstract interpretation: intervals per register and block, refinement by the branches taken,
widening with the constants of the function as thresholds, then narrowing.
"""
INF = float('inf')
TOP = (-INF, INF)


def rng(ty, signed=True):
    if ty[0] != 'i':
        return TOP
    b = ty[1]
    return (-(1 << (b - 1)), (1 << b) - 1)


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
       'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
        'ule': 'uge', 'uge': 'ule'}


class Intervals:
    def __init__(self, f, types, known=None):
        self.f, self.types = f, types
        self.known = known or {}      # results of calls: callable(instr) -> interval or None
        self.defs = {i.dest: i for i in f.instrs() if i.dest is not None}
        thr = {-1, 0, 1, 2, 255, 256, 65535}
        for i in f.instrs():
            for o in i.a:
                if isinstance(o, int) and abs(o) < 1 << 33:
                    thr |= {o - 1, o, o + 1}
        self.thr = sorted(thr)
        self.inn = {f.blocks[0]: {}}
        self.solve()

    def val(self, st, o):
        if isinstance(o, int):
            return (o, o)
        if isinstance(o, tuple) and o and o[0] == 'r':
            return st.get(o[1], TOP)
        return TOP

    def fit(self, v, ty):
        """an interval as a register of type ty holds it: if it may wrap, nothing is known"""
        lo, hi = v
        if ty[0] != 'i':
            return TOP
        b = ty[1]
        if lo < -(1 << (b - 1)) or hi > (1 << b) - 1:
            # counting up from below a bound cannot reach 2^63
            if b == 64 and lo >= 0:
                return (0, INF)
            return TOP
        return v

    def exec(self, st, i):
        op = i.op
        if i.dest is None:
            return
        r = TOP
        if op == 'bin':
            a, b = self.val(st, i.a[0]), self.val(st, i.a[1])
            x = i.x
            if x == 'add':
                r = self.fit((a[0] + b[0], a[1] + b[1]), i.ty)
            elif x == 'sub':
                r = self.fit((a[0] - b[1], a[1] - b[0]), i.ty)
            elif x == 'mul' and abs(a[0]) < INF and abs(a[1]) < INF and abs(b[0]) < INF and abs(b[1]) < INF:
                p = [u * v for u in a for v in b]
                r = self.fit((min(p), max(p)), i.ty)
            elif x == 'and':
                for u, v in ((a, b), (b, a)):
                    if u[0] == u[1] and u[0] >= 0:
                        r = (0, u[0])
            elif x in ('urem', 'srem') and b[0] == b[1] and b[0] > 0 and (x == 'urem' or a[0] >= 0):
                r = (0, b[0] - 1)
            elif x in ('udiv', 'sdiv') and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
                r = (a[0] // b[0], a[1] // b[0] if a[1] < INF else INF)
            elif x in ('lshr', 'ashr') and b[0] == b[1] and a[0] >= 0 and 0 <= b[0] < 64:
                r = (int(a[0]) >> b[0], int(a[1]) >> b[0] if a[1] < INF else INF)
            elif x == 'shl' and b[0] == b[1] and a[0] >= 0 and a[1] < INF and 0 <= b[0] < 64:
                r = self.fit((int(a[0]) << b[0], int(a[1]) << b[0]), i.ty)
        elif op == 'cast':
            a = self.val(st, i.a[0])
            k = i.x[0]
            if k == 'zext':
                b = i.x[1][1]
                r = a if a[0] >= 0 and a[1] < 1 << b else (0, (1 << b) - 1)
            elif k == 'sext':
                b = i.x[1][1]
                h = 1 << (b - 1)
                r = a if a[0] >= -h and a[1] < h else (-h, h - 1)
            elif k == 'trunc':
                b = i.ty[1]
                r = a if a[0] >= -(1 << (b - 1)) and a[1] < 1 << (b - 1) else TOP
            elif k == 'bitcast':
                r = a
        elif op == 'select':
            r = join(self.val(st, i.a[1]), self.val(st, i.a[2]))
        elif op == 'icmp':
            r = (0, 1)
        elif op == 'load' and i.ty[0] == 'i' and i.ty[1] <= 8:
            r = (-128, 255)
        elif op == 'call' and self.known:
            k = self.known(i)
            if k is not None:
                r = k
        st[i.dest] = r

    def constrain(self, st, pred, a, b, ty):
        """assume a pred b; False if impossible"""
        va, vb = self.val(st, a), self.val(st, b)
        uns = pred[0] == 'u'
        if uns:
            # unsigned comparisons say something about non-negative values only
            if va[0] < 0 and vb[0] >= 0 and vb[1] < INF and pred in ('ult', 'ule'):
                va = (0, va[1] if va[1] > 0 else INF) if self.width(ty) else va
            if vb[0] < 0 and va[0] >= 0 and va[1] < INF and pred in ('ugt', 'uge'):
                vb = (0, vb[1] if vb[1] > 0 else INF)
            if va[0] < 0 or vb[0] < 0:
                return True
        p = pred[-2:] if pred not in ('eq', 'ne') else pred
        if p == 'eq':
            va = vb = meet(va, vb)
        elif p == 'ne':
            if vb[0] == vb[1]:
                if va[0] == vb[0]:
                    va = (va[0] + 1, va[1])
                if va[1] == vb[0]:
                    va = (va[0], va[1] - 1)
            if va[0] == va[1]:
                if vb[0] == va[0]:
                    vb = (vb[0] + 1, vb[1])
                if vb[1] == va[0]:
                    vb = (vb[0], vb[1] - 1)
        elif p == 'lt':
            va, vb = meet(va, (-INF, vb[1] - 1)), meet(vb, (va[0] + 1, INF))
        elif p == 'le':
            va, vb = meet(va, (-INF, vb[1])), meet(vb, (va[0], INF))
        elif p == 'gt':
            va, vb = meet(va, (vb[0] + 1, INF)), meet(vb, (-INF, va[1] - 1))
        elif p == 'ge':
            va, vb = meet(va, (vb[0], INF)), meet(vb, (-INF, va[1]))
        if va[0] > va[1] or vb[0] > vb[1]:
            return False
        for o, v in ((a, va), (b, vb)):
            if isinstance(o, tuple) and o and o[0] == 'r':
                st[o[1]] = v
                self.back(st, o[1], v)
        return True

    def width(self, ty):
        return True

    def back(self, st, r, v):
        """what a bound of r says about the register it was extended or offset from"""
        d = self.defs.get(r)
        if d is None:
            return
        if d.op == 'cast' and d.x[0] in ('zext', 'sext') and isinstance(d.a[0], tuple) and d.a[0][0] == 'r':
            if d.x[0] == 'sext' or v[0] >= 0:
                q = d.a[0][1]
                st[q] = meet(st.get(q, TOP), v) if d.x[0] == 'sext' or st.get(q, TOP)[0] >= 0 else st.get(q, TOP)

    def assume(self, st, c, truth, depth=0):
        d = self.defs.get(c[1]) if isinstance(c, tuple) and c[0] == 'r' else None
        if isinstance(c, int):
            return bool(c) == truth
        if d is None or depth > 4:
            return True
        if d.op == 'icmp':
            pred = d.x if truth else NEG[d.x]
            # !!x and the like
            if d.a[1] == 0 and d.x in ('ne', 'eq') and isinstance(d.a[0], tuple):
                e = self.defs.get(d.a[0][1]) if d.a[0][0] == 'r' else None
                if e is not None and e.op == 'cast' and e.x[0] == 'zext' and e.x[1] == ('i', 1):
                    return self.assume(st, e.a[0], (d.x == 'ne') == truth, depth + 1)
            if d.ty[0] == 'p':
                return True
            return self.constrain(st, pred, d.a[0], d.a[1], d.ty)
        if d.op == 'phi' and d.ty == ('i', 1):
            # a && b, a || b
            live = [v for v in d.a if not (isinstance(v, int) and bool(v) != truth)]
            if len(live) == 1 and not isinstance(live[0], int):
                return self.assume(st, live[0], truth, depth + 1)
            return bool(live)
        if d.op == 'bin' and d.x == 'xor' and d.a[1] in (1, -1) and d.ty == ('i', 1):
            return self.assume(st, d.a[0], not truth, depth + 1)
        return True

    def edges(self, b, st):
        f = self.f
        t = f.body[b][-1]
        out = []
        for s in f.succ[b]:
            n = dict(st)
            ok = True
            if t.op == 'br' and t.a and t.x[0] != t.x[1]:
                d = self.defs.get(t.a[0][1]) if isinstance(t.a[0], tuple) else None
                if d is not None and d.op == 'phi' and d.blk == b:
                    # a && b, a || b: only some ways into this block give this outcome
                    ins = [self.edge[(p, b)] for v, p in zip(d.a, d.x) if (p, b) in self.edge and
                           not (isinstance(v, int) and bool(v) != (t.x[0] == s))]
                    if not ins:
                        continue
                    m = dict(ins[0])
                    for x in ins[1:]:
                        m = {k: join(v, x[k]) for k, v in m.items() if k in x}
                    m = self.trans(b, m)
                    for k, v in m.items():
                        n[k] = meet(n.get(k, TOP), v)
                ok = self.assume(n, t.a[0], t.x[0] == s)
            elif t.op == 'switch' and t.x[0] != s:
                vs = [v for v, l in t.x[1] if l == s]
                if isinstance(t.a[0], tuple) and t.a[0][0] == 'r' and all(isinstance(v, int) for v in vs):
                    m = meet(n.get(t.a[0][1], TOP), (min(vs), max(vs)))
                    ok = m[0] <= m[1]
                    if ok:
                        n[t.a[0][1]] = m
            if not ok:
                continue
            new = {}
            for i in f.body[s]:
                if i.op != 'phi':
                    break
                for v, p in zip(i.a, i.x):
                    if p == b:
                        new[i.dest] = self.val(n, v)
            n.update(new)
            out.append((s, n))
        return out

    def trans(self, b, st):
        st = dict(st)
        for i in self.f.body[b]:
            if i.op != 'phi':
                self.exec(st, i)
        return st

    def solve(self):
        f = self.f
        order = sorted(f.rpo, key=lambda b: f.rpo[b])
        cnt = {}
        edge = self.edge = {}

        def merge(b):
            ins = [edge[(p, b)] for p in f.pred[b] if (p, b) in edge]
            if b == f.blocks[0]:
                ins = ins + [{}]
            if not ins:
                return None
            r = dict(ins[0])
            for x in ins[1:]:
                r = {k: join(v, x[k]) for k, v in r.items() if k in x}
            return r
        work = True
        rounds = 0
        while work and rounds < 60:
            rounds += 1
            work = False
            for b in order:
                st = merge(b)
                if st is None:
                    continue
                old = self.inn.get(b)
                if b in cnt and b in f.heads:
                    w = {}
                    for k, v in st.items():
                        if k not in old:
                            continue
                        o = old[k]
                        lo, hi = min(o[0], v[0]), max(o[1], v[1])
                        if cnt[b] > 2:
                            if v[0] < o[0]:
                                lo = max([t for t in self.thr if t <= v[0]], default=-INF)
                            if v[1] > o[1]:
                                hi = min([t for t in self.thr if t >= v[1]], default=INF)
                        w[k] = (lo, hi)
                    st = w
                if old is not None and b in cnt and st == old:
                    continue
                self.inn[b] = st
                cnt[b] = cnt.get(b, 0) + 1
                work = True
                for p in [k for k in edge if k[0] == b]:
                    del edge[p]
                for s, n in self.edges(b, self.trans(b, st)):
                    edge[(b, s)] = n
        # narrowing
        for _ in range(2):
            for b in order:
                st = merge(b)
                if st is None:
                    continue
                self.inn[b] = st
                for p in [k for k in edge if k[0] == b]:
                    del edge[p]
                for s, n in self.edges(b, self.trans(b, st)):
                    edge[(b, s)] = n

    def at(self):
        """yield (instr, state before it)"""
        for b in self.f.blocks:
            st = self.inn.get(b)
            if st is None or b not in self.f.rpo:
                continue
            st = dict(st)
            for i in self.f.body[b]:
                if i.op != 'phi':
                    yield i, st
                    self.exec(st, i)


def accesses(prog, f, iv):
    """(instr, array size, interval of the byte offset, access size) of accesses through variable indices of arrays
    with a known size"""
    m = prog.m
    for i, st in iv.at():
        if i.op == 'load':
            p, n = i.a[0], m.types.size(i.ty)
        elif i.op == 'store':
            p, n = i.a[1], m.types.size(i.ty)
        else:
            continue
        r = offset(prog, f, iv, st, p)
        if r is not None and r[2]:
            yield i, r[0], r[1], n


def offset(prog, f, iv, st, p):
    """(size of the array p points into, interval of the offset, does a variable index occur)"""
    m = prog.m
    off, var = (0, 0), False
    while True:
        if isinstance(p, tuple) and p and p[0] == 'g':
            g = m.globals.get(p[1])
            if g is None or not g.defined:
                return None
            return m.types.size(g.ty), (off[0] + p[2], off[1] + p[2]), var
        if not (isinstance(p, tuple) and p and p[0] == 'r'):
            return None
        d = prog.defs(f).get(p[1])
        if d is None:
            return None
        if d.op == 'alloca':
            if d.a and isinstance(d.a[0], int):
                return m.types.size(d.ty) * d.a[0], off, var
            return None
        if d.op == 'cast' and d.x[0] == 'bitcast':
            p = d.a[0]
            continue
        if d.op != 'gep':
            return None
        t = d.ty
        for n, ix in enumerate(d.a[1:]):
            v = iv.val(st, ix)
            if n == 0:
                w = m.types.size(t)
            else:
                rt = m.types.resolve(t)
                if rt[0] == 's':
                    k = m.types.offsets(rt)[ix]
                    off = (off[0] + k, off[1] + k)
                    t = rt[1][ix]
                    continue
                w = m.types.size(rt[2])
                t = rt[2]
            if not isinstance(ix, int):
                var = True
            off = (off[0] + (v[0] * w if v[0] > -INF else -INF), off[1] + (v[1] * w if v[1] < INF else INF))
        p = d.a[0]
