"""Event-loop exploration: the states between two callbacks are computed to a fixpoint.

A component is started by calling its entry points on unconstrained arguments;
after that any active or pending watcher may fire, in any order, for ever.  At
each boundary the state is brought into a canonical form (objects named by the
access path from the component's handles, quantities by the cell they are
stored in) so that states which differ only in allocation order coincide.
"""
from core import *
from interp import deep, atoms, KEEP_ATTRS
import models

KEEP_GHOST = ('mod', 'ev', 'fd', 'ssl', 'sslctx', 'aio', 'aiobuf', 'sighandler', 'handle', 'obl', 'accepts', 'conn', 'up', 'closing', 'tls_server', 'tls_client', 'input', 'p', 'atexit', 'data', 'datalen', 'cls', 'dump', 'dumpclosed', 'stopped', 'rdpend', 'cphase', 'acked', 'eof', 'gaveup')


def site_of(I, o):
    """source position of the allocation an object name stands for"""
    if o in I.sites:
        return I.sites[o]
    if o[0] == 'h' and len(o) >= 4 and type(o[3]) is int:
        ins = I.mod.by_uid(o[3])
        if ins is not None:
            # the innermost frame outside the allocation wrappers
            ctx = o[2]
            best = ins
            skip = ('xmalloc', 'xrealloc', 'xstrdup', 'xvasprintf', 'xasprintf', 'concat', 'calloc')
            while best.fn.name in skip and ctx:
                ctx, ci = I.ctx.rev[ctx]
                if ci is None:
                    break
                best = ci
            f, l = I.mod.loc(best.loc)
            return '%s:%s (%s)' % (f, l, best.fn.name)
    return None


def objrefs(I, ob):
    """(offset, value, kind) references of an object, in a fixed order"""
    l = []
    for off in sorted((k for k in ob.cells if type(k) is int)):
        l.append((off, ob.cells[off][1]))
    for off in sorted((k for k in ob.cells if type(k) is not int), key=srepr):
        l.append(('sym', ob.cells[off][1]))
    return l


def canon(I, st, where='', numslots=None):
    """canonical form of a boundary state; reports leaks"""
    if numslots is None:
        numslots = set()
    st = st.copy()
    st.frames = []
    fo = {}
    order = []
    seen = set()
    work = []

    def visit(o, name):
        if o in seen:
            return
        seen.add(o)
        if o[0] == 'h' and o in st.mem:
            if o[1] != '@':
                z = site_of(I, o)
                if z:
                    I.sites.setdefault(('h', '@', name), z)
            fo[o] = ('h', '@', name)
        order.append((o, name))
        work.append((o, name))

    roots = []
    for o in sorted((o for o in st.mem if o[0] == 'g'), key=srepr):
        roots.append((o, o[1]))
    for k in sorted((k for k in st.ghost if type(k) is tuple and k[0] == 'handle'), key=srepr):
        v = st.ghost[k]
        if is_ptr(v):
            roots.append((v[1], k[1]))
    # watcher owners: one stable name per connection-like object, whichever of its watchers is active
    ws = {}
    inact = {}
    for k, v in st.ghost.items():
        if type(k) is tuple and k[0] == 'ev' and k[1] in st.mem:
            ws.setdefault(k[1], []).append(k[2])
            if v[1] and v[0] != 'async':
                st.ghost[k] = (v[0], 1, 0)
    i = 0
    wl = sorted(ws, key=lambda o: (not (o[0] == 'h' and o[1] == '@'), srepr(o)))
    used = {o[2] for o in wl if o[0] == 'h' and o[1] == '@'}
    wn = {}
    for o in wl:
        if o[0] == 'h' and o[1] == '@' and o[2].startswith('w:'):
            wn[o] = o[2]
            continue
        while 'w:%d' % i in used:
            i += 1
        wn[o] = 'w:%d' % i
        used.add(wn[o])
    for k, v in sorted(st.ghost.items(), key=lambda x: repr(x[0])):
        if type(k) is tuple and k[0] in ('conn', 'input'):
            roots.append((k[1], k[0]))
        if k == 'tls_client':
            for o in sorted(oatoms(v), key=srepr):
                roots.append((o, 'tls_client'))
        if type(k) is tuple and k[0] in ('aiobuf',):
            roots.append((k[1], 'aiobuf'))
    def drain():
        while work:
            o2, n2 = work.pop(0)
            ob = st.mem.get(o2)
            if ob is None or ob.status != 'alive':
                continue
            for off, v in objrefs(I, ob):
                if is_ptr(v) and v[1] in st.mem and v[1][0] == 'h':
                    p = n2 if len(n2) < 200 else n2[:60]
                    visit(v[1], '%s.%s' % (p, off))
    for o, n in roots:
        if o in st.mem:
            visit(o, n)
    drain()
    for o in wl:
        if o not in seen:
            visit(o, wn[o])
            drain()
    # leaks
    for o in list(st.mem):
        ob = st.mem[o]
        if o[0] == 'h' and o not in seen:
            if ob.status == 'alive' and ob.kind == 'heap':
                I.report(st, 'leak', 'memory allocated at %s is neither freed nor reachable any more' % (
                    site_of(I, o) or ('%s' % (o[2],))), where=where or None)
            del st.mem[o]
        elif o[0] == 'a':
            del st.mem[o]
    # finished asynchronous requests: the control block must be set up again before it is used
    for k in [k for k, v in st.ghost.items() if type(k) is tuple and k[0] == 'aio' and v not in ('inflight', 'signaled')]:
        del st.ghost[k]
        ob = st.mem.get(k[1])
        if ob is not None and ob.status == 'alive':
            ob = st.mem[k[1]] = ob.copy()
            for c in [c for c in ob.cells if type(c) is int and k[2] <= c < k[2] + 168]:
                del ob.cells[c]
    # numeric cells
    iv0 = {}
    wfields, wtimer = {}, set()
    num8 = set()
    for o, name in order:
        ob = st.mem[o]
        if ob.status == 'alive':
            for off, (sz, v) in ob.cells.items():
                # a watcher: callback set, not active
                if type(off) is int and type(v) is tuple and v[0] == 'F' and v[1] in I.wcb:
                    b = off - models.EV_CB
                    g = st.ghost.get(('ev', o, b))
                    k = I.wcb[v[1]]
                    if k == 'io':
                        if not (g and g[1]):
                            wfields.setdefault(o, set()).update((b + models.EV_FD, b + models.EV_EVENTS))
                    elif k == 'timer':
                        wfields.setdefault(o, set()).add(b + models.EV_AT)
                        if not (g and g[1]):
                            wfields[o].add(b + models.EV_REPEAT)
                        wtimer.update((b + models.EV_AT, b + models.EV_REPEAT))
    terms = []        # (new symbol, term)
    ghostfd = {}
    mem = {}
    fsp = {}
    mentioned = set()
    for o, name in order:
        ob = st.mem[o]
        n = ob.copy()
        if ob.status != 'alive':
            n.cells, n.attrs, n.ver = {}, {}, 0
            n.default = 'U'
            n.size = None
            mem[o] = n
            continue
        if o == models.ERRNO:
            continue
        for off in [k for k in n.cells if (o, k) in I.i64slots]:
            numslots.add((name, off))
        if o[0] == 'g' and o[1] in I.opts.get('havoc_globals', ()):
            continue
        for off in list(n.cells):
            sz, v = n.cells[off]
            if off in wfields.get(o, ()):
                continue
            if type(off) is not int:
                del n.cells[off]
                n.default = 'T'
                continue
            if is_lin(v):
                ps = [s for s, k in v[2] if s[0] == 'p']
                if ps:
                    if len(v[2]) == 1 and v[1] == 0 and ps[0][1] in ('c', 'm', 'w'):
                        s2 = ('p', 's', name, off)
                        if ps[0] not in fsp:
                            fsp[ps[0]] = s2
                    continue
                s2 = ('s', name, off)
                if len(v[2]) == 1 and v[1] == 0 and v[2][0][0][:2] == ('c', 'fd') and ('fd', v[2][0][0]) not in st.ghost:
                    n.cells[off] = (sz, models.STALE_FD)
                    continue
                if len(v[2]) == 1 and v[1] == 0 and v[2][0][0] in st.ghost.get('closedfds', ()):
                    n.cells[off] = (sz, models.STALE_FD)
                    continue
                if len(v[2]) == 1 and v[1] == 0 and ('fd', v[2][0][0]) in st.ghost and v[2][0][0] in ghostfd:
                    n.cells[off] = (sz, lin(ghostfd[v[2][0][0]]))
                    continue
                terms.append((s2, v))
                if (name, off) in numslots:
                    num8.add(s2)
                if len(v[2]) == 1 and v[1] == 0:
                    ghostfd.setdefault(v[2][0][0], s2)
                n.cells[off] = (sz, lin(s2))
            elif type(v) is int and sz == 8 and off != 'x' and o[0] != 'g' and (v > 1 or v < -1 or (name, off) in numslots):
                s2 = ('s', name, off)
                terms.append((s2, v))
                n.cells[off] = (sz, lin(s2))
            elif type(v) is tuple and v[0] in ('B', 'VA', 'T'):
                del n.cells[off]
                n.default = 'T'
        for off in wfields.get(o, ()):
            wsz = 8 if off in wtimer else 4
            n.cells[off] = (wsz, lin(('s', name, off)))
        if not n.cells and n.default == 'U':
            n.default = 'T'
        if ob.size is not None and o[0] == 'h' and not (type(ob.size) is int and ob.cells and ob.size >= 8 and
                                                         any(is_ptr(c[1]) for c in ob.cells.values())):
            s2 = ('s', name, 'size')
            terms.append((s2, ob.size))
            num8.add(s2)
            n.size = lin(s2)
        n.ver = 0
        I.i64slots.update((('h', '@', name), k) for k in n.cells if (name, k) in numslots)
        n.attrs = {k: a for k, a in ob.attrs.items() if k in KEEP_ATTRS or k == 'bytes' or
                   (k in ('content',) and symfree(a))}
        if any(type(k) is tuple for k in ob.attrs):
            pass
        mem[o] = n
    # facts
    iv, rel = iv0, set()
    for s2, t in terms:
        lo, hi = st.tight(t)
        if lo is None and st.prove_ge0(t):
            lo = 0
        if type(t) is int:
            lo = hi = t
        if lo is not None or hi is not None:
            iv[s2] = (lo, hi)
    # relations between quantities that can be connected by known facts
    comp = {}

    def find(x):
        while comp.get(x, x) != x:
            x = comp[x]
        return x
    for r in st.rel:
        l = [find(s) for s, k in r[2]]
        for x in l[1:]:
            comp[x] = l[0]
    big = [(s2, t, {find(s) for s, k in t[2]}) for s2, t in terms if s2 in num8 and is_lin(t)]
    if len(big) <= 60:
        for a, ta, ca in big:
            for b, tb, cb in big:
                if a == b or not (ca & cb):
                    continue
                df = st.simp(lsub(ta, tb))
                if type(df) is int:
                    rel.add(ladd(lsub(lin(a), lin(b)), -df))
                    continue
                lo = st.tight(df)[0]
                if lo is not None and -16 <= lo <= 16:
                    rel.add(ladd(lsub(lin(a), lin(b)), -lo))
                elif st.prove_ge0(df):
                    d = lsub(lin(a), lin(b))
                    if st.prove_ge0(ladd(df, -1)):
                        d = ladd(d, -1)
                    rel.add(d)
    # drop relations implied by intervals
    for s, v in st.iv.items():
        if s[0] == 'p':
            n = deep(s, fsp, fo)
            if n[0] == 'p':
                iv.setdefault(n, v)
    ghost = {}
    fdref = set()
    for k, v in st.ghost.items():
        if type(k) is tuple and k[0] == 'fd':
            if k[1] in ghostfd:
                ghost[('fd', ghostfd[k[1]])] = v
                continue
            I.report(st, 'fd-leak', 'a descriptor is still open but no longer stored anywhere (%s)' % (v[0] if type(v) is tuple else v,), where=where or None)
            continue
        kk = k[0] if type(k) is tuple else k
        if kk in KEEP_GHOST:
            obs = []
            for o in oatoms(k):
                if o not in seen:
                    break
            else:
                ghost[deep(k, fsp, fo) if type(k) is tuple else k] = deep(v, fsp, fo) if type(v) is tuple else v
    nm = {}
    for o, n in mem.items():
        if n.cells:
            n.cells = {k: (sz, deep(v, fsp, fo) if type(v) is tuple else v) for k, (sz, v) in n.cells.items()}
        if n.attrs:
            n.attrs = {k: deep(v, fsp, fo) if type(v) is tuple else v for k, v in n.attrs.items()}
        n._h = n._hash = None
        nm[fo.get(o, o)] = n
    # external objects that are still mentioned
    ment = set()
    for o, n in nm.items():
        for sz, v in n.cells.values():
            if is_lin(v):
                for s, k in v[2]:
                    if s[0] == 'p':
                        ment.add(('X', s))
    inv = {v: k for k, v in fsp.items()}
    for X in ment:
        src = ('X', inv.get(X[1], X[1]))
        ob = st.mem.get(src)
        if ob is not None and ob.attrs:
            at = {k: v for k, v in ob.attrs.items() if k in KEEP_ATTRS or (k == 'content' and symfree(v))}
            if at:
                nm[X] = Obj('ext', ob.size if type(ob.size) is int else None, default='T', attrs=at)
    r = State()
    r.mem, r.iv, r.ghost, r.rel = nm, iv, ghost, frozenset(rel)
    r.trace = st.trace
    # cheap pruning of intervals for unknown pointers
    keep = set()
    for o, n in nm.items():
        for sz, v in n.cells.values():
            if is_lin(v):
                for s, k in v[2]:
                    keep.add(s)
        if is_lin(n.size):
            keep.update(s for s, k in n.size[2])
    for k, v in ghost.items():
        for x in (k, v):
            a = set()
            syms(x, a)
            keep |= a
    r.iv = {s: v for s, v in iv.items() if s in keep}
    return r


def syms(x, out):
    if type(x) is tuple:
        if x and x[0] in ('s', 'c', 'p', 'w'):
            out.add(x)
        for e in x:
            if type(e) is tuple:
                syms(e, out)


def oatoms(x):
    out = set()

    def go(t):
        if type(t) is tuple:
            if t and t[0] == 'h' and len(t) >= 3:
                out.add(t)
                return
            for e in t:
                go(e)
    go(x)
    return out


def symfree(a):
    if type(a) is bytes or type(a) is str or type(a) is int:
        return True
    if type(a) is tuple:
        if a and a[0] in ('at', 'L', 'c', 'w', 'h', 'X', 'a', 'm', 'b', 's'):
            return False
        return all(symfree(e) for e in a if not isinstance(e, (str, int, bytes)) and e is not None)
    return a is None


class Explorer:
    def __init__(self, I, max_states=4000):
        self.I = I
        self.seen = {}
        self.queue = []
        self.max_states = max_states
        self.events = {}
        self.rounds = 0
        self.boundary = []
        self.split = None
        self.numslots = set()
        t = {-1, 0, 1, 4096, 4097, (1 << 31) - 1, 1 << 31}
        for f in I.mod.funcs.values():
            if f.defined:
                t.update(x for x in I.thresholds(f) if 64 <= x)
        self.thr = tuple(sorted(t))

    def add(self, st, where=''):
        sts = [st]
        if self.split is not None:
            sts = self.split(self.I, st)
        for s in sts:
            self.add1(s, where)

    def add1(self, st, where=''):
        c = canon(self.I, st, where, self.numslots)
        for m in self.boundary:
            m(self.I, c)
        k = c.shape()
        e = self.seen.get(k)
        if e is None:
            if len(self.seen) >= self.max_states:
                raise StateLimit('too many event-boundary states')
            self.seen[k] = [c, 1]
            self.queue.append(k)
            return
        j, ch = self.I.join(e[0], c, widen=e[1] > 2, thr=self.thr, keeprel=True)
        if ch:
            e[0] = j
            e[1] += 1
            if e[1] > 40:
                raise StateLimit('event-boundary state does not stabilise')
            if k not in self.queue:
                self.queue.append(k)

    def watchers(self, st):
        """[(name, obj, off, kind, active, pending)]"""
        out = []
        for k, v in st.ghost.items():
            if type(k) is tuple and k[0] == 'ev':
                o, off = k[1], k[2]
                ob = st.mem.get(o)
                if ob is None:
                    continue
                cb = ob.cells.get(off + models.EV_CB)
                nm = cb[1][1] if cb and type(cb[1]) is tuple and cb[1][0] == 'F' else '?'
                out.append((nm, o, off) + tuple(v))
        out.sort(key=lambda w: (w[0], repr(w[1]), w[2]))
        return out

    def concrete(self, st):
        """put known values of stored quantities in place of their names"""
        sub = {}
        for s, (lo, hi) in st.iv.items():
            if s[0] == 's' and lo is not None and lo == hi:
                sub[s] = lo
        for f in st.rel:
            if f[1] == 0 and len(f[2]) == 2 and lsub(0, f) in st.rel:
                (a, ka), (b, kb) = f[2]
                if a[0] == b[0] == 's' and abs(ka) == 1 and ka == -kb and a not in sub and b not in sub:
                    a, b = sorted((a, b), key=srepr)
                    while type(sub.get(a)) is tuple:
                        a = sub[a]
                    if a != b:
                        sub[b] = a
        if not sub:
            return

        def res(v):
            n = 0
            while type(v) is tuple and v in sub and n < 20:
                v = sub[v]
                n += 1
            return v
        sub = {k: res(v) for k, v in sub.items()}

        def val(v):
            if is_lin(v) and any(x in sub for x, k in v[2]):
                c, d = v[1], {}
                for x, k in v[2]:
                    n = sub.get(x, x)
                    if type(n) is int:
                        c += k * n
                    else:
                        d[n] = d.get(n, 0) + k
                return mklin(c, d)
            return v
        for o, ob in list(st.mem.items()):
            ch = {off: (sz, val(v)) for off, (sz, v) in ob.cells.items() if val(v) is not v}
            z = val(ob.size)
            if ch or z is not ob.size:
                n = ob.copy()
                n.cells = dict(ob.cells)
                n.cells.update(ch)
                n.size = z
                n._h = n._hash = None
                st.mem[o] = n

    def fire(self, st, w):
        I = self.I
        nm, o, off, kind, act, pend = w
        if kind == 'async' and not pend:
            return []           # delivered only after ev_async_send()
        s = st.copy()
        k = ('ev', o, off)
        if s.mem[o].status != 'alive':
            I.report(s, 'use-after-free', 'event delivered to a freed watcher')
            return []
        if kind == 'timer' and act:
            rep = s.mem[o].cells.get(off + models.EV_REPEAT)
            rv = rep[1] if rep else None
            if rv == 0 or (type(rv) is tuple and rv[0] == 'D' and rv[1] == 0.0):
                act = 0
                models.set_cell(s, o, off, 4, 0)
        if act or kind in ():
            s.ghost[k] = (kind, act, 0)
        else:
            s.ghost.pop(k, None)
        if kind == 'io' and not act and not pend:
            return []
        self.concrete(s)
        I.note(s, 'event: %s watcher -> %s()' % (kind, nm.split('.')[0]))
        f = I.mod.funcs.get(nm)
        if f is None or not f.defined:
            raise Broken('watcher callback %r not found' % nm)
        I.emit(s, 'event_start')
        I.emit(s, 'fire', nm, kind, o, off)
        loop = ('p', 'loop')
        s.iv[loop] = (1, None)
        res = []
        todo = self.revents(kind, act, pend)
        for i, rv in enumerate(todo):
            z = s if i == len(todo) - 1 else s.copy()
            if type(rv) is tuple:
                sym = ('c', 'revents', 0, 0)
                z.iv[sym] = rv
                rv = lin(sym)
            I.ins = None
            args = [lin(loop), ('P', o, off), rv]
            for x, _ in I.call_fn(z, f, args[-len(f.params):], None):
                I.emit(x, 'event_end', nm)
                res.append(x)
        self.events[nm] = self.events.get(nm, 0) + 1
        return res

    def revents(self, kind, act, pend):
        """the event masks libev may deliver: numbers, or a range"""
        if kind != 'io':
            return [{'timer': 1 << 8, 'async': 1 << 19, 'signal': 1 << 10, 'idle': 1 << 13}.get(kind, (1, (1 << 31) - 1))]
        if type(pend) is int and pend > 3:      # fed to it; the descriptor may have become ready as well
            return [pend | x for x in ((0, 1, 2, 3) if act else (0,))]
        return [(1, 3)] if pend in (0, 1, 2, 3) else [(1, (1 << 31) - 1)]

    def run(self, extra=()):
        while self.queue:
            k = self.queue.pop(0)
            st = self.seen[k][0]
            self.rounds += 1
            for w in self.watchers(st):
                for s in self.fire(st, w):
                    self.add(s, 'after %s()' % w[0].split('.')[0])
            for nm, fn in [x for g in extra for x in g(self.I, st)]:
                self.I.ins = None
                for s in fn(st.copy()):
                    self.events[nm] = self.events.get(nm, 0) + 1
                    self.add(s, 'after %s' % nm)
