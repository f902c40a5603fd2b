"""Obligations of the Perl and Python modules: M01-M05, M07.

The modules are run against models of OpenSSL (operations on a non-blocking
connection that may fail, be retried and ask for the key at any time), the
client table (uthash.h is replaced by an interface with that contract), locks,
poll(), a monotonic clock and the interpreter of the language.
"""
from core import *
import models
import models_ext
from models import ptr, fork, set_cell
from models_ext import resobj

MON = ('h', 'modmon', 0, 0)
BASE, LAST, SIZE, START, RX, STEPS, TRIES, WAITED, BOUND, LINE, SENT = range(0, 88, 8)
CELLS = (BASE, LAST, SIZE, START, RX, STEPS, TRIES, WAITED, BOUND, LINE, SENT)
MAXSTEPS = 40


def g(st, k, d=None):
    return st.ghost.get(('mod', k), d)


def put(st, k, v):
    if v is None:
        st.ghost.pop(('mod', k), None)
    else:
        st.ghost[('mod', k)] = v


def cell(st, k):
    return st.mem[MON].cells[k][1]


def setc(st, k, v):
    set_cell(st, MON, k, 8, v)


def yes(st, k):
    v = cell(st, k)
    return is_num(v) and st.sure_ge0(ladd(v, -1))


def setup(I, st):
    st.mem[MON] = Obj('ext', None, default='T', cells={k: (8, 0) for k in CELLS})
    I.i64slots |= {(MON, k) for k in CELLS}
    t = I.func_sym(st, ('e', 'now'), 0, None)
    setc(st, LAST, t)
    setc(st, BASE, t)


PERCALL = ('step', 'rxobj', 'acked', 'exc', 'T', 'T0', 'given', 'call', 'wr', 'nul0', 'resp',
           'text')


class Mod:
    def __init__(self, lang):
        self.lang = lang
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def phase(self, st):
        return g(st, 'phase', 'new')

    # ------------------------------------------------------------ calls of the application
    def begin(self, I, st, name):
        setup(I, st)
        for k in PERCALL:
            put(st, k, None)
        put(st, 'call', name)
        self.count('call ' + name)

    def end(self, I, st):
        if g(st, 'lock'):
            I.report(st, 'M04-lock', 'the lock is still held when %s() returns' % g(st, 'call'))
        put(st, 'lock', None)
        for k in PERCALL:
            put(st, k, None)
        for k in [k for k in st.ghost if type(k) is tuple and k[0] in ('fmt', 'nl')]:
            del st.ghost[k]
        st.mem.pop(MON, None)
        dangle(I, st)

    # ------------------------------------------------------------ operations
    def bounded(self, I, st):
        d = lsub(cell(st, BASE), cell(st, LAST))
        if st.sure_ge0(ladd(d, 60)):
            return True
        for t in g(st, 'T', ()):
            if st.sure_ge0(ladd(d, t)):
                return True
        return False

    def op(self, I, st, kind, o, step=None):
        step = step or kind
        self.count(kind)
        if not g(st, 'nbio'):
            I.report(st, 'M03-blocking', 'SSL_%s() is called on a connection that was not set to be non-blocking' % kind)
        if g(st, 'lock'):
            I.report(st, 'M04-lock', 'the lock is held while the network is used')
        b = g(st, 'reset', 0)
        if b in (1, 2):
            I.report(st, 'M01-reset', 'the connection is used again although only %s was reset' % (
                'the TLS state' if b == 1 else 'the socket'))
            put(st, 'reset', None)
        if g(st, 'step') != step:
            put(st, 'step', step)
            n = ladd(cell(st, STEPS), 1)
            setc(st, STEPS, n)
            setc(st, BASE, cell(st, LAST))
            for k in (TRIES, WAITED, BOUND):
                setc(st, k, 0)
            if not st.sure_ge0(lsub(MAXSTEPS, n)):
                I.report(st, 'M03-bounded', 'a single call may go on using the network for ever')
                return False
            return True
        n = ladd(cell(st, TRIES), 1)
        setc(st, TRIES, 3 if st.sure_ge0(ladd(n, -3)) else n)
        if not yes(st, WAITED):
            I.report(st, 'M03-wait', 'SSL_%s() is retried without having waited for the network' % kind)
        elif not st.sure_ge0(lsub(2, n)) and not yes(st, BOUND) and not self.bounded(I, st):
            I.report(st, 'M03-bounded', 'SSL_%s() is retried although the time the caller allows for may have passed' % kind)
            return False
        setc(st, WAITED, 0)
        setc(st, BOUND, 0)
        return True

    def waits(self, I, st, ms, what):
        self.count('wait')
        if not (is_num(ms) and st.sure_ge0(ms) and any(st.sure_ge0(lsub(x, ms)) for x in
                                                      (60000,) + tuple(lmul(t, 1000) for t in g(st, 'T', ())))):
            I.report(st, 'M03-wait', '%s() may wait without a time limit' % what)
        setc(st, WAITED, 1)
        if self.bounded(I, st):
            setc(st, BOUND, 1)

    # ------------------------------------------------------------ requests
    def write(self, I, st, o, p, n):
        c = models.content(I, st, p)
        parts = c[1:] if type(c) is tuple and c and c[0] == 'tpl' else (c,) if type(c) is bytes else ()
        head = parts[0] if parts and type(parts[0]) is bytes else b''
        kw = head.replace(b'\r', b' ').replace(b'\n', b' ').split(b' ')[0] if head else b''
        ph = self.phase(st)
        setc(st, SENT, 0)
        put(st, 'rxobj', None)
        if kw in (b'QUIT', b'BAIL'):
            self.length(I, st, p, n)
            put(st, 'phase', 'over')
            return
        if ph == 'okay':
            a = cell(st, SIZE)
            if not is_num(n) or not st.same(n, a):
                I.report(st, 'M01-size', 'the number of bytes sent is not the number announced')
            self.data(I, st, p, n)
            put(st, 'phase', 'data?')
            return
        if kw == b'MOIN':
            self.length(I, st, p, n)
            if ph != 'new':
                I.report(st, 'M01-order', 'MOIN is sent in the wrong place (%s)' % DESC.get(ph, ph))
            if not head.startswith(b'MOIN 1 '):
                I.report(st, 'M01-request', 'MOIN does not announce protocol version 1')
            self.line_ends(I, st, parts)
            put(st, 'phase', 'moin?')
            return
        if kw == b'PUSH':
            self.length(I, st, p, n)
            if ph != 'ready':
                I.report(st, 'M01-order', 'PUSH is sent in the wrong place (%s)' % DESC.get(ph, ph))
            self.line_ends(I, st, parts)
            k = [x[2] for x in parts if type(x) is tuple and x[0] == 'num']
            if len(parts) == 1 and head[5:].strip().isdigit():
                k = [int(head[5:])]
            if len(k) != 1 or not is_num(k[0]):
                I.report(st, 'M01-size', 'the size announced cannot be determined')
                k = [0]
            setc(st, SIZE, k[0])
            put(st, 'phase', 'push?')
            return
        if kw == b'NOOP' and ph == 'ready':
            self.length(I, st, p, n)
            put(st, 'phase', 'noop?')
            return
        I.report(st, 'M01-request', 'something that is not a request is sent (%s)' % DESC.get(ph, ph))
        put(st, 'phase', 'bad')

    def length(self, I, st, p, n):
        r = I.to_obj(st, p)
        if r is None:
            return
        L = models.length(I, st, *r)
        if not (is_num(n) and st.same(n, L)):
            I.report(st, 'M01-request', 'the length of a request is not the length of its text')

    def line_ends(self, I, st, parts):
        x = parts[-1]
        if not (type(x) is bytes and x.endswith(b'\n') and x.count(b'\n') == 1) or any(
                type(y) is bytes and b'\n' in y for y in parts[:-1]):
            I.report(st, 'M01-request', 'a request is not exactly one line')

    # the text submitted
    def on_snprintf(self, I, st, o, off, size, t, n):
        if off == 0 and type(o) is tuple:
            st.ghost[('fmt', o)] = (t, n, size) if t is not None else None

    def on_store(self, I, st, o, off, size, v):
        if ('fmt', o) in st.ghost and size == 1 and v == 10:
            st.ghost[('nl', o)] = off

    def data(self, I, st, p, n):
        r = I.to_obj(st, p)
        call = g(st, 'call')
        if r is None or r[1] != 0 or call not in EXPECT[self.lang]:
            return
        self.count('data')
        f = st.ghost.get(('fmt', r[0]))
        if f is None:
            I.report(st, 'M07-text', 'what is submitted is not the text made of the arguments')
            return
        t, m, size = f
        given = dict(g(st, 'given', ()))
        want = EXPECT[self.lang][call]
        ok = False
        for w in want(given) if callable(want) else want:
            ok = ok or self.matches(I, st, t, w, given)
        if not ok:
            I.report(st, 'M07-text', 'the command submitted by %s() is not the one its arguments ask for' % call)
        q = st.ghost.get(('nl', r[0]))
        if q is None or not is_num(n) or not st.same(n, ladd(q, 1)):
            I.report(st, 'M07-newline', 'the command submitted does not end with a newline')
        elif not st.sure_ge0(lsub(m, q)) or not st.sure_ge0(lsub(ladd(size, -1), q)):
            I.report(st, 'M07-newline', 'bytes behind the text of the command may be submitted')
        elif type(q) is int and q > 0 and type(size) is int and st.sure_ge0(lsub(size, ladd(m, 1))) and not st.same(q, m):
            I.report(st, 'M07-newline', 'a command that fits is cut')

    def matches(self, I, st, t, w, given):
        """template against the expected pieces: bytes, ('arg', name) or ('time',)"""
        got = []
        for x in t:
            if type(x) is bytes:
                if got and type(got[-1]) is bytes:
                    got[-1] += x
                else:
                    got.append(x)
            elif x[0] == 'str' and type(x[1]) is tuple and x[1] and x[1][0] == 'arg':
                got.append(x[1])
            elif x[0] == 'num':
                nm = [k for k, v in given.items() if is_num(v) and is_num(x[2]) and st.same(v, x[2])]
                got.append(('num', tuple(nm), 'time' in repr(x[2])))
            else:
                return False
        i = 0
        exp = []
        for x in w:
            if type(x) is bytes and exp and type(exp[-1]) is bytes:
                exp[-1] += x
            elif x != b'':
                exp.append(x)
        if len(got) != len(exp):
            return False
        for a, b in zip(got, exp):
            if b == ('time',):
                if not (a[0] == 'num' and a[2]):
                    return False
            elif type(b) is tuple and b[0] == 'int':
                if not (type(a) is tuple and a[0] == 'num' and b[1] in a[1]):
                    return False
            elif a != b:
                return False
        return True

    # ------------------------------------------------------------ responses
    def read(self, I, st, o, p, n):
        ph = self.phase(st)
        r = I.to_obj(st, p)
        if g(st, 'rxobj') is None:
            if not ph.endswith('?') or not yes(st, SENT):
                I.report(st, 'M01-order', 'a response is read although no request is unanswered (%s)' % DESC.get(ph, ph))
            if r is not None:
                put(st, 'rxobj', r[0])
                setc(st, START, r[1])
                setc(st, RX, 0)
                setc(st, LINE, 0)
                ob = st.mem.get(r[0])
                put(st, 'nul0', 1 if ob is not None and ob.default == 'Z' else None)
            return
        if r is None or r[0] != g(st, 'rxobj') or not is_num(r[1]) or not st.same(r[1], ladd(cell(st, START), cell(st, RX))):
            I.report(st, 'M01-response', 'the rest of a response is not put behind what was received before')

    def received(self, I, st, r, n, k):
        setc(st, RX, ladd(cell(st, RX), k))
        setc(st, LINE, 0)

    def on_learn(self, I, st, v):
        o = g(st, 'rxobj')
        if o is None or yes(st, LINE) or not (type(v) is tuple and v[0] == 'L' and len(v[2]) == 1):
            return
        s = v[2][0][0]
        if s[0] == 'zx' and is_lin(s[1]):
            s = s[1][2][0][0]
        if s[0] == 'b' and s[1] == o and (st.bounds1(s) == (10, 10) or st.bounds(v) == (10, 10)):
            setc(st, LINE, 1)

    def on_found(self, I, st, o, c):
        if o == g(st, 'rxobj') and (c == 10 or type(c) is bytes and b'\n' in c):
            setc(st, LINE, 1)

    def compare(self, I, st, p, q):
        """a response is looked at"""
        o = g(st, 'rxobj')
        for x in (p, q):
            r = I.to_obj(st, x)
            if r is None or r[0] != o or o is None:
                continue
            if not yes(st, LINE):
                I.report(st, 'M01-response', 'a response is judged before its line is complete')
                setc(st, LINE, 1)
            ob = st.mem.get(o)
            if ob is None or ob.status != 'alive' or ob.size is None:
                continue
            if not any(sz == 1 and v == 0 for sz, v in ob.cells.values()) and not (
                    g(st, 'nul0') and st.sure_ge0(ladd(lsub(ob.size, ladd(cell(st, START), cell(st, RX))), -1))):
                I.report(st, 'M02-term', 'a response is used as a string although it may not be terminated')

    def on_strcmp(self, I, st, p, q, n, eq):
        o = g(st, 'rxobj')
        if o is None or not eq:
            return
        a, b = I.to_obj(st, p), I.to_obj(st, q)
        other = q if a is not None and a[0] == o else p if b is not None and b[0] == o else None
        if other is None:
            return
        r = a if other is q else b
        if not (is_num(r[1]) and st.same(r[1], cell(st, START))):
            return
        c = models.cstr(I, st, other)
        if c is None or not type(n) in (int, type(None)):
            return
        w = c if n is None else c[:n]
        exact = n is None or n > len(c)
        ph = self.phase(st)
        w = w.upper()
        if ph == 'moin?':
            if exact and w == b'MOIN 1':
                self.answer(st, 'ready')
        elif w.startswith(b'OKAY'):
            if ph == 'data?':
                put(st, 'acked', 1)
            self.answer(st, {'push?': 'okay', 'data?': 'ready', 'noop?': 'ready'}.get(ph, ph))
        elif w.startswith(b'FAIL') and ph in ('push?', 'data?', 'noop?'):
            self.answer(st, 'ready')
        elif w.startswith(b'BAIL'):
            self.answer(st, 'bad')

    def answer(self, st, ph):
        put(st, 'phase', ph)

    # ------------------------------------------------------------ bounds
    def on_bounds(self, I, st, o, ob, off, size, write, what, lo_ok, hi_ok, definite, rb):
        I.report(st, 'M02-bounds', '%s at offset %s of an object of %s bytes may be out of bounds' % (
            'write' if write else 'read', tname(off), tname(ob.size)))

    # ------------------------------------------------------------ client table
    def reg(self, st):
        return g(st, 'reg', ())

    def on_freed(self, I, st, o, ob, how):
        for item, key, ssl in self.reg(st):
            if o == item[0]:
                I.report(st, 'M04-registered', 'a client is freed while it is registered')
                put(st, 'reg', None)
            elif o == ssl:
                I.report(st, 'M04-registered', 'the connection of a client is freed while the client is registered for it')
                put(st, 'reg', None)

    def locked(self, I, st, w, what):
        if self.lang == 'perl':
            return
        l = g(st, 'lock')
        if l is None or w and l[1] != 'w':
            I.report(st, 'M04-lock', 'the client table is %s without %s' % (what, 'exclusive lock' if w else 'its lock'))

    # ------------------------------------------------------------ key callback
    def on_pskc_begin(self, I, st, o, ido, idl, pwo, pwl):
        st.ghost['pskc'] = (ido, idl, pwo, pwl)

    def on_memcpy(self, I, st, d, s, n):
        self.copied(I, st, d, s, n)

    def on_strcpy(self, I, st, d, s, n):
        self.copied(I, st, d, s, n)

    def copied(self, I, st, d, s, n):
        x = st.ghost.get('pskc')
        r = I.to_obj(st, d)
        if x is None or r is None or r[0] not in (x[0], x[2]):
            return
        q = I.to_obj(st, s)
        L = models.length(I, st, *q) if q is not None else None
        st.ghost[('pskcopy', 'id' if r[0] == x[0] else 'pw')] = (models.content(I, st, s), r[1], n, L)

    def on_pskc_result(self, I, st, o, ido, idl, pwo, pwl, v, ok):
        i, w = st.ghost.pop(('pskcopy', 'id'), None), st.ghost.pop(('pskcopy', 'pw'), None)
        st.ghost.pop('pskc', None)
        self.count('psk')
        if not is_num(v) or not st.sure_ge0(lsub(pwl, v)):
            I.report(st, 'M02-psk', 'the key length returned may exceed the buffer OpenSSL provides')
        mine = [x for x in self.reg(st) if x[2] == o]
        if not mine:
            if ok:
                I.report(st, 'M04-identity', 'a key is given to OpenSSL for a connection whose client is not registered')
            return
        for nm, c, key, lim in (('identity', i, 'identity', idl), ('key', w, 'psk', pwl)):
            if c is None or c[1] != 0 or c[0] != ('arg', key):
                I.report(st, 'M04-identity', 'the %s given to OpenSSL is not the one of the client the connection belongs to' % nm)
                return
            n, L = c[2], c[3]
            if not (is_num(n) and (L is not None and st.sure_ge0(lsub(n, L)) or st.sure_ge0(ladd(lsub(n, lim), 1)))):
                I.report(st, 'M04-identity', 'only a part of the %s is used' % nm)
        ob = st.mem.get(ido)
        if ob is not None and not any(sz == 1 and x == 0 for sz, x in ob.cells.values()) and 'len' not in ob.attrs and \
                ob.attrs.get('bytes') is None:
            I.report(st, 'M02-psk', 'the identity given to OpenSSL may not be terminated')


DESC = {'new': 'before MOIN', 'moin?': 'before the server accepted MOIN', 'ready': 'no request is open', 'push?': 'before the '
        'server accepted PUSH', 'okay': 'data was announced but not sent', 'data?': 'before the server acknowledged '
        'the data', 'over': 'after QUIT or BAIL', 'bad': 'after an error'}


def tname(v):
    if type(v) is int:
        return str(v)
    return 'n%+d' % v[1] if is_lin(v) and v[1] else 'n'


def A(n):
    return ('arg', n)


def host_py(given):
    o = A('plugin_output') if 'plugin_output' in given else b''
    return [(b'[', ('time',), b'] PROCESS_HOST_CHECK_RESULT;', A('host_name'), b';', ('int', 'return_code'), b';', o)]


def svc_py(given):
    o = A('plugin_output') if 'plugin_output' in given else b''
    return [(b'[', ('time',), b'] PROCESS_SERVICE_CHECK_RESULT;', A('host_name'), b';', A('svc_description'), b';',
             ('int', 'return_code'), b';', o)]


EXPECT = {'python': {'host_result': host_py, 'svc_result': svc_py}, 'perl': {}}


def dangle(I, st):
    """the arguments of a call belong to the caller: what still refers to them afterwards refers to freed memory"""
    def dead(v):
        if is_lin(v):
            for s, k in v[2]:
                if s[0] == 'p' and s[1] == 'arg':
                    return s
        return None
    for o in list(st.mem):
        ob = st.mem[o]
        ch = {off: (sz, ('P', ('h', 'arg', dead(v)[2], 0), 0)) for off, (sz, v) in ob.cells.items() if dead(v)}
        if ch:
            n = ob.copy()
            n.cells = dict(ob.cells)
            n.cells.update(ch)
            n._h = n._hash = None
            st.mem[o] = n
            for sz, v in ch.values():
                st.mem[v[1]] = Obj('heap', None, 'freed', {}, 'U', 0, {})
    for o in [o for o in st.mem if o[0] == 'X' and o[1][1] == 'arg']:
        del st.mem[o]


# ------------------------------------------------------------------ OpenSSL
def mon(I):
    return I.mon


def handshake(I, st, o, ins):
    """[(state, established)]"""
    if g(st, 'hs'):
        return [(st, True)]
    cb = I.obj(st, o).cells[models_ext.SSL_CLI][1]
    if not (type(cb) is tuple and cb[0] == 'F'):
        I.report(st, 'M04-identity', 'no callback providing the identity and the key was installed')
        return [(st, False)]
    s2 = fork(st)
    out = [(s2, False)]
    for s, ok in models_ext.psk_client(I, st, o, ins):
        if ok:
            put(s, 'hs', 1)
        out.append((s, ok))
    return out


def fails(I, st):
    return I.fresh(st, 'ret', lo=-1, hi=0)


def m_write(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_write', 'SSL')
    if o is None:
        return []
    n = a[2]
    r = I.access(st, a[1], n if is_num(n) else None, False, 'SSL_write')
    if r is None:
        return []
    if r[0] != '?':
        ob = I.obj(st, r[0])
        if ob.default == 'U' and not ob.cells:
            I.report(st, 'uninit', 'uninitialised memory sent to the server')
    m = mon(I)
    step = ('write', r[0] if r[0] != '?' else None, r[1] if r[0] != '?' and type(r[1]) is int else None)
    new = g(st, 'step') != step
    if not m.op(I, st, 'write', o, step):
        return []
    if new:
        I.emit(st, 'ssl_write', o, a[1], n)
        m.write(I, st, o, a[1], n)
    outs = []
    for s, ok in handshake(I, st, o, ins):
        s2 = fork(s)
        outs.append((s2, fails(I, s2)))
        if ok:
            put(s, 'step', None)
            setc(s, SENT, 1)
            k = n if is_num(n) else I.fresh(s, 'nwritten', lo=1)
            if s.assume_ge0(ladd(k, -1)):
                outs.append((s, k))
    I.ins = ins
    return outs


def m_read(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_read', 'SSL')
    if o is None:
        return []
    n = a[2]
    r = I.access(st, a[1], n if is_num(n) else None, True, 'SSL_read')
    if r is None:
        return []
    m = mon(I)
    if not m.op(I, st, 'read', o):
        return []
    I.emit(st, 'ssl_read', o, a[1], n)
    m.read(I, st, o, a[1], n)
    outs = []
    for s, ok in handshake(I, st, o, ins):
        s2 = fork(s)
        outs.append((s2, fails(I, s2)))
        if ok:
            k = I.fresh(s, 'nread', lo=1)
            if is_num(n) and not s.assume_ge0(lsub(n, k)):
                continue
            if r[0] != '?':
                I.havoc(s, r[0], r[1], n)
                z = s.mem[r[0]]
            m.received(I, s, r, n, k)
            setc(s, WAITED, 1)
            outs.append((s, k))
    I.ins = ins
    return outs


def m_shutdown(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_shutdown', 'SSL')
    if o is None:
        return []
    if not mon(I).op(I, st, 'shutdown', o):
        return []
    if ins.dest is None:
        return [(st, None)]
    s2, s3 = fork(st), fork(st)
    return [(st, 1), (s2, 0), (s3, -1)]


def m_clear(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_clear', 'SSL')
    if o is None:
        return []
    I.emit(st, 'reset', 1)
    reset(st, 1)
    return [(st, 1 if ins.dest is not None else None)]


def reset(st, bit):
    b = g(st, 'reset', 0) | bit
    put(st, 'reset', None if b == 3 else b)
    if b == 3:
        for k in ('phase', 'hs', 'step', 'rxobj', 'nul0'):
            put(st, k, None)


def m_want(I, st, a, ins):
    if resobj(I, st, a[0], 'SSL_want', 'SSL') is None:
        return []
    return [(st, I.fresh(st, 'want', lo=1, hi=8))]


def m_get_error(I, st, a, ins):
    if resobj(I, st, a[0], 'SSL_get_error', 'SSL') is None:
        return []
    outs = []
    pos = st.cmp('sgt', a[1], 0) if is_num(a[1]) else None
    for v in (1, 2, 3, 5, 6, 7):
        if pos is True:
            break
        s = fork(st)
        models.set_errno(I, s, I.fresh(s, 'errno', lo=0, hi=200))
        outs.append((s, v))
    if pos is not False:
        outs.append((st, 0))
    return outs


def m_test_flags(I, st, a, ins):
    if resobj(I, st, a[0], 'BIO_test_flags', 'BIO') is None:
        return []
    s2 = fork(st)
    return [(st, 0), (s2, a[1] if type(a[1]) is int else I.fresh(s2, 'flags', lo=1))]


def m_bio_ctrl(I, st, a, ins):
    o = resobj(I, st, a[0], 'BIO_ctrl', 'BIO')
    if o is None:
        return []
    cmd = a[1]
    I.emit(st, 'bio_ctrl', o, cmd, a[2], a[3])
    if cmd == 1:
        I.emit(st, 'reset', 2)
        reset(st, 2)
        return [(st, I.fresh(st, 'reset', lo=-1, hi=1))]
    if cmd == 100:                # BIO_C_SET_CONNECT
        if models.strobj(I, st, a[3], 'BIO_ctrl') is None:
            return []
        target(I, st, a[2], a[3])
        return [(st, 1)]
    if cmd == 102:                # BIO_C_SET_NBIO
        t = st.cmp('ne', a[2], 0) if is_num(a[2]) else None
        put(st, 'nbio', 1 if t is True else None)
        return [(st, 1)]
    if cmd == 105:                # BIO_C_GET_FD
        return [(st, I.fresh(st, 'sock', lo=-1, hi=1 << 20))]
    return [(st, I.fresh(st, 'bioctl', lo=-1))]


def target(I, st, which, p):
    """where the connection goes"""
    m = mon(I)
    given = dict(g(st, 'given', ()))
    m.count('target')
    if which == 0:
        if models.content(I, st, p) != A('host'):
            I.report(st, 'M07-target', 'the connection does not go to the host asked for')
    elif which == 1:
        r = I.to_obj(st, p)
        f = st.ghost.get(('fmt', r[0])) if r is not None else None
        ok = f is not None and len(f[0]) == 1 and f[0][0][0] == 'num' and is_num(f[0][0][2]) and any(
            st.same(f[0][0][2], v) for k, v in given.items() if k == 'port')
        if f is not None and 'port' not in given and m.lang == 'python':
            ok = f[0] == (b'5668',)
        if not ok and not ('port' in given and models.content(I, st, p) == A('port')):
            I.report(st, 'M07-target', 'the connection does not go to the port asked for')


def m_bio_new(I, st, a, ins):
    put(st, 'nbio', None)
    return models_ext.m_bio_new(I, st, a, ins)


def m_ssl_new(I, st, a, ins):
    out = models_ext.m_ssl_new(I, st, a, ins)
    for s, v in out:
        if v != 0:
            for k in ('phase', 'hs', 'step', 'rxobj', 'reset'):
                put(s, k, None)
    return out


def m_reason(I, st, a, ins):
    p = I.fresh(st, 'reason', ptr=True)
    s2 = fork(st)
    st.iv[p[2][0][0]] = (1, None)
    return [(st, p), (s2, 0)]


# ------------------------------------------------------------------ time, waiting
def m_time(I, st, a, ins):
    if a[0] != 0:
        if not I.store(st, a[0], ('i', 64), I.fresh(st, 'time', lo=0)):
            return []
    t = I.fresh(st, 'time', lo=0, hi=1 << 40)
    if MON in st.mem:
        st.assume_ge0(lsub(t, cell(st, LAST)))
        setc(st, LAST, t)
    return [(st, t)]


def m_poll(I, st, a, ins):
    if I.access(st, a[0], lmul(a[1], 8) if is_num(a[1]) else None, True, 'poll') is None:
        return []
    mon(I).waits(I, st, a[2], 'poll')
    return [(st, I.fresh(st, 'poll', lo=-1, hi=1) if ins.dest is not None else None)]


def m_select(I, st, a, ins):
    if a[4] == 0:
        mon(I).waits(I, st, -1, 'select')
    else:
        if I.access(st, a[4], 16, True, 'select') is None:
            return []
        s = I.load(st, a[4], ('i', 64))
        mon(I).waits(I, st, lmul(s, 1000) if is_num(s) else None, 'select')
    return [(st, I.fresh(st, 'select', lo=-1, hi=1024) if ins.dest is not None else None)]


def m_sleep(I, st, a, ins):
    setc(st, WAITED, 1)
    return [(st, I.fresh(st, 'sleep', lo=-1, hi=0) if ins.dest is not None else None)]


# ------------------------------------------------------------------ client table
def m_find(I, st, a, ins):
    m = mon(I)
    m.locked(I, st, False, 'searched')
    m.count('find')
    k = I.load(st, a[1], ('p',))
    if k is None:
        return []
    for item, key, ssl in m.reg(st):
        if is_ptr(k) and k[1] == ssl:
            return [(st, ('P',) + item)]
    return [(st, 0)]


def m_add(I, st, a, ins):
    m = mon(I)
    m.locked(I, st, True, 'modified')
    m.count('add')
    k = I.load(st, a[1], ('p',))
    r, q = I.to_obj(st, a[3]), I.to_obj(st, a[1])
    if k is None or r is None:
        return []
    if not is_ptr(k) or I.obj(st, k[1]) is None or I.obj(st, k[1]).attrs.get('res') != 'SSL':
        I.report(st, 'M04-registered', 'a client is registered under something that is not its connection')
        return [(st, None)]
    if m.reg(st):
        I.report(st, 'M04-registered', 'a client is registered that is registered already')
    put(st, 'reg', ((r, q, k[1]),))
    return [(st, None)]


def m_del(I, st, a, ins):
    m = mon(I)
    m.locked(I, st, True, 'modified')
    m.count('del')
    r = I.to_obj(st, a[1])
    if r is None or not any(x[0] == r for x in m.reg(st)):
        I.report(st, 'M04-registered', 'a client is deregistered that is not registered')
    put(st, 'reg', None)
    return [(st, None)]


def m_count(I, st, a, ins):
    mon(I).locked(I, st, False, 'counted')
    return [(st, I.fresh(st, 'count', lo=len(mon(I).reg(st)), hi=1 << 20))]


def lockfn(kind):
    def f(I, st, a, ins):
        m = mon(I)
        nm = ins.x[0][1]
        r = I.to_obj(st, a[0])
        if kind == 'u':
            l = g(st, 'lock')
            if l is None or r is None or l[0] != r:
                I.report(st, 'M04-lock', '%s() of a lock that is not held' % nm)
            put(st, 'lock', None)
            return [(st, 0)]
        m.count('lock')
        if g(st, 'lock'):
            I.report(st, 'M04-lock', '%s() although a lock is held' % nm)
            return []
        s2 = fork(st)
        put(st, 'lock', (r, kind))
        if 'mutex_lock' in nm:
            return [(st, 0)]
        return [(st, 0), (s2, 16 if kind == 'w' else 11)]
    return f


def m_nop(I, st, a, ins):
    for v in a:
        if not I.touch(st, v, ins.x[0][1] if type(ins.x[0]) is tuple else '?'):
            return []
    return [(st, 1 if ins.dest is not None else None)]


def cmpfn(name):
    def f(I, st, a, ins):
        mon(I).compare(I, st, a[0], a[1])
        if name == 'memcmp':
            for i in (0, 1):
                c = models.cstr(I, st, a[i])
                if c is not None and type(a[2]) is int and a[2] <= len(c):
                    return models.do_strcmp(I, st, a[0], a[1], a[2], False, 'strncmp')
        return models.M[name](I, st, a, ins)
    return f


COMMON = {
    'SSL_write': m_write, 'SSL_read': m_read, 'SSL_shutdown': m_shutdown, 'SSL_clear': m_clear, 'SSL_want': m_want,
    'SSL_get_error': m_get_error, 'BIO_test_flags': m_test_flags, 'BIO_ctrl': m_bio_ctrl, 'BIO_new': m_bio_new, 'SSL_new': m_ssl_new,
    'ERR_reason_error_string': m_reason, 'time': m_time, 'poll': m_poll, 'select': m_select, 'usleep': m_sleep, 'nanosleep': m_sleep,
    '__vp_hash_find': m_find, '__vp_hash_add': m_add, '__vp_hash_del': m_del, '__vp_hash_count': m_count,
    'pthread_rwlock_rdlock': lockfn('r'), 'pthread_rwlock_wrlock': lockfn('w'), 'pthread_rwlock_unlock': lockfn('u'),
    'pthread_mutex_lock': lockfn('w'), 'pthread_mutex_unlock': lockfn('u'), 'sched_yield': m_sleep,
    'pthread_rwlock_tryrdlock': lockfn('r'), 'pthread_rwlock_trywrlock': lockfn('w'),
    'SSL_set_mode': m_nop, 'SSL_CTX_set_mode': m_nop,
}
for _n in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'memcmp'):
    COMMON[_n] = cmpfn(_n)


# ------------------------------------------------------------------ Python
def m_pyarg(I, st, a, ins):
    m = mon(I)
    f = models.cstr(I, st, a[2])
    if f is None:
        raise Broken('format of PyArg_ParseTupleAndKeywords() not resolved')
    f = f.split(b':')[0].split(b';')[0].decode()
    names = []
    k = I.to_obj(st, a[3])
    while k is not None:
        p = I.load(st, ptr(k[0], k[1] + 8 * len(names)), ('p',))
        if p == 0 or p is None:
            break
        s = models.cstr(I, st, p)
        if s is None:
            raise Broken('keyword list not resolved')
        names.append(s.decode())
        if len(names) > 64:
            raise Broken('keyword list not terminated')
    outs = list(a[4:])
    items = []
    opt = False
    i = 0
    for c in f:
        if c == '|':
            opt = True
        elif c == '$':
            pass
        elif c in 'sziIlkhHinLKdfpOb':
            if i >= len(outs) or i >= len(names):
                I.report(st, 'M05-args', 'format, keywords and variables do not match')
                return []
            items.append((c, opt, names[i], outs[i]))
            i += 1
        else:
            raise Broken('unit %r of an argument format is not modelled' % c)
    if i != len(names) or i != len(outs):
        I.report(st, 'M05-args', 'format, keywords and variables do not match')
        return []
    m.count('parsed arguments')

    def put_item(s, c, nm, out):
        if c in 'szO':
            y = ('p', 'arg', nm)
            s.iv[y] = (0 if c == 'z' else 1, None)
            s.mem[('X', y)] = Obj('ext', None, default='T', attrs={'content': A(nm)})
            v, ty = lin(y), ('p',)
        elif c in 'df':
            v, ty = I.unknown(s, ('f', 64), nm), ('f', 64 if c == 'd' else 32)
        else:
            sz = {'i': 32, 'I': 32, 'p': 32, 'h': 16, 'H': 16, 'b': 8}.get(c, 64)
            y = ('e', 'arg:' + nm)
            s.iv[y] = (-(1 << sz - 1), (1 << sz - 1) - 1)
            v, ty = lin(y), ('i', sz)
        if not I.store(s, out, ty, v, 'PyArg_ParseTupleAndKeywords'):
            return None
        return v

    res = []
    # not accepted: nothing or something was stored
    for k in (0, len(items)):
        s = fork(st)
        if all(put_item(s, c, nm, out) is not None for c, o, nm, out in items[:k]):
            put(s, 'exc', 1)
            res.append((s, 0))
    n0 = sum(not o for c, o, nm, out in items)
    for k in range(n0, len(items) + 1):
        s = fork(st)
        given = []
        for c, o, nm, out in items[:k]:
            v = put_item(s, c, nm, out)
            if v is None:
                break
            given.append((nm, v))
        else:
            put(s, 'given', tuple(given))
            t = tuple(v for nm, v in given if nm == 'timeout')
            if t:
                put(s, 'T', t)
            res.append((s, 1))
    return res


def m_pyerr(I, st, a, ins):
    nm = ins.x[0][1]
    if nm == 'PyErr_Format':
        t, n = models.expand(I, st, a[1], tuple(a[2:]), nm)
    elif nm == 'PyErr_SetString' and models.strobj(I, st, a[1], nm) is None:
        return []
    put(st, 'exc', 1)
    return [(st, 0 if ins.dest is not None else None)]


def m_pyclear(I, st, a, ins):
    put(st, 'exc', None)
    return [(st, None)]


def m_pyoccurred(I, st, a, ins):
    if not g(st, 'exc'):
        return [(st, 0)]
    v = I.fresh(st, 'exc', ptr=True)
    st.iv[v[2][0][0]] = (1, None)
    return [(st, v)]


def m_pyfree(I, st, a, ins):
    return [(st, None)] if models.do_free(I, st, a[0], 'tp_free') else []


PYTHON = dict(COMMON, **{
    '_PyArg_ParseTupleAndKeywords_SizeT': m_pyarg, 'PyArg_ParseTupleAndKeywords': m_pyarg, 'PyErr_SetString': m_pyerr,
    'PyErr_Format': m_pyerr, 'PyErr_NoMemory': m_pyerr, 'PyErr_Clear': m_pyclear, 'PyErr_Occurred': m_pyoccurred,
    'PyObject_Free': m_pyfree, 'PyErr_SetNone': m_pyerr})


def python_type(m):
    l = [n for n, x in m.globals.items() if x.defined and x.ty == ('n', '_typeobject')] or \
        [n for n, x in m.globals.items() if x.defined and '_typeobject' in repr(x.ty)]
    if len(l) != 1:
        raise Broken('type object not found')
    return ('g', l[0])


def _cell(I, st, o, off):
    ob = I.obj(st, o)
    return I.read_cell(st, o, ob, off, 8, ('p',))


def python_object(I, X):
    """a new object of the type the module defines"""
    m = I.mod
    t = python_type(m)
    st = State()
    d, _ = m.fields('_typeobject')
    size = _cell(I, st, t, d['tp_basicsize'])
    if type(size) is not int:
        raise Broken('size of the objects not known')
    od, _ = m.fields('_object')
    o = I.new_obj(st, size, 'heap', 'self', 'Z', cells={od['ob_type']: (8, ('P', t, 0))})
    meth = []
    a = I.to_obj(st, _cell(I, st, t, d['tp_methods']))
    md, msz = m.fields('PyMethodDef')
    while a is not None:
        nm = _cell(I, st, a[0], a[1] + md['ml_name'])
        if nm == 0:
            break
        fn = _cell(I, st, a[0], a[1] + md['ml_meth'])
        if not (type(fn) is tuple and fn[0] == 'F'):
            raise Broken('method table not resolved')
        meth.append((models.cstr(I, st, nm).decode(), fn[1]))
        a = (a[0], a[1] + msz)
    I.py_methods = meth
    mem = []
    a = I.to_obj(st, _cell(I, st, t, d['tp_members']))
    md, msz = m.fields('PyMemberDef')
    while a is not None:
        nm = _cell(I, st, a[0], a[1] + md['name'])
        if nm == 0:
            break
        ob = I.obj(st, a[0])
        mem.append((models.cstr(I, st, nm).decode(), ob.cells[a[1] + md['type']][1] if a[1] + md['type'] in ob.cells else 0,
                    ob.cells[a[1] + md['offset']][1] if a[1] + md['offset'] in ob.cells else 0))
        a = (a[0], a[1] + msz)
    I.py_members = mem
    sl = {}
    for k in ('tp_init', 'tp_dealloc'):
        f = _cell(I, st, t, d[k])
        if type(f) is tuple and f[0] == 'F':
            sl[k] = f[1]
    if len(sl) != 2 or not meth:
        raise Broken('the type has no constructor, destructor or methods')
    I.py_slots = sl
    st.ghost[('handle', 'self')] = ('P', o, 0)
    X.add(st, 'new object')


def python_events(I, st):
    h = st.ghost.get(('handle', 'self'))
    if h is None:
        return []
    m = I.mod.funcs
    out = []

    def call(name, fn, kind):
        def run(s):
            I.mon.begin(I, s, name)
            self_ = s.ghost[('handle', 'self')]
            I.note(s, 'call: %s()' % name)
            args = [self_]
            for x in ('args', 'kwds'):
                y = ('p', 'py', x)
                s.iv[y] = (1 if x == 'args' else 0, None)
                args.append(lin(y))
            f = m[fn]
            res = []
            for z, v in I.call_fn(s, f, args[:len(f.params)], None):
                done(I, z, kind, v)
                I.emit(z, 'returned ' + kind)
                I.mon.end(I, z)
                members(I, z)
                res.append(z)
            return res
        return name, run
    out.append(call('tp_init', I.py_slots['tp_init'], 'init'))
    for nm, fn in I.py_methods:
        out.append(call(nm, fn, 'method'))

    def dealloc(s):
        I.mon.begin(I, s, 'tp_dealloc')
        I.note(s, 'the object is destroyed')
        self_ = s.ghost.pop(('handle', 'self'))
        res = []
        for z, v in I.call_fn(s, m[I.py_slots['tp_dealloc']], [self_], None):
            ob = z.mem.get(self_[1])
            if ob is not None and ob.status == 'alive':
                I.report(z, 'leak', 'the object is not freed when it is destroyed', where='tp_dealloc')
                del z.mem[self_[1]]
            I.emit(z, 'returned dealloc')
            I.mon.end(I, z)
            res.append(z)
        return res
    out.append(('tp_dealloc', dealloc))
    return out


def done(I, st, kind, v):
    """what is returned to the interpreter"""
    m = I.mon
    exc = g(st, 'exc')
    if kind == 'init':
        t = st.cmp('eq', v, 0) if is_num(v) else None
        ok, bad = t is True, t is False
    else:
        bad = v == 0
        ok = is_ptr(v) or not bad
        if is_lin(v):
            lo, hi = st.bounds(v)
            bad, ok = hi == 0, lo is not None and lo > 0
    if not ok and not bad:
        I.report(st, 'M01-result', '%s() may return neither success nor an error' % g(st, 'call'))
        return
    m.count('success' if ok else 'error')
    if ok and exc:
        I.report(st, 'M01-result', '%s() returns success although an exception is set' % g(st, 'call'))
    if bad and not exc:
        I.report(st, 'M01-result', '%s() returns an error without exception' % g(st, 'call'))
    if ok and kind == 'method' and not g(st, 'acked'):
        I.report(st, 'M01-result', '%s() returns success although the server did not acknowledge the submission' % g(st, 'call'))


def members(I, st):
    """strings the object exports are readable at any time"""
    self_ = st.ghost.get(('handle', 'self'))
    for nm, ty, off in I.py_members:
        if ty != 5:
            continue
        v = _cell(I, st, self_[1], off)
        r = I.to_obj(st, v)
        if v == 'U' or r is not None and (I.obj(st, r[0]) is None or I.obj(st, r[0]).status != 'alive'):
            I.report(st, 'M05-member', 'attribute %s refers to memory that is not the object\'s any more' % nm,
                     where=g(st, 'call') or 'module call')
