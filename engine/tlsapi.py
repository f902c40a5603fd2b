"""tls.h as a boundary.

For the components above it (server.c, client.c) the TLS layer is replaced by
the contract its header gives: connections appear once a handshake accepted by
the PSK callback has succeeded, at most one read request may be outstanding,
its handler gets a malloc()ed line or exactly the requested number of bytes
followed by a NUL, any connection may time out or break at any moment, and a
connection ends by itself after tls_shutdown() or an error.
The layer itself is analysed against the same contract from below (layer_tls).
"""
from core import *
import models
from models import fork, ptr

RDSIZE = 1 << 16
INT_MAX = (1 << 31) - 1
LINE_MAX = 4096


def callp(I, st, fp, args):
    if fp == 0 or fp is None:
        return [st]
    if not (type(fp) is tuple and fp[0] == 'F'):
        raise Broken('a callback handed to the TLS layer is not resolved: %r' % (fp,))
    I.ins = None
    return [s for s, _ in I.dispatch(st, fp[1], args)]


class Conn:
    """ghost record of a connection: ('conn', o) -> tuple of (field, value)"""
    F = ('phase', 'rd', 'wr', 'h_timeout', 'h_error', 'h_long', 'h_drain', 'moin', 'die')

    def __init__(self, t):
        for f, v in zip(self.F, t):
            setattr(self, f, v)

    def t(self):
        return tuple(getattr(self, f) for f in self.F)


def get(st, o):
    return Conn(st.ghost[('conn', o)])


def put(st, o, c):
    st.ghost[('conn', o)] = c.t()


def conn(I, st, p, what):
    r = I.access(st, p, 8, False, what)
    if r is None:
        return None
    if r[0] == '?' or ('conn', r[0]) not in st.ghost:
        I.report(st, 'tls-api', '%s() called with something that is not a connection' % what)
        return None
    return r[0]


def newconn(I, st, data, client=False):
    off, size = I.mod.fields('tls_state_s')
    for f in ('data', 'id', 'addr', 'peer'):
        if f not in off:
            raise Broken('member %r of the connection structure not found' % f)
    o = I.new_obj(st, size, 'heap', 'conn', 'T', attrs={'res': 'conn'})
    ob = st.mem[o].copy()
    ob.cells[off['data']] = (8, data)
    for f in (('peer',) if client else ('id', 'addr', 'peer')):
        s = I.new_obj(st, None, 'heap', 'conn-' + f, 'T', attrs={'content': ('conn', f)})
        ob.cells[off[f]] = (8, ptr(s))
    if client:
        ob.cells[off['id']] = (8, 0)
        ob.cells[off['addr']] = (8, 0)
    st.mem[o] = ob
    put(st, o, Conn(('open', None, 0, 0, 0, 0, 0, 0, 0)))
    return o


def freeconn(I, st, o):
    off, _ = I.mod.fields('tls_state_s')
    ob = st.mem[o]
    for f in ('id', 'addr', 'peer'):
        v = ob.cells.get(off[f])
        if v and is_ptr(v[1]):
            if not models.do_free(I, st, v[1], 'tls_free'):
                return
    st.ghost.pop(('conn', o), None)
    I.free(st, o, 'tls_free')


# ---------------------------------------------------------------- server side API
def b_server_start(I, st, a, ins):
    d, sz = I.mod.fields('tls_server_state')
    o = I.new_obj(st, sz, 'heap', 'tls_server', 'T', cells={d['data']: (8, 'U')}, attrs={'res': 'tls_server'})
    st.ghost['tls_server'] = (a[3], a[4])
    I.emit(st, 'tls_server_start', a)
    st.ghost[('handle', 'tls_server')] = ptr(o)
    return [(st, ptr(o))]


def b_stop(I, st, a, ins):
    nm = ins.x[0][1]
    r = I.access(st, a[0], None, False, nm)
    if r is None:
        return []
    if r[0] == '?' or I.obj(st, r[0]).attrs.get('res') not in ('tls_server', 'tls_client'):
        I.report(st, 'tls-api', '%s() called with something else' % nm)
        return []
    I.free(st, r[0], nm)
    st.ghost.pop('tls_server', None)
    st.ghost.pop(('handle', 'tls_server'), None)
    return [(st, None)]


def b_client_start(I, st, a, ins):
    d, sz = I.mod.fields('tls_client_state')
    o = I.new_obj(st, sz, 'heap', 'tls_client', 'T', cells={d['data']: (8, 'U')}, attrs={'res': 'tls_client'})
    I.emit(st, 'tls_client_start', a)
    return [(st, ptr(o))]


def b_connect(I, st, a, ins):
    r = I.access(st, a[0], 8, False, 'tls_connect')
    if r is None:
        return []
    d, sz = I.mod.fields('tls_client_state')
    v = I.read_cell(st, r[0], I.obj(st, r[0]), d['data'], 8, ('p',))
    I.emit(st, 'tls_connect', a)
    if v == 'U':
        I.report(st, 'uninit', 'tls_connect() before the data member of the client state was set')
    if type(a[3]) is not int:
        raise Broken('flags of tls_connect() not resolved')
    if 'tls_client' in st.ghost or conns(st):
        I.report(st, 'tls-api', 'a second connection is opened')
        return []
    st.ghost['tls_client'] = (v, a[4], a[5], a[6], a[3] & 1)
    return [(st, None)]


def b_read(I, st, a, ins):
    nm = ins.x[0][1] if ins else 'tls_read'
    o = conn(I, st, a[0], 'tls_read')
    if o is None:
        return []
    c = get(st, o)
    line = nm.startswith('tls_read_line')
    if c.rd is not None:
        I.report(st, 'concurrent-read', 'a second read is requested while one is outstanding (the process would die)')
        return []
    if c.phase != 'open':
        I.report(st, 'read-after-shutdown', 'a read is requested after the connection was told to shut down')
        return []
    if not line:
        n = a[2]
        if n == 0:
            line = True
        elif not (is_num(n) and st.prove_ge0(ladd(n, -1))):
            I.report(st, 'read-size', 'tls_read() with a size that may be zero or negative')
            st.assume_cmp('ugt', n, 0, True)
        if not line and not st.prove_ge0(lsub(INT_MAX, n)):
            I.report(st, 'read-size', 'tls_read() with a size that may exceed INT_MAX')
    c.rd = ('line' if line else 'bytes', a[1])
    put(st, o, c)
    if not line:
        I.i64slots.add((o, RDSIZE))
        models.set_cell(st, o, RDSIZE, 8, a[2])
        I.emit(st, 'tls_read_bytes', o, a[2])
    else:
        I.emit(st, 'tls_read_line', o)
    return [(st, None)]


def b_write(I, st, a, ins):
    o = conn(I, st, a[0], 'tls_write')
    if o is None:
        return []
    c = get(st, o)
    if c.phase != 'open':
        I.report(st, 'write-after-shutdown', 'data is queued after the connection was told to shut down')
        return []
    n = a[2]
    r = I.access(st, a[1], n if is_num(n) else None, False, 'tls_write')
    if r is None:
        return []
    c.wr = 1
    put(st, o, c)
    I.emit(st, 'tls_write', o, a[1], n, a[3])
    if a[3] != 0:
        return [(s, None) for s in callp(I, st, a[3], [a[1]])]
    return [(st, None)]


def b_write_line(I, st, a, ins):
    o = conn(I, st, a[0], 'tls_write_line')
    if o is None:
        return []
    c = get(st, o)
    if c.phase != 'open':
        I.report(st, 'write-after-shutdown', 'a line is queued after the connection was told to shut down')
        return []
    if models.strobj(I, st, a[1], 'tls_write_line') is None:
        return []
    c.wr = 1
    put(st, o, c)
    I.emit(st, 'tls_write_line', o, a[1])
    return [(st, None)]


def b_shutdown(I, st, a, ins):
    o = conn(I, st, a[0], 'tls_shutdown')
    if o is None:
        return []
    c = get(st, o)
    if c.phase != 'open':
        I.report(st, 'double-shutdown', 'a connection is told to shut down twice')
        return []
    c.phase, c.h_error, c.h_timeout, c.h_drain = 'closing', 0, 0, 0
    put(st, o, c)
    I.emit(st, 'tls_shutdown', o)
    return [(st, None)]


def b_set_id(I, st, a, ins):
    o = conn(I, st, a[0], 'tls_set_connection_id')
    if o is None:
        return []
    if models.strobj(I, st, a[1], 'tls_set_connection_id') is None:
        return []
    off, _ = I.mod.fields('tls_state_s')
    v = st.mem[o].cells.get(off['peer'])
    if v and is_ptr(v[1]) and not models.do_free(I, st, v[1], 'tls_set_connection_id'):
        return []
    s = I.new_obj(st, None, 'heap', 'conn-peer', 'T', attrs={'content': ('conn', 'peer')})
    models.set_cell(st, o, off['peer'], 8, ptr(s))
    return [(st, None)]


def b_on(field):
    def m(I, st, a, ins):
        o = conn(I, st, a[0], 'tls_on_*')
        if o is None:
            return []
        c = get(st, o)
        setattr(c, field, a[1])
        put(st, o, c)
        I.emit(st, 'tls_' + field, o, a[1])
        if field == 'h_drain' and not c.wr:
            return [(s, None) for s in callp(I, st, a[1], [ptr(o)])]
        return [(st, None)]
    return m


TLS = {'tls_server_start': b_server_start, 'tls_server_stop': b_stop, 'tls_client_start': b_client_start,
       'tls_client_stop': b_stop, 'tls_connect': b_connect, 'tls_read': b_read, 'tls_read_line': b_read,
       'tls_write': b_write, 'tls_write_line': b_write_line, 'tls_shutdown': b_shutdown,
       'tls_set_connection_id': b_set_id, 'tls_on_drain': b_on('h_drain'), 'tls_on_timeout': b_on('h_timeout'),
       'tls_on_error': b_on('h_error'), 'tls_on_line_too_long': b_on('h_long')}


# ---------------------------------------------------------------- what may happen to a connection
def conns(st):
    return [k[1] for k in st.ghost if type(k) is tuple and k[0] == 'conn']


def waiting(st):
    """some watcher of the component is active"""
    return any(type(k) is tuple and k[0] == 'ev' and (v[1] or v[2]) for k, v in st.ghost.items())


def died(I, st, why):
    """the TLS layer ends the program (TLS_AUTO_DIE)"""
    I.emit(st, 'tls_died', why)
    return []


def after(I, s, o, what):
    """the connection must never be left with nothing to wait for"""
    if ('conn', o) in s.ghost:
        c = get(s, o)
        if c.phase == 'open' and c.rd is None and not (c.wr and c.h_drain) and not waiting(s):
            I.report(s, 'stall', 'after %s the connection is neither read from nor shut down' % what, where=what)
    return s


def deliver(I, st, o):
    """the outstanding read completes"""
    c = get(st, o)
    kind, h = c.rd
    c.rd = None
    put(st, o, c)
    if kind == 'line':
        d = I.new_obj(st, None, 'heap', 'line', 'T')
        I.func_sym(st, ('len', d, 0), 0, LINE_MAX)
    else:
        n = st.mem[o].cells[RDSIZE][1]
        d = I.new_obj(st, ladd(n, 1), 'heap', 'bytes', 'T')
        I.write_cell(st, d, n, 1, 0)
    I.note(st, 'event: the peer sent the %s asked for' % kind)
    I.emit(st, 'request', o, kind, d)
    out = []
    for s in callp(I, st, h, [ptr(o), ptr(d)]):
        I.emit(s, 'request_done', o, kind, d)
        out.append(after(I, s, o, name(h)))
    return out


def name(h):
    return h[1].split('.')[0] if type(h) is tuple else '?'


def too_long(I, st, o):
    c = get(st, o)
    c.rd = None
    put(st, o, c)
    I.note(st, 'event: the peer sent a line beyond the limit')
    I.emit(st, 'too_long', o)
    if c.die:
        return died(I, st, 'too_long')
    if c.h_long == 0:
        freeconn(I, st, o)
        return [st]
    out = []
    for s in callp(I, st, c.h_long, [ptr(o)]):
        I.emit(s, 'too_long_done', o)
        out.append(after(I, s, o, name(c.h_long)))
    return out


def timeout(I, st, o):
    c = get(st, o)
    c.rd, c.wr = None, 0
    put(st, o, c)
    I.note(st, 'event: the connection times out')
    I.emit(st, 'timeout', o)
    if c.die:
        return died(I, st, 'timeout')
    if c.h_timeout == 0:
        freeconn(I, st, o)
        return [st]
    out = []
    for s in callp(I, st, c.h_timeout, [ptr(o)]):
        I.emit(s, 'timeout_done', o)
        out.append(after(I, s, o, name(c.h_timeout)))
    return out


def broken(I, st, o):
    c = get(st, o)
    I.note(st, 'event: the connection breaks')
    if c.die:
        return died(I, st, 'broken')
    out = []
    for s in callp(I, st, c.h_error, [ptr(o)]):
        if ('conn', o) in s.ghost:
            freeconn(I, s, o)
        out.append(s)
    return out


def drained(I, st, o):
    c = get(st, o)
    c.wr = 0
    h = c.h_drain
    put(st, o, c)
    return [after(I, s, o, name(h)) for s in callp(I, st, h, [ptr(o)])]


def closed(I, st, o):
    freeconn(I, st, o)
    return [st]


def accept(I, st):
    """an incoming TLS handshake"""
    if 'tls_server' not in st.ghost or conns(st):
        return []
    I.ins = None
    h, psk = st.ghost['tls_server']
    sv = st.ghost[('handle', 'tls_server')]
    d, _ = I.mod.fields('tls_server_state')
    data = st.mem[sv[1]].cells[d['data']][1]
    if data == 'U':
        I.report(st, 'uninit', 'a connection can arrive before the data member of the TLS server state is set')
        return []
    I.note(st, 'event: a client connects')
    o = newconn(I, st, data)
    c = get(st, o)
    put(st, o, c)
    I.emit(st, 'connected', o)
    return [after(I, s, o, name(h)) for s in callp(I, st, h, [ptr(o)])]


def psk_event(I, st):
    """OpenSSL asks for the key of an identity a client claims to have"""
    import models_ext
    I.ins = None
    h, psk = st.ghost['tls_server']
    I.note(st, 'event: a client offers an identity')
    keep = set(st.mem)
    o = models_ext.newres(I, st, 'SSL', {0: (8, 0), 8: (8, 0), 16: (8, psk), 24: (8, 0), 32: (8, 0)})
    out = []
    s2 = st.copy()                      # ... after it has claimed to be somebody else
    old = I.new_obj(s2, None, 'heap', 'identity', 'T')
    s2.mem[o] = s2.mem[o].copy()
    s2.mem[o].cells[0] = (8, ptr(old))
    for s, ok in models_ext.psk_server(I, st, o, None) + models_ext.psk_server(I, s2, o, None):
        v = s.mem[o].cells[0][1]
        if is_ptr(v):
            s.mem.pop(v[1], None)       # from here on the TLS layer owns it
        s.mem.pop(o, None)
        out.append(s)
    return out


def connected(I, st):
    """client side: the handshake completes"""
    import models_ext
    I.ins = None
    data, hc, ht, psk, die = st.ghost.pop('tls_client')
    I.note(st, 'event: the server is ready for the TLS handshake')
    out = []
    x = models_ext.newres(I, st, 'SSL', {0: (8, 0), 8: (8, 0), 16: (8, 0), 24: (8, 0), 32: (8, psk)})
    for s, ok in models_ext.psk_client(I, st, x, None):
        s.mem.pop(x, None)
        if not ok:
            if not die:
                out.append(s)
            continue
        I.note(s, 'event: the TLS handshake succeeds')
        o = newconn(I, s, data, client=True)
        c = get(s, o)
        c.h_timeout, c.die = ht, die
        put(s, o, c)
        I.emit(s, 'connected', o)
        out += [after(I, z, o, name(hc)) for z in callp(I, s, hc, [ptr(o)])]
    return out


def unconnected(I, st):
    """client side: connecting fails or takes too long"""
    data, hc, ht, psk, die = st.ghost.pop('tls_client')
    I.note(st, 'event: connecting fails')
    return died(I, st, 'connect') if die else [st]


def events(I, st):
    """[(name, thunk)]"""
    out = []
    if 'tls_server' in st.ghost and not conns(st):
        out.append(('connect', lambda s: accept(I, s)))
        if type(st.ghost['tls_server'][1]) is tuple:
            out.append(('psk', lambda s: psk_event(I, s)))
    if 'tls_client' in st.ghost:
        out.append(('connect', lambda s: connected(I, s)))
        out.append(('unconnected', lambda s: unconnected(I, s)))
    for o in conns(st):
        c = get(st, o)
        if c.rd is not None:
            out.append(('read', lambda s, o=o: deliver(I, s, o)))
            if c.rd[0] == 'line':
                out.append(('too_long', lambda s, o=o: too_long(I, s, o)))
        out.append(('timeout', lambda s, o=o: timeout(I, s, o)))
        out.append(('broken', lambda s, o=o: broken(I, s, o)))
        if c.wr and c.h_drain:
            out.append(('drained', lambda s, o=o: drained(I, s, o)))
        if c.phase == 'closing':
            out.append(('closed', lambda s, o=o: closed(I, s, o)))
    return out
