"""The TLS layer (tls.c) under an arbitrary user of its header.

The component above is an environment that makes any of the calls tls.h allows
from any of its callbacks; below are OpenSSL, libev and the buffer contract.
"""
from core import *
import models
from models import fork, ptr
from tlsapi import RDSIZE, INT_MAX


def F(n):
    return ('F', n)


def call(I, sts, fn, mk):
    out = []
    f = I.mod.funcs[fn]
    for s in sts:
        I.ins = None
        out += [x for x, _ in I.call_fn(s, f, mk(s), None)]
    return out


def chain(I, st, *ops):
    sts = [st]
    for op in ops:
        nxt = []
        for s in sts:
            nxt += op(I, s)
        sts = nxt
    return sts


def written(I, t, own, s, go):
    I.emit(s, 'op_write', t[1], own)
    out = go(s)
    for x in out:
        I.emit(x, 'op_written', t[1], own)
    return out


def op_read_line(t):
    def g(I, s):
        I.i64slots.add((t[1], RDSIZE))
        models.set_cell(s, t[1], RDSIZE, 8, 0)
        I.emit(s, 'op_read', t[1], 'line')
        return call(I, [s], 'tls_read_line', lambda s: [t, F('$read')])
    return g


def op_read(t):
    def g(I, s):
        n = I.fresh(s, 'rdsize', lo=1, hi=INT_MAX)
        I.i64slots.add((t[1], RDSIZE))
        models.set_cell(s, t[1], RDSIZE, 8, n)
        I.emit(s, 'op_read', t[1], 'bytes')
        return call(I, [s], 'tls_read', lambda s: [t, F('$read'), n])
    return g


def op_write_line(t):
    def g(I, s):
        x = ('p', 'e', 'response')
        s.iv[x] = (1, None)
        return written(I, t, None, s, lambda s: call(I, [s], 'tls_write_line', lambda s: [t, lin(x)]))
    return g


def op_write(t, own):
    def g(I, s):
        n = I.fresh(s, 'wrsize', lo=1, hi=INT_MAX)
        if own:
            o = ptr(I.new_obj(s, n, 'heap', 'payload', 'T'))
        else:
            x = ('p', 'e', 'constdata')
            s.iv[x] = (1, None)
            o = lin(x)
        return written(I, t, o[1] if own else None, s,
                       lambda s: call(I, [s], 'tls_write', lambda s: [t, o, n, F('free') if own else 0]))
    return g


def op_shutdown(t):
    def g(I, s):
        s.ghost[('closing', t[1])] = 1
        s.ghost['gaveup'] = 1
        return call(I, [s], 'tls_shutdown', lambda s: [t])
    return g


def op_on(t, fn, h):
    return lambda I, s: call(I, [s], fn, lambda s: [t, F(h)])


def choose(I, st, t, alts):
    out = []
    for a in alts:
        out += chain(I, st.copy(), *a)
    return out


def tlsobj(I, st, p, what):
    r = I.access(st, p, 8, False, what)
    if r is None or r[0] == '?':
        return None
    return ('P', r[0], 0)


def env_connect(I, st, a, ins):
    t = tlsobj(I, st, a[0], 'the connect callback')
    if t is None:
        return []
    d = I.mod.fields('tls_state_s')[0]
    I.emit(st, 'up_connected', t[1])
    ob = st.mem[t[1]]
    st.ghost[('up', t[1])] = 1
    pre = [op_on(t, 'tls_on_timeout', '$timeout'), op_on(t, 'tls_on_error', '$error'),
           op_on(t, 'tls_on_line_too_long', '$long')]
    if I.opts.get('side') == 'read':
        alts = [pre + [op_read_line(t)], pre + [op_read(t)]]
    else:
        alts = [pre + [op_read_line(t)], pre + [op_write_line(t), op_read_line(t)]]
    if I.mon.client:
        alts += [a[len(pre):] for a in alts]    # a user that leaves the handlers alone
    return [(s, None) for s in choose(I, st, t, alts)]


def env_read(I, st, a, ins):
    t = tlsobj(I, st, a[0], 'the read callback')
    if t is None:
        return []
    I.emit(st, 'up_read', t[1], a[1], st.mem[t[1]].cells.get(RDSIZE, (8, None))[1])
    if not models.do_free(I, st, a[1], 'free'):
        return []
    if I.opts.get('side') == 'read':
        alts = [[op_read_line(t)], [op_read(t)], [op_shutdown(t)]]
    else:
        alts = [[op_write_line(t), op_read_line(t)], [op_write(t, True), op_read_line(t)],
                [op_write_line(t), op_shutdown(t)], [op_shutdown(t)]]
    return [(s, None) for s in choose(I, st, t, alts)]


def env_timeout(I, st, a, ins):
    t = tlsobj(I, st, a[0], 'the timeout callback')
    if t is None:
        return []
    I.emit(st, 'up_timeout', t[1])
    if I.opts.get('side') == 'read':
        alts = [[op_shutdown(t)]]
    elif ('up', t[1]) not in st.ghost:
        alts = [[op_shutdown(t)]]       # not handed over: there is nothing to send to yet
    else:
        alts = [[op_write(t, False), op_write_line(t), op_shutdown(t)]]
    return [(s, None) for s in choose(I, st, t, alts)]


def env_long(I, st, a, ins):
    t = tlsobj(I, st, a[0], 'the line-too-long callback')
    if t is None:
        return []
    I.emit(st, 'up_long', t[1])
    if I.opts.get('side') == 'read':
        alts = [[op_shutdown(t)]]
    else:
        alts = [[op_write_line(t), op_shutdown(t)]]
    return [(s, None) for s in choose(I, st, t, alts)]


def env_error(I, st, a, ins):
    t = tlsobj(I, st, a[0], 'the error callback')
    if t is None:
        return []
    I.emit(st, 'up_error', t[1])
    return [(st, None)]


def env_psk(I, st, a, ins):
    """an arbitrary PSK callback: stores the identity and accepts, or refuses"""
    s2 = fork(st)
    I.emit(st, 'up_psk', a)
    r = I.access(st, a[0], None, False, 'the PSK callback')
    if r is None:
        return []
    outs = [(s2, 0)]
    if not models.do_free(I, st, models.M['SSL_get_ex_data'](I, st, [a[0], 0], ins)[0][1]):
        return outs
    o = I.new_obj(st, None, 'heap', 'identity', 'T', attrs={'identity': 1})
    for s, ok in models.M['SSL_set_ex_data'](I, st, [a[0], 0, ptr(o)], ins):
        if ok:
            outs.append((s, I.fresh(s, 'psklen', lo=1, hi=256)))
        else:
            models.do_free(I, s, ptr(o))
            outs.append((s, 0))
    return outs


def env_pskc(I, st, a, ins):
    """an arbitrary client key callback, within what OpenSSL provides"""
    I.emit(st, 'up_psk', a)
    return [(st, I.fresh(st, 'psklen', lo=0, hi=256))]


ENV = {'$pskc': env_pskc, '$connect': env_connect, '$read': env_read, '$timeout': env_timeout, '$long': env_long, '$error': env_error,
       '$psk': env_psk}


def stall(I, c):
    """boundary invariant: an established connection always waits for its socket"""
    for o in {k[1] for k in c.ghost if type(k) is tuple and k[0] == 'ev'}:
        ob = c.mem.get(o)
        if ob is None or ob.status != 'alive' or RDSIZE not in ob.cells:
            continue
        act = [k for k, v in c.ghost.items() if type(k) is tuple and k[0] == 'ev' and k[1] == o and v[0] == 'io' and
               (v[1] or v[2])]
        if not act:
            I.report(c, 'stall', 'an established connection is left without any active I/O watcher', where='event loop')
