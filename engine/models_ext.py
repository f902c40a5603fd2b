"""Models of OpenSSL, libConfuse and POSIX process/file interfaces."""
import models
from core import *
from models import M, model, fork, ptr, set_cell, set_errno, strobj, content, cstr, length, set_attr, do_malloc, do_free

# layout of abstract SSL objects
SSL_APP, SSL_BIO, SSL_SRV, SSL_CTX, SSL_CLI = 0, 8, 16, 24, 32


def resobj(I, st, p, what, res):
    if p == 0:
        I.report(st, 'null-deref', 'null pointer passed to %s()' % what)
        return None
    r = I.access(st, p, None, False, what)
    if r is None:
        return None
    if r[0] == '?':
        raise Broken('argument of %s not resolved' % what)
    ob = I.obj(st, r[0])
    if r[0][0] == 'X':
        return r[0]
    if ob.attrs.get('res') != res:
        I.report(st, 'type-confusion', '%s() called with something that is not a %s' % (what, res))
        return None
    return r[0]


def newres(I, st, res, cells):
    return I.new_obj(st, None, 'heap', res, 'T', cells=cells, attrs={'res': res})


@model('TLS_client_method', 'TLS_server_method', 'SSLv23_method', 'TLS_method', 'BIO_s_accept', 'BIO_s_connect',
       'BIO_f_base64', 'BIO_s_mem')
def m_method(I, st, a, ins):
    s = ('p', 'method', ins.x[0][1])
    st.iv[s] = (1, None)
    return [(st, lin(s))]


@model('SSL_CTX_new')
def m_ctx_new(I, st, a, ins):
    s2 = fork(st)
    o = newres(I, st, 'SSL_CTX', {0: (8, 0), 8: (8, 0)})
    st.ghost[('sslctx', o)] = ('new',)
    I.emit(st, 'SSL_CTX_new', o, a[0])
    return [(st, ptr(o)), (s2, 0)]


@model('SSL_CTX_free')
def m_ctx_free(I, st, a, ins):
    if a[0] == 0:
        return [(st, None)]
    if do_free(I, st, a[0], 'SSL_CTX_free'):
        r = I.to_obj(st, a[0])
        st.ghost.pop(('sslctx', r[0]), None)
        return [(st, None)]
    return []


def ctxflag(st, o, f):
    g = st.ghost.get(('sslctx', o))
    if g is not None and f not in g:
        st.ghost[('sslctx', o)] = tuple(sorted(set(g) | {f}))


@model('SSL_CTX_set_cipher_list')
def m_cipher(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_CTX_set_cipher_list', 'SSL_CTX')
    if o is None:
        return []
    s2 = fork(st)
    ctxflag(st, o, 'ciphers')
    ctxflag(s2, o, 'ciphers-failed')
    I.emit(st, 'cipher_list', o, a[1])
    return [(st, 1), (s2, 0)]


@model('SSL_CTX_set_options')
def m_options(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_CTX_set_options', 'SSL_CTX')
    if o is None:
        return []
    if type(a[1]) is int:
        for bit in range(64):
            if a[1] >> bit & 1:
                ctxflag(st, o, 'opt%d' % bit)
    return [(st, I.fresh(st, 'opts'))]


@model('SSL_CTX_clear_options')
def m_clear_options(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_CTX_clear_options', 'SSL_CTX')
    if o is None:
        return []
    g = st.ghost.get(('sslctx', o))
    if g is not None and type(a[1]) is int:
        st.ghost[('sslctx', o)] = tuple(x for x in g if not (x.startswith('opt') and a[1] >> int(x[3:]) & 1))
    return [(st, I.fresh(st, 'opts'))]


@model('SSL_CTX_ctrl')
def m_ctx_ctrl(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_CTX_ctrl', 'SSL_CTX')
    if o is None:
        return []
    if a[1] == 33 and type(a[2]) is int:      # SSL_CTRL_MODE
        for bit in range(16):
            if a[2] >> bit & 1:
                ctxflag(st, o, 'mode%d' % bit)
    if a[1] == 123:
        ctxflag(st, o, 'minproto%s' % (a[2],))
    I.emit(st, 'ctx_ctrl', o, a[1], a[2])
    return [(st, I.fresh(st, 'ctl'))]


@model('SSL_CTX_set_psk_server_callback')
def m_psk_srv(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_CTX_set_psk_server_callback', 'SSL_CTX')
    if o is None:
        return []
    set_cell(st, o, 0, 8, a[1])
    return [(st, None)]


@model('SSL_CTX_set_psk_client_callback')
def m_psk_clic(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_CTX_set_psk_client_callback', 'SSL_CTX')
    if o is None:
        return []
    set_cell(st, o, 8, 8, a[1])
    return [(st, None)]


@model('SSL_new')
def m_ssl_new(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_new', 'SSL_CTX')
    if o is None:
        return []
    c = I.obj(st, o).cells
    s2 = fork(st)
    n = newres(I, st, 'SSL', {SSL_APP: (8, 0), SSL_BIO: (8, 0), SSL_SRV: (8, c[0][1] if 0 in c else 0),
                              SSL_CTX: (8, a[0]), SSL_CLI: (8, c[8][1] if 8 in c else 0)})
    st.ghost[('ssl', n)] = 'new'
    I.emit(st, 'SSL_new', n, o)
    return [(st, ptr(n)), (s2, 0)]


@model('SSL_free')
def m_ssl_free(I, st, a, ins):
    if a[0] == 0:
        return [(st, None)]
    o = resobj(I, st, a[0], 'SSL_free', 'SSL')
    if o is None:
        return []
    ob = I.obj(st, o)
    bio = ob.cells.get(SSL_BIO)
    I.free(st, o, 'SSL_free')
    st.ghost.pop(('ssl', o), None)
    if bio is not None and bio[1] != 0:
        if not free_bio(I, st, bio[1], 'SSL_free'):
            return []
    return [(st, None)]


@model('SSL_set_bio')
def m_set_bio(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_set_bio', 'SSL')
    if o is None:
        return []
    if resobj(I, st, a[1], 'SSL_set_bio', 'BIO') is None:
        return []
    set_cell(st, o, SSL_BIO, 8, a[1])
    return [(st, None)]


@model('SSL_set_psk_client_callback')
def m_psk_cli(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_set_psk_client_callback', 'SSL')
    if o is None:
        return []
    set_cell(st, o, SSL_CLI, 8, a[1])
    return [(st, None)]


@model('SSL_set_connect_state', 'SSL_clear', 'SSL_set_accept_state')
def m_ssl_state(I, st, a, ins):
    o = resobj(I, st, a[0], ins.x[0][1], 'SSL')
    if o is None:
        return []
    st.ghost[('ssl', o)] = 'connect' if ins.x[0][1] == 'SSL_set_connect_state' else 'new'
    return [(st, 1 if ins.dest is not None else None)]


@model('SSL_set_ex_data')
def m_set_ex(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_set_ex_data', 'SSL')
    if o is None:
        return []
    old = I.obj(st, o).cells.get(SSL_APP)
    s2 = fork(st) if not (old and is_ptr(old[1])) else None     # fails only when growing the table
    if a[1] == 0:
        set_cell(st, o, SSL_APP, 8, a[2])
    I.emit(st, 'set_app_data', o, a[2])
    return [(st, 1)] + ([(s2, 0)] if s2 is not None else [])


@model('SSL_get_ex_data')
def m_get_ex(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_get_ex_data', 'SSL')
    if o is None:
        return []
    c = I.obj(st, o).cells.get(SSL_APP)
    return [(st, c[1] if c else 0)]


def failret(I, st, tag):
    return I.fresh(st, tag, lo=-1, hi=0)


def psk_server(I, st, o, ins):
    """run the server PSK callback; [(state, key accepted?)]"""
    cb = I.obj(st, o).cells[SSL_SRV][1]
    if not (type(cb) is tuple and cb[0] == 'F'):
        return [(st, False)]
    ident = ('p', 'e', 'identity')
    st.iv[ident] = (1, None)
    X = ('X', ident)
    if X not in st.mem:
        st.mem[X] = Obj('ext', None, default='T', attrs={'content': ('client-id',)})
    maxlen = I.fresh(st, 'pskmax', lo=1, hi=256)
    pw = I.new_obj(st, maxlen, 'stack', 'pskbuf', 'U')
    outs = []
    I.emit(st, 'psk_begin', o, X, pw, maxlen)
    for s, v in I.dispatch(st, cb[1], [ptr(o), lin(ident), ('P', pw, 0), maxlen], ins):
        t = s.cmp('eq', v, 0) if is_num(v) else None
        if t is None and v != 'U':
            s2 = fork(s)
            branches = []
            if s.assume_cmp('eq', v, 0, True):
                branches.append((s, False))
            if s2.assume_cmp('ne', v, 0, True):
                branches.append((s2, True))
        else:
            branches = [(s, not t)]
        for s3, ok in branches:
            I.emit(s3, 'psk_result', o, X, pw, maxlen, v, ok)
            s3.mem.pop(pw, None)
            s3.mem.pop(X, None)
            I.drop_sym(s3, ident)
            outs.append((s3, ok))
    return outs


@model('SSL_accept')
def m_accept(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_accept', 'SSL')
    if o is None:
        return []
    g = st.ghost.get(('ssl', o))
    if I.obj(st, o).cells[SSL_BIO][1] == 0:
        I.report(st, 'ssl', 'SSL_accept() before a BIO was attached')
        return []
    outs = []
    if g == 'up':
        return [(st, 1)]
    s2 = fork(st)
    outs.append((s2, failret(I, s2, 'SSL_accept')))
    if g == 'dead':
        return outs
    if g == 'psk-ok':
        s3 = fork(st)
        s3.ghost[('ssl', o)] = 'up'
        I.emit(s3, 'ssl_up', o)
        outs.append((s3, 1))
    for s, ok in psk_server(I, st, o, ins):
        if not ok:
            s.ghost[('ssl', o)] = 'dead'
            outs.append((s, failret(I, s, 'SSL_accept')))
        else:
            s4 = fork(s)
            s4.ghost[('ssl', o)] = 'psk-ok'
            outs.append((s4, failret(I, s4, 'SSL_accept')))
            s.ghost[('ssl', o)] = 'up'
            I.emit(s, 'ssl_up', o)
            outs.append((s, 1))
    I.ins = ins
    return outs


@model('SSL_connect')
def m_connect(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_connect', 'SSL')
    if o is None:
        return []
    if I.obj(st, o).cells[SSL_BIO][1] == 0:
        I.report(st, 'ssl', 'SSL_connect() before a BIO was attached')
        return []
    s2 = fork(st)
    outs = [(s2, failret(I, s2, 'SSL_connect'))]
    for s, ok in psk_client(I, st, o, ins):
        if ok:
            s.ghost[('ssl', o)] = 'up'
            I.emit(s, 'ssl_up', o)
            outs.append((s, 1))
        else:
            s.ghost[('ssl', o)] = 'dead'
            outs.append((s, failret(I, s, 'SSL_connect')))
    I.ins = ins
    return outs


def psk_client(I, st, o, ins):
    cb = I.obj(st, o).cells[SSL_CLI][1]
    if not (type(cb) is tuple and cb[0] == 'F'):
        return [(st, False)]
    idl = I.fresh(st, 'idmax', lo=1, hi=256)
    pwl = I.fresh(st, 'pskmax', lo=1, hi=512)
    ido = I.new_obj(st, idl, 'stack', 'pskid', 'U')
    pwo = I.new_obj(st, pwl, 'stack', 'pskbuf', 'U')
    hint = ('p', 'e', 'hint')
    outs = []
    I.emit(st, 'pskc_begin', o, ido, idl, pwo, pwl)
    for s, v in I.dispatch(st, cb[1], [ptr(o), lin(hint), ('P', ido, 0), idl, ('P', pwo, 0), pwl], ins):
        t = s.cmp('eq', v, 0) if is_num(v) else None
        s2 = fork(s)
        br = []
        if t is None:
            if s.assume_cmp('eq', v, 0, True):
                br.append((s, False))
            if s2.assume_cmp('ne', v, 0, True):
                br.append((s2, True))
        else:
            br = [(s, not t)]
        for s3, ok in br:
            I.emit(s3, 'pskc_result', o, ido, idl, pwo, pwl, v, ok)
            s3.mem.pop(ido, None)
            s3.mem.pop(pwo, None)
            s3.mem.pop(('X', hint), None)
            I.drop_sym(s3, hint)
            outs.append((s3, ok))
    return outs


@model('SSL_read')
def m_ssl_read(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_read', 'SSL')
    if o is None:
        return []
    n = a[2]
    r = I.access(st, a[1], n if is_num(n) else None, True, 'SSL_read')
    if r is None:
        return []
    I.emit(st, 'ssl_read', o, a[1], n)
    s2 = fork(st)
    outs = []
    if st.ghost.get(('ssl', o)) != 'dead':
        k = I.fresh(st, 'nread', lo=1)
        ok = True
        if is_num(n):
            ok = st.assume_ge0(lsub(n, k))
        if ok:
            if r[0] != '?':
                I.havoc(st, r[0], r[1], n)
            I.emit(st, 'ssl_read_ok', o, r, n, k)
            outs.append((st, k))
    outs.append((s2, failret(I, s2, 'SSL_read')))
    return outs


@model('SSL_write')
def m_ssl_write(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_write', 'SSL')
    if o is None:
        return []
    n = a[2]
    r = I.access(st, a[1], n if is_num(n) else None, False, 'SSL_write')
    if r is None:
        return []
    if r[0] != '?':
        ob = I.obj(st, r[0])
        if ob.default == 'U' and not ob.cells:
            I.report(st, 'uninit', 'uninitialised memory sent to the peer')
    I.emit(st, 'ssl_write', o, a[1], n)
    s2 = fork(st)
    outs = []
    if st.ghost.get(('ssl', o)) != 'dead':
        k = I.fresh(st, 'nwritten', lo=1)
        if not is_num(n) or st.assume_ge0(lsub(n, k)):
            I.emit(st, 'ssl_write_ok', o, r, n, k)
            outs.append((st, k))
    outs.append((s2, failret(I, s2, 'SSL_write')))
    return outs


@model('SSL_shutdown')
def m_ssl_shutdown(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_shutdown', 'SSL')
    if o is None:
        return []
    I.emit(st, 'ssl_shutdown', o)
    if ins.dest is None:
        return [(st, None)]
    s2, s3 = fork(st), fork(st)
    return [(st, 1), (s2, 0), (s3, -1)]


@model('SSL_get_error')
def m_get_error(I, st, a, ins):
    o = resobj(I, st, a[0], 'SSL_get_error', 'SSL')
    if o is None:
        return []
    if st.ghost.get(('ssl', o)) == 'dead':
        s2 = fork(st)
        return [(st, 1), (s2, 5)]
    # forked concretely: these values steer the caller
    outs = []
    pos = st.cmp('sgt', a[1], 0) if is_num(a[1]) else None
    for v in (1, 2, 3, 4, 5, 6, 7, 8):
        if v == 6 and is_num(a[1]) and st.cmp('ne', a[1], 0) is True:
            pass
        s = fork(st)
        set_errno(I, s, I.fresh(s, 'errno', lo=0, hi=200))
        if v in (2, 3):
            I.emit(s, 'ssl_want', o, v)
        outs.append((s, v))
    if pos is not False:
        outs.append((fork(st), 0))
    return outs


@model('ERR_peek_error', 'ERR_get_error', 'ERR_peek_last_error')
def m_err(I, st, a, ins):
    return [(st, I.fresh(st, 'err', lo=0))]


@model('ERR_reason_error_string', 'OpenSSL_version', 'ERR_error_string')
def m_errstr(I, st, a, ins):
    p = I.fresh(st, 'reason', ptr=True)
    st.iv[p[2][0][0]] = (1, None)
    s = p[2][0][0]
    st.ghost.setdefault('maybe_null', ())
    return [(st, p)]


# ---- BIO: cells 0 = accepted connection (chain), 8 = 1 once bound
def new_bio(I, st, bound):
    return newres(I, st, 'BIO', {0: (8, 0), 8: (8, bound)})


@model('BIO_new_accept', 'BIO_new', 'BIO_new_connect')
def m_bio_new(I, st, a, ins):
    nm = ins.x[0][1]
    if nm != 'BIO_new' and strobj(I, st, a[0], nm) is None:
        return []
    s2 = fork(st)
    o = new_bio(I, st, 0)
    I.emit(st, 'bio_new', o, nm, a[0])
    return [(st, ptr(o)), (s2, 0)]


@model('BIO_int_ctrl')
def m_bio_int(I, st, a, ins):
    o = resobj(I, st, a[0], 'BIO_int_ctrl', 'BIO')
    if o is None:
        return []
    if a[1] == 104:
        set_cell(st, o, 8, 8, 1)
    I.emit(st, 'bio_ctrl', o, a[1], a[2], a[3])
    return [(st, 1)]


@model('BIO_ctrl')
def m_bio_ctrl(I, st, a, ins):
    o = resobj(I, st, a[0], 'BIO_ctrl', 'BIO')
    if o is None:
        return []
    cmd = a[1]
    I.emit(st, 'bio_ctrl', o, cmd, a[2], a[3])
    if cmd == 101:                # BIO_C_DO_STATE_MACHINE
        ob = I.obj(st, o)
        s2 = fork(st)
        if ob.cells.get(8, (8, 0))[1] == 0:
            set_cell(st, o, 8, 8, 1)
            return [(st, 1), (s2, I.fresh(s2, 'acc', lo=-1, hi=0))]
        outs = [(s2, I.fresh(s2, 'acc', lo=-1, hi=0))]
        if st.ghost.get('accepts', 0) < I.opts.get('max_accepts', 1):
            st.ghost['accepts'] = st.ghost.get('accepts', 0) + 1
            c = new_bio(I, st, 1)
            if ob.cells[0][1] != 0:
                I.report(st, 'leak', 'a second connection is accepted before the first was taken over')
                return outs
            set_cell(st, o, 0, 8, ptr(c))
            outs.append((st, 1))
        return outs
    if cmd == 105:                # BIO_C_GET_FD
        s2 = fork(st)
        if I.obj(st, o).cells.get(8, (8, 0))[1] == 1:
            return [(st, I.func_sym(st, ('fd', o), 0, 1 << 20))]
        return [(st, I.func_sym(st, ('fd', o), 0, 1 << 20)), (s2, -1)]
    if cmd == 100:                # BIO_C_SET_CONNECT
        return [(st, 1)]
    if cmd == 3 and a[3] != 0:    # BIO_CTRL_INFO
        p = ('p', 'e', 'biodata')
        st.iv[p] = (1, None)
        if not I.store(st, a[3], ('p',), lin(p)):
            return []
        return [(st, I.fresh(st, 'biolen', lo=0, hi=1 << 20))]
    if cmd == 115:                # BIO_C_GET_BUF_MEM_PTR
        return [(st, 1)]
    return [(st, I.fresh(st, 'bioctl'))]


@model('BIO_pop')
def m_bio_pop(I, st, a, ins):
    o = resobj(I, st, a[0], 'BIO_pop', 'BIO')
    if o is None:
        return []
    v = I.obj(st, o).cells[0][1]
    set_cell(st, o, 0, 8, 0)
    return [(st, v)]


@model('BIO_push')
def m_bio_push(I, st, a, ins):
    o = resobj(I, st, a[0], 'BIO_push', 'BIO')
    if o is None:
        return []
    set_cell(st, o, 0, 8, a[1])
    return [(st, a[0])]


def free_bio(I, st, p, how):
    o = None
    r = I.to_obj(st, p)
    if r is None:
        return True
    ob = I.obj(st, r[0])
    nxt = ob.cells.get(0) if ob is not None and ob.status == 'alive' else None
    if not do_free(I, st, p, how):
        return False
    if nxt is not None and nxt[1] != 0:
        return free_bio(I, st, nxt[1], how)
    return True


@model('BIO_free_all', 'BIO_free', 'BIO_vfree')
def m_bio_free(I, st, a, ins):
    if a[0] != 0 and resobj(I, st, a[0], 'BIO_free_all', 'BIO') is None:
        return []
    return [(st, 1 if ins.dest is not None else None)] if free_bio(I, st, a[0], 'BIO_free_all') else []


@model('BIO_test_flags', 'BIO_set_flags', 'BIO_write', 'RAND_bytes')
def m_bio_misc(I, st, a, ins):
    nm = ins.x[0][1]
    if nm == 'RAND_bytes':
        r = I.access(st, a[0], a[1] if is_num(a[1]) else None, True, nm)
        if r is None:
            return []
        if r[0] != '?':
            I.havoc(st, r[0], r[1], a[1])
        s2 = fork(st)
        return [(st, 1), (s2, 0)]
    if resobj(I, st, a[0], nm, 'BIO') is None:
        return []
    I.emit(st, 'call_' + nm, a)
    if nm == 'BIO_write':
        if I.access(st, a[1], a[2] if is_num(a[2]) else None, False, nm) is None:
            return []
    return [(st, I.fresh(st, nm) if ins.dest is not None else None)]


# ------------------------------------------------------------------ network address
@model('getpeername')
def m_getpeername(I, st, a, ins):
    s2 = fork(st)
    set_errno(I, s2)
    r = I.access(st, a[1], 128, True, 'getpeername')
    if r is None:
        return [(s2, -1)]
    if r[0] != '?':
        I.havoc(st, r[0])
    return [(st, 0), (s2, -1)]


@model('inet_ntop')
def m_inet_ntop(I, st, a, ins):
    s2 = fork(st)
    set_errno(I, s2)
    r = I.access(st, a[2], a[3] if is_num(a[3]) else None, True, 'inet_ntop')
    if r is None:
        return [(s2, 0)]
    if r[0] != '?':
        I.havoc(st, r[0])
    return [(st, a[2]), (s2, 0)]


# ------------------------------------------------------------------ hsearch / libConfuse
@model('hsearch')
def m_hsearch(I, st, a, ins):
    key, data, act = a[0], a[1], a[2]
    if strobj(I, st, key, 'hsearch') is None:
        return []
    k = content(I, st, key)
    s2 = fork(st)
    if act == 1:      # ENTER
        set_errno(I, s2, 12)
        e = ('p', 'entry', k)
        st.iv[e] = (1, None)
        st.mem[('X', e)] = Obj('ext', 16, default='T', cells={0: (8, key), 8: (8, data)})
        I.emit(st, 'hash_enter', key, k, e)
        return [(st, lin(e)), (s2, 0)]
    g = st.ghost.get(('lookup', k))
    outs = []
    if g != 'none':
        st.ghost[('lookup', k)] = 'some'
        e = ('p', 'entry', k)
        st.iv[e] = (1, None)
        A = ('p', 'auth', k)
        st.iv[A] = (1, None)
        X = ('X', e)
        ob = Obj('ext', 16, default='T', cells={0: (8, lin(('p', 'ekey', k))), 8: (8, lin(A))})
        st.mem[X] = ob
        outs.append((st, lin(e)))
    if g != 'some':
        s2.ghost[('lookup', k)] = 'none'
        outs.append((s2, 0))
    return outs


@model('hcreate')
def m_hcreate(I, st, a, ins):
    s2 = fork(st)
    set_errno(I, s2, 12)
    I.emit(st, 'hcreate', a[0])
    return [(st, 1), (s2, 0)]


def sym1(v):
    """the single symbol of a value, or None"""
    if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return v[2][0][0]
    if type(v) is tuple and v[0] == 'P':
        return ('ptr', v[1], v[2])
    return None


def cfg_size_val(I, st, cfg, name):
    k = ('cfgsize', sym1(cfg), name)
    return I.func_sym(st, k, 0, None)


@model('cfg_size')
def m_cfg_size(I, st, a, ins):
    nm = cstr(I, st, a[1])
    I.emit(st, 'cfg_size', a[0], nm)
    if nm is None:
        return [(st, I.fresh(st, 'cfgsize', lo=0))]
    return [(st, cfg_size_val(I, st, a[0], nm.decode('latin1')))]


@model('cfg_getopt')
def m_cfg_getopt(I, st, a, ins):
    nm = cstr(I, st, a[1])
    s = ('p', 'opt', sym1(a[0]), nm.decode('latin1') if nm is not None else None)
    st.iv[s] = (1, None)
    I.emit(st, 'cfg_getopt', a[0], nm)
    return [(st, lin(s))]


@model('cfg_opt_size')
def m_cfg_opt_size(I, st, a, ins):
    s = sym1(a[0])
    if s and s[0] == 'p' and s[1] == 'opt':
        return [(st, I.func_sym(st, ('cfgsize', s[2], s[3]), 0, None))]
    return [(st, I.func_sym(st, ('cfgsize', s, None), 0, None))]


@model('cfg_opt_getnptr', 'cfg_opt_getnstr')
def m_cfg_opt_getn(I, st, a, ins):
    nm = ins.x[0][1]
    s = ('p', 'optval', sym1(a[0]))
    st.iv[s] = (1, None)
    n = cfgn(st, a[0])
    if n is not None and is_num(a[1]):
        I.emit(st, 'cfg_index', nm, a[1], n)
    return [(st, lin(s))]


def cfgn(st, opt):
    s = sym1(opt)
    if s and s[0] == 'p' and s[1] == 'opt':
        return lin(('cfgsize', s[2], s[3]))
    return None


@model('cfg_opt_getnint', 'cfg_opt_getnfloat')
def m_cfg_opt_getnint(I, st, a, ins):
    nm = ins.x[0][1]
    s = ('cfgnum', sym1(a[0]), nm)
    return [(st, lin(s))]


@model('cfg_getstr', 'cfg_title')
def m_cfg_getstr(I, st, a, ins):
    nm = ins.x[0][1]
    k = cstr(I, st, a[1]) if len(a) > 1 else b'#title'
    g = st.ghost.get(('cfgset', sym1(a[0]), k))
    I.emit(st, 'cfg_getstr', a[0], k)
    if g is not None:
        return [(st, g)]
    s = ('p', 'cstr', sym1(a[0]), k.decode('latin1') if k is not None else None)
    st.iv[s] = (1, None)
    X = ('X', s)
    if X not in st.mem:
        st.mem[X] = Obj('ext', None, default='T', attrs={'content': ('cfg', sym1(a[0]), k)})
    return [(st, lin(s))]


@model('cfg_getint')
def m_cfg_getint(I, st, a, ins):
    k = cstr(I, st, a[1])
    I.emit(st, 'cfg_getint', a[0], k)
    return [(st, I.func_sym(st, ('cfgint', sym1(a[0]), k), *st.iv.get(('cfgint', sym1(a[0]), k), (None, None))))]


@model('cfg_getfloat')
def m_cfg_getfloat(I, st, a, ins):
    return [(st, lin(('cfgfloat', sym1(a[0]), cstr(I, st, a[1]))))]


@model('cfg_getnsec')
def m_cfg_getnsec(I, st, a, ins):
    s = ('p', 'sec', sym1(a[0]), cstr(I, st, a[1]))
    st.iv[s] = (1, None)
    I.emit(st, 'cfg_getnsec', a[0], cstr(I, st, a[1]), a[2])
    return [(st, lin(s))]


@model('cfg_init')
def m_cfg_init(I, st, a, ins):
    o = I.new_obj(st, None, 'heap', 'cfg', 'T', attrs={'res': 'cfg'})
    I.emit(st, 'cfg_init', a[0], o)
    return [(st, ptr(o))]


@model('cfg_free')
def m_cfg_free(I, st, a, ins):
    I.emit(st, 'cfg_free', a[0])
    if not do_free(I, st, a[0], 'cfg_free'):
        return []
    return [(st, I.fresh(st, 'cfg_free') if ins.dest is not None else None)]


@model('cfg_setint', 'cfg_setstr', 'cfg_set_validate_func', 'cfg_error', 'cfg_setopt', 'cfg_parse', 'cfg_parse_buf',
       'cfg_include', 'cfg_tilde_expand')
def m_cfg_misc(I, st, a, ins):
    nm = ins.x[0][1]
    for v in a:
        if not I.touch(st, v, nm):
            return []
    I.emit(st, nm, a)
    if nm in ('cfg_parse', 'cfg_parse_buf'):
        out = []
        for v in (0, 1, -1):
            s = fork(st)
            out.append((s, v))
        return out
    if nm == 'cfg_setopt':
        s2 = fork(st)
        s = ('p', 'setopt')
        st.iv[s] = (1, None)
        k = sym1(a[1])
        if k and k[0] == 'p' and k[1] == 'opt':
            q = ('cfgsize', k[2], k[3])
            if q in st.iv:
                I.drop_sym(st, q)
            st.iv[q] = (1, None)
        return [(st, lin(s)), (s2, 0)]
    if nm == 'cfg_tilde_expand':
        return do_malloc(I, st, None, default='T')
    if nm == 'cfg_include':
        return [(st, I.fresh(st, nm, lo=-1, hi=1))]
    return [(st, I.fresh(st, nm) if ins.dest is not None and ins.ty[0] == 'i' else
             (I.fresh(st, nm, ptr=True) if ins.dest is not None else None))]


@model('regcomp')
def m_regcomp(I, st, a, ins):
    r = I.access(st, a[0], 64, True, 'regcomp')
    if r is None or strobj(I, st, a[1], 'regcomp') is None:
        return []
    s2 = fork(st)
    I.emit(st, 'regcomp', a[0], a[1], a[2])
    if r[0] != '?':
        I.havoc(st, r[0], r[1], 64)
        I.havoc(s2, r[0], r[1], 64)
    v = I.fresh(s2, 'regcomp', lo=1, hi=20)
    return [(st, 0), (s2, v)]


@model('regexec')
def m_regexec(I, st, a, ins):
    if not I.touch(st, a[0], 'regexec') or strobj(I, st, a[1], 'regexec') is None:
        return []
    outs = []
    s2, s3 = fork(st), fork(st)
    I.emit(st, 'regexec', a[0], a[1], a[4], 0)
    v = I.fresh(s3, 'regexec', lo=2, hi=20)
    return [(st, 0), (s2, 1), (s3, v)]


@model('regerror')
def m_regerror(I, st, a, ins):
    r = I.access(st, a[2], a[3] if is_num(a[3]) else None, True, 'regerror')
    if r is None:
        return []
    if r[0] != '?':
        I.havoc(st, r[0])
    return [(st, I.fresh(st, 'regerror', lo=0))]


@model('regfree')
def m_regfree(I, st, a, ins):
    return [(st, None)] if I.touch(st, a[0], 'regfree') else []


# ------------------------------------------------------------------ files
@model('open')
def m_open(I, st, a, ins):
    if strobj(I, st, a[0], 'open') is None:
        return []
    s2 = fork(st)
    set_errno(I, s2)
    fd = I.fresh(st, 'fd', lo=0, hi=1 << 20)
    st.ghost[('fd', fd[2][0][0])] = ('open', a[1] if type(a[1]) is int else None)
    I.emit(st, 'open', a[0], a[1], fd)
    return [(st, fd), (s2, -1)]


def fdstate(st, fd):
    s = fd[2][0][0] if is_lin(fd) and len(fd[2]) == 1 and fd[1] == 0 else None
    return s, (st.ghost.get(('fd', s)) if s is not None else None)


@model('fstat')
def m_fstat(I, st, a, ins):
    r = I.access(st, a[1], 144, True, 'fstat')
    if r is None:
        return []
    s, g = fdstate(st, a[0])
    outs = []
    for mode, kind in ((0o010600, 'fifo'), (0o100600, 'regular'), (0o020600, 'chr'), (0o140600, 'socket'),
                       (0o060600, 'blk')):
        n = fork(st)
        if r[0] != '?':
            I.havoc(n, r[0], r[1], 144)
            set_cell(n, r[0], r[1] + 24, 4, mode)
        if g is not None:
            n.ghost[('fd', s)] = (kind,) + g[1:]
        outs.append((n, 0))
    set_errno(I, st)
    outs.append((st, -1))
    return outs


@model('stat', 'lstat')
def m_stat(I, st, a, ins):
    if strobj(I, st, a[0], 'stat') is None:
        return []
    r = I.access(st, a[1], 144, True, 'stat')
    if r is None:
        return []
    I.emit(st, 'stat', a[0])
    outs = []
    for mode in (0o100600, 0o040700, 0o010600):
        n = fork(st)
        if r[0] != '?':
            I.havoc(n, r[0], r[1], 144)
            set_cell(n, r[0], r[1] + 24, 4, mode)
        outs.append((n, 0))
    set_errno(I, st)
    outs.append((st, -1))
    return outs


@model('close')
def m_close(I, st, a, ins):
    s, g = fdstate(st, a[0])
    if type(a[0]) is int and a[0] < 0:
        I.emit(st, 'close_invalid', a[0])
        set_errno(I, st, 9)
        return [(st, -1)]
    if (s is not None and g is None and s[:2] == ('c', 'fd')) or a[0] == models.STALE_FD:
        I.report(st, 'double-close', 'close() of a descriptor that was already closed')
        return []
    I.emit(st, 'close', s, g)
    outs = []
    s2 = fork(st)
    set_errno(I, s2, 4)
    outs.append((s2, -1))          # EINTR: still open
    if g is not None:
        del st.ghost[('fd', s)]
        st.ghost['closedfds'] = st.ghost.get('closedfds', ()) + (s,)
    s3 = fork(st)
    v = I.fresh(s3, 'errno', lo=5, hi=200)
    set_errno(I, s3, v)
    I.emit(s3, 'closed', s, g, False)
    outs.append((s3, -1))
    I.emit(st, 'closed', s, g, True)
    outs.append((st, 0))
    if ins.dest is None or not _used(ins):
        return [(st, 0)]
    return outs


def _used(ins):
    f = ins.fn
    u = getattr(f, '_used', None)
    if u is None:
        u = set()
        for i in f.instrs():
            for x in i.a:
                if type(x) is tuple and x and x[0] == 'r':
                    u.add(x[1])
        f._used = u
    return ins.dest in u


@model('write', 'pwrite')
def m_write(I, st, a, ins):
    n = a[2]
    r = I.access(st, a[1], n if is_num(n) else None, False, 'write')
    if r is None:
        return []
    s, g = fdstate(st, a[0])
    if (s is not None and g is None and s[:2] == ('c', 'fd')) or a[0] == models.STALE_FD:
        I.report(st, 'closed-fd', 'write() to a descriptor that was already closed')
        return []
    I.emit(st, 'write', s, g, a[0], a[1], n)
    s2 = fork(st)
    set_errno(I, s2)
    I.emit(s2, 'write_failed', s, g, a[1], n)
    outs = [(s2, -1)]
    if g is not None and g[0] == 'fifo':
        # atomic for n <= PIPE_BUF (checked by the event consumer)
        I.emit(st, 'written', s, g, a[1], n, n)
        outs.append((st, n))
    else:
        k = I.fresh(st, 'nwr', lo=0)
        if is_num(n):
            st.assume_ge0(lsub(n, k))
        I.emit(st, 'written', s, g, a[1], n, k)
        outs.append((st, k))
    return outs


@model('read')
def m_read(I, st, a, ins):
    n = a[2]
    I.emit(st, 'read', a[0], a[1], n)
    r = I.access(st, a[1], n if is_num(n) else None, True, 'read')
    if r is None:
        return []
    s2 = fork(st)
    s3 = fork(st)
    set_errno(I, s2)
    if r[0] != '?':
        I.havoc(st, r[0], r[1], n)
    k = I.fresh(st, 'nrd', lo=1)
    if is_num(n):
        st.assume_ge0(lsub(n, k))
    I.emit(st, 'read_result', a[0], 'data')
    I.emit(s2, 'read_result', a[0], 'error')
    I.emit(s3, 'read_result', a[0], 'eof')
    return [(st, k), (s2, -1), (s3, 0)]


@model('mkstemp')
def m_mkstemp(I, st, a, ins):
    if strobj(I, st, a[0], 'mkstemp') is None:
        return []
    s2 = fork(st)
    set_errno(I, s2)
    fd = I.fresh(st, 'fd', lo=0, hi=1 << 20)
    st.ghost[('fd', fd[2][0][0])] = ('dump', 0)
    I.emit(st, 'mkstemp', a[0], fd)
    r = I.to_obj(st, a[0])
    if r and r[1] == 0 and r[0] in st.mem:
        ob = st.mem[r[0]].copy()
        ob.attrs.pop('tpl', None)
        ob.attrs['content'] = ('mkstemp',)
        st.mem[r[0]] = ob
    return [(st, fd), (s2, -1)]


@model('unlink')
def m_unlink(I, st, a, ins):
    if strobj(I, st, a[0], 'unlink') is None:
        return []
    I.emit(st, 'unlink', a[0])
    s2 = fork(st)
    set_errno(I, s2)
    return [(st, 0), (s2, -1)]


@model('ftruncate')
def m_ftruncate(I, st, a, ins):
    I.emit(st, 'ftruncate', a[0], a[1])
    s2 = fork(st)
    set_errno(I, s2)
    return [(st, 0), (s2, -1)]


@model('access')
def m_access(I, st, a, ins):
    if strobj(I, st, a[0], 'access') is None:
        return []
    s2 = fork(st)
    set_errno(I, s2)
    I.emit(st, 'access', a[0], a[1], True)
    I.emit(s2, 'access', a[0], a[1], False)
    return [(st, 0), (s2, -1)]


# ------------------------------------------------------------------ POSIX AIO
@model('aio_write')
def m_aio_write(I, st, a, ins):
    r = I.access(st, a[0], 168, False, 'aio_write')
    if r is None:
        return []
    if r[0] == '?':
        raise Broken('aiocb not resolved')
    o, off = r
    s2 = fork(st)
    set_errno(I, s2, 11)
    I.emit(st, 'aio_write', o, off)
    I.emit(s2, 'aio_failed', o, off)
    st.ghost[('aio', o, off)] = 'inflight'
    return [(st, 0), (s2, -1)]


@model('aio_error')
def m_aio_error(I, st, a, ins):
    r = I.access(st, a[0], 168, False, 'aio_error')
    if r is None:
        return []
    o, off = r
    g = st.ghost.get(('aio', o, off))
    if g == 'inflight':
        return [(st, 115)]
    s2 = fork(st)
    s2.ghost[('aio', o, off)] = 'failed'
    st.ghost[('aio', o, off)] = 'ok'
    I.emit(s2, 'aio_result', o, off, 'failed')
    return [(st, 0), (s2, I.fresh(s2, 'aioerr', lo=1, hi=114))]


@model('aio_suspend')
def m_aio_suspend(I, st, a, ins):
    """waits until one of the requests is done, or is interrupted"""
    s2 = fork(st)
    set_errno(I, s2)
    for k in [k for k, v in st.ghost.items() if type(k) is tuple and k[0] == 'aio' and v == 'inflight']:
        st.ghost[k] = 'done'
    return [(st, 0), (s2, -1)]


@model('aio_return')
def m_aio_return(I, st, a, ins):
    r = I.access(st, a[0], 168, False, 'aio_return')
    if r is None:
        return []
    o, off = r
    n = I.read_cell(st, o, I.obj(st, o), off + 24, 8, ('i', 64))
    s2 = fork(st)
    k = I.fresh(s2, 'aioret', lo=-1)
    outs = []
    st.ghost[('aio', o, off)] = 'complete'
    I.emit(st, 'aio_result', o, off, 'complete')
    outs.append((st, n))
    if is_num(n):
        if s2.assume_ge0(ladd(lsub(n, k), -1)):
            s2.ghost[('aio', o, off)] = 'short'
            I.emit(s2, 'aio_result', o, off, 'short')
            outs.append((s2, k))
    return outs


@model('sigaction')
def m_sigaction(I, st, a, ins):
    r = I.access(st, a[1], 152, False, 'sigaction')
    if r is None:
        return []
    if r[0] != '?':
        h = I.read_cell(st, r[0], I.obj(st, r[0]), r[1], 8, ('p',))
        fl = I.read_cell(st, r[0], I.obj(st, r[0]), r[1] + 136, 4, ('i', 32))
        st.ghost['sighandler'] = (h, fl)
        I.emit(st, 'sigaction', a[0], h, fl)
    s2 = fork(st)
    set_errno(I, s2)
    return [(st, 0), (s2, -1)]


@model('__libc_current_sigrtmin')
def m_rtmin(I, st, a, ins):
    return [(st, 34)]


# ------------------------------------------------------------------ processes
def sysret(*names):
    def mk(nm):
        def m(I, st, a, ins):
            for v in a:
                if not I.touch(st, v, nm):
                    return []
            s2 = fork(st)
            set_errno(I, s2)
            I.emit(st, 'sys', nm, a, True)
            I.emit(s2, 'sys', nm, a, False)
            return [(st, 0), (s2, -1)]
        return m
    for n in names:
        M[n] = mk(n)


sysret('setuid', 'setgid', 'initgroups', 'chroot', 'chdir', 'daemon', 'setgroups', 'seteuid', 'setegid',
       'setreuid', 'setregid', 'setresuid', 'setresgid', 'gethostname')


@model('getpwnam')
def m_getpwnam(I, st, a, ins):
    if strobj(I, st, a[0], 'getpwnam') is None:
        return []
    s2 = fork(st)
    set_errno(I, s2, I.fresh(s2, 'errno', lo=0, hi=200))
    p = I.fresh(st, 'passwd', ptr=True)
    s = p[2][0][0]
    st.iv[s] = (1, None)
    st.mem[('X', s)] = Obj('ext', 48, default='T', attrs={'owner': content(I, st, a[0])})
    I.emit(st, 'getpwnam', a[0], p)
    return [(st, p), (s2, 0)]


@model('execvp')
def m_execvp(I, st, a, ins):
    I.emit(st, 'execvp', a)
    set_errno(I, st)
    return [(st, -1)]


@model('getenv')
def m_getenv(I, st, a, ins):
    s2 = fork(st)
    p = I.fresh(st, 'getenv', ptr=True)
    st.iv[p[2][0][0]] = (1, None)
    return [(st, p), (s2, 0)]


@model('sd_listen_fds')
def m_sd(I, st, a, ins):
    return [(st, I.fresh(st, 'sd', lo=I32[0], hi=I32[1]))]


@model('closefrom')
def m_closefrom(I, st, a, ins):
    I.emit(st, 'sys', 'closefrom', a, True)
    return [(st, None)]


@model('nftw')
def m_nftw(I, st, a, ins):
    I.emit(st, 'nftw', a)
    s2 = fork(st)
    set_errno(I, s2)
    return [(st, 0), (s2, -1)]


@model('getopt')
def m_getopt(I, st, a, ins):
    """Every option letter of the option string, up to max_getopt of them in a row."""
    spec = cstr(I, st, a[2])
    if spec is None:
        raise Broken('option string of getopt() is not a literal')
    n = st.ghost.get(('getopt',), 0)
    out = [(st, -1)]
    if n < I.opts.get('max_getopt', 2):
        letters = []
        i = 0
        s = spec.decode('latin1').lstrip('+-:')
        while i < len(s):
            arg = i + 1 < len(s) and s[i + 1] == ':'
            letters.append((s[i], arg))
            i += 2 if arg else 1
        for ch, arg in letters + [('?', False)]:
            s2 = fork(st)
            s2.ghost[('getopt',)] = n + 1
            if arg:
                sym = ('p', 'optarg', n, ch)
                s2.iv[sym] = (1, None)
                I.store(s2, ('P', ('g', 'optarg'), 0), ('p',), lin(sym))
            I.emit(s2, 'option', ch)
            out.append((s2, ord(ch)))
    return out
