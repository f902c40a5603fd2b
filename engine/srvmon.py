"""Obligations of the server layer (server.c, auth.c, parse.c): S01 S02 S04 S05 S06 S07.

Everything is stated on the interface to the layers around it: what is handed
to the command file writer, what is answered, and what the TLS layer is asked
to do next.
"""
from core import *
import models
import tlsapi
from models import ptr

SETTINGS = ('hosts', 'services', 'commands')
LIMIT = (1 << 17) + 16   # pseudo-cell of the server object: the configured maximum
IDENT = ('conn', 'id')


def first_newline(st, o, ver):
    """terms known to be the position of the first newline of object o"""
    out = []
    for s in st.iv:
        if type(s) is tuple and s and s[0] in ('chr', 'mchr', 'cspn') and s[1] == o and s[2] == ver:
            if s[0] == 'cspn':
                if s[3] == b'\n' and s[4] == 0:
                    out.append(lin(s))
            elif s[3] == 10 and s[4] == 0:
                out.append(lin(s))
    return out


class Server:
    def __init__(self):
        self.n = {'fifo_write': 0, 'response': 0, 'request': 0, 'push': 0, 'regexec': 0}
        self.bad = 0

    # ------------------------------------------------------------- requests
    def on_request(self, I, st, o, kind, d):
        self.n['request'] += 1
        st.ghost[('req', o)] = (kind, d)
        st.ghost[('resp', o)] = ()
        st.ghost.pop(('queued', o), None)
        st.ghost.pop(('armed', o), None)

    def on_freed(self, I, st, d, ob, how):
        for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'req' and st.ghost[k][1] == d]:
            v = ob.attrs.get(('pfx', 0))
            st.ghost[('reqpfx', k[1])] = v.lower() if v is not None else None

    def pfx(self, st, o):
        if ('reqpfx', o) in st.ghost:
            return st.ghost[('reqpfx', o)]
        k, d = st.ghost.get(('req', o), (None, None))
        ob = st.mem.get(d)
        if ob is None:
            return None
        v = ob.attrs.get(('pfx', 0))
        return v.lower() if v is not None else None

    def on_tls_write(self, I, st, o, p, n, f):
        c = models.cstr(I, st, p)
        if c is not None and type(n) is int and n < len(c):
            c = c[:n]
        self.respond(I, st, o, c, False)

    def on_tls_write_line(self, I, st, o, p):
        self.respond(I, st, o, self.text(I, st, p), True)

    def text(self, I, st, p):
        """leading constant text of a line"""
        c = models.content(I, st, p)
        if type(c) is tuple and c and c[0] == 'tpl' and len(c) > 1 and type(c[1]) is bytes:
            return c[1]
        return c if type(c) is bytes else None

    def respond(self, I, st, o, text, line):
        k = ('resp', o)
        r = st.ghost.get(k)
        if r is None:
            r = ()
        if r and not r[-1][1]:
            r = r[:-1] + (((r[-1][0] or b'') + (text or b''), line),)
        else:
            r = r + ((text, line),)
        st.ghost[k] = r
        self.n['response'] += 1
        if text is not None and line and len(r) == 1 and text[:4].upper() == b'MOIN':
            self.moin(I, st, o)

    def moin(self, I, st, o):
        c = tlsapi.get(st, o)
        kind, d = st.ghost.get(('req', o), (None, None))
        p = self.pfx(st, o)
        ok = kind == 'line' and p is not None and p.startswith(b'moin')
        v = st.ghost.get(('number', d))
        if not ok:
            I.report(st, 'S05-moin', 'the handshake is answered with success although the request is not MOIN')
        elif v is None or not any(st.sure_ge0(ladd(x, -1)) for x in models.narrow(I, st, v)):
            I.report(st, 'S05-moin', 'the handshake is answered with success without a positive protocol version')
        c.moin = 1
        tlsapi.put(st, o, c)

    def on_atoi(self, I, st, p, r):
        self.number(I, st, p, r)

    def on_strtol(self, I, st, a, r):
        self.number(I, st, a[0], r)

    def number(self, I, st, p, r):
        q = I.to_obj(st, p)
        if q is not None:
            st.ghost[('number', q[0])] = r

    def on_tls_read_bytes(self, I, st, o, n):
        c = tlsapi.get(st, o)
        self.n['push'] += 1
        st.ghost[('armed', o)] = 'bytes'
        if not c.moin:
            I.report(st, 'S05-order', 'command data is accepted before the MOIN handshake')
        kind, d = st.ghost.get(('req', o), (None, None))
        p = self.pfx(st, o)
        if not (kind == 'line' and p is not None and p.startswith(b'push')):
            I.report(st, 'S07-push', 'command data is read without a PUSH request')
            return
        v = st.ghost.get(('number', d))
        if v is None or not is_num(n) or not any(st.same(n, x) for x in models.narrow(I, st, v)):
            I.report(st, 'S07-size', 'the number of bytes read is not the number announced by the request')
        mx = st.mem[st.ghost[('handle', 'server')][1]].cells[LIMIT][1]
        if st.tight(mx)[1] != 0 and not (is_num(n) and st.sure_ge0(lsub(mx, n))):
            I.report(st, 'S07-limit', 'a PUSH request may announce more than the configured maximum command size')

    def on_tls_read_line(self, I, st, o):
        st.ghost[('armed', o)] = 'line'

    def on_tls_shutdown(self, I, st, o):
        st.ghost[('armed', o)] = 'shutdown'

    # ------------------------------------------------------------- authorization
    def on_regexec(self, I, st, pat, s, flags, res):
        self.n['regexec'] += 1
        r = I.to_obj(st, s)
        if r is None:
            return
        o, off = r
        why = self.pattern(I, st, pat)
        if why is None:
            v = None
            for q in st.iv:
                if type(q) is tuple and q and q[0] in ('chr', 'mchr') and q[1] == o and q[3] == 93 and q[4] == 0:
                    v = lin(q)
            ob = st.mem.get(o)
            if flags != 0:
                why = 'it is matched with flags that change the meaning of the anchors'
            elif v is None:
                why = 'it is matched although no timestamp was found'
            elif not st.sure_ge0(lsub(off, v)):
                why = 'it is not matched against the text after the timestamp'
        st.ghost[('authorized', o)] = (why,)

    def pattern(self, I, st, pat):
        if not (is_lin(pat) and pat[1] == 0 and len(pat[2]) == 1):
            return 'the pattern is not one of the configured ones'
        s = pat[2][0][0]
        if s[:2] != ('p', 'optval') or not s[2] or s[2][:2] != ('p', 'opt'):
            return 'the pattern is not one of the configured ones'
        _, _, auth, name = s[2]
        if name not in SETTINGS:
            return 'the pattern was configured as %s' % (name,)
        if not auth or auth[:2] != ('p', 'auth'):
            return 'the pattern does not come from an authorization section'
        k = auth[2]
        if k == IDENT:
            return None
        if k == b'*':
            if st.ghost.get(('lookup', IDENT)) == 'none':
                return None
            return 'the pattern is taken from section "*" although the client may have a section of its own'
        return 'the pattern is taken from the section of another client'

    def on_fifo_write(self, I, st, p, n, f):
        self.n['fifo_write'] += 1
        o = None
        for k in st.ghost:
            if type(k) is tuple and k[0] == 'conn' and ('req', k[1]) in st.ghost:
                o = k[1]
        r = I.to_obj(st, p)
        if o is None or r is None:
            I.report(st, 'S01-auth', 'something is queued that no client sent')
            return
        c = tlsapi.get(st, o)
        if not c.moin:
            I.report(st, 'S05-order', 'a command is queued before the MOIN handshake')
        kind, d = st.ghost[('req', o)]
        if r[0] != d or r[1] != 0 or kind != 'bytes':
            I.report(st, 'S01-exact', 'what is queued is not the data the client sent')
            return
        if ('queued', o) in st.ghost:
            I.report(st, 'S01-exact', 'a command is queued twice')
        st.ghost[('queued', o)] = 1
        ob = st.mem[d]
        size = ladd(ob.size, -1)
        if not is_num(n) or not st.same(n, size):
            I.report(st, 'S01-exact', 'the number of bytes queued is not the number of bytes received')
        g = st.ghost.get(('authorized', d))
        if g is None:
            I.report(st, 'S01-auth', 'a command is queued without having matched a pattern')
        elif g[0] is not None:
            I.report(st, 'S01-auth', 'a command is queued that is not properly authorized: %s' % g[0])
        L = models.length(I, st, d, 0)
        if not (is_num(n) and st.sure_ge0(lsub(L, n)) and st.sure_ge0(lsub(n, L))):
            I.report(st, 'S01-nul', 'bytes behind a NUL character are queued although they were not checked')
        nl = first_newline(st, d, ob.ver)
        if not nl:
            I.report(st, 'S02-newline', 'a command is queued that may not be newline-terminated')
        elif not any(st.same(ladd(x, 1), n) for x in nl):
            I.report(st, 'S02-embedded', 'a command is queued that may hold an embedded newline')
        if not any(type(q) is tuple and q and q[0] in ('chr', 'mchr') and q[1] == d and q[3] == 93 for q in st.iv):
            I.report(st, 'S02-timestamp', 'a command is queued that may lack a timestamp')
        elif not self.starts_with(I, st, d, b'['):
            I.report(st, 'S02-timestamp', 'a command is queued that may not start with a bracketed timestamp')

    def starts_with(self, I, st, d, ch):
        ob = st.mem[d]
        v = ob.attrs.get(('pfx', 0))
        if v:
            return v[:1] == ch
        v = I.read_cell(st, d, ob, 0, 1, ('i', 8))
        return is_num(v) and st.same(v, ch[0])

    # ------------------------------------------------------------- answers
    def on_request_done(self, I, st, o, kind, d):
        r = st.ghost.pop(('resp', o), ())
        queued = st.ghost.pop(('queued', o), None)
        armed = st.ghost.pop(('armed', o), None)
        p = self.pfx(st, o)
        st.ghost.pop(('req', o), None)
        st.ghost.pop(('reqpfx', o), None)
        for k in [k for k in st.ghost if type(k) is tuple and k[0] in ('authorized', 'number')]:
            del st.ghost[k]
        lines = [t for t, l in r]
        code = lines[0][:4] if lines and lines[0] is not None else None

        def bad(rule, msg):
            I.report(st, rule, msg, where=kind)
        if r and not r[-1][1]:
            bad('S06-form', 'a response is not terminated')
        if ('conn', o) not in st.ghost:
            return
        if len(r) > 1:
            bad('S06-once', 'a request is answered more than once')
            return
        is_bail = kind == 'line' and p is not None and p.startswith(b'bail')
        if not r:
            if not is_bail:
                bad('S06-once', 'a request is not answered')
            elif armed != 'shutdown':
                bad('S06-close', 'the connection is not closed after the client gave up')
            return
        if code not in (b'OKAY', b'FAIL', b'MOIN', b'PONG', b'BAIL'):
            bad('S06-form', 'the response does not start with one of the codes of the protocol')
            return
        if code == b'BAIL' and armed != 'shutdown':
            bad('S06-close', 'the connection is kept after BAIL was sent')
        if kind == 'bytes':
            if (code == b'OKAY') != bool(queued):
                bad('S06-okay', 'a submission is %s' % ('acknowledged although it was not queued' if code == b'OKAY' else
                                                      'queued but not acknowledged'))
            elif code not in (b'OKAY', b'FAIL'):
                bad('S06-form', 'a submission is answered with %s' % code.decode())
            if armed != 'line' and code != b'BAIL':
                bad('S06-next', 'after a submission no further request is read')
            return
        if queued:
            bad('S01-exact', 'a request line is queued')
        v = (p or b'')[:4]
        if code == b'OKAY':
            if v == b'push' and armed != 'bytes':
                bad('S06-next', 'a PUSH request is acknowledged but the data is not read')
            if v in (b'quit',) and armed != 'shutdown':
                bad('S06-close', 'the connection is not closed after QUIT')
            if v not in (b'push', b'quit', b'noop'):
                bad('S06-code', 'a request that is none of PUSH, NOOP and QUIT is answered with OKAY')
        else:
            if v in (b'quit', b'noop') and p is not None and code == b'FAIL' and tlsapi.get(st, o).moin:
                bad('S06-code', 'a %s request is answered with FAIL' % v.decode().upper())
        if code == b'MOIN' and v != b'moin':
            bad('S06-code', 'a request other than MOIN is answered with MOIN')
        if code == b'PONG':
            if v != b'ping':
                bad('S06-code', 'a request other than PING is answered with PONG')
            if armed != 'shutdown':
                bad('S06-close', 'the connection is not closed after PING')
        if armed == 'bytes' and code != b'OKAY':
            bad('S06-next', 'data is read although the client was told %s' % code.decode())
        if armed is None:
            bad('S06-next', 'after the response no further request is read and the connection is not closed')

    # ------------------------------------------------------------- too long, timeout
    def on_too_long(self, I, st, o):
        st.ghost[('resp', o)] = ()
        st.ghost.pop(('armed', o), None)

    on_timeout = on_too_long

    def giveup(self, I, st, o, rule, what):
        r = st.ghost.pop(('resp', o), ())
        armed = st.ghost.pop(('armed', o), None)
        if ('conn', o) not in st.ghost:
            return
        if armed != 'shutdown':
            I.report(st, rule, 'after %s the connection is not shut down' % what, where=what)
        if len(r) != 1 or r[0][0] is None or r[0][0][:5] != b'BAIL ' or not r[0][1]:
            I.report(st, rule, 'after %s the client is not told so with one BAIL line' % what, where=what)

    def on_too_long_done(self, I, st, o):
        self.giveup(I, st, o, 'S10-bail', 'an overlong line')

    def on_timeout_done(self, I, st, o):
        self.giveup(I, st, o, 'S11-bail', 'a timeout')

    def on_connected(self, I, st, o):
        st.ghost[('armed', o)] = None

    # ------------------------------------------------------------- PSK callback (S04)
    def on_psk_begin(self, I, st, o, X, pw, maxlen):
        st.ghost['psk'] = (o, X, pw, maxlen)

    def on_set_app_data(self, I, st, o, v):
        g = st.ghost.get('psk')
        if g is not None:
            c = models.content(I, st, v)
            st.ghost['psk-id'] = c == ('client-id',)
            r = I.to_obj(st, v)
            if r is None or I.obj(st, r[0]).kind != 'heap':
                I.report(st, 'S04-identity', 'the identity recorded for the connection is not a copy of its own')

    def on_memcpy(self, I, st, d, s, n):
        g = st.ghost.get('psk')
        if g is None:
            return
        r = I.to_obj(st, d)
        if r is None or r[0] != g[2]:
            return
        if not (is_num(n) and st.sure_ge0(lsub(g[3], ladd(n, r[1])))):
            I.report(st, 'S04-bound', 'the key copied may exceed the buffer OpenSSL provides')
        c = models.content(I, st, s)
        st.ghost['psk-key'] = (c, r[1], n)

    def on_psk_result(self, I, st, o, X, pw, maxlen, v, ok):
        key = st.ghost.pop('psk-key', None)
        idok = st.ghost.pop('psk-id', None)
        st.ghost.pop('psk', None)
        me = ('client-id',)
        own, dflt = st.ghost.pop(('lookup', me), None), st.ghost.pop(('lookup', b'*'), None)
        self.n['psk'] = self.n.get('psk', 0) + 1
        if not ok:
            return
        if not is_num(v) or not st.sure_ge0(lsub(maxlen, v)):
            I.report(st, 'S04-bound', 'the key length returned may exceed the buffer OpenSSL provides')
        if idok is None:
            I.report(st, 'S04-identity', 'a client is accepted without its identity being recorded')
        elif not idok:
            I.report(st, 'S04-identity', 'the identity recorded is not the one the client authenticated as')
        if key is None:
            I.report(st, 'S04-key', 'a key is accepted that was not taken from the configuration')
            return
        c, off, n = key
        if off != 0 or not st.same(n, v):
            I.report(st, 'S04-key', 'the length returned is not the length of the key copied')
        if not (type(c) is tuple and c[0] == 'cfg' and c[2] == b'password' and c[1] and c[1][:2] == ('p', 'auth')):
            I.report(st, 'S04-key', 'the key is not the password of an authorization section')
            return
        k = c[1][2]
        if k == me:
            pass
        elif k == b'*':
            if own != 'none':
                I.report(st, 'S04-key', 'the key of section "*" is used although the client may have a section of its own')
        else:
            I.report(st, 'S04-key', 'the key of another client is used')
        # the whole password (up to the buffer) counts
        L = None
        X2 = ('X', ('p', 'cstr', c[1], 'password'))
        if X2 in st.mem:
            L = models.length(I, st, X2, 0)
            if not (st.sure_ge0(lsub(v, L)) or st.sure_ge0(lsub(v, maxlen))):
                I.report(st, 'S04-truncated', 'only a part of the configured key is compared')


def split(I, st):
    """no limit configured / a limit configured: kept apart"""
    h = st.ghost.get(('handle', 'server'))
    if h is None or ('cls', 'max') in st.ghost:
        return [st]
    out = []
    for off in [k for k, v in st.mem[h[1]].cells.items() if k == LIMIT]:
        v = st.mem[h[1]].cells[off][1]
        for c, e in ((0, lmul(v, -1)), (1, ladd(v, -1))):
            n = st.copy()
            if n.assume_ge0(e):
                n.ghost[('cls', 'max')] = c
                out.append(n)
    return out
