"""Obligations of the TLS layer (tls.c): S05 S07 S08 S10 S11 S12, output.

They are stated on what OpenSSL, libev and the component above see.  `t` is the
connection object, `s` the SSL object it owns.
"""
from core import *
import models
from models import ptr
from tlsapi import RDSIZE

RCV = (1 << 17) + 24     # pseudo-cells of a connection: bytes received for the request ...
RBUF = (1 << 17) + 32    # ... and the memory they went to
WOFF = (1 << 17) + 40    # pseudo-cell of a chunk of output: bytes sent
WPTR = (1 << 17) + 48    # pseudo-cell of an SSL object: the data of an unfinished write
LINE_LIMIT = 2048
LINE_MIN = 1024
READ, WRITE = 1, 2
NO_SSLV3 = 'opt25'
RAW_IO = ('read', 'write', 'recv', 'send', 'recvfrom', 'sendto', 'recvmsg', 'sendmsg', 'readv', 'writev', 'BIO_read',
          'BIO_write', 'BIO_puts', 'BIO_gets', 'sendfile')
CERT = ('SSL_CTX_use_certificate_file', 'SSL_CTX_use_certificate_chain_file', 'SSL_CTX_use_PrivateKey_file')


class Tls:
    def __init__(self, client=False):
        self.client = client
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # -------------------------------------------------------------- helpers
    def reach(self, I, target):
        """functions from which target may be called (directly)"""
        c = self.__dict__.setdefault('_reach', {})
        if target not in c:
            callers = {}
            for f in I.mod.funcs.values():
                if not f.defined:
                    continue
                for i in f.instrs():
                    if i.op == 'call' and type(i.x[0]) is tuple:
                        callers.setdefault(i.x[0][1], set()).add(f.name)
            seen, todo = set(), [target]
            while todo:
                x = todo.pop()
                for y in callers.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            c[target] = seen
        return c[target]

    def owner(self, st, s):
        """the connection holding SSL object s"""
        p = ptr(s)
        for o, ob in st.mem.items():
            if ob.status == 'alive' and ob.kind == 'heap' and o != s:
                for sz, v in ob.cells.values():
                    if v == p:
                        return o
        return None

    def ssl_of(self, st, t):
        for sz, v in st.mem[t].cells.values():
            if is_ptr(v) and ('ssl', v[1]) in st.ghost:
                return v[1]
        return None

    def watchers(self, st, t, kind='io'):
        """[(offset, callback, active, pending, events)]"""
        out = []
        for k, v in st.ghost.items():
            if type(k) is tuple and k[0] == 'ev' and k[1] == t and v[0] == kind:
                ob = st.mem[t]
                cb = ob.cells.get(k[2] + models.EV_CB)
                cb = cb[1][1] if cb and type(cb[1]) is tuple and cb[1][0] == 'F' else '?'
                ev = ob.cells.get(k[2] + models.EV_EVENTS)
                out.append((k[2], cb, v[1], v[2], ev[1] if ev else None))
        return out

    def cell(self, st, o, off):
        c = st.mem[o].cells.get(off)
        return c[1] if c else None

    def setcell(self, I, st, o, off, v):
        I.i64slots.add((o, off))
        models.set_cell(st, o, off, 8, v)

    # -------------------------------------------------------------- S08: transport
    def on_cipher_list(self, I, st, ctx, p):
        want = lin(('p', 'e', 'ciphers'))
        if p != want:
            I.report(st, 'S08-ciphers', 'the cipher list set is not the configured one')

    def on_ctx_ctrl(self, I, st, ctx, cmd, arg):
        pass

    def on_SSL_new(self, I, st, s, ctx):
        self.count('SSL_new')
        g = st.ghost.get(('sslctx', ctx)) or ()
        if NO_SSLV3 not in g and not any(x.startswith('minproto') and x != 'minproto0' and x != 'minproto768' for x in g):
            I.report(st, 'S08-sslv3', 'a connection object is created although SSLv3 was not disabled')
        if 'ciphers-failed' in g:
            I.report(st, 'S08-ciphers', 'a connection object is created although the configured ciphers were refused')
        elif 'ciphers' not in g:
            I.report(st, 'S08-ciphers', 'a connection object is created without the configured ciphers')

    def on_ssl_up(self, I, st, s):
        self.count('handshake')

    def on_write(self, I, st, s, g, fd, p, n):
        I.report(st, 'S08-raw', 'write() is called on a descriptor of the TLS layer')

    def on_read(self, I, st, fd, p, n):
        I.report(st, 'S08-raw', 'read() is called in the TLS layer')

    def on_extcall(self, I, st, name, args):
        if name in RAW_IO:
            I.report(st, 'S08-raw', '%s() bypasses TLS' % name)

    # -------------------------------------------------------------- S05: identity
    def on_up_connected(self, I, st, t):
        self.count('connected')
        s = self.ssl_of(st, t)
        if s is None or st.ghost.get(('ssl', s)) != 'up':
            I.report(st, 'S05-early', 'a connection is handed over before its TLS handshake has succeeded')
            return
        if self.client:
            return
        v = self.cell(st, t, I.mod.fields('tls_state_s')[0]['id'])
        ok = is_ptr(v) and v[1] in st.mem and st.mem[v[1]].status == 'alive' and v[2] == 0
        if not ok or not st.mem[v[1]].attrs.get('identity'):
            I.report(st, 'S05-identity', 'a connection is handed over without the identity the client authenticated as')

    # -------------------------------------------------------------- reading
    def want(self, I, st, t):
        v = self.cell(st, t, RDSIZE)
        if is_num(v) and st.same(v, 0):
            return 0
        return v

    def on_ssl_read(self, I, st, s, p, n):
        t = self.owner(st, s)
        if t is None:
            return
        self.count('ssl_read')
        st.ghost.pop(('rdreq', t), None)
        st.ghost[('io', t)] = 1
        if st.ghost.get(('ssl', s)) not in ('up', 'dead'):
            I.report(st, 'S05-early', 'application data is read before the TLS handshake has succeeded')
        if st.ghost.get(('long', t)):
            I.report(st, 'S10-stop', 'reading goes on after the line was found to be too long')
        v = self.want(I, st, t)
        if v == 0:
            b = self.inbuf(st, t)
            sz = self.cell(st, b, 0) if b is not None else 0
            tot = ladd(sz, n) if is_num(sz) and is_num(n) else None
            if tot is None or not st.sure_ge0(lsub(LINE_LIMIT, tot)):
                I.report(st, 'S10-limit', 'more than %d bytes of a request line may be buffered' % LINE_LIMIT)

    def inbuf(self, st, t):
        for k, v in st.ghost.items():
            if type(k) is tuple and k[0] == 'data' and v == 'inbuf' and k[1] in st.mem and st.mem[k[1]].status == 'alive':
                return k[1]
        return None

    def on_ssl_read_ok(self, I, st, s, r, n, k):
        t = self.owner(st, s)
        if t is None:
            return
        if r[0] == '?':
            I.report(st, 'S07-read', 'data is received into memory that is not known')
            return
        v = self.want(I, st, t)
        if v == 0:
            self.lost(I, st, t)
            st.ghost[('got', t)] = (r[0], r[1], k)
            return
        rc = self.cell(st, t, RCV)
        rb = self.cell(st, t, RBUF)
        if rc is None:
            return
        if not st.same(rc, r[1]) or not (st.same(rc, 0) or (is_ptr(rb) and rb[1] == r[0])):
            I.report(st, 'S07-read', 'received data is not stored right behind the data received before')
        self.setcell(I, st, t, RCV, st.simp(ladd(rc, k)) if is_num(rc) else 0)
        models.set_cell(st, t, RBUF, 8, ptr(r[0]))

    def on_buffer_append(self, I, st, b, p, n):
        t = st.ghost.get('current')
        w = st.ghost.get(('wr', 'now'))
        if w is not None:
            st.ghost[('data', b)] = 'outbuf'
            return
        for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'got']:
            g = st.ghost[k]
            r = I.to_obj(st, p)
            if r is not None and r[0] == g[0]:
                st.ghost[('data', b)] = 'inbuf'
                if not st.same(r[1], g[1]) or not st.same(n, g[2]):
                    I.report(st, 'S10-append', 'what is buffered is not exactly what was received')
                del st.ghost[k]

    def on_buffer_read_line(self, I, st, b, o):
        st.ghost[('line', o)] = b

    def lost(self, I, st, t):
        """line mode: everything received must have been put into the buffer"""
        if self.want(I, st, t) == 0 and ('got', t) in st.ghost:
            I.report(st, 'S10-append', 'received data of a request line is dropped')

    def on_op_read(self, I, st, t, kind):
        self.count('read request')
        self.setcell(I, st, t, RCV, 0)
        models.set_cell(st, t, RBUF, 8, 0)
        st.ghost[('cls', t)] = kind
        st.ghost[('rdreq', t)] = 1
        st.ghost[('rdpend', t)] = 1

    def on_up_error(self, I, st, t):
        self.quiet(I, st, t, 'an error')
        st.ghost[('closing', t)] = 1

    def quiet(self, I, st, t, what):
        if st.ghost.get(('closing', t)):
            I.report(st, 'S09-callback', '%s is reported for a connection its user has given up' % what)

    def on_up_read(self, I, st, t, p, want):
        self.quiet(I, st, t, 'received data')
        self.count('delivered')
        if ('rdpend', t) not in st.ghost:
            I.report(st, 'S12-spurious', 'data is delivered that was not requested')
        st.ghost.pop(('rdpend', t), None)
        for w in self.watchers(st, t):
            if w[2] and w[1] in self.reach(I, 'SSL_read'):
                I.report(st, 'S12-stop', 'the connection is still being read from while a request is handled')
        r = I.to_obj(st, p)
        if r is None or not st.same(r[1], 0):
            I.report(st, 'S07-read', 'what is delivered is not the start of the data received')
            return
        if is_num(want) and st.same(want, 0):
            b = st.ghost.pop(('line', r[0]), None)
            if b is None or st.ghost.get(('data', b)) not in ('inbuf', None):
                I.report(st, 'S10-line', 'what is delivered as a line was not taken from the data received')
            return
        rc, rb = self.cell(st, t, RCV), self.cell(st, t, RBUF)
        if not (is_ptr(rb) and rb[1] == r[0]):
            I.report(st, 'S07-read', 'what is delivered is not the data received')
            return
        if rc is None or not st.same(rc, want):
            I.report(st, 'S07-read', 'data is delivered although not exactly the requested number of bytes was received')
            return
        z = I.read_cell(st, r[0], st.mem[r[0]], want, 1, ('i', 8))
        if z != 0 and not (is_num(z) and st.same(z, 0)):
            I.report(st, 'S07-nul', 'the data delivered is not terminated')

    def on_up_long(self, I, st, t):
        self.count('too long')
        self.quiet(I, st, t, 'an overlong line')
        st.ghost[('long', t)] = 1
        b = self.inbuf(st, t)
        sz = self.cell(st, b, 0) if b is not None else 0
        if self.want(I, st, t) != 0:
            I.report(st, 'S10-long', 'command data is refused as an overlong line')
        elif not is_num(sz) or not st.sure_ge0(ladd(sz, -LINE_MIN)):
            I.report(st, 'S10-short', 'a request line is refused although it may be shorter than %d bytes' % LINE_MIN)

    # -------------------------------------------------------------- writing
    def on_op_write(self, I, st, t, own):
        st.ghost[('wr', 'now')] = (t, own)
        self.count('write request')

    def on_op_written(self, I, st, t, own):
        st.ghost.pop(('wr', 'now'), None)
        if own is not None and own in st.mem and st.mem[own].status == 'alive':
            st.ghost[('data', own)] = 'out'
            self.setcell(I, st, own, WOFF, 0)

    def on_buffer_slurp(self, I, st, b, o, sz):
        if st.ghost.get(('data', b)) == 'outbuf':
            if not (sz == 0 or st.same(sz, 0)):
                st.ghost[('data', o)] = 'out'
            self.setcell(I, st, o, WOFF, 0)

    def on_ssl_write(self, I, st, s, p, n):
        t = self.owner(st, s)
        if t is None:
            return
        self.count('ssl_write')
        st.ghost[('io', t)] = 1
        if st.ghost.get(('ssl', s)) not in ('up', 'dead'):
            I.report(st, 'S05-early', 'application data is sent before the TLS handshake has succeeded')
        r = I.to_obj(st, p)
        if r is None:
            I.report(st, 'S06-sent', 'data is sent from memory that is not known')
            return
        o = r[0]
        w = self.cell(st, o, WOFF)
        if w is None:
            I.report(st, 'S06-sent', 'something is sent that was not requested')
            return
        if not st.same(r[1], w):
            I.report(st, 'S06-sent', 'what is sent does not start where the previous piece ended')
        sz = st.mem[o].size
        if sz is not None and is_num(n) and not st.same(ladd(r[1], n), sz):
            I.report(st, 'S06-sent', 'what is sent does not extend to the end of the data')
        # the start and the end are checked above, and the start moves on only after a success
        x = self.cell(st, s, WPTR)
        if x is not None and x != 0 and x != ptr(o):
            I.report(st, 'S12-retry', 'an unfinished SSL_write() is not repeated with the same data')
        models.set_cell(st, s, WPTR, 8, ptr(o))

    def on_ssl_write_ok(self, I, st, s, r, n, k):
        if r[0] == '?' or r[0] not in st.mem:
            return
        models.set_cell(st, s, WPTR, 8, 0)
        w = self.cell(st, r[0], WOFF)
        if w is not None and is_num(w):
            self.setcell(I, st, r[0], WOFF, st.simp(ladd(w, k)))

    def on_freed(self, I, st, o, ob, how):
        d = st.ghost.pop(('data', o), None)
        if d == 'out':
            w = ob.cells.get(WOFF)
            if w is None or not st.same(w[1], ob.size):
                st.ghost[('short', o)] = 1
        elif d == 'outbuf':
            c = ob.cells.get(0)
            if c is None or not st.same(c[1], 0):
                st.ghost[('short', o)] = 1
        s = ('ssl', o)
        if s in st.ghost or ob.attrs.get('res') == 'SSL':
            for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'short']:
                del st.ghost[k]

    # -------------------------------------------------------------- S11, S12
    def on_fire(self, I, st, nm, kind, o, off):
        st.ghost['fired'] = (nm, kind, o, off)

    def on_ssl_want(self, I, st, s, v):
        st.ghost['want'] = (s, v)
        self.count('want')

    def on_up_timeout(self, I, st, t):
        self.count('timeout')
        self.quiet(I, st, t, 'a timeout')

    def on_ssl_shutdown(self, I, st, s):
        t = self.owner(st, s)
        if t is not None:
            st.ghost[('shut', t)] = 1
            self.count('shutdown')

    def pending(self, st, t):
        for k, v in st.ghost.items():
            if type(k) is tuple and k[0] == 'data':
                ob = st.mem.get(k[1])
                if ob is None or ob.status != 'alive':
                    continue
                if v == 'out':
                    w = ob.cells.get(WOFF)
                    if w is None or not is_num(w[1]) or not st.same(w[1], ob.size):
                        return 'data'
                elif v == 'outbuf':
                    z = ob.cells[0][1]
                    if is_num(z) and st.sure_ge0(ladd(z, -1)):
                        return 'data'
        return None

    def on_event_end(self, I, st, nm):
        fired = st.ghost.pop('fired', None)
        want = st.ghost.pop('want', None)
        for s in [k[1] for k in st.ghost if type(k) is tuple and k[0] == 'ssl']:
            t = self.owner(st, s)
            if t is None:
                continue
            self.check(I, st, nm, t, s, fired, want)
        for k in [k for k in st.ghost if type(k) is tuple and k[0] in ('io', 'got', 'rdreq', 'line', 'short', 'long', 'wr')]:
            del st.ghost[k]

    def check(self, I, st, nm, t, s, fired, want):
        nm = nm.split('.')[0]

        def bad(rule, msg):
            I.report(st, rule, msg, where=nm)
        io = self.watchers(st, t)
        act = [w for w in io if w[2]]
        if want is not None and want[0] == s and fired is not None and fired[2] == t and fired[1] == 'io':
            bit = READ if want[1] == 2 else WRITE
            self.count('want checked')
            w = [w for w in io if w[0] == fired[3]]
            if not w or not (w[0][2] or w[0][3]):
                bad('S12-want', 'OpenSSL waits for the socket, but the watcher of the operation is not active')
            elif type(w[0][4]) is not int or not (w[0][4] & bit):
                bad('S12-want', 'OpenSSL waits for the socket to become %s, but the watcher of the operation does not' % (
                    'readable' if bit == READ else 'writable'))
        if ('io', t) in st.ghost and fired is not None and fired[2] == t:
            for w in act:
                if w[0] != fired[3] and not w[3]:
                    bad('S12-other', 'after TLS input/output in one direction, the other direction is not tried again')
        R = self.reach(I, 'SSL_read')
        if ('rdreq', t) in st.ghost and ('shut', t) not in st.ghost:
            # read requested, and nothing tried so far: data may already be waiting inside OpenSSL
            if not any(w[1] in R and w[3] for w in io):
                bad('S12-request', 'a read request waits for the socket although OpenSSL may hold the data already')
        if ('rdpend', t) in st.ghost and not st.ghost.get(('closing', t)):
            if not any(w[1] in R and (w[2] or w[3]) for w in io):
                bad('S12-request', 'a read request is outstanding, but nothing waits for the data')
        if self.pending(st, t):
            W = self.reach(I, 'SSL_write')
            if not any(w[1] in W and (w[2] or w[3]) for w in io):
                bad('S06-stuck', 'output is pending, but nothing waits for the socket')
            if ('shut', t) in st.ghost:
                bad('S06-shutdown', 'the connection is shut down while output is pending')
        elif st.ghost.get(('closing', t)):
            D = self.reach(I, 'SSL_shutdown')
            if not any(w[1] in D and (w[2] or w[3]) for w in io):
                bad('S06-shutdown', 'the connection should be shut down, but nothing does that')
        for k in st.ghost:
            if type(k) is tuple and k[0] == 'short':
                bad('S06-sent', 'output is dropped before all of it was sent')
                break
        self.lost(I, st, t)
        if ('got', t) in st.ghost and False:
            pass
        h = self.watchers(st, t, 'timer')
        if not any(w[2] or w[3] for w in h):
            bad('S11-armed', 'a connection is left without an active timeout')

    # -------------------------------------------------------------- C01 (client)
    def silent(self, I, st):
        """boundary: a connection that is to end the program when it fails is still there, unless its user gave it up"""
        if not st.ghost.get(('cls', 'autodie')) or st.ghost.get('gaveup'):
            return
        if not any(type(k) is tuple and k[0] == 'ssl' for k in st.ghost):
            I.report(st, 'C01-silent', 'a connection ended without its user having given it up, and the program goes on')

    def finish(self, I):
        """what must be possible at all"""
        for k, rule, msg in (('handshake', None, 'TLS handshakes never succeed'), ('delivered', None, 'nothing is ever received'),
                             ('timeout', 'S11-fires', 'the timeout of a connection never takes effect'),
                             ('shutdown', None, 'connections are never shut down')):
            if not self.n.get(k):
                if rule is None:
                    raise Broken('vacuous analysis: ' + msg)
                I.report(I.any_state, rule, msg, where='timeout')
