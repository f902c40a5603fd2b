"""Obligations of the client layer (client.c, input.c, parse.c, auth.c): C01 C02 C03 C04 C07 C08.

Stated on what the server is sent (through tls.h), what is read from standard
input, and the exit status.
"""
from core import *
import models
import tlsapi
from models import ptr

ANN = (1 << 17) + 16     # pseudo-cell of the connection: the size announced
TAG_D, TAG_S = 31, 29    # delimiter and separator whose way through the program is followed


def exit_code(I, st):
    """value of the variable the exit status is taken from"""
    o = ('g', 'exit_code')
    if o not in st.mem:
        if 'exit_code' not in I.mod.globals:
            raise Broken('variable exit_code not found')
        return 0
    return I.read_cell(st, o, st.mem[o], 0, 4, ('i', 32))


class Client:
    def __init__(self):
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ------------------------------------------------------------- requests sent
    def phase(self, st, o):
        return st.ghost.get(('cphase', o), 'new')

    def set(self, st, o, v):
        st.ghost[('cphase', o)] = v

    def on_connected(self, I, st, o):
        self.set(st, o, 'new')

    def on_tls_write_line(self, I, st, o, p):
        c = models.content(I, st, p)
        parts = c[1:] if type(c) is tuple and c and c[0] == 'tpl' else (c,) if type(c) is bytes else ()
        head = parts[0] if parts and type(parts[0]) is bytes else None
        ph = self.phase(st, o)
        self.count('request')
        if ph == 'bail-':
            self.set(st, o, 'bail')
            return
        if head is None:
            I.report(st, 'C02-request', 'a request is sent whose keyword is not constant')
            self.set(st, o, 'bad')
            return
        w = head.split(b' ')[0]
        if w == b'BAIL':
            self.set(st, o, 'bail')
            return
        exp = {'new': (b'MOIN',), 'ready': (b'PUSH', b'QUIT')}.get(ph, ())
        if w == b'NOOP' and ph == 'ready':
            self.set(st, o, 'noop?')
            return
        if w not in exp:
            I.report(st, 'C04-order' if w == b'PUSH' and ph in ('new', 'moin?') else 'C02-order',
                     'request %s is sent in the wrong place (%s)' % (w.decode('latin1'), DESC.get(ph, ph)))
            self.set(st, o, 'bad')
            return
        if w == b'MOIN':
            if not (head.startswith(b'MOIN 1 ') or parts[:1] == (b'MOIN 1',)):
                I.report(st, 'C04-version', 'MOIN does not announce protocol version 1')
            self.set(st, o, 'moin?')
        elif w == b'QUIT':
            if len(parts) != 1 or head != b'QUIT':
                I.report(st, 'C02-request', 'malformed QUIT request')
            if self.unsent(I, st, o):
                I.report(st, 'C01-quit', 'the client says QUIT although it may not have submitted all of its input')
            self.set(st, o, 'quit?')
        else:
            n = None
            for x in parts[1:]:
                if type(x) is tuple and x and x[0] == 'num':
                    n = x[2]
                    break
            if n is None and len(parts) == 1:
                try:
                    n = int(head.split(b' ')[1])
                except Exception:
                    pass
            if n is None or not is_num(n):
                I.report(st, 'C02-size', 'the size announced cannot be determined')
                self.set(st, o, 'bad')
                return
            I.i64slots.add((o, ANN))
            models.set_cell(st, o, ANN, 8, n)
            self.set(st, o, 'push?')
            self.line(I, st, n)

    def line(self, I, st, n):
        """what is announced is a parsed record followed by a newline"""
        for b in [k[1] for k in st.ghost if type(k) is tuple and k[0] == 'parsed']:
            ob = st.mem.get(b)
            if ob is None or ob.status != 'alive':
                continue
            fn, L = st.ghost[('parsed', b)]
            c = [v for off, (sz, v) in ob.cells.items() if sz == 1 and st.same(off, L)]
            if c != [10] or not st.same(n, ladd(L, 1)):
                I.report(st, 'C03-newline', 'what is announced is not a command followed by exactly one newline')
            models.set_attr(st, b, content=('line', fn))
            st.ghost.pop(('parsed', b))

    def on_parsed(self, I, st, nm, a, o, L):
        st.ghost[('parsed', o)] = (nm, L)
        mode = st.ghost.get(('cls', 'mode'))
        self.count('record')
        if nm != {'COMMAND': 'parse_command', 'CHECK_RESULT': 'parse_check_result'}[mode[0]]:
            I.report(st, 'C03-mode', 'a record is parsed as the wrong kind of input')
        if mode[1] and len(a) > 1 and a[1] != TAG_D:
            I.report(st, 'C03-delimiter', 'the record is not split at the configured delimiter')

    def on_read_chunk(self, I, st, b, sep):
        mode = st.ghost.get(('cls', 'mode'))
        if mode[0] == 'COMMAND':
            if sep != 10:
                I.report(st, 'C03-separator', 'raw commands are not separated at newlines')
        elif mode[1] and sep != TAG_S:
            I.report(st, 'C03-separator', 'records are not separated at the configured separator')

    def on_tls_connect(self, I, st, a):
        if a[2] != st.ghost.get(('cls', 'timeout')):
            I.report(st, 'C01-timeout', 'the connection does not use the configured timeout')
        if a[1] != lin(('p', 'e', 'server')):
            I.report(st, 'C01-server', 'the connection is not made to the configured server')

    def on_tls_client_start(self, I, st, a):
        if a[0] != lin(('p', 'e', 'ciphers')):
            I.report(st, 'S08-ciphers', 'the TLS client does not use the configured ciphers')

    def unsent(self, I, st, o):
        if not st.ghost.get('eof'):
            return True
        for b, ob in st.mem.items():
            if ob.status == 'alive' and ob.attrs.get('res') == 'buffer' and not st.same(ob.cells[0][1], 0):
                return True
        return False

    def on_tls_write(self, I, st, o, p, n, f):
        ph = self.phase(st, o)
        c = models.cstr(I, st, p)
        if c is not None and type(n) is int and n <= len(c) and c[:n] == b'BAIL ':
            self.set(st, o, 'bail-')
            return
        self.count('data')
        if ph != 'okay':
            I.report(st, 'C02-order', 'data is sent in the wrong place (%s)' % DESC.get(ph, ph))
            self.set(st, o, 'bad')
            return
        a = st.mem[o].cells.get(ANN)
        if a is None or not is_num(n) or not st.same(n, a[1]):
            I.report(st, 'C02-size', 'the number of bytes sent is not the number announced')
        r = I.to_obj(st, p)
        c = I.obj(st, r[0]).attrs.get('content') if r is not None else None
        if r is None or r[1] != 0 or not (type(c) is tuple and c[0] == 'line'):
            I.report(st, 'C03-data', 'what is sent is not the command that was built from the input')
        self.set(st, o, 'data?')

    # ------------------------------------------------------------- responses
    def on_request(self, I, st, o, kind, d):
        """a response arrives"""
        ph = self.phase(st, o)
        st.ghost[('resp', o)] = (ph, d)
        st.ghost.pop(('respok', o), None)
        self.count('response')
        if kind != 'line':
            I.report(st, 'C02-order', 'the client reads bytes instead of a line')

    def on_strcmp(self, I, st, p, q, n, eq):
        pass

    def known(self, st, d):
        """what is known about a received line: (keyword, exactly)"""
        ob = st.mem.get(d)
        if ob is None:
            return None
        v = ob.attrs.get(('pfx', 0))
        if v is None:
            return None
        ex = any(type(k) is tuple and k[0] == 'cmp' and k[2] == 0 and k[4] and a == 0 for k, a in ob.attrs.items())
        return (v[:4].upper(), ex)

    def on_freed(self, I, st, d, ob, how):
        for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'resp' and st.ghost[k][1] == d]:
            x = State()
            x.mem[d] = ob
            st.ghost[('respok', k[1])] = (self.known(x, d),)
        if ('conn', d) in st.ghost or ob.attrs.get('res') == 'conn':
            pass

    def verdict(self, st, o):
        g = st.ghost.get(('resp', o))
        if g is None:
            return None
        k = st.ghost.get(('respok', o))
        return k[0] if k is not None else self.known(st, g[1])

    def answered(self, I, st, o, ph):
        """phase after the outstanding response turned out to be right, or None"""
        v = self.verdict(st, o)
        if v is None:
            return None
        if ph == 'moin?':
            if v[0] == b'MOIN':
                n = st.ghost.get(('number', st.ghost[('resp', o)][1]))
                if n is not None and any(st.same(x, 1) for x in models.narrow(I, st, n)):
                    return 'ready'
            return None
        if v == (b'OKAY', True):
            return {'push?': 'okay', 'data?': 'ready', 'quit?': 'acked', 'noop?': 'ready'}.get(ph)
        return None

    def on_atoi(self, I, st, p, r):
        self.number(I, st, p, r)

    def on_strtol(self, I, st, a, r):
        self.number(I, st, a[0], r)

    def number(self, I, st, p, r):
        q = I.to_obj(st, p)
        if q is not None:
            st.ghost[('number', q[0])] = r

    def advance(self, I, st, o):
        ph = self.phase(st, o)
        if ph.endswith('?') and ('resp', o) in st.ghost:
            n = self.answered(I, st, o, ph)
            if n is not None:
                self.set(st, o, n)
                st.ghost.pop(('resp', o))
                st.ghost.pop(('respok', o), None)

    # every interface call that depends on the phase looks at the response first
    def pre(self, I, st):
        for k in [k[1] for k in st.ghost if type(k) is tuple and k[0] == 'conn']:
            self.advance(I, st, k)

    def on_request_done(self, I, st, o, kind, d):
        if ('conn', o) not in st.ghost:
            return
        self.advance(I, st, o)
        c = tlsapi.get(st, o)
        ph = self.phase(st, o)
        st.ghost.pop(('resp', o), None)
        st.ghost.pop(('respok', o), None)
        if c.phase == 'closing':
            if ph not in ('acked', 'bail') and self.ok(I, st):
                I.report(st, 'C01-exit', 'the connection is given up without success, but the exit status stays successful')
            return
        if ph.endswith('?') and c.rd is None:
            I.report(st, 'C02-order', 'a response other than the expected one does not end the session')
        for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'number']:
            del st.ghost[k]

    def ok(self, I, st):
        v = exit_code(I, st)
        return not (is_num(v) and (st.sure_ge0(ladd(v, -1)) or st.sure_ge0(ladd(lmul(v, -1), -1)) or st.cmp('ne', v, 0) is True))

    def boundary(self, I, st):
        """nothing left to wait for: the program ends"""
        cs = tlsapi.conns(st)
        if not cs and 'tls_client' not in st.ghost and not tlsapi.waiting(st):
            self.count('end')
            if self.ok(I, st) and not st.ghost.get('acked'):
                I.report(st, 'C01-exit', 'the program ends successfully although the server did not acknowledge QUIT')

    def on_exit(self, I, st, nm, code):
        if nm in ('exit', '_exit') and code is not None and not (is_num(code) and st.cmp('ne', code, 0) is True):
            if not st.ghost.get('acked'):
                I.report(st, 'C01-exit', 'the program may exit successfully although the server did not acknowledge QUIT')

    def on_tls_shutdown(self, I, st, o):
        self.advance(I, st, o)
        if self.phase(st, o) == 'acked':
            st.ghost['acked'] = 1

    # ------------------------------------------------------------- standard input
    def on_read_result(self, I, st, fd, what):
        if what == 'eof':
            st.ghost['eof'] = 1

    def on_read(self, I, st, fd, p, n):
        self.count('input')
        if fd != 0:
            I.report(st, 'C03-input', 'input is read from something else than standard input')
        for o in tlsapi.conns(st):
            self.advance(I, st, o)
            if self.phase(st, o) != 'ready':
                I.report(st, 'C02-input', 'input is read while the server has not acknowledged what was sent')

    # ------------------------------------------------------------- key callback
    def on_pskc_begin(self, I, st, o, ido, idl, pwo, pwl):
        st.ghost['pskc'] = (ido, idl, pwo, pwl)

    def on_memcpy(self, I, st, d, s, n):
        g = st.ghost.get('pskc')
        r = I.to_obj(st, d)
        if g is None or r is None or r[0] not in (g[0], g[2]):
            return
        st.ghost[('pskcopy', 'id' if r[0] == g[0] else 'pw')] = (models.content(I, st, s), r[1], n, s)

    def on_pskc_result(self, I, st, o, ido, idl, pwo, pwl, v, ok):
        i, w = st.ghost.pop(('pskcopy', 'id'), None), st.ghost.pop(('pskcopy', 'pw'), None)
        st.ghost.pop('pskc', None)
        self.count('psk')
        if not ok:
            return
        if not is_num(v) or not st.sure_ge0(lsub(pwl, v)):
            I.report(st, 'C08-bound', 'the key length returned may exceed the buffer OpenSSL provides')
        for nm, c, key in (('identity', i, b'identity'), ('key', w, b'password')):
            if c is None or c[1] != 0 or c[0] != ('conf', key):
                I.report(st, 'C08-value', 'the %s given to OpenSSL is not the configured one' % nm)
                return
        if not st.same(w[2], v):
            I.report(st, 'C08-value', 'the key length returned is not the length of the key copied')
        for nm, c, lim, slack in (('identity', i, idl, 1), ('key', w, pwl, 0)):
            r = I.to_obj(st, c[3])
            L = models.length(I, st, r[0], r[1])
            if not (st.sure_ge0(lsub(c[2], L)) or st.sure_ge0(lsub(ladd(c[2], slack), lim))):
                I.report(st, 'C08-truncated', 'only a part of the configured %s is used' % nm)
        t = I.read_cell(st, ido, st.mem[ido], i[2], 1, ('i', 8)) if ido in st.mem else None
        if not (is_num(t) and st.same(t, 0)):
            I.report(st, 'C08-term', 'the identity given to OpenSSL is not terminated')


class Parser:
    """what parse.c makes of a record (the scenario `parse`)"""

    def __init__(self):
        self.n = {}
        self.kinds = set()

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def on_lacks(self, I, st, o, off, cs):
        """the text does not contain these characters"""
        k = ('lacks', o, off)
        if cs is None:
            st.ghost[k] = None
        elif st.ghost.get(k, frozenset()) is not None:
            st.ghost[k] = st.ghost.get(k, frozenset()) | cs

    def parts(self, I, st, v):
        r = I.to_obj(st, v)
        if r is None or r[1] != 0:
            return None
        ob = I.obj(st, r[0])
        if 'tpl' in ob.attrs:
            return ob.attrs['tpl']
        c = ob.attrs.get('content')
        return (('str', c),) if type(c) is tuple and c and c[0] == 'at' else None

    @staticmethod
    def flat(t):
        out = []
        for x in t:
            x = x if type(x) is bytes else b'\0n' if x[0] == 'num' else b'\0s' if x[0] == 'str' else b'\0?'
            if out and type(x) is bytes and out:
                out[-1] += x
            else:
                out.append(x)
        return out[0] if out else b''

    def first(self, I, st, at):
        """the first character of a text, if known"""
        o, off, ver = at[1:4]
        if o not in st.mem:
            return None
        c = I.read_cell(st, o, st.mem[o], off, 1, ('i', 8))
        if is_num(c):
            lo, hi = st.bounds(c) if hasattr(st, 'bounds') else st.iv.get(c, (None, None))
            if lo is not None and lo == hi:
                return lo
        v = st.mem[o].attrs.get(('pfx', off))
        if v:
            return v[0]
        return None

    def result(self, I, st, fn, rec, v):
        t = self.parts(I, st, v)
        self.count(fn)
        if t is None:
            return
        fl = self.flat(t)
        if fn == 'parse_command':
            if fl == b'\0s':
                c = self.first(I, st, t[0][1])
                if c != 91:
                    I.report(st, 'C03-command', 'a raw command is sent without a timestamp although it may not start with one')
            elif fl != b'[\0n] \0s':
                I.report(st, 'C03-command', 'a raw command is not put behind a bracketed timestamp')
            else:
                self.stamp(I, st, t)
            self.kinds.add('raw' if fl == b'\0s' else 'stamped')
            return
        n = {b'[\0n] PROCESS_HOST_CHECK_RESULT;\0s;\0s;\0s': 3,
             b'[\0n] PROCESS_SERVICE_CHECK_RESULT;\0s;\0s;\0s;\0s': 4}.get(fl)
        if n is None:
            I.report(st, 'C03-command', 'the command built is neither a host check result with three fields nor a service check '
                     'result with four')
            return
        self.kinds.add(n)
        self.stamp(I, st, t)
        fs = [x for x in t if type(x) is tuple and x[0] == 'str']
        ats = [x[2] if len(x) > 2 else x[1] for x in fs]
        if any(type(a) is not tuple or a[0] != 'at' for a in ats):
            return
        if len({a[1] for a in ats}) != 1:
            I.report(st, 'C03-fields', 'the fields are not taken from the same text')
            return
        o = ats[0][1]
        if o == rec:
            k = st.ghost.get(('lacks', o, 0), frozenset([10]))
            if k is not None and not k >= {10}:
                I.report(st, 'C03-newline', 'text that may contain newlines is sent without having been escaped')
        offs = [a[2] for a in ats]
        if not all(is_num(x) for x in offs):
            return
        if st.sure_ge0(ladd(offs[0], -1)):
            I.report(st, 'C03-fields', 'the first field does not start where the record starts')
        for k in range(n - 1):
            d = lsub(offs[k + 1], offs[k])
            if st.sure_ge0(lmul(d, -1)):
                I.report(st, 'C03-fields', 'field %d is not behind field %d' % (k + 2, k + 1))
            p = fs[k][3] if len(fs[k]) > 3 else None
            if p is None:
                I.report(st, 'C03-fields', 'field %d is not limited to its own text' % (k + 1))
            elif is_num(p):
                e = ladd(lsub(d, p), -1)
                if st.sure_ge0(ladd(e, -1)) or st.sure_ge0(ladd(lmul(e, -1), -1)):
                    I.report(st, 'C03-fields', 'field %d does not end at the delimiter' % (k + 1))
        if len(fs[-1]) > 3 and fs[-1][3] is not None:
            I.report(st, 'C03-fields', 'the plugin output may be cut')

    def stamp(self, I, st, t):
        v = t[1][2]
        if is_num(v) and not ('time' in repr(v)):
            I.report(st, 'C03-command', 'the timestamp is not the current time')

    def finish(self, I, st):
        if 3 not in self.kinds or 4 not in self.kinds:
            I.report(st, 'C03-command', 'no record becomes a %s check result' % ('host' if 3 not in self.kinds else 'service'))


DESC = {'new': 'before MOIN', 'moin?': 'before the server accepted MOIN', 'ready': 'no request is open', 'push?': 'before the '
        'server accepted PUSH', 'okay': 'a submission was announced but not sent', 'data?': 'before the server acknowledged '
        'the submission', 'quit?': 'after QUIT', 'acked': 'after QUIT', 'bail': 'after BAIL', 'bad': 'after an error'}


def wrap(mon, models_):
    """let the monitor look at the response before every interface call"""
    out = {}
    for k, f in models_.items():
        def g(I, st, a, ins, f=f):
            mon.pre(I, st)
            return f(I, st, a, ins)
        out[k] = g
    return out


def b_conf_getstr(I, st, a, ins):
    k = models.cstr(I, st, a[1])
    if k is None:
        raise Broken('key of conf_getstr() not resolved')
    s = ('p', 'conf', k)
    st.iv[s] = (1, None)
    X = ('X', s)
    if X not in st.mem:
        st.mem[X] = Obj('ext', None, default='T', attrs={'content': ('conf', k)})
    return [(st, lin(s))]


def b_conf_getint(I, st, a, ins):
    return [(st, I.fresh(st, 'conf', lo=-(1 << 63), hi=(1 << 63) - 1))]


CONF = {'conf_getstr': b_conf_getstr, 'conf_getint': b_conf_getint}


def b_parse(I, st, a, ins):
    """parse.h: one line without newline, in memory of its own (parse.c is analysed in scenario 'parse')"""
    nm = ins.x[0][1].split('.')[0]
    if models.strobj(I, st, a[0], nm) is None:
        return []
    o = I.new_obj(st, None, 'heap', 'command', 'T', attrs={'content': ('parsed', nm)})
    n = I.fresh(st, 'cmdlen', lo=3, hi=(1 << 31) - 16)
    ob = st.mem[o].copy()
    ob.size = ladd(n, 1)
    st.mem[o] = ob
    models.set_attr(st, o, len=n)
    I.emit(st, 'parsed', nm, a, o, n)
    return [(st, ptr(o))]


PARSE = {'parse_command': b_parse, 'parse_check_result': b_parse}
