"""Abstract models of the C library, OpenSSL, libev, libConfuse and POSIX calls.

Each model gets (I, st, args, ins) and returns [(state, return value)]; an
empty list ends the path.  Models over-approximate: a call that may fail is
analysed both ways.
"""
import re
from core import *

M = {}
STALE_FD = 0x7ffffff0     # a descriptor number that was closed before the last event boundary


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


ERRNO = ('g', '$errno')


def ptr(o, off=0):
    if o[0] == 'X':
        return ladd(lin(o[1]), off)
    return ('P', o, off)


def set_errno(I, st, v=None):
    if v is None:
        v = I.fresh(st, 'errno', lo=1, hi=200)
    st.mem[ERRNO] = Obj('global', 4, cells={0: (4, v)}, default='Z')


def nonzero_ret(I, st, tag, lo=None, hi=None):
    return I.fresh(st, tag, lo=lo, hi=hi)


def fork(st):
    return st.copy()


def cstr(I, st, p):
    """constant string behind p, or None"""
    r = I.to_obj(st, p)
    if r is None:
        return None
    o, off = r
    ob = I.obj(st, o)
    if ob is None or type(off) is not int:
        return None
    b = ob.attrs.get('bytes')
    if b is not None and ob.default == 'B' and not ob.cells:
        if 0 <= off < len(b):
            e = b.find(b'\0', off)
            return bytes(b[off:e]) if e >= 0 else None
        return None
    t = ob.attrs.get('tpl')
    if t is not None and off == 0 and all(type(x) is bytes for x in t):
        return b''.join(t)
    if ob.cells and off in ob.cells:
        out = bytearray()
        k = off
        while True:
            c = ob.cells.get(k)
            if c is None:
                if ob.default == 'Z':
                    return bytes(out)
                return None
            if c[0] != 1 or type(c[1]) is not int:
                return None
            if c[1] == 0:
                return bytes(out)
            out.append(c[1] & 255)
            k += 1
    return None


def strobj(I, st, p, what):
    """validate a string argument; (obj, off) or None when the path ends, '?' unknown"""
    if type(p) is int and p == 0:
        I.report(st, 'null-deref', 'null pointer passed to %s()' % what)
        return None
    if p == 'U':
        I.report(st, 'uninit', 'uninitialised pointer passed to %s()' % what)
        return None
    r = I.access(st, p, None, False, what)
    if r is None:
        return None
    if r[0] == '?':
        return '?'
    o, off = r
    ob = I.obj(st, o)
    if ob.default == 'U' and not ob.cells and ob.kind in ('heap', 'stack') and 'tpl' not in ob.attrs:
        I.report(st, 'uninit', 'uninitialised memory read as a string by %s()' % what)
        return None
    return o, off


def content(I, st, p):
    """identity of the string content behind p: bytes, or a provenance tuple"""
    s = cstr(I, st, p)
    if s is not None:
        return s
    r = I.to_obj(st, p)
    if r is None:
        return None
    o, off = r
    ob = I.obj(st, o)
    if ob is None:
        return None
    if off == 0 and 'content' in ob.attrs:
        return ob.attrs['content']
    if off == 0 and 'tpl' in ob.attrs:
        return ('tpl',) + ob.attrs['tpl']
    return ('at', o, off, ob.ver)


def length(I, st, o, off):
    """abstract strlen of (o, off)"""
    ob = I.obj(st, o)
    s = cstr(I, st, ptr(o, off)) if type(off) is int else None
    if s is not None:
        return len(s)
    if off == 0 and 'len' in ob.attrs:
        return ob.attrs['len']
    L = I.func_sym(st, ('len', o, ob.ver), 0, None)
    for k, (sz, v) in ob.cells.items():
        if sz == 1 and v == 0:
            st.assume_ge0(lsub(k, L))
    if ob.size is not None and not ob.cells.get('x'):
        st.assume_ge0(ladd(lsub(ob.size, L), -1))
    if off == 0:
        return L
    d = lsub(L, off)
    if st.prove_ge0(d):
        return d
    r = I.func_sym(st, ('len', o, ob.ver, off), 0, None)
    if ob.size is not None:
        st.assume_ge0(ladd(lsub(lsub(ob.size, off), r), -1))
    return r


def set_attr(st, o, **kw):
    ob = st.mem[o].copy()
    ob.attrs.update(kw)
    st.mem[o] = ob


# ------------------------------------------------------------------ allocation
def do_malloc(I, st, size, tag='', default='U', ins=None, **attrs):
    s2 = fork(st)
    o = I.new_obj(st, size, 'heap', tag, default, attrs=attrs)
    I.emit(st, 'alloc', o, size)
    set_errno(I, s2, 12)
    return [(st, ptr(o)), (s2, 0)]


@model('malloc')
def m_malloc(I, st, a, ins):
    size = st.simp(a[0]) if type(a[0]) is tuple else a[0]
    if type(size) is tuple and size[0] not in ('L',):
        size = None
    return do_malloc(I, st, size)


@model('calloc', 'Perl_safesyscalloc')
def m_calloc(I, st, a, ins):
    x, y = a[0], a[1]
    size = None
    if type(x) is int and is_num(y):
        size = lmul(y, x)
    elif type(y) is int and is_num(x):
        size = lmul(x, y)
    if ins is not None and ins.x[0] == ('g', 'Perl_safesyscalloc', 0):
        return [(st, ptr(I.new_obj(st, size, 'heap', '', 'Z')))]
    return do_malloc(I, st, size, default='Z')


def do_free(I, st, p, how='free'):
    """returns False when the path ends"""
    if p == 0:
        return True
    if p == 'U':
        I.report(st, 'uninit', 'uninitialised pointer passed to %s()' % how)
        return False
    r = I.to_obj(st, p)
    if r is None:
        return True
    o, off = r
    ob = I.obj(st, o)
    if ob is None:
        I.report(st, 'bad-free', '%s() of a dead local variable' % how)
        return False
    if ob.status != 'alive':
        I.report(st, 'double-free', '%s() of memory that was already freed' % how)
        return False
    if ob.kind in ('stack', 'global', 'ext-const'):
        I.report(st, 'bad-free', '%s() of memory that is not on the heap' % how)
        return False
    if type(off) is int and off != 0:
        I.report(st, 'bad-free', '%s() of a pointer into the middle of an allocation' % how)
        return False
    if 'res' in ob.attrs and how == 'free':
        I.report(st, 'bad-free', 'free() of a %s' % ob.attrs['res'])
        return False
    I.free(st, o, how)
    return True


@model('free', 'Perl_safesysfree')
def m_free(I, st, a, ins):
    return [(st, None)] if do_free(I, st, a[0]) else []


@model('realloc')
def m_realloc(I, st, a, ins):
    p, n = a
    if p == 0:
        return do_malloc(I, st, n)
    r = I.access(st, p, None, True, 'realloc')
    if r is None:
        return []
    s2 = fork(st)
    set_errno(I, s2, 12)
    if r[0] == '?':
        o = I.new_obj(st, n, 'heap', '', 'T')
        return [(st, ptr(o)), (s2, 0)]
    old = I.obj(st, r[0])
    if old.kind in ('stack', 'global'):
        I.report(st, 'bad-free', 'realloc() of memory that is not on the heap')
        return []
    I.free(st, r[0], 'realloc')
    cells = {}
    for k, (sz, v) in old.cells.items():
        if is_num(n) and st.prove_ge0(lsub(n, ladd(k, sz))):
            cells[k] = (sz, v)
    o = I.new_obj(st, n, 'heap', '', 'T', cells=cells,
                  attrs={k: v for k, v in old.attrs.items() if k == 'tag'})
    I.emit(st, 'realloc', r[0], o)
    return [(st, ptr(o)), (s2, 0)]


@model('strdup')
def m_strdup(I, st, a, ins):
    r = strobj(I, st, a[0], 'strdup')
    if r is None:
        return []
    if r == '?':
        return do_malloc(I, st, None, default='T')
    n = length(I, st, *r)
    c = content(I, st, a[0])
    kw = {'content': c} if c is not None else {}
    if type(c) is bytes:
        kw['tpl'] = (c,)
    if c is not None and c[0] == 'tpl' and type(c) is tuple:
        kw['tpl'] = c[1:]
    kw['len'] = n
    return do_malloc(I, st, ladd(n, 1), default='T', **kw)


# ------------------------------------------------------------------ formatting
def parse_fmt(f):
    """[bytes | (flags, conv, star_count)]"""
    out = []
    i = 0
    lit = bytearray()
    while i < len(f):
        c = f[i:i + 1]
        if c != b'%':
            lit += c
            i += 1
            continue
        if f[i + 1:i + 2] == b'%':
            lit += b'%'
            i += 2
            continue
        j = i + 1
        while j < len(f) and f[j:j + 1] in (b'-', b'+', b' ', b'#', b'0', b'.', b'*', b'l', b'h', b'z', b'j', b't',
                                           b'L', b'q') + tuple(b'%d' % d for d in range(10)):
            j += 1
        if lit:
            out.append(bytes(lit))
            lit = bytearray()
        out.append((f[i + 1:j].decode(), f[j:j + 1].decode()))
        i = j + 1
    if lit:
        out.append(bytes(lit))
    return out


def expand(I, st, fmtp, va, what):
    """(template pieces or None, length value) of a formatted string"""
    f = cstr(I, st, fmtp)
    if f is None:
        c = content(I, st, fmtp)
        I.emit(st, 'nonliteral_format', what, c)
        return None, I.fresh(st, 'flen', lo=0)
    va = list(va)
    pieces, n = [], 0
    for x in parse_fmt(f):
        if type(x) is bytes:
            pieces.append(x)
            n = ladd(n, len(x))
            continue
        fl, cv = x
        stars = fl.count('*')
        star_vals = []
        for _ in range(stars):
            star_vals.append(va.pop(0) if va else 'U')
            if star_vals[-1] == 'U':
                I.report(st, 'uninit', 'uninitialised width or precision formatted by %s()' % what)
        if cv == 'm':
            pieces.append(('strerror',))
            n = ladd(n, I.fresh(st, 'merr', lo=0))
            continue
        if not va:
            I.report(st, 'format', 'format %r passed to %s() needs more arguments' % (f.decode('latin1'), what))
            return None, I.fresh(st, 'flen', lo=0)
        v = va.pop(0)
        if v == 'U':
            I.report(st, 'uninit', 'uninitialised argument formatted by %s()' % what)
            v = 0 if cv != 's' else None
        if cv == 's':
            if v is None:
                return None, I.fresh(st, 'flen', lo=0)
            s = cstr(I, st, v)
            if s is not None and not fl:
                pieces.append(s)
                n = ladd(n, len(s))
                continue
            if v == 0:
                I.report(st, 'null-deref', 'null pointer formatted with %%s by %s()' % what)
                return None, I.fresh(st, 'flen', lo=0)
            r = I.to_obj(st, v)
            if r is None:
                pieces.append(('str', None))
                n = ladd(n, I.fresh(st, 'slen', lo=0))
                continue
            ob = I.obj(st, r[0])
            if ob is None or ob.status != 'alive':
                I.report(st, 'use-after-free', 'freed memory formatted by %s()' % what)
                return None, I.fresh(st, 'flen', lo=0)
            if fl:
                pieces.append(('str', fl, content(I, st, v), star_vals[-1] if '.*' in fl else None))
                n = ladd(n, I.fresh(st, 'slen', lo=0))
                continue
            t = ob.attrs.get('tpl')
            if t is not None and r[1] == 0:
                pieces.extend(t)
            else:
                pieces.append(('str', content(I, st, v)))
            n = ladd(n, length(I, st, *r))
        else:
            if type(v) is int and not fl.strip('lhzjt') and cv in 'diu':
                b = b'%d' % v
                pieces.append(b)
                n = ladd(n, len(b))
            elif cv == 'c':
                pieces.append(('chr', v))
                n = ladd(n, 1)
            else:
                pieces.append(('num', cv, v if type(v) is int or is_lin(v) else None))
                mx = 24 if cv in 'diuxXop' else None
                n = ladd(n, I.fresh(st, 'nlen', lo=1, hi=mx))
    # merge literals
    out = []
    for x in pieces:
        if type(x) is bytes and out and type(out[-1]) is bytes:
            out[-1] += x
        elif x != b'':
            out.append(x)
    return tuple(out), n


def va_of(I, st, p):
    """values captured by a va_list"""
    if type(p) is tuple and p[0] == 'VA':
        return p[1]
    r = I.to_obj(st, p)
    if r is not None:
        ob = I.obj(st, r[0])
        if ob is not None:
            c = ob.cells.get(r[1])
            if c is not None and type(c[1]) is tuple and c[1][0] == 'VA':
                return c[1][1]
    return None


@model('llvm.va_start', 'llvm.va_start.p0')
def m_va_start(I, st, a, ins):
    r = I.to_obj(st, a[0])
    if r is not None:
        ob = I.obj(st, r[0]).copy()
        for k in list(ob.cells):
            if type(k) is int and type(r[1]) is int and r[1] <= k < r[1] + 24:
                del ob.cells[k]
        ob.cells[r[1]] = (24, ('VA', tuple(st.frames[-1].va)))
        st.mem[r[0]] = ob
    return [(st, None)]


@model('llvm.va_end', 'llvm.va_end.p0', 'llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.va_end.p0')
def m_nop(I, st, a, ins):
    return [(st, None)]


@model('llvm.va_copy', 'llvm.va_copy.p0')
def m_va_copy(I, st, a, ins):
    v = va_of(I, st, a[1])
    r = I.to_obj(st, a[0])
    if r is not None:
        ob = I.obj(st, r[0]).copy()
        ob.cells = {r[1]: (24, ('VA', tuple(v or ())))}
        st.mem[r[0]] = ob
    return [(st, None)]


def fmt_va(I, st, p):
    v = va_of(I, st, p)
    return v


@model('vasprintf', 'asprintf')
def m_vasprintf(I, st, a, ins):
    nm = ins.x[0][1] if ins is not None and type(ins.x[0]) is tuple else 'vasprintf'
    va = tuple(a[2:]) if nm.startswith('asprintf') else fmt_va(I, st, a[2])
    if va is None:
        t, n = None, I.fresh(st, 'flen', lo=0)
    else:
        t, n = expand(I, st, a[1], va, nm)
    s2 = fork(st)
    o = I.new_obj(st, ladd(n, 1), 'heap', 'fmt', 'T')
    kw = {'len': n}
    if t is not None:
        kw['tpl'] = t
    set_attr(st, o, **kw)
    I.emit(st, 'formatted', o, t)
    out = []
    if I.store(st, a[0], ('p',), ptr(o)):
        out.append((st, n))
    if nm.startswith('v') or True:
        out.append((s2, -1))
    return out


@model('concat')
def m_concat(I, st, a, ins):
    """util.c: a new string of its own (the implementation is analysed in scenario 'text')"""
    pieces, n = [], 0
    for v in a[:2]:
        if strobj(I, st, v, 'concat') is None:
            return []
        r = I.to_obj(st, v)
        s = cstr(I, st, v)
        if s is not None:
            pieces.append(s)
            n = ladd(n, len(s))
            continue
        ob = I.obj(st, r[0])
        t = ob.attrs.get('tpl')
        if t is not None and r[1] == 0:
            pieces.extend(t)
        else:
            pieces.append(('str', content(I, st, v)))
        n = ladd(n, length(I, st, *r))
    o = I.new_obj(st, ladd(n, 1), 'heap', 'concat', 'T')
    set_attr(st, o, len=n, tpl=tuple(pieces))
    I.emit(st, 'formatted', o, tuple(pieces))
    return [(st, ptr(o))]


@model('snprintf', 'vsnprintf')
def m_snprintf(I, st, a, ins):
    nm = ins.x[0][1] if ins is not None and type(ins.x[0]) is tuple else 'snprintf'
    va = fmt_va(I, st, a[3]) if nm.startswith('v') else tuple(a[3:])
    if va is None:
        t, n = None, I.fresh(st, 'flen', lo=0)
    else:
        t, n = expand(I, st, a[2], va, nm)
    size = a[1]
    if size != 0:
        r = I.access(st, a[0], size if is_num(size) else None, True, nm)
        if r is None:
            return []
        if r[0] != '?':
            o, off = r
            I.havoc(st, o, off, size)
            I.emit(st, 'snprintf', o, off, size, t, n)
            if t is not None and off == 0 and is_num(size) and st.prove_ge0(ladd(lsub(size, n), -1)):
                set_attr(st, o, tpl=t, len=n)
            elif off == 0 and is_num(size):
                ob = I.obj(st, o)
                L = I.func_sym(st, ('len', o, ob.ver), 0, None)
                st.assume_ge0(ladd(lsub(size, L), -1))
    return [(st, n)]


@model('sprintf')
def m_sprintf(I, st, a, ins):
    t, n = expand(I, st, a[1], tuple(a[2:]), 'sprintf')
    r = I.access(st, a[0], ladd(n, 1), True, 'sprintf')
    if r is None:
        return []
    if r[0] != '?':
        I.havoc(st, r[0], r[1], None)
    return [(st, n)]


@model('fprintf', 'printf', 'syslog', 'vsyslog', 'vfprintf', 'fputs', 'puts', 'fputc', 'putchar', 'perror',
       'fflush', 'openlog', 'closelog', 'vprintf')
def m_output(I, st, a, ins):
    for v in a:
        if not I.touch(st, v, 'output'):
            return []
    I.emit(st, 'output', ins.x[0][1] if type(ins.x[0]) is tuple else '?', a)
    return [(st, I.fresh(st, 'out', lo=-1) if ins.dest is not None else None)]


# ------------------------------------------------------------------ memory and strings
@model('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
def m_memcpy(I, st, a, ins):
    d, s, n = a[0], a[1], a[2]
    if n == 0:
        return [(st, d)]
    if n == 'U':
        I.report(st, 'uninit', 'uninitialised size passed to memcpy()')
        return []
    nn = n if is_num(n) else None
    # a zero-size copy of a null pointer is fine
    if s == 0 or d == 0:
        if nn is not None and st.cmp('eq', nn, 0) is not True:
            I.report(st, 'null-deref', 'null pointer passed to memcpy()')
            return []
        return [(st, d)]
    rs = I.access(st, s, nn, False, 'memcpy source')
    if rs is None:
        return []
    rd = I.access(st, d, nn, True, 'memcpy destination')
    if rd is None:
        return []
    I.emit(st, 'memcpy', d, s, n)
    if rd[0] == '?':
        return [(st, d)]
    do, doff = rd
    n = st.simp(n) if type(n) is tuple else n
    if rs[0] != '?' and type(n) is int and type(doff) is int and type(rs[1]) is int:
        so, soff = rs
        sob = I.obj(st, so)
        src = {}
        exact = True
        for k, (sz, v) in sob.cells.items():
            if type(k) is int and k >= soff and k + sz <= soff + n:
                src[k - soff] = (sz, v)
        if 'bytes' in sob.attrs and sob.default == 'B' and n <= 256:
            b = sob.attrs['bytes']
            for i in range(n):
                if soff + i < len(b) and i not in src:
                    x = b[soff + i]
                    src[i] = (1, x - 256 if x > 127 else x)
        sdef = sob.default
        same = do == so
        whole = doff == 0 and st.mem.get(do) is not None and st.mem[do].size == n
        ob = I.obj(st, do).copy()
        for k in list(ob.cells):
            sz = ob.cells[k][0]
            if type(k) is not int or (k < doff + n and doff < k + sz):
                del ob.cells[k]
        if whole and sdef in ('U', 'Z', 'T'):
            ob.default = sdef
        elif sdef == 'Z':
            k = 0
            while k < n:
                if not any(x <= k < x + src[x][0] for x in src):
                    src[k] = (1, 0)
                k += 1
                if n > 512:
                    break
        elif sdef in ('T',) or (sdef == 'U' and not src):
            if ob.default in ('U', 'Z', 'B') and sdef == 'T':
                ob.default = 'T'
        for k, (sz, v) in src.items():
            ob.cells[doff + k] = (sz, v)
        ob.ver += 1
        ob.attrs = {k: v for k, v in ob.attrs.items() if k in ('tag', 'res')}
        if soff == 0 and doff == 0:
            for k in ('tpl', 'content', 'len'):
                if k in sob.attrs:
                    ob.attrs[k] = sob.attrs[k]
        st.mem[do] = ob
        I.emit(st, 'memstore', do, doff, n)
        return [(st, d)]
    ver_attrs = {}
    if rs[0] != '?' and rs[1] == 0 and doff == 0:
        sob = I.obj(st, rs[0])
        c = content(I, st, s)
        if c is not None:
            ver_attrs = {'copy': c}
    I.havoc(st, do, doff, n)
    if ver_attrs and do in st.mem:
        set_attr(st, do, **ver_attrs)
    I.emit(st, 'memstore', do, doff, n)
    return [(st, d)]


@model('memset', 'llvm.memset.p0.i64', 'explicit_bzero', 'bzero', 'OPENSSL_cleanse')
def m_memset(I, st, a, ins):
    nm = ins.x[0][1] if ins is not None and type(ins.x[0]) is tuple else 'memset'
    if nm in ('explicit_bzero', 'bzero', 'OPENSSL_cleanse'):
        d, c, n = a[0], 0, a[1]
    else:
        d, c, n = a[0], a[1], a[2]
    if n == 0:
        return [(st, d)]
    nn = n if is_num(n) else None
    r = I.access(st, d, nn, True, 'memset')
    if r is None:
        return []
    I.emit(st, 'memset', d, c, n)
    if r[0] == '?':
        return [(st, d)]
    o, off = r
    n = st.simp(n) if type(n) is tuple else n
    ob = I.obj(st, o)
    if c == 0 and type(off) is int and type(n) is int and off == 0 and ob.size == n:
        nb = Obj(ob.kind, ob.size, 'alive', {}, 'Z', ob.ver + 1,
                 {k: v for k, v in ob.attrs.items() if k in ('tag', 'res')})
        st.mem[o] = nb
    elif c == 0 and type(off) is int and type(n) is int and n <= 2048:
        I.havoc(st, o, off, n)
        ob2 = st.mem[o].copy()
        ob2.default = ob.default
        k = 0
        while k < n:
            z = 8 if n - k >= 8 else 1
            ob2.cells[off + k] = (z, 0)
            k += z
        st.mem[o] = ob2
    else:
        I.havoc(st, o, off, n)
        if c == 0 and off == 0:
            set_attr(st, o, zeroed=n)
    I.emit(st, 'memstore', o, off, n)
    return [(st, d)]


@model('strlen')
def m_strlen(I, st, a, ins):
    r = strobj(I, st, a[0], 'strlen')
    if r is None:
        return []
    if r == '?':
        return [(st, I.fresh(st, 'len', lo=0))]
    return [(st, length(I, st, *r))]


@model('strnlen')
def m_strnlen(I, st, a, ins):
    r = strobj(I, st, a[0], 'strnlen')
    if r is None:
        return []
    v = I.fresh(st, 'nlen', lo=0)
    if not is_num(a[1]):
        return [(st, v)]
    if r == '?':
        return [(st, v)] if st.assume_ge0(lsub(a[1], v)) else []
    L = length(I, st, *r)
    s2 = fork(st)
    out = []
    if st.assume_ge0(lsub(a[1], L)):
        out.append((st, L))
    if s2.assume_ge0(ladd(lsub(L, a[1]), -1)):
        out.append((s2, a[1]))
    return out


def narrow(I, st, v):
    """a number, and what is left of it in an int"""
    return [v] + ([I.func_sym(st, ('tr', v, 32), -(1 << 31), (1 << 31) - 1)] if is_num(v) and type(v) is not int else [])


def do_strchr(I, st, p, c, what, tag):
    r = strobj(I, st, p, what)
    if r is None:
        return []
    if r == '?':
        s2 = fork(st)
        q = I.fresh(st, what, ptr=True)
        st.iv[q[2][0][0]] = (1, None)
        return [(st, q), (s2, 0)]
    o, off = r
    s = cstr(I, st, p)
    if s is not None and type(c) is int and type(off) is int:
        k = s.find(bytes([c & 255])) if tag == 'chr' else s.rfind(bytes([c & 255]))
        if c == 0:
            k = len(s)
        return [(st, ptr(o, off + k) if k >= 0 else 0)]
    ob = I.obj(st, o)
    s2 = fork(st)
    L = length(I, st, o, off)
    end = ladd(L, off)
    if c == 0:
        return [(st, ptr(o, end))]
    k = (tag, o, ob.ver, c, off)
    v = I.func_sym(st, k, 0, None)
    ok = st.assume_ge0(lsub(v, off)) and st.assume_ge0(ladd(lsub(end, v), -1))
    out = []
    if ok and type(c) is int:
        b = ('b', o, v, ob.ver)
        cc = c - 256 if c > 127 else c
        st.iv[b] = (cc, cc)
    if ok:
        I.emit(st, 'found', o, c)
        out.append((st, ptr(o, v)))
    if not s2.iv.get(k) or not ok:
        I.emit(s2, 'lacks', o, off, frozenset([c & 255]) if type(c) is int else None)
        out.append((s2, 0))
    return out


@model('strchr', 'index')
def m_strchr(I, st, a, ins):
    return do_strchr(I, st, a[0], a[1], 'strchr', 'chr')


@model('strrchr', 'rindex')
def m_strrchr(I, st, a, ins):
    return do_strchr(I, st, a[0], a[1], 'strrchr', 'rchr')


@model('memchr')
def m_memchr(I, st, a, ins):
    r = I.access(st, a[0], a[2] if is_num(a[2]) else None, False, 'memchr')
    if r is None:
        return []
    s2 = fork(st)
    if r[0] == '?':
        q = I.fresh(st, 'memchr', ptr=True)
        st.iv[q[2][0][0]] = (1, None)
        return [(st, q), (s2, 0)]
    o, off = r
    ob = I.obj(st, o)
    n = a[2]
    k = ('mchr', o, ob.ver, a[1], off, n)
    v = I.func_sym(st, k, 0, None)
    out = []
    if st.assume_ge0(lsub(v, off)) and is_num(n) and st.assume_ge0(ladd(lsub(ladd(off, n), v), -1)):
        if type(a[1]) is int:
            st.iv[('b', o, v, ob.ver)] = (a[1], a[1])
            if a[1] == 0:
                # first NUL in range = string end when the range starts at 0
                if off == 0:
                    L = I.func_sym(st, ('len', o, ob.ver), 0, None)
                    if 'len' in ob.attrs:
                        L = ob.attrs['len']
                    st.assume_ge0(lsub(v, L))
                    st.assume_ge0(lsub(L, v))
        I.emit(st, 'found', o, a[1])
        out.append((st, ptr(o, v)))
    if a[1] == 0 and off == 0 and is_num(n):
        # no NUL in the first n bytes
        L = I.func_sym(s2, ('len', o, ob.ver), 0, None)
        if 'len' in ob.attrs:
            L = ob.attrs['len']
        for kk, (sz, vv) in ob.cells.items():
            if sz == 1 and vv == 0:
                s2.assume_ge0(lsub(kk, L))
        if s2.assume_ge0(lsub(L, n)):
            out.append((s2, 0))
    else:
        out.append((s2, 0))
    return out


@model('strpbrk', 'strstr', 'strcasestr')
def m_strpbrk(I, st, a, ins):
    r = strobj(I, st, a[0], 'strpbrk')
    if r is None:
        return []
    s2 = fork(st)
    if r == '?':
        return [(st, I.fresh(st, 'strpbrk', ptr=True)), (s2, 0)]
    o, off = r
    v = I.fresh(st, 'pbrk', lo=0)
    L = length(I, st, o, off)
    st.assume_ge0(lsub(v, off))
    st.assume_ge0(ladd(lsub(ladd(L, off), v), -1))
    if ins is not None and ins.x[0][1] == 'strpbrk':
        k = cstr(I, s2, a[1])
        I.emit(s2, 'lacks', o, off, None if k is None else frozenset(k))
    I.emit(st, 'found', o, cstr(I, st, a[1]))
    return [(st, ptr(o, v)), (s2, 0)]


@model('strcspn', 'strspn')
def m_strcspn(I, st, a, ins):
    r = strobj(I, st, a[0], 'strcspn')
    if r is None:
        return []
    if r == '?':
        return [(st, I.fresh(st, 'cspn', lo=0))]
    L = length(I, st, *r)
    v = I.fresh(st, 'cspn', lo=0)
    st.assume_ge0(lsub(L, v))
    return [(st, v)]


def cmp_const(x, y, n, nocase):
    if nocase:
        x, y = x.lower(), y.lower()
    if n is not None:
        x, y = x[:n], y[:n]
    return (x > y) - (x < y)


def do_strcmp(I, st, p, q, n, nocase, what):
    for v in (p, q):
        if strobj(I, st, v, what) is None:
            return []
    a, b = cstr(I, st, p), cstr(I, st, q)
    if a is not None and b is not None and (n is None or type(n) is int):
        return [(st, cmp_const(a, b, n, nocase))]
    c, other = (a, q) if a is not None else (b, p)
    if c is not None and type(n) in (int, type(None)):
        r = I.to_obj(st, other)
        if r is not None and type(r[1]) is int or r is not None and is_lin(r[1]):
            o, off = r
            ob = I.obj(st, o)
            want = c[:n] if n is not None else c
            exact = n is None or n > len(c)
            k = ('pfx', off)
            old = ob.attrs.get(k)
            key = ('cmp', what, off, want, exact)
            if key in ob.attrs:
                v = ob.attrs[key]
                if v == 0:
                    return [(st, 0)]
                r = I.fresh(st, 'cmp')
                st.ne[r[2][0][0]] = frozenset((0,))
                return [(st, r)]
            if old is not None:
                m = min(len(old), len(want))
                x, y = (old[:m].lower(), want[:m].lower())
                if x != y:
                    r = I.fresh(st, 'cmp')
                    st.ne[r[2][0][0]] = frozenset((0,))
                    return [(st, r)]
            s2 = fork(st)
            nob = ob.copy()
            if len(want) > len(old or b''):
                nob.attrs[k] = want
            nob.attrs[key] = 0
            if exact and not nocase and off == 0:
                nob.attrs['content'] = c
            if I.consts.get(o) is None:
                st.mem[o] = nob
                n2 = ob.copy()
                n2.attrs[key] = 1
                s2.mem[o] = n2
            r = I.fresh(s2, 'cmp')
            s2.ne[r[2][0][0]] = frozenset((0,))
            I.emit(st, 'strcmp', p, q, n, True)
            I.emit(s2, 'strcmp', p, q, n, False)
            return [(st, 0), (s2, r)]
    s2 = fork(st)
    r = I.fresh(s2, 'cmp')
    s2.ne[r[2][0][0]] = frozenset((0,))
    I.emit(st, 'strcmp', p, q, n, True)
    I.emit(s2, 'strcmp', p, q, n, False)
    return [(st, 0), (s2, r)]


@model('strcmp')
def m_strcmp(I, st, a, ins):
    return do_strcmp(I, st, a[0], a[1], None, False, 'strcmp')


@model('strcasecmp')
def m_strcasecmp(I, st, a, ins):
    return do_strcmp(I, st, a[0], a[1], None, True, 'strcasecmp')


@model('strncmp')
def m_strncmp(I, st, a, ins):
    return do_strcmp(I, st, a[0], a[1], a[2], False, 'strncmp')


@model('strncasecmp')
def m_strncasecmp(I, st, a, ins):
    return do_strcmp(I, st, a[0], a[1], a[2], True, 'strncasecmp')


@model('memcmp')
def m_memcmp(I, st, a, ins):
    n = a[2] if is_num(a[2]) else None
    for v in a[:2]:
        if I.access(st, v, n, False, 'memcmp') is None:
            return []
    s2 = fork(st)
    r = I.fresh(s2, 'cmp')
    s2.ne[r[2][0][0]] = frozenset((0,))
    return [(st, 0), (s2, r)]


@model('strcpy', 'strcat')
def m_strcpy(I, st, a, ins):
    r = strobj(I, st, a[1], 'strcpy')
    if r is None:
        return []
    n = length(I, st, *r) if r != '?' else I.fresh(st, 'len', lo=0)
    d = a[0]
    nm = ins.x[0][1] if type(ins.x[0]) is tuple else 'strcpy'
    if nm.startswith('strcat'):
        rd = strobj(I, st, d, 'strcat')
        if rd is None:
            return []
        if rd != '?':
            d2 = ptr(rd[0], ladd(rd[1], length(I, st, *rd)))
        else:
            return [(st, d)]
    else:
        d2 = d
    rd = I.access(st, d2, ladd(n, 1), True, nm)
    if rd is None:
        return []
    if rd[0] != '?':
        c = content(I, st, a[1])
        I.havoc(st, rd[0], rd[1], ladd(n, 1))
        if rd[1] == 0 and c is not None and rd[0] in st.mem:
            set_attr(st, rd[0], content=c, len=n)
        elif rd[0] in st.mem:
            st.mem[rd[0]].cells[ladd(rd[1], n)] = (1, 0)
    I.emit(st, 'strcpy', d, a[1], n)
    return [(st, d)]


@model('strncpy', 'strncat', 'strlcpy')
def m_strncpy(I, st, a, ins):
    nm = ins.x[0][1] if type(ins.x[0]) is tuple else 'strncpy'
    r = strobj(I, st, a[1], nm)
    if r is None:
        return []
    n = a[2]
    d = a[0]
    if nm.startswith('strncat'):
        rd = strobj(I, st, d, 'strncat')
        if rd is None or rd == '?':
            return [] if rd is None else [(st, d)]
        L = length(I, st, *rd)
        sl = length(I, st, *r) if r != '?' else I.fresh(st, 'len', lo=0)
        # writes min(n, strlen(src)) + 1 bytes after the terminator
        w = I.fresh(st, 'catn', lo=0)
        st.assume_ge0(lsub(sl, w))
        if is_num(n):
            st.assume_ge0(lsub(n, w))
        d2 = ptr(rd[0], ladd(rd[1], L))
        q = I.access(st, d2, ladd(w, 1), True, nm)
        if q is None:
            return []
        I.havoc(st, rd[0], ladd(rd[1], L), None)
        return [(st, d)]
    rd = I.access(st, d, n if is_num(n) else None, True, nm)
    if rd is None:
        return []
    I.emit(st, 'memcpy', d, a[1], n)
    if rd[0] != '?':
        sl = length(I, st, *r) if r != '?' else None
        term = nm == 'strlcpy' or (sl is not None and is_num(n) and st.prove_ge0(ladd(lsub(n, sl), -1)))
        c = content(I, st, a[1])
        I.havoc(st, rd[0], rd[1], n)
        if rd[0] in st.mem:
            set_attr(st, rd[0], copy=c if c is not None else 0)
            if term and rd[1] == 0 and sl is not None:
                set_attr(st, rd[0], len=sl)
    return [(st, d)]


@model('strtok', 'strtok_r', 'strsep')
def m_strtok(I, st, a, ins):
    p = a[0]
    if p == 0:
        o = st.ghost.get('strtok')
        if o is None or o == 0:
            return [(st, 0)]
        lo = st.ghost.get('strtok_at', 0)
    else:
        r = strobj(I, st, p, 'strtok')
        if r is None:
            return []
        if r == '?':
            s2 = fork(st)
            return [(st, I.fresh(st, 'tok', ptr=True)), (s2, 0)]
        o = r[0]
        lo = r[1]
        st.ghost['strtok'] = o
    ob = st.mem.get(o)
    if ob is None or ob.status != 'alive':
        I.report(st, 'use-after-free', 'strtok() continues in freed memory')
        return []
    s2 = fork(st)
    # content changes (separators overwritten); the start of the line stays
    keep = {k: v for k, v in ob.attrs.items() if type(k) is tuple and k[0] in ('pfx', 'cmp') or k in ('tag', 'content')}
    n = ob.copy()
    n.attrs = {k: v for k, v in keep.items() if k != 'content'}
    n.ver += 1
    st.mem[o] = n
    v = I.fresh(st, 'tok', lo=0)
    st.ghost['strtok'] = o
    s2.ghost['strtok'] = 0
    if ob.size is not None:
        st.assume_ge0(ladd(lsub(ob.size, v), -1))
    return [(st, ptr(o, v)), (s2, 0)]


@model('atoi')
def m_atoi(I, st, a, ins):
    if strobj(I, st, a[0], 'atoi') is None:
        return []
    r = I.fresh(st, 'atoi', lo=I32[0], hi=I32[1])
    I.emit(st, 'atoi', a[0], r)
    return [(st, r)]


@model('atol', '__isoc23_strtol', '__isoc23_strtoul', 'strtol', 'strtoul', 'atoll')
def m_atol(I, st, a, ins):
    r = strobj(I, st, a[0], 'strtol')
    if r is None:
        return []
    if len(a) > 1 and a[1] != 0:
        if r != '?':
            k = I.fresh(st, 'endp', lo=0)
            st.assume_ge0(lsub(k, r[1]))
            L = length(I, st, *r)
            st.assume_ge0(lsub(ladd(r[1], L), k))
            q = ptr(r[0], k)
        else:
            q = I.fresh(st, 'endp', ptr=True)
        if not I.store(st, a[1], ('p',), q):
            return []
    v = I.fresh(st, 'strtol', lo=-(1 << 63), hi=(1 << 63) - 1)
    I.emit(st, 'strtol', a, v)
    s2 = fork(st)
    set_errno(I, s2, 34)
    return [(st, v), (s2, v)]


@model('__isoc23_sscanf', 'sscanf')
def m_sscanf(I, st, a, ins):
    if strobj(I, st, a[0], 'sscanf') is None:
        return []
    f = cstr(I, st, a[1])
    cv = re.findall(rb'%(\*?)\d*(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z%])', f or b'')
    cv = [(ln, c) for star, ln, c in cv if not star and c not in (b'%', b'm')]
    outs = []
    n = len(a) - 2
    for k in range(0, n + 1):
        s = st if k == n else fork(st)
        ok = True
        for j, p in enumerate(a[2:2 + k]):
            ln, c = cv[j] if j < len(cv) else (b'', b'd')
            if c == b's' or c == b'[':
                r = I.to_obj(s, p)
                if r is not None:
                    I.havoc(s, r[0], r[1], None)
                continue
            w = 64 if ln in (b'l', b'll', b'z', b'j', b't', b'q') or c == b'p' else 32
            v = I.fresh(s, 'scan', lo=-(1 << w - 1), hi=(1 << w - 1) - 1)
            if not I.store(s, p, ('i', w), v):
                ok = False
            if c in b'diux':
                I.emit(s, 'atoi', a[0], v)
        if ok:
            outs.append((s, k))
    return outs


@model('__errno_location')
def m_errno(I, st, a, ins):
    if ERRNO not in st.mem:
        st.mem[ERRNO] = Obj('global', 4, default='Z')
    return [(st, ('P', ERRNO, 0))]


@model('exit', '_exit', 'abort', '__assert_fail', 'Perl_croak_nocontext', 'Perl_croak_xs_usage')
def m_exit(I, st, a, ins):
    I.stats['exits'] += 1
    nm = ins.x[0][1] if ins is not None and type(ins.x[0]) is tuple else 'exit'
    I.emit(st, 'exit', nm, a[0] if a else None)
    return []


@model('atexit')
def m_atexit(I, st, a, ins):
    s2 = fork(st)
    fn = a[0][1] if type(a[0]) is tuple and a[0][0] == 'F' else None
    st.ghost['atexit'] = st.ghost.get('atexit', ()) + (fn,)
    I.emit(st, 'atexit', fn)
    return [(st, 0), (s2, -1)]


@model('time')
def m_time(I, st, a, ins):
    return [(st, I.fresh(st, 'time', lo=0))]


@model('signal', 'sigemptyset', 'setprogname', 'ev_backend', 'ev_version_major', 'ev_version_minor',
       'aio_init', 'nanosleep', 'srandom', 'ERR_clear_error', 'ev_loop_fork', 'getpid', 'random',
       'Perl_xs_handshake', 'flock', 'getprogname', 'strerror', 'ferror', 'fclose', 'sd_notify')
def m_any(I, st, a, ins):
    nm = ins.x[0][1] if type(ins.x[0]) is tuple else '?'
    for v in a:
        if not I.touch(st, v, nm):
            return []
    I.emit(st, 'call_' + nm, a)
    if ins.dest is None:
        return [(st, None)]
    if ins.ty[0] == 'p':
        v = I.fresh(st, nm, ptr=True)
        st.iv[v[2][0][0]] = (1, None)
        return [(st, v)]
    lo = 0 if nm in ('getpid', 'random', 'ev_backend', 'ev_version_major', 'ev_version_minor', 'ferror') else None
    return [(st, I.fresh(st, nm, lo=lo) if ins.ty[1] != 32 else I.fresh(st, nm, lo=lo if lo is not None else I32[0], hi=I32[1]))]


# ------------------------------------------------------------------ libev
EV_ACTIVE, EV_PENDING, EV_DATA, EV_CB, EV_FD, EV_EVENTS, EV_AT, EV_REPEAT = 0, 4, 16, 24, 40, 44, 32, 40


def set_cell(st, o, off, size, v):
    ob = st.mem[o].copy()
    ob.cells[off] = (size, v)
    st.mem[o] = ob


def watcher(I, st, p, what):
    r = I.access(st, p, 4, False, what)
    if r is None:
        return None
    if r[0] == '?' or type(r[1]) is not int:
        raise Broken('watcher argument of %s not resolved' % what)
    return r


def ev_start(kind):
    def m(I, st, a, ins):
        r = watcher(I, st, a[-1], 'ev_%s_start' % kind)
        if r is None:
            return []
        o, off = r
        ob = I.obj(st, o)
        cb = I.read_cell(st, o, ob, off + EV_CB, 8, ('p',))
        if cb == 'U' or cb == 0:
            I.report(st, 'watcher', 'ev_%s_start() of a watcher without callback' % kind)
            return []
        if kind == 'io':
            fd = I.read_cell(st, o, ob, off + EV_FD, 4, ('i', 32))
            if fd == 'U':
                I.report(st, 'watcher', 'ev_io_start() of a watcher without a descriptor')
                return []
            if type(fd) is int and fd < 0:
                I.report(st, 'watcher', 'ev_io_start() of a watcher with a negative descriptor')
                return []
        if kind == 'timer':
            at = I.read_cell(st, o, ob, off + EV_AT, 8, ('f', 64))
            if at == 'U':
                I.report(st, 'watcher', 'ev_timer_start() of a watcher that was never set')
                return []
        if type(cb) is tuple and cb[0] == 'F':
            I.wcb[cb[1]] = kind
        g = st.ghost.get(('ev', o, off))
        pend = g[2] if g else 0
        st.ghost[('ev', o, off)] = (kind, 1, pend)
        set_cell(st, o, off + EV_ACTIVE, 4, 1)
        I.emit(st, 'ev_start', kind, o, off)
        return [(st, None)]
    return m


def ev_stop(kind):
    def m(I, st, a, ins):
        r = watcher(I, st, a[-1], 'ev_%s_stop' % kind)
        if r is None:
            return []
        o, off = r
        st.ghost.pop(('ev', o, off), None)
        if I.obj(st, o).default == 'U' and off not in I.obj(st, o).cells:
            I.report(st, 'uninit', 'ev_%s_stop() of an uninitialised watcher' % kind)
            return []
        set_cell(st, o, off + EV_ACTIVE, 4, 0)
        I.emit(st, 'ev_stop', kind, o, off)
        return [(st, None)]
    return m


for _k in ('io', 'timer', 'signal', 'async', 'idle'):
    M['ev_%s_start' % _k] = ev_start(_k)
    M['ev_%s_stop' % _k] = ev_stop(_k)


@model('ev_timer_again')
def m_timer_again(I, st, a, ins):
    return ev_start('timer')(I, st, a, ins)


def kind_of(I, st, o, off):
    g = st.ghost.get(('ev', o, off))
    return g[0] if g else 'io'


@model('ev_feed_event')
def m_feed(I, st, a, ins):
    r = watcher(I, st, a[-2], 'ev_feed_event')
    if r is None:
        return []
    o, off = r
    g = st.ghost.get(('ev', o, off))
    mask = a[-1] if type(a[-1]) is int and a[-1] > 0 else 'any'
    if g and g[2]:
        mask = mask | g[2] if type(mask) is int and type(g[2]) is int else 'any'
    st.ghost[('ev', o, off)] = (g[0] if g else 'io', g[1] if g else 0, mask)
    I.emit(st, 'ev_feed', o, off)
    return [(st, None)]


@model('ev_async_send')
def m_async_send(I, st, a, ins):
    r = watcher(I, st, a[-1], 'ev_async_send')
    if r is None:
        return []
    o, off = r
    g = st.ghost.get(('ev', o, off))
    if g is not None:
        st.ghost[('ev', o, off)] = (g[0], g[1], 1)
    I.emit(st, 'ev_async_send', o, off)
    return [(st, None)]


@model('ev_invoke')
def m_invoke(I, st, a, ins):
    r = watcher(I, st, a[-2], 'ev_invoke')
    if r is None:
        return []
    o, off = r
    cb = I.read_cell(st, o, I.obj(st, o), off + EV_CB, 8, ('p',))
    if not (type(cb) is tuple and cb[0] == 'F'):
        I.report(st, 'watcher', 'ev_invoke() of a watcher without callback')
        return []
    return [(s, None) for s, v in I.dispatch(st, cb[1], a, ins)]


@model('ev_default_loop', 'ev_run', 'ev_break')
def m_evrun(I, st, a, ins):
    nm = ins.x[0][1]
    I.emit(st, 'call_' + nm, a)
    if ins.dest is None:
        return [(st, None)]
    if nm == 'ev_default_loop':
        s2 = fork(st)
        return [(st, lin(('p', 'loop'))), (s2, 0)]
    return [(st, I.fresh(st, nm, lo=0, hi=1))]


# ------------------------------------------------------------------ buffer.h by contract
def m_buffer_new(I, st, a, ins):
    o = I.new_obj(st, None, 'heap', 'buffer', 'T', cells={0: (8, 0)}, attrs={'res': 'buffer'})
    I.i64slots.add((o, 0))
    return [(st, ptr(o))]


def bufobj(I, st, p, what):
    r = I.access(st, p, None, False, what)
    if r is None:
        return None
    if r[0] == '?':
        raise Broken('buffer argument of %s not resolved' % what)
    ob = I.obj(st, r[0])
    if 0 not in ob.cells or ob.attrs.get('res') != 'buffer':
        I.report(st, 'buffer', '%s() called with something that is not a buffer' % what)
        return None
    return r[0], ob.cells[0][1]


def m_buffer_size(I, st, a, ins):
    r = bufobj(I, st, a[0], 'buffer_size')
    return [] if r is None else [(st, r[1])]


def m_buffer_append(I, st, a, ins):
    r = bufobj(I, st, a[0], 'buffer_append')
    if r is None:
        return []
    n = a[2]
    if n != 0:
        if n == 'U':
            I.report(st, 'uninit', 'uninitialised size passed to buffer_append()')
            return []
        rr = I.access(st, a[1], n if is_num(n) else None, False, 'buffer_append')
        if rr is None:
            return []
        if rr[0] != '?':
            ob = I.obj(st, rr[0])
            if ob.default == 'U' and not ob.cells:
                I.report(st, 'uninit', 'uninitialised memory appended to a buffer')
    I.emit(st, 'buffer_append', r[0], a[1], n)
    if rr_is(n):
        set_cell(st, r[0], 0, 8, ladd(r[1], n))
    else:
        set_cell(st, r[0], 0, 8, I.fresh(st, 'bsz', lo=0))
    return [(st, None)]


def rr_is(n):
    return is_num(n)


def m_buffer_read(I, st, a, ins):
    r = bufobj(I, st, a[0], 'buffer_read')
    if r is None:
        return []
    sz, n = r[1], a[2]
    s2 = fork(st)
    outs = []
    for s, full in ((st, True), (s2, False)):
        if not s.assume_cmp('uge' if full else 'ult', sz, n, True):
            continue
        k = n if full else sz
        rd = I.access(s, a[1], k, True, 'buffer_read')
        if rd is None:
            continue
        if rd[0] != '?':
            I.havoc(s, rd[0], rd[1], k)
        set_cell(s, r[0], 0, 8, s.simp(lsub(sz, k)))
        I.emit(s, 'buffer_read', r[0], a[1], k)
        outs.append((s, k))
    return outs


def m_buffer_read_line(I, st, a, ins):
    r = bufobj(I, st, a[0], 'buffer_read_line')
    if r is None:
        return []
    s2 = fork(st)
    outs = []
    sz = r[1]
    if len(a) > 1:
        I.emit(st, 'read_chunk', r[0], a[1])
    n = I.fresh(st, 'linelen', lo=1)
    if st.assume_ge0(lsub(sz, n)):
        o = I.new_obj(st, n, 'heap', 'line', 'T')
        L = I.func_sym(st, ('len', o, 0), 0, None)
        st.assume_ge0(ladd(lsub(n, L), -1))
        set_cell(st, r[0], 0, 8, st.simp(lsub(sz, n)))
        I.emit(st, 'buffer_read_line', r[0], o)
        outs.append((st, ptr(o)))
    outs.append((s2, 0))
    return outs


def m_buffer_slurp(I, st, a, ins):
    r = bufobj(I, st, a[0], 'buffer_slurp')
    if r is None:
        return []
    sz = r[1]
    o = I.new_obj(st, sz, 'heap', 'slurp', 'T')
    set_cell(st, r[0], 0, 8, 0)
    if not I.store(st, a[1], ('i', 64), sz):
        return []
    I.emit(st, 'buffer_slurp', r[0], o, sz)
    return [(st, ptr(o))]


def m_buffer_read_alloc(I, st, a, ins):
    r = bufobj(I, st, a[0], 'buffer_read_alloc')
    if r is None:
        return []
    n = I.load(st, a[1], ('i', 64))
    if n is None:
        return []
    outs = []
    s2 = fork(st)
    for s, full in ((st, True), (s2, False)):
        if not s.assume_cmp('uge' if full else 'ult', r[1], n, True):
            continue
        k = n if full else r[1]
        o = I.new_obj(s, n, 'heap', 'slurp', 'T')
        set_cell(s, r[0], 0, 8, s.simp(lsub(r[1], k)))
        if I.store(s, a[1], ('i', 64), k):
            outs.append((s, ptr(o)))
    return outs


def m_buffer_free(I, st, a, ins):
    if a[0] == 0:
        I.report(st, 'null-deref', 'null pointer passed to buffer_free()')
        return []
    r = bufobj(I, st, a[0], 'buffer_free')
    if r is None:
        return []
    I.emit(st, 'buffer_free', r[0], r[1])
    I.free(st, r[0], 'buffer_free')
    return [(st, None)]


BUFFER = {'buffer_new': m_buffer_new, 'buffer_size': m_buffer_size, 'buffer_append': m_buffer_append,
          'buffer_read': m_buffer_read, 'buffer_read_line': m_buffer_read_line,
          'buffer_read_chunk': m_buffer_read_line, 'buffer_slurp': m_buffer_slurp,
          'buffer_read_alloc': m_buffer_read_alloc, 'buffer_free': m_buffer_free}
