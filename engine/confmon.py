"""conf.c (server): libConfuse as a boundary, and what must hold of the configuration that is handed over.

libConfuse is modelled from its documentation: cfg_init() copies the option tables; parsing runs the callbacks of
the options with arbitrary values, fails if one of them does, and has checked types, titles and duplicates as the
flags of the options tell it to.
"""
from core import *
import models
import models_ext
from models import fork, cstr, content, ptr, strobj, set_cell
from models_ext import sym1

EXT, NEWL, ICASE = 1, 4, 2             # <regex.h>: REG_EXTENDED, REG_NEWLINE, REG_ICASE
TITLE, MULTI, NODUPES, LIST = 1 << 3, 1 << 0, 1 << 5, 1 << 1
MON = ('h', 'confmon', 0, 0)
VALUE = 'value'

PATTERNS = {
    'commands': [('V',)],
    'hosts': [b'PROCESS_HOST_CHECK_RESULT;', ('V',), b';', ('.+',)],
    'services@': [b'PROCESS_SERVICE_CHECK_RESULT;', ('after@',), b';', ('before@',), b';', ('.+',), b';', ('.+',)],
    'services': [b'PROCESS_SERVICE_CHECK_RESULT;', ('[^;]+',), b';', ('V',), b';', ('.+',), b';', ('.+',)],
}


# ------------------------------------------------------------------ regular expressions with holes
def tokens(tpl):
    out = []
    for x in tpl:
        if type(x) is bytes:
            out += [bytes([c]) for c in x]
        else:
            out.append(x)
    return out


def parse_re(t):
    """(alternatives, rest): an alternative is a list of (atom, quantifier)"""
    alts, cur = [], []
    while t:
        c, t = t[0], t[1:]
        if c == b')':
            return alts + [cur], [c] + t
        if c == b'|':
            alts.append(cur)
            cur = []
            continue
        if c == b'(':
            sub, t = parse_re(t)
            if not t or t[0] != b')':
                raise ValueError('unbalanced parentheses')
            t = t[1:]
            a = ('group', sub)
        elif c == b'[':
            s = b'['
            first = True
            while t and type(t[0]) is bytes and (t[0] != b']' or first):
                s += t[0]
                first = t[0] == b'^' and first
                t = t[1:]
            if not t or t[0] != b']':
                raise ValueError('unterminated bracket expression')
            t = t[1:]
            a = s + b']'
        elif c == b'\\':
            if not t or type(t[0]) is not bytes:
                raise ValueError('trailing backslash')
            a, t = b'\\' + t[0], t[1:]
        else:
            a = c
        q = b''
        while t and t[0] in (b'*', b'+', b'?'):
            q, t = q + t[0], t[1:]
        if t and t[0] == b'{':
            while t and type(t[0]) is bytes and t[0] != b'}':
                q, t = q + t[0], t[1:]
            q, t = q + b'}', t[1:]
        cur.append((a, q))
    return alts + [cur], []


def norm(alts):
    """redundant groups removed: a sequence of literals, holes in groups of their own, and quantified atoms"""
    if len(alts) != 1:
        raise ValueError('an alternation that is not in the configured text')
    out = []
    for a, q in alts[0]:
        if type(a) is tuple and a[0] == 'group':
            if len(a[1]) == 1 and len(a[1][0]) == 1 and type(a[1][0][0][0]) is tuple and a[1][0][0][0][0] != 'group' and \
                    not a[1][0][0][1]:
                h = a[1][0][0][0]
                if q:
                    raise ValueError('a quantifier behind the configured text')
                out.append((h[1] if h[0] == 'hole' else str(h),))
                continue
            if q and len(a[1]) == 1 and len(a[1][0]) == 1 and type(a[1][0][0][0]) is bytes and not a[1][0][0][1]:
                out.append((a[1][0][0][0], q))
                continue
            if q:
                raise ValueError('a quantifier behind a group')
            out += norm(a[1])
            continue
        if type(a) is tuple:
            raise ValueError('the configured text is not in a group of its own, so alternatives in it escape')
        out.append((a, q))
    return out


def lits(seq):
    """adjacent literal characters joined"""
    out = []
    for x in seq:
        if type(x) is tuple and len(x) == 2:
            a, q = x
            if q == b'' and (len(a) == 1 and a not in b'.^$' or len(a) == 2 and a[:1] == b'\\' and not a[1:].isalnum()):
                c = a[-1:]
                if out and type(out[-1]) is bytes:
                    out[-1] += c
                else:
                    out.append(c)
            else:
                out.append(((a + q).decode('latin1'),))
        else:
            out.append(x)
    return out


def decide(tpl, want):
    """what is wrong with a pattern, or None"""
    if tpl is None:
        return 'its text could not be determined'
    try:
        a, rest = parse_re(tokens(tpl))
        if rest:
            return 'it has unbalanced parentheses'
        s = norm(a)
    except ValueError as e:
        return 'it has ' + str(e) if str(e).startswith(('unb', 'unt', 'tr', 'an ', 'a ')) else str(e)
    if not s or s[0] != (b'^', b''):
        return 'it is not anchored at the start'
    if s[-1] != (b'$', b''):
        return 'it is not anchored at the end'
    s = s[1:-1]
    if s and s[-1] == (b'\n', b'?'):
        s = s[:-1]
    got = lits(s)
    if got not in want:
        return 'it is %s' % ' '.join(x.decode('latin1') if type(x) is bytes else '<%s>' % x[0] for x in got)
    return None


# ------------------------------------------------------------------ libConfuse
def read_table(I, st, p, what):
    """the options of a cfg_opt_t array"""
    d, size = I.mod.fields('cfg_opt_t')
    r = I.to_obj(st, p)
    if r is None or type(r[1]) is not int:
        raise Broken('the option table passed to %s() was not found' % what)
    o, off = r
    out = []
    while True:
        ob = I.obj(st, o)

        def get(f, n, ty):
            return I.read_cell(st, o, ob, off + d[f], n, ty)
        nm = get('name', 8, ('p',))
        if nm == 0:
            return tuple(out)
        name = cstr(I, st, nm)
        if name is None or len(out) > 60:
            raise Broken('the option table passed to %s() is not understood' % what)
        ty, fl, sub = get('type', 4, ('i', 32)), get('flags', 4, ('i', 32)), get('subopts', 8, ('p',))
        cb = [get(f, 8, ('p',)) for f in ('func', 'parsecb', 'validcb', 'freecb')]
        subs = read_table(I, st, sub, what) if sub != 0 else ()
        out.append((name.decode('latin1'), ty, fl, subs) + tuple(c[1] if type(c) is tuple and c[0] == 'F' else 0 for c in cb))
        off += size


def table(st):
    return st.ghost.get('cfgopts', ())


def m_init(I, st, a, ins):
    st.ghost['cfgopts'] = read_table(I, st, a[0], 'cfg_init')
    o = I.new_obj(st, None, 'heap', 'cfg', 'T', attrs={'res': 'cfg'})
    I.emit(st, 'cfg_init', a[0], o)
    return [(st, ptr(o))]


def m_set_validate(I, st, a, ins):
    nm = cstr(I, st, a[1])
    if nm is None or not (type(a[2]) is tuple and a[2][0] == 'F'):
        raise Broken('cfg_set_validate_func() with unknown arguments')
    st.ghost[('validcb', nm.decode('latin1'))] = a[2][1]
    return [(st, 0 if ins.dest is not None else None)]


def m_parse(I, st, a, ins):
    nm = ins.x[0][1]
    if not I.touch(st, a[0], nm) or strobj(I, st, a[1], nm) is None:
        return []
    I.emit(st, 'cfg_parse', a[0], nm)
    if 'incb' not in st.ghost and 'parse' not in st.ghost:
        I.monitors[1].callbacks(I, st, a[0])
    out = []
    for v in (0, 1, -1):
        s = fork(st)
        s.ghost['parse'] = 'ok' if v == 0 and s.ghost.get('parse', 'ok') == 'ok' else 'failed'
        out.append((s, v))
    return out


def cell(st, off):
    return st.mem[MON].cells[off][1]


def get(I, st, name):
    """(values added, has values of its own, number of global values) of a setting of the current section; -1: not known"""
    mon = I.monitors[1]
    own, g, c = st.ghost.get(('setting', name), (-1, -1, 0))
    if mon.is_list(name):
        c = cell(st, 8 * (1 + mon.names.index(name)))
    return c, own, g


def put(I, st, name, c=None, own=None, g=None):
    mon = I.monitors[1]
    oc, oo, og = get(I, st, name)
    if c is not None and mon.is_list(name):
        set_cell(st, MON, 8 * (1 + mon.names.index(name)), 8, c)
        c = None
    st.ghost[('setting', name)] = (oo if own is None else own, og if g is None else g,
                                   0 if mon.is_list(name) else oc if c is None else c)


def is_sec(s):
    return type(s) is tuple and s[:2] == ('p', 'sec')


def sizes(I, st, sec, name):
    """[(state, number of values an option has)]

    Options of a section have none, or at least one of their own, and those that were added; global options that are
    no lists have none or one.  The cases are told apart at once, so that what is known never has to be related.
    """
    mon = I.monitors[1]
    if is_sec(sec) and name in mon.names:
        c, known, _ = get(I, st, name)
        v = I.func_sym(st, ('cfgsize', sec, name), 1, (1 << 31) - 1)
        if known == -1:
            s2 = fork(st)
            put(I, st, name, own=0)
            put(I, s2, name, own=1)
            s2.iv[v[2][0][0]] = (1, (1 << 31) - 1)
            return [(st, c), (s2, ladd(v, c))]
        return [(st, c if known == 0 else ladd(v, c))]
    if sec == mon.rootsym and name in mon.names and name in mon.top and not mon.is_list(name):
        known = get(I, st, name)[2]
        if known == -1:
            s2 = fork(st)
            put(I, st, name, g=0)
            put(I, s2, name, g=1)
            return [(st, 0), (s2, 1)]
        return [(st, known)]
    return [(st, I.func_sym(st, ('cfgsize', sec, name), 0, (1 << 31) - 1))]


def m_size(I, st, a, ins):
    nm = cstr(I, st, a[1])
    if nm is None:
        return [(st, I.fresh(st, 'cfgsize', lo=0))]
    return sizes(I, st, sym1(a[0]), nm.decode('latin1'))


def m_opt_size(I, st, a, ins):
    s = sym1(a[0])
    if type(s) is tuple and s[:2] == ('p', 'opt'):
        return sizes(I, st, s[2], s[3])
    if type(s) is tuple and s[:2] == ('p', 'vopt'):
        return [(st, I.func_sym(st, ('cfgsize', s), 1, (1 << 31) - 1))]      # the value being validated is the last one
    return [(st, I.fresh(st, 'cfgsize', lo=0))]


def m_getn(I, st, a, ins):
    """cfg_opt_getnstr(): the string itself, identified by its option and index"""
    k = sym1(a[0])
    s = ('p', 'optval', k, a[1])
    st.iv[s] = (1, None)
    I.emit(st, 'cfg_value', k, a[1])
    return [(st, lin(s))]


def m_getnstr(I, st, a, ins):
    nm = cstr(I, st, a[1])
    k = ('p', 'opt', sym1(a[0]), nm.decode('latin1') if nm is not None else None)
    st.iv[k] = (1, None)
    return m_getn(I, st, [lin(k), a[2] if len(a) > 2 else 0], ins)


def m_getnum(I, st, a, ins):
    """the value that is being validated"""
    k = sym1(a[0])
    if not (type(k) is tuple and k[:2] == ('p', 'vopt')):
        return [(st, I.fresh(st, 'cfgnum'))]
    last = ladd(lin(('cfgsize', k)), -1)
    if not (is_num(a[1]) and st.same(a[1], last)):
        return [(st, I.fresh(st, 'cfgnum'))]
    return [(st, lin(('cfgnum', k)))]


def m_getnsec(I, st, a, ins):
    nm = cstr(I, st, a[1])
    s = ('p', 'sec', nm, a[2])
    st.iv[s] = (1, None)
    if 'pending' in st.ghost and st.ghost['pending'] == s:
        return [(st, lin(s))]                   # looked up again
    if 'pending' in st.ghost:
        I.report(st, 'D03-all', 'a section is passed over: the next one is looked up before it was registered')
        return []
    I.emit(st, 'cfg_getnsec', a[0], nm, a[2])
    st.ghost['pending'] = s
    return [(st, lin(s))]


def m_setopt(I, st, a, ins):
    k = sym1(a[1])
    sec = sym1(a[0])
    if not (type(k) is tuple and k[:2] == ('p', 'opt')):
        I.report(st, 'D04-option', 'cfg_setopt() sets an option that was not looked up')
        return []
    if k[2] != sec:
        I.report(st, 'D04-section', 'an option of another section than the one it is looked up in is set')
        return []
    return setval(I, st, sec, k[3], a[2], ins)


def m_setstr(I, st, a, ins):
    nm = cstr(I, st, a[1])
    v = setval(I, st, sym1(a[0]), nm.decode('latin1') if nm else None, a[2], ins)
    return [(s, 0 if x != 0 else -1) for s, x in v]


def m_opt_setnstr(I, st, a, ins):
    k = sym1(a[0])
    if not (type(k) is tuple and k[:2] == ('p', 'opt')):
        return []
    return [(s, 0 if x != 0 else -1) for s, x in setval(I, st, k[2], k[3], a[1], ins)]


def setval(I, st, sec, name, v, ins):
    I.emit(st, 'cfg_set', sec, name, v)
    s2 = fork(st)
    s2.ghost['refused'] = 1
    s = ('p', 'setopt')
    st.iv[s] = (1, None)
    return [(st, lin(s)), (s2, 0)]


def m_regcomp(I, st, a, ins):
    r = I.access(st, a[0], 64, True, 'regcomp')
    if r is None or strobj(I, st, a[1], 'regcomp') is None:
        return []
    I.emit(st, 'regcomp', r, a[1], a[2])
    if r[0] == '?':
        return [(st, 0)]
    s2 = fork(st)
    for x in (st, s2):
        I.havoc(x, r[0], r[1], 64)
    st.ghost[('re', r[0])] = 'compiled'
    s2.ghost[('re', r[0])] = 'failed'
    return [(st, 0), (s2, I.fresh(s2, 'regcomp', lo=1, hi=20))]


def m_nftw(I, st, a, ins):
    """walks the tree: the callback is called with any path of any type, until it returns non-zero"""
    if strobj(I, st, a[0], 'nftw') is None:
        return []
    outs = [(fork(st), 0), (fork(st), -1)]
    if type(a[1]) is tuple and a[1][0] == 'F':
        p = ('p', 'e', 'treepath')
        st.iv[p] = (1, None)
        ty = I.fresh(st, 'ftwtype', lo=0, hi=6)
        for s, v in I.dispatch(st, a[1][1], [lin(p), ptr(I.new_obj(st, 144, 'stack', 'ftwstat', 'T')), ty,
                                             ptr(I.new_obj(st, 8, 'stack', 'ftw', 'T'))], ins):
            if v == 0:
                outs.append((s, 0))
            else:
                outs.append((s, v))
    return outs


MODELS = {'cfg_init': m_init, 'cfg_set_validate_func': m_set_validate, 'cfg_parse': m_parse, 'cfg_parse_buf': m_parse,
          'cfg_size': m_size, 'cfg_opt_size': m_opt_size, 'cfg_opt_getnstr': m_getn, 'cfg_getnstr': m_getnstr,
          'cfg_getstr': m_getnstr, 'cfg_opt_getstr': m_getn,
          'cfg_opt_getnint': m_getnum, 'cfg_opt_getnfloat': m_getnum, 'cfg_getnsec': m_getnsec, 'cfg_setopt': m_setopt,
          'cfg_setstr': m_setstr, 'cfg_addlist': None, 'cfg_opt_setnstr': m_opt_setnstr, 'regcomp': m_regcomp, 'nftw': m_nftw}
MODELS = {k: v for k, v in MODELS.items() if v}


class Conf:
    def __init__(self):
        self.names = []
        self.n = {}

    def cnt(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def is_list(self, name):
        return bool(self.top[name][2] & LIST) if name in self.top else False

    # ---------------------------------------------------------------- callbacks of the options
    def callbacks(self, I, st, cfg):
        """run every callback with arbitrary values on states of their own"""
        T = table(st)
        sec = [o for o in T if o[3]]
        if len(sec) != 1:
            raise Broken('expected one kind of configuration section, found %d' % len(sec))
        self.section = sec[0][0]
        self.sub = {o[0]: o for o in sec[0][3]}
        self.names = sorted(self.sub)
        self.top = {o[0]: o for o in T}
        if sec[0][2] & (TITLE | MULTI | NODUPES) != TITLE | MULTI | NODUPES:
            I.report(st, 'D03-duplicates', 'authorization sections are not required to have a title of their own')
        for n in self.names:
            I.i64slots.add((MON, 8 * (1 + self.names.index(n))))
            if n not in self.top:
                I.report(st, 'D04-missing', 'the setting "%s" of the sections cannot be set globally' % n)
        self.reset(st)
        INT, FLOAT = I.mod.enum('CFGT_INT'), I.mod.enum('CFGT_FLOAT')
        for o in T:
            if o[1] in (INT, FLOAT):
                cb = st.ghost.get(('validcb', o[0])) or o[6]
                if not cb:
                    I.report(st, 'D03-validate', 'the number "%s" is not validated' % o[0])
                    continue
                self.validator(I, st, cfg, o, cb)
        for o in sec[0][3]:
            if o[0] != 'password':
                if not o[5]:
                    I.report(st, 'S03-callback', 'the patterns of "%s" are not compiled when they are read' % o[0])
                    continue
                self.pattern(I, st, cfg, o)
        for o in T:
            if o[4]:
                self.include(I, st, cfg, o)

    def opt(self, I, s, name):
        o = I.new_obj(s, I.mod.fields('cfg_opt_t')[1], 'heap', 'opt-' + name, 'T')
        k = ('p', 'vopt', name)
        s.iv[k] = (1, None)
        return o

    def extopt(self, I, s, name):
        """an opaque option whose name can be read"""
        k = ('p', 'vopt', name)
        s.iv[k] = (1, None)
        s.mem[('X', k)] = Obj('ext', None, default='T')
        n = I.new_obj(s, len(name) + 1, 'heap', 'optname', 'T')
        models.set_attr(s, n, tpl=(name.encode(),))
        s.mem[('X', k)].cells[I.mod.fields('cfg_opt_t')[0]['name']] = (8, ptr(n))
        return lin(k)

    def validator(self, I, st, cfg, o, cb):
        s = fork(st)
        s.ghost['incb'] = 1
        p = self.extopt(I, s, o[0])
        k = ('p', 'vopt', o[0])
        fn = I.mod.funcs[cb]
        ok = False
        for z, v in I.call_fn(s, fn, [cfg, p][-len(fn.params):], None):
            self.cnt('validator result')
            v = 0 if v is None else v
            zero = fork(z)
            if not (type(v) is int and v == 0 or type(v) is not int and I.assume(zero, ('B', 'eq', v, 0), True)):
                continue
            ok = True
            x = lin(('cfgnum', k))
            z = zero
            if o[1] == I.mod.enum('CFGT_INT'):
                good = z.sure_ge0(x)
            else:
                def f(pred, a, b):
                    return z.iv.get(('fcmp', pred, a, b))
                zero_ = ('D', 0.0)
                good = f('oge', x, zero_) == (1, 1) or f('ole', zero_, x) == (1, 1) or f('ult', x, zero_) == (0, 0) or \
                    f('ugt', zero_, x) == (0, 0) or (f('olt', x, zero_) == (0, 0) or f('ogt', zero_, x) == (0, 0)) and (
                        f('uno', x, x) == (0, 0) or f('ord', x, x) == (1, 1) or f('uno', x, zero_) == (0, 0) or
                        f('une', x, x) == (0, 0) or f('oeq', x, x) == (1, 1))
            if not good:
                I.report(z, 'D03-validate', 'a value of "%s" is accepted that was not shown to be non-negative' % o[0],
                         where=fn.name.split('.')[0])
        if not ok:
            I.report(s, 'D03-refused', 'no value of "%s" is accepted' % o[0], where=fn.name.split('.')[0])

    def pattern(self, I, st, cfg, o):
        s = fork(st)
        s.ghost['incb'] = 1
        s.ghost['option'] = o[0]
        n = I.fresh(s, 'vlen', lo=0)
        v = I.new_obj(s, ladd(n, 1), 'heap', VALUE, 'T', attrs={'content': (VALUE,), 'len': n})
        s.ghost['valueobj'] = v
        res = I.new_obj(s, 8, 'heap', 'result', 'T')
        set_cell(s, res, 0, 8, 0)
        p = self.extopt(I, s, o[0])
        fn = I.mod.funcs[o[5]]
        done = False
        for z, r in I.call_fn(s, fn, [cfg, p, ptr(v), ptr(res)][:len(fn.params)], None):
            self.cnt('pattern result')
            zero = fork(z)
            if not (type(r) is int and r == 0 or type(r) is not int and I.assume(zero, ('B', 'eq', r, 0), True)):
                continue
            done = True
            c = z.mem[res].cells.get(0)
            t = I.to_obj(z, c[1]) if c else None
            if t is None or z.ghost.get(('re', t[0])) != 'compiled' or t[1] != 0 or z.mem[t[0]].status != 'alive':
                I.report(z, 'S03-result', 'a pattern of "%s" is accepted although it was not compiled successfully' % o[0],
                         where=fn.name.split('.')[0])
        if not done:
            I.report(s, 'S03-refused', 'no pattern of "%s" is accepted' % o[0], where=fn.name.split('.')[0])
        fc = I.mod.funcs.get(o[7]) if o[7] else None
        if fc is not None:
            s = fork(st)
            s.ghost['incb'] = 1
            ob = I.new_obj(s, 64, 'heap', 'regex', 'T')
            I.call_fn(s, fc, [ptr(ob)], None)

    def include(self, I, st, cfg, o):
        s = fork(st)
        s.ghost['incb'] = 1
        fn = I.mod.funcs[o[4]]
        n = I.fresh(s, 'argc', lo=0, hi=1 << 16)
        av = I.new_obj(s, lmul(n, 8), 'heap', 'argv', 'T')
        for z, r in I.call_fn(s, fn, [cfg, self.extopt(I, s, o[0]), n, ptr(av)], None):
            self.cnt('include result')

    # ---------------------------------------------------------------- what patterns consist of
    def on_formatted(self, I, st, o, t):
        """pieces of the configured text are recognised when they are put into a string"""
        if t is None or 'option' not in st.ghost:
            return
        out = []
        for x in t:
            if type(x) is tuple and x[0] == 'str' and len(x) == 2:
                x = self.piece(I, st, x[1]) or x
            elif type(x) is tuple and x[0] == 'str' and len(x) == 4:
                x = self.prefix(I, st, x) or x
            out.append(x)
        models.set_attr(st, o, tpl=tuple(out))

    def copies(self, st):
        """objects that hold (what is left of) a copy of the configured text"""
        return [st.ghost.get('valueobj')] + [k[1] for k in st.ghost if type(k) is tuple and k[0] == 'copyof']

    def on_alloc(self, I, st, o, size):
        if st.mem[o].attrs.get('content') == (VALUE,):
            st.ghost[('copyof', o)] = 1

    def at_sign(self, st, off):
        """is off the position of the last '@' in the text?"""
        s = sym1(off) if is_lin(off) else None
        return s is not None and s[0] == 'rchr' and s[1] in self.copies(st) and s[3] == 64 and s[4] == 0

    def piece(self, I, st, c):
        if c == (VALUE,):
            return ('hole', 'V')
        if type(c) is tuple and c[0] == 'at' and c[1] in self.copies(st):
            off = c[2]
            if off == 0:
                cut = [k for k, (sz, v) in st.mem[c[1]].cells.items() if sz == 1 and v == 0]
                if len(cut) == 1 and self.at_sign(st, cut[0]):
                    return ('hole', 'before@')
            elif is_num(off) and self.at_sign(st, ladd(off, -1)):
                return ('hole', 'after@')
        return None

    def prefix(self, I, st, x):
        c, n = x[2], x[3]
        if (c == (VALUE,) or type(c) is tuple and c[0] == 'at' and c[1] in self.copies(st) and c[2] == 0) and \
                x[1] == '.*' and is_num(n):
            if self.at_sign(st, n) or any(self.at_sign(st, lin(s)) and st.same(lin(s), n) for s in list(st.iv) if s[0] == 'rchr'):
                return ('hole', 'before@')
        return None

    def on_lacks(self, I, st, o, off, chars):
        if o in self.copies(st) and off == 0 and chars and 64 in chars:
            st.ghost['no@'] = 1

    def on_regcomp(self, I, st, r, p, flags):
        opt = st.ghost.get('option')
        if opt is None:
            return
        self.cnt('pattern compiled')
        if type(flags) is not int or not flags & EXT or flags & (NEWL | ICASE):
            I.report(st, 'S03-flags', 'a pattern of "%s" is not compiled as an extended, case-sensitive regular expression '
                     'that takes newlines as they are' % opt)
        q = I.to_obj(st, p)
        t = I.obj(st, q[0]).attrs.get('tpl') if q is not None and q[1] == 0 else None
        want = [PATTERNS[opt]] if opt in PATTERNS else []
        if opt == 'services' and 'no@' not in st.ghost:
            want = [PATTERNS['services@']]
        bad = decide(t, want)
        if bad:
            I.report(st, 'S03-pattern', 'the expression compiled for a pattern of "%s" does not match what it should: %s' % (
                opt, bad))

    # ---------------------------------------------------------------- the sections
    def on_cfg_getnsec(self, I, st, cfg, nm, idx):
        if 'incb' in st.ghost:
            return
        if nm is None or nm.decode('latin1') != self.section:
            raise Broken('cfg_getnsec() of %r' % (nm,))
        if st.ghost.get('parse') != 'ok':
            I.report(st, 'D03-parse', 'sections are processed although the configuration was not parsed successfully')
        n = lin(('cfgsize', self.rootsym, self.section))
        if not (is_num(idx) and st.sure_ge0(idx) and st.sure_ge0(ladd(lsub(n, idx), -1))):
            I.report(st, 'D03-index', 'a section is looked up that may not exist')
        self.reset(st)
        self.cnt('section')

    def on_cfg_init(self, I, st, opts, o):
        self.root = ('P', o, 0)
        self.rootsym = ('ptr', o, 0)

    def on_cfg_set(self, I, st, sec, name, v):
        self.cnt('fallback')
        if not is_sec(sec) or name not in self.names:
            I.report(st, 'D04-section', 'a setting is changed that is none of an authorization section')
            return
        if get(I, st, name)[1] != 0:
            I.report(st, 'D04-override', 'a global setting is applied to a section that may have set it itself')
        s = sym1(v)
        c = get(I, st, name)[0]
        root = self.rootsym
        if not (type(s) is tuple and s[:2] == ('p', 'optval') and type(s[2]) is tuple and s[2][:2] == ('p', 'opt')):
            I.report(st, 'D04-value', 'the fallback for a setting is not a value from the configuration')
        elif s[2][2] != root or s[2][3] != name:
            I.report(st, 'D04-value', 'the fallback for "%s" is not the global setting of that name' % name)
        elif not (is_num(s[3]) and st.same(s[3], c)):
            I.report(st, 'D04-all', 'the values of a global setting are not applied one after the other')
        put(I, st, name, c=ladd(c, 1))

    def on_hash_enter(self, I, st, key, k, e):
        if 'incb' in st.ghost:
            return
        sec = k[1] if type(k) is tuple and len(k) == 3 and k[0] == 'cfg' and k[2] == b'#title' and is_sec(k[1]) else None
        if sec is None:
            I.report(st, 'D03-key', 'a section is registered under something that is not its title')
            return
        self.cnt('section registered')
        for n in self.names:
            c, o, g = get(I, st, n)
            if self.is_list(n):
                g = lin(('cfgsize', self.rootsym, n))
            if n == 'password' and not (o == 1 or st.sure_ge0(ladd(c, -1))):
                I.report(st, 'D03-password', 'a section is registered without having been shown to have a password')
            if o == 1:
                continue
            if g == -1 or not st.sure_ge0(lsub(c, g)):
                I.report(st, 'D04-missing', 'the global setting "%s" is not applied to all sections that do not set it' % n)
        self.reset(st)
        X = ('X', e)
        v = st.mem[X].cells[8][1]
        if v == 0 or v == 'U':
            st.ghost['entered'] = (sec, X)      # filled in later
        else:
            self.registered(I, st, sec, v)

    def reset(self, st):
        st.ghost.pop('pending', None)
        for i in range(len(self.names)):
            set_cell(st, MON, 8 * (1 + i), 8, 0)
        for n in self.names:
            st.ghost.pop(('setting', n), None)

    def registered(self, I, st, sec, v):
        """the section that was registered last is what is found under its title"""
        if sym1(v) != sec:
            I.report(st, 'D03-key', 'what is registered under the title of a section is not that section')
        set_cell(st, MON, 0, 8, ladd(cell(st, 0), 1))
        for o in [o for o in st.mem if o[0] == 'X' and I._mentions(o, sec)]:
            del st.mem[o]

    def on_store(self, I, st, o, off, size, v):
        g = st.ghost.get('entered')
        if g is not None and o == g[1] and off == 8:
            del st.ghost['entered']
            self.registered(I, st, g[0], v)
        elif o[0] == 'X' and type(o[1]) is tuple and o[1][:2] == ('p', 'entry') and off == 8 and o in st.mem:
            k = o[1][2]
            if type(k) is tuple and len(k) == 3 and sym1(v) != k[1]:
                I.report(st, 'D03-key', 'what is registered under the title of a section is not that section')
            del st.mem[o]

    def returned(self, I, st, v):
        self.cnt('configuration accepted')
        fn = 'conf_parse'
        if st.ghost.get('parse') != 'ok':
            I.report(st, 'D03-parse', 'the configuration is used although it was not parsed successfully', where=fn)
        if st.ghost.get('refused'):
            I.report(st, 'D03-refusal', 'the configuration is used although a global setting could not be applied', where=fn)
        n = lin(('cfgsize', self.rootsym, self.section))
        if not st.sure_ge0(ladd(n, -1)):
            I.report(st, 'D03-empty', 'a configuration without authorization sections is accepted', where=fn)
        if not st.same(n, cell(st, 0)):
            I.report(st, 'D03-all', 'not every authorization section is registered', where=fn)
        if v != self.root:
            I.report(st, 'D03-parse', 'what is returned is not the configuration that was parsed', where=fn)
