"""Analyses of the whole program's IR that need no state exploration.

* formats: every call that formats gets a constant format whose conversions match the
  arguments, fixed-size buffers are not exceeded (L01, M06)
* allocations: results of allocation are checked before they are used (L02)
* signals: what signal handlers may reach (F06)

Nothing here looks at names of the project's own functions: format functions,
allocation wrappers and signal handlers are found from what they do with the
library functions below them, to a fixpoint.
"""
import re
from core import Broken

# ------------------------------------------------------------------ the program
# formatting functions: (index of the format, index of the first argument; None: a va_list)
PRINTF = {
    'printf': (0, 1), 'fprintf': (1, 2), 'dprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3),
    'asprintf': (1, 2), 'syslog': (1, 2), 'vprintf': (0, None), 'vfprintf': (1, None), 'vdprintf': (1, None),
    'vsprintf': (1, None), 'vsnprintf': (2, None), 'vasprintf': (1, None), 'vsyslog': (1, None),
    'cfg_error': (1, 2), 'err': (1, 2), 'errx': (1, 2), 'warn': (0, 1), 'warnx': (0, 1), 'error': (2, 3),
    'sd_notifyf': (1, 2), 'setproctitle': (0, 1), 'BIO_printf': (1, 2), 'BIO_snprintf': (2, 3),
    '__snprintf_chk': (4, 5), '__vsnprintf_chk': (4, None), '__sprintf_chk': (3, 4), '__fprintf_chk': (2, 3),
    '__printf_chk': (1, 2), '__vfprintf_chk': (2, None), '__asprintf_chk': (2, 3), '__vasprintf_chk': (2, None),
    '__syslog_chk': (2, 3), '__vsyslog_chk': (2, None),
    'Perl_croak_nocontext': (0, 1), 'Perl_croak': (1, 2), 'Perl_warn_nocontext': (0, 1), 'Perl_warn': (1, 2),
    'Perl_die_nocontext': (0, 1), 'Perl_newSVpvf_nocontext': (0, 1), 'Perl_form_nocontext': (0, 1),
    'Perl_newSVpvf': (1, 2), 'Perl_sv_setpvf_nocontext': (1, 2), 'Perl_sv_setpvf': (2, 3),
    'Perl_sv_catpvf_nocontext': (1, 2), 'Perl_sv_catpvf': (2, 3), 'Perl_my_snprintf': (2, 3),
    'Perl_mess_nocontext': (0, 1), 'Perl_warner_nocontext': (1, 2), 'Perl_warner': (2, 3),
    'PyErr_Format': (1, 2), 'PyErr_FormatV': (1, None), 'PyErr_WarnFormat': (2, 3),
    'PyUnicode_FromFormat': (0, 1), 'PyUnicode_FromFormatV': (0, None), 'PyBytes_FromFormat': (0, 1),
    'PySys_WriteStdout': (0, 1), 'PySys_WriteStderr': (0, 1), 'PySys_FormatStderr': (0, 1),
    'PySys_FormatStdout': (0, 1), 'PyOS_snprintf': (2, 3), 'PyOS_vsnprintf': (2, None),
    'sscanf': (1, 2), '__isoc99_sscanf': (1, 2), '__isoc23_sscanf': (1, 2), 'fscanf': (1, 2),
    '__isoc99_fscanf': (1, 2), '__isoc23_fscanf': (1, 2), 'scanf': (0, 1), '__isoc99_scanf': (0, 1),
    '__isoc23_scanf': (0, 1), 'strftime': (2, None), 'Py_BuildValue': (0, None), '_Py_BuildValue_SizeT': (0, None),
    'PyArg_ParseTuple': (1, None), '_PyArg_ParseTuple_SizeT': (1, None),
    'PyArg_ParseTupleAndKeywords': (2, None), '_PyArg_ParseTupleAndKeywords_SizeT': (2, None),
    'PyArg_Parse': (1, None), '_PyArg_Parse_SizeT': (1, None), 'PyObject_CallFunction': (1, None),
    '_PyObject_CallFunction_SizeT': (1, None), 'PyObject_CallMethod': (2, None),
    '_PyObject_CallMethod_SizeT': (2, None),
}
SCANF = {n for n in PRINTF if 'scanf' in n}
NOTPRINTF = SCANF | {'strftime'} | {n for n in PRINTF if 'Arg_Parse' in n or 'BuildValue' in n or '_Call' in n}
PERL = {n for n in PRINTF if n.startswith('Perl_')}
PY = {n for n in PRINTF if n.startswith('Py')}
# text whose bytes are trusted inside of a format built at run time (no user or peer text)
TRUSTED_TEXT = {'strerror', 'strerror_r', 'strerror_l', '__xpg_strerror_r'}


class Prog:
    """a module with the helper queries the analyses share"""

    def __init__(self, m):
        self.m = m
        self.funcs = [f for f in m.funcs.values() if f.defined]
        self.taken = None

    def defs(self, f):
        d = f.__dict__.get('_defs')
        if d is None:
            d = f._defs = {}
            for i in f.instrs():
                if i.dest is not None:
                    d[i.dest] = i
        return d

    def uses(self, f):
        d = f.__dict__.get('_uses')
        if d is None:
            d = f._uses = {}
            for i in f.instrs():
                ops = list(i.a)
                if i.op == 'call' and i.x[0] != 'asm' and isinstance(i.x[0], tuple):
                    ops.append(i.x[0])
                for o in ops:
                    if isinstance(o, tuple) and o and o[0] == 'r':
                        d.setdefault(o[1], []).append(i)
        return d

    def callee(self, i):
        """('g', name) of a direct call, else None"""
        if i.x[0] == 'asm':
            return None
        c = i.x[0]
        if isinstance(c, tuple) and c[0] == 'g' and c[2] == 0:
            return c[1]
        return None

    def address_taken(self):
        """functions whose address is used other than for calling them"""
        if self.taken is None:
            t = set()

            def note(o):
                if isinstance(o, tuple):
                    if o and o[0] == 'g' and len(o) == 3 and o[1] in self.m.funcs:
                        t.add(o[1])
                    elif o and o[0] in ('agg',):
                        for x in o[1]:
                            note(x)
                elif isinstance(o, list):
                    for x in o:
                        note(x)
            for f in self.funcs:
                for i in f.instrs():
                    for o in i.a:
                        note(o)
            for g in self.m.globals.values():
                note(g.init)
            self.taken = t
        return self.taken

    def indirect(self, i):
        """functions an indirect call may call: same shape, address taken"""
        tys = i.x[1]
        out = []
        for n in self.address_taken():
            f = self.m.funcs[n]
            k = len(f.ptypes)
            if f.vararg != (i.va is not None):
                continue
            if f.vararg:
                if i.va != k:
                    continue
            elif k != len(tys):
                continue
            if any(a != b for a, b in zip(f.ptypes, tys)):
                continue
            if f.ret != i.ty:
                continue
            out.append(n)
        return out

    def string(self, o):
        """bytes of the constant string o points at, or None"""
        if not (isinstance(o, tuple) and o and o[0] == 'g'):
            return None
        g = self.m.globals.get(o[1])
        if g is None or not g.const or not g.defined:
            return None
        k = g.init
        if isinstance(k, tuple) and k and k[0] == 'str':
            b = k[1][o[2]:]
        elif isinstance(k, tuple) and k and k[0] == 'zero':
            b = b'\0'
        else:
            return None
        z = b.find(b'\0')
        return b[:z] if z >= 0 else None

    def where(self, i):
        f, l = self.m.loc(i.loc)
        return f, l, i.fn.name.split('.')[0]

    def origins(self, f, o, seen=None):
        """the values o may have: through phi, select and casts of pointers"""
        seen = set() if seen is None else seen
        if isinstance(o, tuple) and o and o[0] == 'r':
            if o[1] in seen:
                return []
            seen.add(o[1])
            d = self.defs(f).get(o[1])
            if d is None:
                return [o]
            if d.op == 'phi':
                return [x for a in d.a for x in self.origins(f, a, seen)]
            if d.op == 'select':
                return [x for a in d.a[1:] for x in self.origins(f, a, seen)]
            if d.op == 'cast' and d.x[0] == 'bitcast':
                return self.origins(f, d.a[0], seen)
        return [o]


class Lint:
    def __init__(self, program, module):
        self.p = Prog(module)
        self.program = program
        self.found = {}
        self.n = {}

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def report(self, rule, i, msg, where=None, trace=()):
        f, l, fn = where or self.p.where(i)
        self.found[(rule, f, l, msg)] = {'rule': rule, 'message': msg, 'file': f.split('/repo/')[-1], 'line': l,
                                         'function': fn, 'stack': [fn], 'trace': list(trace)}

    def result(self):
        return {'findings': list(self.found.values()), 'functions': sorted({f.name.split('.')[0] for f in self.p.funcs}),
                'events': dict(self.n), 'obligations': dict(self.n), 'abstract_steps': 0,
                'instructions': sum(1 for f in self.p.funcs for _ in f.instrs()),
                'modelled_calls': [], 'memory_accesses_checked': 0, 'undecided_bounds': [], 'unmodelled': [],
                'sources': [x.split('/repo/')[-1] for x in self.p.m.compiled.sources]}


# ------------------------------------------------------------------ formats
CONV = re.compile(rb"%(?P<pos>\d+\$)?(?P<flags>[-+ #0']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|-?\d*))?"
                  rb"(?P<len>hh|h|ll|l|q|j|z|t|L)?(?P<conv>.)", re.S)


def conversions(fmt, scan=False, plus=()):
    """[(IR type, conversion, match)] or None if the format is malformed"""
    out = []
    i = 0
    while True:
        i = fmt.find(b'%', i)
        if i < 0:
            return out
        if scan:
            m = re.compile(rb'%(?P<star>\*)?(?P<width>\d+)?m?(?P<len>hh|h|ll|l|q|j|z|t|L)?(?P<conv>\[\^?\]?[^]]*\]|.)',
                           re.S).match(fmt, i)
            if m is None:
                return None
            i = m.end()
            if m.group('conv') != b'%' and not m.group('star'):
                out.append((('p',), m.group('conv'), m))
            continue
        m = CONV.match(fmt, i)
        if m is None:
            return None
        i = m.end()
        c, ln = m.group('conv'), m.group('len') or b''
        if m.group('width') == b'*':
            out.append((('i', 32), b'*', m))
        if m.group('prec') == b'*':
            out.append((('i', 32), b'*', m))
        if c == b'%':
            continue
        if c == b'm':
            continue
        if c in b'diouxXc':
            w = 64 if ln in (b'l', b'll', b'q', b'j', b'z', b't') else 32
            out.append((('i', w), c, m))
        elif c in b'sp':
            out.append((('p',), c, m))
        elif c in b'eEfFgGaA':
            out.append((('f', 80 if ln == b'L' else 64), c, m))
        elif c == b'n':
            out.append((('p',), b'n', m))
        elif c in plus:
            out.append((('p',), c, m))
        else:
            return None


def ptrbase(p, f, o):
    """(alloca instruction or global or None, constant offset or None) behind a pointer"""
    off = 0
    while True:
        if isinstance(o, tuple) and o and o[0] == 'g':
            g = p.m.globals.get(o[1])
            return g, (off + o[2] if off is not None else None)
        if not (isinstance(o, tuple) and o and o[0] == 'r'):
            return None, None
        d = p.defs(f).get(o[1])
        if d is None:
            return None, None
        if d.op == 'alloca':
            return d, off
        if d.op == 'cast' and d.x[0] == 'bitcast':
            o = d.a[0]
            continue
        if d.op == 'gep':
            k = gepoff(p.m, d)
            off = off + k if off is not None and k is not None else None
            o = d.a[0]
            continue
        return None, None


def gepoff(m, d):
    t, off = d.ty, 0
    for n, ix in enumerate(d.a[1:]):
        if n == 0:
            if not isinstance(ix, int):
                return None
            off += ix * m.types.size(t)
            continue
        rt = m.types.resolve(t)
        if not isinstance(ix, int):
            return None
        if rt[0] == 's':
            off += m.types.offsets(rt)[ix]
            t = rt[1][ix]
        elif rt[0] == 'a':
            off += ix * m.types.size(rt[2])
            t = rt[2]
        else:
            return None
    return off


def fixed_size(p, f, o):
    """bytes from o to the end of the array or variable of fixed size it points into, or None"""
    if isinstance(o, tuple) and o and o[0] == 'r':
        d = p.defs(f).get(o[1])
        # a member of a structure behind a pointer: the size of the member
        if d is not None and d.op == 'gep' and len(d.a) >= 3:
            t, ok = d.ty, True
            rest = None
            for n, ix in enumerate(d.a[1:]):
                if n == 0:
                    continue
                rt = p.m.types.resolve(t)
                if rt[0] == 's' and isinstance(ix, int):
                    t = rt[1][ix]
                    rest = p.m.types.size(t)
                elif rt[0] == 'a' and isinstance(ix, int):
                    rest = p.m.types.size(rt[2]) * (rt[1] - ix)
                    t = rt[2]
                else:
                    ok = False
                    break
            if ok and rest is not None and p.m.types.resolve(d.ty)[0] in ('s', 'a'):
                return rest
    b, off = ptrbase(p, f, o)
    if b is None or off is None:
        return None
    if hasattr(b, 'op'):
        if b.a and b.a[0] != 1:
            if not isinstance(b.a[0], int):
                return None
            return p.m.types.size(b.ty) * b.a[0] - off
        return p.m.types.size(b.ty) - off
    if not getattr(b, 'defined', False):
        return None
    return p.m.types.size(b.ty) - off


class Formats(Lint):
    """L01/M06: formats are constants that match their arguments"""

    def run(self):
        p = self.p
        self.fmt = {n: [s] for n, s in PRINTF.items()
                    if n in p.m.funcs and not p.m.funcs[n].defined}
        work = list(p.funcs)
        # which parameters of which functions are formats: to a fixpoint
        changed = True
        while changed:
            changed = False
            for f in p.funcs:
                for i in f.instrs():
                    if i.op != 'call':
                        continue
                    for name, (k, _) in self.sinks(i):
                        if k >= len(i.a):
                            continue
                        for o in p.origins(f, i.a[k]):
                            q = self.param(f, o)
                            if q is None:
                                q = self.built_from(f, o)
                            if q is not None and self.add(f, q, i):
                                changed = True
        for f in p.funcs:
            for i in f.instrs():
                if i.op == 'call' and i.x[0] != 'asm':
                    self.check(f, i)
        self.count('format functions', len(self.fmt))
        return self

    def sinks(self, i):
        n = self.p.callee(i)
        if n is not None:
            return [(n, s) for s in self.fmt.get(n, ())]
        if i.x[0] == 'asm':
            return []
        out = []
        for c in self.p.indirect(i):
            for s in self.fmt.get(c, ()):
                out.append((c, s))
        return out

    def param(self, f, o):
        if isinstance(o, tuple) and o and o[0] == 'r' and o[1] < len(f.params):
            return o[1]
        return None

    def add(self, f, k, i):
        s = (k, len(f.ptypes) if f.vararg else None)
        l = self.fmt.setdefault(f.name, [])
        if s in l:
            return False
        l.append(s)
        return True

    def built_from(self, f, o):
        """the format parameter a local format buffer is built from, if all of its text comes from it, from
        constants, or from the C library's error texts"""
        r = self.buffer(f, o)
        return r if isinstance(r, int) and not isinstance(r, bool) else None

    def buffer(self, f, o):
        """for a pointer into a local array: True (constants only), a parameter index, or an instruction that
        puts other text into it; None if it is no such pointer"""
        b, off = ptrbase(self.p, f, o)
        if b is None or not hasattr(b, 'op'):
            return None
        par = True
        # everything that may write to the buffer
        seen, work = set(), [b.dest]
        uses = self.p.uses(f)
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            for u in uses.get(r, ()):
                if u.op in ('gep', 'cast', 'phi', 'select') and u.dest is not None:
                    work.append(u.dest)
                elif u.op == 'store':
                    if u.a[1] == ('r', r):
                        k = self.byte(f, u.a[0])
                        if k is None:
                            return u
                        if k is not True:
                            if par is not True and par != k:
                                return u
                            par = k
                    else:
                        return u      # its address escapes
                elif u.op == 'call':
                    c = self.p.callee(u)
                    if c is None:
                        return u
                    if c.startswith('llvm.'):
                        if c.startswith('llvm.mem') and u.a[0] == ('r', r):
                            if c.startswith('llvm.memset'):
                                continue
                            k = self.text(f, u.a[1])
                            if k is None:
                                return u
                            if k is not True:
                                if par is not True and par != k:
                                    return u
                                par = k
                        continue
                    if c in ('memcpy', 'strcpy', 'strncpy', 'strcat', 'strncat', 'memmove', 'strlcpy', 'strlcat', 'stpcpy') \
                            and u.a[0] == ('r', r):
                        k = self.text(f, u.a[1])
                        if k is None:
                            return u
                        if k is not True:
                            if par is not True and par != k:
                                return u
                            par = k
                    elif c in self.fmt or c in ('strlen', 'strchr', 'strrchr', 'memset', 'free'):
                        if c in self.fmt and any(u.a[s[0]] != ('r', r) for s in self.fmt[c] if s[0] < len(u.a)):
                            return u
                    elif self.p.m.funcs.get(c) is not None and not self.p.m.funcs[c].defined:
                        return u
                    else:
                        return u
        return par

    def byte(self, f, o, seen=None):
        """a byte: True if constant, the parameter whose text it is from, or None"""
        seen = set() if seen is None else seen
        if isinstance(o, int):
            return True
        if not (isinstance(o, tuple) and o[0] == 'r'):
            return None
        if o[1] in seen:
            return True
        seen.add(o[1])
        d = self.p.defs(f).get(o[1])
        if d is None:
            return None
        if d.op == 'load':
            return self.text(f, d.a[0])
        if d.op == 'cast':
            return self.byte(f, d.a[0], seen)
        if d.op in ('phi', 'select'):
            out = True
            for a in (d.a if d.op == 'phi' else d.a[1:]):
                k = self.byte(f, a, seen)
                if k is None or (k is not True and out is not True and k != out):
                    return None
                if k is not True:
                    out = k
            return out
        return None

    def text(self, f, o, seen=None):
        seen = set() if seen is None else seen
        if isinstance(o, tuple) and o and o[0] == 'g':
            g = self.p.m.globals.get(o[1])
            return True if g is not None and g.const else None
        if not (isinstance(o, tuple) and o and o[0] == 'r'):
            return None
        if o[1] in seen:
            return True
        seen.add(o[1])
        if o[1] < len(f.params):
            return o[1]
        d = self.p.defs(f).get(o[1])
        if d is None:
            return None
        if d.op in ('gep', 'cast'):
            return self.text(f, d.a[0], seen)
        if d.op in ('phi', 'select'):
            out = True
            for a in (d.a if d.op == 'phi' else d.a[1:]):
                k = self.text(f, a, seen)
                if k is None or (k is not True and out is not True and k != out):
                    return None
                if k is not True:
                    out = k
            return out
        if d.op == 'call' and self.p.callee(d) in TRUSTED_TEXT:
            return True
        return None

    def check(self, f, i):
        p = self.p
        sinks = self.sinks(i)
        if sinks:
            self.count('formatting calls')
        done = set()
        for name, (k, first) in sinks:
            if k >= len(i.a):
                self.report('L01-format', i, 'the call of %s() has no format' % name.split('.')[0])
                continue
            if (k, first) in done:
                continue
            done.add((k, first))
            for o in p.origins(f, i.a[k]):
                s = p.string(o)
                if s is not None:
                    self.count('constant formats')
                    self.match(f, i, name, s, first)
                    continue
                q = self.param(f, o)
                if q is not None:
                    # the format of the caller: our own arguments have to be the caller's, too
                    if first is not None and name not in NOTPRINTF:
                        self.report('L01-format', i, 'the format given by the caller is used with other arguments')
                    continue
                r = self.buffer(f, o)
                if r is True or (isinstance(r, int) and not isinstance(r, bool)):
                    self.count('formats built from constant text')
                    continue
                if o == 0 or o == 'null':
                    self.report('L01-format', i, 'a null pointer is used as format of %s()' % name.split('.')[0])
                    continue
                if r is not None:
                    fl, ln, fn = p.where(r)
                    self.report('L01-format', i, 'the format of %s() is built from text that is neither constant nor a format '
                                '(put in at line %d)' % (name.split('.')[0], ln))
                else:
                    self.report('L01-format', i, 'the format of %s() is not a constant' % name.split('.')[0])
        self.sizes(f, i)

    def match(self, f, i, name, s, first):
        if name in NOTPRINTF and name not in SCANF:
            if 'Arg_ParseTuple' in name:
                self.pyargs(f, i, name, s)
            return
        if first is None:
            return
        scan = name in SCANF
        cv = conversions(s, scan, plus=(b'ASRUVTN' if name in PY else b''))
        shown = s.decode('latin-1')
        if cv is None:
            self.report('L01-format', i, 'malformed format "%s"' % shown)
            return
        tys = i.x[1][first:]
        if len(cv) > len(tys):
            self.report('L01-type', i, 'format "%s" needs %d argument(s), there are %d' % (shown, len(cv), len(tys)))
            return
        for n, ((t, c, m), a) in enumerate(zip(cv, tys)):
            if c == b'n':
                self.report('L01-format', i, 'format "%s" writes to memory' % shown)
            if t != a:
                self.report('L01-type', i, 'argument %d of format "%s" has the wrong type' % (n + 1, shown))
            v = i.a[first + n]
            if c == b's' and v == 0:
                self.report('L01-type', i, 'argument %d of format "%s" is a null pointer' % (n + 1, shown))
            if scan:
                self.scanarg(f, i, m, v, n, shown)
        self.count('conversions', len(cv))

    def scanarg(self, f, i, m, v, n, shown):
        c = m.group('conv')
        sz = fixed_size(self.p, f, v)
        if c[:1] in b's[':
            if m.group('width') is None:
                self.report('L01-bounds', i, 'format "%s" reads text of any length into a buffer' % shown)
            elif sz is not None and int(m.group('width')) + 1 > sz:
                self.report('L01-bounds', i, 'format "%s" reads more text than fits its buffer' % shown)
        elif c in b'diouxX':
            w = {b'hh': 1, b'h': 2, b'': 4}.get(m.group('len') or b'', 8)
            if sz is not None and sz < w:
                self.report('L01-bounds', i, 'argument %d of format "%s" is too small' % (n + 1, shown))

    PYSZ = {'s': [8], 'z': [8], 'y': [8], 'O': [8], 'S': [8], 'U': [8], 'I': [4], 'i': [4], 'l': [8], 'k': [8], 'L': [8],
            'K': [8], 'n': [8], 'h': [2], 'H': [2], 'b': [1], 'B': [1], 'c': [1], 'C': [4], 'f': [4], 'd': [8], 'p': [4]}

    def pyargs(self, f, i, name, s):
        k = 4 if 'Keywords' in name else 2
        args = i.a[k:]
        spec = s.decode('latin-1').split(':')[0].split(';')[0]
        want, n, j, names = [], 0, 0, 0
        while j < len(spec):
            c = spec[j]
            j += 1
            if c in '|$ ':
                continue
            names += 1
            e = list(self.PYSZ.get(c, [None]))
            if e == [None]:
                return
            if j < len(spec) and spec[j] == '#':
                e = [8, 8]
                j += 1
            elif j < len(spec) and spec[j] == '*':
                e = [80]
                j += 1
            elif j < len(spec) and spec[j] == '!':
                e = [None, 8]
                j += 1
            want += e
        if len(want) != len(args):
            self.report('L01-type', i, 'format "%s" needs %d argument(s), there are %d' % (s.decode('latin-1'), len(want), len(args)))
            return
        self.count('conversions', len(want))
        for n, (w, a) in enumerate(zip(want, args)):
            if w is None:
                continue
            sz = fixed_size(self.p, f, a)
            if sz is not None and sz != w:
                self.report('L01-type', i, 'argument %d of format "%s" has %d bytes instead of %d' % (n + 1, s.decode('latin-1'), sz, w))
        if k == 4 and isinstance(i.a[3], tuple) and i.a[3][0] == 'g':
            g = self.p.m.globals.get(i.a[3][1])
            if g is not None and isinstance(g.init, tuple) and g.init[0] == 'agg':
                kw = [x for x in g.init[1] if x not in (0, 'null', ('zero',))]
                if len(kw) != names or len(kw) == len(g.init[1]):
                    self.report('L01-type', i, 'format "%s" does not fit the list of keywords' % s.decode('latin-1'))

    # bounded writes into buffers of fixed size: (index of buffer, index of size)
    SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'strncpy': (0, 2), 'strlcpy': (0, 2), 'memcpy': (0, 2),
             'memmove': (0, 2), 'memset': (0, 2), 'fgets': (0, 1), 'read': (1, 2), 'recv': (1, 2), 'strftime': (0, 1),
             'regerror': (2, 3), 'ERR_error_string_n': (1, 2), 'RAND_bytes': (0, 1), 'SSL_read': (1, 2), 'BIO_read': (1, 2),
             'getnameinfo': (2, 3), 'gethostname': (0, 1), 'readlink': (1, 2), 'getcwd': (0, 1), 'strerror_r': (1, 2),
             '__xpg_strerror_r': (1, 2), 'inet_ntop': (2, 3), 'pread': (1, 2)}
    UNSIZED = {'gets': 0, 'strcpy': 0, 'strcat': 0, 'stpcpy': 0}

    def sizes(self, f, i):
        p = self.p
        n = p.callee(i)
        if n is None:
            return
        if n.startswith('llvm.mem'):
            n = n[5:].split('.')[0]
        if n in self.SIZED:
            b, k = self.SIZED[n]
            if k >= len(i.a):
                return
            sz, v = fixed_size(p, f, i.a[b]), i.a[k]
            if sz is not None and isinstance(v, int):
                self.count('fixed-size buffers')
                if v > sz or v < 0:
                    self.report('L01-bounds', i, '%s() may write %d bytes into a buffer of %d' % (n, v, sz))
        elif n == 'sprintf':
            sz = fixed_size(p, f, i.a[0])
            s = p.string(i.a[1])
            if sz is not None and s is not None:
                self.count('fixed-size buffers')
                mx = self.longest(f, i, s, 2)
                if mx is None or mx + 1 > sz:
                    self.report('L01-bounds', i, 'sprintf() may write more than the %d bytes of its buffer' % sz)
        elif n == 'strcpy' or n == 'gets':
            sz = fixed_size(p, f, i.a[0])
            if sz is None:
                return
            self.count('fixed-size buffers')
            # text of unknown length is left to the analyses of memory accesses
            s = p.string(i.a[1]) if n == 'strcpy' else b''
            if n == 'gets' or s is not None and len(s) + 1 > sz:
                self.report('L01-bounds', i, '%s() may write more than the %d bytes of its buffer' % (n, sz))

    def longest(self, f, i, s, first):
        cv = conversions(s)
        if cv is None:
            return None
        n = len(CONV.sub(b'', s))
        k = first
        for t, c, m in cv:
            if m.group('width') == b'*' or m.group('prec') == b'*':
                return None
            w = int(m.group('width') or 0)
            if c in b'diu':
                n += max(w, 11 if t[1] == 32 else 21)
            elif c in b'xXo':
                n += max(w, 13 if t[1] == 32 else 24)
            elif c == b'c':
                n += max(w, 1)
            elif c == b'p':
                n += max(w, 18)
            elif c == b's':
                if m.group('prec') not in (None, b''):
                    n += max(w, int(m.group('prec')))
                else:
                    x = self.p.string(i.a[k])
                    if x is None:
                        return None
                    n += max(w, len(x))
            else:
                return None
            k += 1
        return n


# ------------------------------------------------------------------ allocation
ALLOC = {'malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup', 'aligned_alloc', 'memalign', 'valloc',
         'BIO_new', 'SSL_new', 'SSL_CTX_new', 'CRYPTO_malloc', 'CRYPTO_zalloc', 'CRYPTO_strdup', 'BIO_new_socket',
         'BIO_new_accept', 'BIO_new_connect', 'BIO_new_mem_buf', 'cfg_init', 'PyMem_Malloc', 'PyObject_Malloc',
         'PyMem_RawMalloc', 'opendir', 'fopen', 'fdopen', 'hsearch', 'open_memstream', 'PyModule_Create2'}
ALLOC_INT = {'asprintf', 'vasprintf'}    # -1 on failure, result through the first argument
ABORTS = {'cfg_init'}                    # documented to abort the program on failure
NULLOK = {'free', 'realloc', 'reallocarray', 'cfg_free', 'SSL_free', 'SSL_CTX_free', 'BIO_free', 'BIO_free_all',
          'CRYPTO_free', 'PyMem_Free', 'Perl_safesysfree', 'PyObject_Free', 'regfree'}


NORETURN = {'exit', '_exit', '_Exit', 'abort', '__assert_fail', 'err', 'errx', 'Perl_croak_nocontext', 'Perl_croak',
            'Perl_croak_no_mem', 'longjmp', 'siglongjmp'}


class Allocs(Lint):
    """L02: no result of an allocation is used before it was compared with null"""

    def run(self):
        p = self.p
        # functions that hand on an allocation they have not checked
        self.maybe = {n for n in ALLOC if n in p.m.funcs and not p.m.funcs[n].defined} - ABORTS
        changed = True
        while changed:
            changed = False
            self.found = {}
            self.n = {}
            for f in p.funcs:
                for i in f.instrs():
                    if i.op != 'call' or i.x[0] == 'asm':
                        continue
                    n = p.callee(i)
                    if n in self.maybe:
                        if self.site(f, i) and f.name not in self.maybe:
                            self.maybe.add(f.name)
                            changed = True
                    elif n in ALLOC_INT and p.m.funcs[n].defined is False:
                        self.site_int(f, i)
        self.count('functions that may return a failed allocation', len(self.maybe))
        return self

    def place(self, f, o):
        """name of a memory location: (base, offset), for locations reached again by the same path"""
        off = 0
        p = self.p
        while isinstance(o, tuple) and o and o[0] == 'r':
            d = p.defs(f).get(o[1])
            if d is None:
                return (('r', o[1]), off)
            if d.op == 'gep':
                k = gepoff(p.m, d)
                if k is None:
                    return (('gep', d.dest), 0)
                off += k
                o = d.a[0]
                continue
            if d.op == 'cast' and d.x[0] == 'bitcast':
                o = d.a[0]
                continue
            if d.op == 'load':
                q = self.place(f, d.a[0])
                return (('load', q), off)
            return (('r', o[1]), off)
        if isinstance(o, tuple) and o and o[0] == 'g':
            return (('g', o[1]), off + o[2])
        return (None, off)

    def site(self, f, i):
        """follow the result of the allocation i; True if it is returned unchecked"""
        if i.dest is None:
            return False
        self.count('allocations')
        name = self.p.callee(i).split('.')[0]
        returned = False
        start = (i.blk, i.idx + 1, frozenset([('v', i.dest)]), False)
        seen, work = set(), [start]
        while work:
            blk, idx, al, null = work.pop()
            if (blk, idx, al, null) in seen:
                continue
            seen.add((blk, idx, al, null))
            body = f.body[blk]
            k = idx
            stop = False
            while k < len(body) and not stop:
                u = body[k]
                k += 1
                if u is i:
                    stop = True
                    break
                r = self.step(f, i, u, al, null, name)
                if r == 'end':
                    stop = True
                elif r == 'returned':
                    returned = True
                    stop = True
                elif isinstance(r, frozenset):
                    al = r
                    if not al:
                        stop = True
            if stop:
                continue
            t = body[-1]
            for s in f.succ[blk]:
                a2, n2 = self.edge(f, t, s, al, null)
                if a2 is None:
                    continue
                # phis
                a3 = set(x for x in a2)
                for u in f.body[s]:
                    if u.op != 'phi':
                        break
                    for v, b in zip(u.a, u.x):
                        if b == blk:
                            if isinstance(v, tuple) and v[0] == 'r' and ('v', v[1]) in a2:
                                a3.add(('v', u.dest))
                            else:
                                a3.discard(('v', u.dest))
                j = 0
                while j < len(f.body[s]) and f.body[s][j].op == 'phi':
                    j += 1
                work.append((s, j, frozenset(a3), n2))
        return returned

    def step(self, f, i, u, al, null, name):
        def has(o):
            return isinstance(o, tuple) and o and o[0] == 'r' and ('v', o[1]) in al
        if u.op == 'store':
            if has(u.a[1]):
                return self.bad(i, u, name)
            q = self.place(f, u.a[1])
            if has(u.a[0]):
                return frozenset(al | {('m', q)})
            if ('m', q) in al:
                return frozenset(al - {('m', q)})
            return None
        if u.op == 'load':
            if has(u.a[0]):
                return self.bad(i, u, name)
            if ('m', self.place(f, u.a[0])) in al:
                return frozenset(al | {('v', u.dest)})
            if u.dest is not None and ('v', u.dest) in al:
                return frozenset(al - {('v', u.dest)})
            return None
        if u.op in ('gep', 'cast', 'select'):
            if any(has(o) for o in u.a):
                return frozenset(al | {('v', u.dest)})
            return None
        if u.op == 'ret':
            if u.a and has(u.a[0]):
                return 'returned'
            if any(x[0] == 'm' for x in al) and not null:
                # left in memory that outlives the function
                for x in al:
                    if x[0] == 'm' and self.outlives(f, x[1]) and not self.compared(f, x[1]):
                        self.report('L02-unchecked', i, 'the result of %s() is stored and never checked' % name)
            return 'end'
        if u.op == 'call':
            if u.x[0] == 'asm':
                return None
            c = self.p.callee(u)
            if c is not None and c.startswith('llvm.dbg'):
                return None
            if c is not None and (c.startswith('llvm.mem')):
                if any(has(o) for o in u.a[:2]):
                    return self.bad(i, u, name)
                return None
            if self.noreturn(u):
                return 'end'
            for n, o in enumerate(u.a):
                if has(o) and c not in NULLOK and not self.null_safe(c, n, set()):
                    return self.bad(i, u, name)
            return None
        if u.op == 'unreachable':
            return 'end'
        return None

    def outlives(self, f, q):
        b = q[0]
        if b is None:
            return True
        if b[0] == 'r' and b[1] >= len(f.params):
            d = self.p.defs(f).get(b[1])
            return not (d is not None and d.op == 'alloca')
        return True

    def compared(self, f, q):
        """somewhere the function compares what is stored at q with null"""
        for i in f.instrs():
            if i.op == 'icmp' and 0 in i.a:
                for o in i.a:
                    d = self.p.defs(f).get(o[1]) if isinstance(o, tuple) and o[0] == 'r' else None
                    if d is not None and d.op == 'load' and self.place(f, d.a[0]) == q:
                        return True
        return False

    def noreturn(self, i):
        """the call i never returns"""
        n = self.p.callee(i)
        if n is None:
            return False
        f = self.p.m.funcs.get(n)
        if f is None or not f.defined:
            return n in NORETURN
        if self.ends(f, None):
            return True
        for k, o in enumerate(i.a):
            if k < len(f.params) and isinstance(o, tuple) and o[0] == 'g' and o[1] in self.p.m.funcs:
                g = self.p.m.funcs[o[1]]
                if g.defined and self.ends(g, None) and self.ends(f, k):
                    return True
        return False

    def ends(self, f, k):
        """no path through f reaches a return (k: without having called parameter k)"""
        c = self.__dict__.setdefault('_ends', {})
        if (f.name, k) in c:
            return c[(f.name, k)]
        c[(f.name, k)] = False
        seen, work, r = set(), [f.blocks[0]], True
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            stop = False
            for u in f.body[b]:
                if u.op == 'call' and u.x[0] != 'asm':
                    if k is not None and u.x[0] == ('r', k) or self.noreturn(u):
                        stop = True
                        break
                if u.op == 'ret':
                    r = False
            if not r:
                break
            if not stop:
                work += f.succ[b]
        c[(f.name, k)] = r
        return r

    def null_safe(self, c, n, seen):
        """the defined function c compares its parameter n with null before it uses it, or only hands it on"""
        f = self.p.m.funcs.get(c) if c else None
        if f is None or not f.defined or (c, n) in seen or n >= len(f.params):
            return False
        seen.add((c, n))
        uses = self.p.uses(f).get(n, ())
        for u in uses:
            if u.op == 'icmp' and 0 in u.a:
                return True
        for u in uses:
            if u.op == 'store' and u.a[0] == ('r', n):
                continue
            if u.op == 'call':
                cc = self.p.callee(u)
                if cc is not None and cc.startswith('llvm.dbg'):
                    continue
                if cc in NULLOK:
                    continue
                if all(self.null_safe(cc, k, seen) for k, o in enumerate(u.a) if o == ('r', n)):
                    continue
            return False
        return True

    def bad(self, i, u, name):
        if u.loc is None:
            self.report('L02-unchecked', i, 'the result of %s() is used without having been checked' % name)
        else:
            self.report('L02-unchecked', i, 'the result of %s() is used without having been checked (line %d)' % (
                name, self.p.m.loc(u.loc)[1]))
        return 'end'

    def edge(self, f, t, s, al, null):
        """aliases on the edge to s; None if the value is known to be there (non-null)"""
        if t.op != 'br' or not t.a:
            return al, null
        d = self.p.defs(f).get(t.a[0][1]) if isinstance(t.a[0], tuple) and t.a[0][0] == 'r' else None
        if d is None or d.op != 'icmp' or d.x not in ('eq', 'ne'):
            return al, null
        a, b = d.a
        if a == 0:
            a, b = b, a
        if b != 0 or not (isinstance(a, tuple) and a[0] == 'r' and ('v', a[1]) in al):
            return al, null
        if t.x[0] == t.x[1]:
            return al, null
        truth = t.x[0] == s
        isnull = (d.x == 'eq') == truth
        if not isnull:
            return None, None
        return al, True

    def site_int(self, f, i):
        """(v)asprintf(): the return value decides"""
        self.count('allocations')
        name = self.p.callee(i)
        if i.dest is None:
            self.report('L02-unchecked', i, 'the result of %s() is not checked' % name)
            return
        ok = False
        for u in self.p.uses(f).get(i.dest, ()):
            if u.op == 'icmp' and (0 in u.a or -1 in u.a or 0xffffffff in u.a):
                ok = True
            if u.op == 'ret':
                ok = True
        if not ok:
            self.report('L02-unchecked', i, 'the result of %s() is not checked' % name)


# ------------------------------------------------------------------ signal handlers
# POSIX.1-2017, 2.4.3, as far as it may occur here; True: may change errno
SAFE = {n: True for n in (
    'access', 'aio_error', 'aio_return', 'aio_suspend', 'alarm', 'chdir', 'chmod', 'chown', 'close', 'dup', 'dup2',
    'execve', 'execl', 'execle', 'execv', 'fchmod', 'fcntl', 'fork', 'fstat', 'fsync', 'ftruncate', 'kill', 'link',
    'lseek', 'lstat', 'mkdir', 'open', 'pause', 'pipe', 'poll', 'pselect', 'raise', 'read', 'recv', 'rename', 'rmdir',
    'select', 'sem_post', 'send', 'sigaction', 'sigaddset', 'sigdelset', 'sigemptyset', 'sigfillset', 'sigismember',
    'signal', 'sigprocmask', 'sigpending', 'sigqueue', 'sigsuspend', 'sleep', 'socket', 'stat', 'symlink', 'time',
    'times', 'umask', 'uname', 'unlink', 'utime', 'wait', 'waitpid', 'write', 'pthread_kill', 'pthread_sigmask')}
SAFE.update({n: False for n in (
    '_exit', '_Exit', 'abort', 'getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'getegid', 'getpgrp', 'pthread_self',
    '__errno_location', 'memcpy', 'memset', 'memmove', 'memcmp', 'memchr', 'strlen', 'strcmp', 'strncmp', 'strchr',
    'strrchr', 'strcpy', 'strncpy', 'strcat', 'strncat', 'clock_gettime',
    # documented by libev to be callable from signal handlers; it saves errno itself
    'ev_async_send')})


class Signals(Lint):
    """F06: what signal handlers reach is async-signal-safe and leaves errno alone"""

    def run(self):
        p = self.p
        hs = self.handlers()
        self.count('signal handlers', len(hs))
        for h, via in sorted(hs.items()):
            self.reach(h)
        return self

    def handlers(self):
        """functions installed with signal(), sigaction() or for asynchronous notification"""
        p, out = self.p, {}

        def funcs(f, o):
            for x in p.origins(f, o):
                if isinstance(x, tuple) and x[0] == 'g' and x[1] in p.m.funcs and p.m.funcs[x[1]].defined:
                    yield x[1]
        for f in p.funcs:
            for i in f.instrs():
                if i.op != 'call' or i.x[0] == 'asm':
                    continue
                n = p.callee(i)
                if n in ('signal', 'bsd_signal', 'sigset', '__sysv_signal', 'sysv_signal'):
                    for x in funcs(f, i.a[1]):
                        out[x] = i
                elif n in ('sigaction', '__sigaction', 'timer_create', 'mq_notify'):
                    b, _ = ptrbase(p, f, i.a[1])
                    self.stored(f, b, i, out, funcs)
        # members of type struct sigaction or sigevent anywhere
        for f in p.funcs:
            for i in f.instrs():
                if i.op == 'store':
                    d = p.defs(f).get(i.a[1][1]) if isinstance(i.a[1], tuple) and i.a[1][0] == 'r' else None
                    if d is not None and self.sigtype(f, d):
                        for x in funcs(f, i.a[0]):
                            out.setdefault(x, i)
        for g in p.m.globals.values():
            t = getattr(g, 'ty', None)
            if t is not None and t[0] == 'n' and 'sigaction' in t[1] and isinstance(g.init, tuple):
                for x in _fnrefs(g.init, p.m):
                    out.setdefault(x, None)
        return out

    def sigtype(self, f, d):
        p = self.p
        while d is not None and d.op in ('gep', 'cast'):
            if d.op == 'gep':
                t = d.ty
                if t[0] == 'n' and ('sigaction' in t[1] or 'sigevent' in t[1]):
                    return True
            o = d.a[0]
            d = p.defs(f).get(o[1]) if isinstance(o, tuple) and o[0] == 'r' else None
        return d is not None and d.op == 'alloca' and d.ty[0] == 'n' and 'sigaction' in d.ty[1]

    def stored(self, f, b, site, out, funcs):
        p = self.p
        if b is None or not hasattr(b, 'op'):
            return
        for i in f.instrs():
            if i.op == 'store':
                b2, _ = ptrbase(p, f, i.a[1])
                if b2 is b:
                    for x in funcs(f, i.a[0]):
                        out[x] = site

    def reach(self, h):
        p = self.p
        seen, work = {h: None}, [h]
        while work:
            n = work.pop()
            f = p.m.funcs[n]
            path = []
            x = n
            while x is not None:
                path.append(x.split('.')[0])
                x = seen[x]
            path = ' < '.join(path)
            self.count('functions reachable from signal handlers')
            for i in f.instrs():
                if i.op != 'call':
                    continue
                if i.x[0] == 'asm':
                    self.report('F06-unsafe', i, 'inline assembly is reached in signal handler %s()' % h.split('.')[0])
                    continue
                c = p.callee(i)
                cs = [c] if c is not None else p.indirect(i)
                if c is None and not cs:
                    self.report('F06-unsafe', i, 'signal handler %s() calls through a pointer that cannot be resolved' % h.split('.')[0])
                for c in cs:
                    if c.startswith('llvm.'):
                        continue
                    g = p.m.funcs.get(c)
                    self.count('calls reachable from signal handlers')
                    if g is not None and g.defined:
                        if c not in seen:
                            seen[c] = n
                            work.append(c)
                    elif c not in SAFE:
                        self.report('F06-unsafe', i, 'signal handler %s() reaches %s(), which is not async-signal-safe (%s)' % (
                            h.split('.')[0], c, path))
        # errno
        touching = {n for n in seen if self.sets_errno(n, seen)}
        f = p.m.funcs[h]
        if h in touching:
            self.errno(f, touching)

    def sets_errno(self, n, seen, vis=None):
        vis = vis or set()
        vis.add(n)
        for i in self.p.m.funcs[n].instrs():
            if i.op == 'call' and i.x[0] != 'asm':
                c = self.p.callee(i)
                for c in ([c] if c else self.p.indirect(i)):
                    if SAFE.get(c):
                        return True
                    g = self.p.m.funcs.get(c)
                    if g is not None and g.defined and c not in vis and self.sets_errno(c, seen, vis):
                        return True
            elif i.op == 'store' and self.is_errno(self.p.m.funcs[n], i.a[1]) and not self.saved(self.p.m.funcs[n], i.a[0]):
                return True
        return False

    def is_errno(self, f, o):
        d = self.p.defs(f).get(o[1]) if isinstance(o, tuple) and o and o[0] == 'r' else None
        return d is not None and d.op == 'call' and self.p.callee(d) == '__errno_location'

    def saved(self, f, o):
        """a value loaded from errno"""
        d = self.p.defs(f).get(o[1]) if isinstance(o, tuple) and o and o[0] == 'r' else None
        return d is not None and d.op == 'load' and self.is_errno(f, d.a[0])

    def errno(self, f, touching):
        """on every path through the handler: errno is read before, and put back after, whatever changes it"""
        start = (f.blocks[0], 0, None, False)    # saved register, dirty
        seen, work = set(), [start]
        while work:
            blk, k, saved, dirty = work.pop()
            if (blk, saved, dirty) in seen:
                continue
            seen.add((blk, saved, dirty))
            for u in f.body[blk][k:]:
                if u.op == 'load' and self.is_errno(f, u.a[0]) and not dirty:
                    saved = u.dest
                elif u.op == 'store' and self.is_errno(f, u.a[1]):
                    if saved is not None and u.a[0] == ('r', saved):
                        dirty = False
                    else:
                        dirty = True
                elif u.op == 'call' and u.x[0] != 'asm':
                    c = self.p.callee(u)
                    for c in ([c] if c else self.p.indirect(u)):
                        if SAFE.get(c) or c in touching:
                            dirty = True
                elif u.op == 'ret' and dirty:
                    self.report('F06-errno', u, 'signal handler %s() may change errno for the code it interrupted' % f.name.split('.')[0])
            for s in f.succ[blk]:
                work.append((s, 0, saved, dirty))


def _fnrefs(o, m):
    if isinstance(o, tuple):
        if o and o[0] == 'g' and len(o) == 3 and o[1] in m.funcs:
            yield o[1]
        elif o and o[0] == 'agg':
            for x in o[1]:
                yield from _fnrefs(x, m)


# ------------------------------------------------------------------ the compiler's own format checks
class Wformat(Lint):
    """argument types behind pointers, which the IR does not know: clang's format checker"""

    def run(self):
        import frontend, subprocess, tempfile, shutil, os
        us = frontend.units(self.program)
        tmp = tempfile.mkdtemp(prefix='nsca-sa-')
        try:
            for src, fl in us:
                if src == 'XS':
                    src = os.path.join(tmp, 'Client_xs.c')
                    frontend._xs_to_c(src)
                r = subprocess.run([frontend.CLANG, '-fsyntax-only', '-std=gnu17', '-Wno-everything', '-Wformat',
                                    '-Wno-format-extra-args', '-Wno-format-zero-length', '-Wno-format-security',
                                    '-fno-caret-diagnostics'] + fl + [src], capture_output=True, text=True,
                                   cwd=frontend.REPO)
                self.count('units checked')
                for m in re.finditer(r'^(.*?):(\d+):\d+: warning: (.*)$', r.stderr, re.M):
                    f = m.group(1)
                    if f.startswith('/usr/'):
                        continue
                    self.report('L01-type', None, m.group(3), where=(f, int(m.group(2)), '?'))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return self


class Index(Lint):
    """variable indices of arrays of fixed size"""

    def run(self):
        import intervals
        p = self.p

        def known(f):
            def k(i):
                n = p.callee(i)
                if n in ('read', 'recv', 'pread') and len(i.a) > 2:
                    return (-1, i.a[2]) if isinstance(i.a[2], int) else (-1, intervals.INF)
                if n in ('SSL_read', 'SSL_write', 'BIO_read') and isinstance(i.a[2], int):
                    return (-1, i.a[2])
                if n == 'strlen':
                    sz = fixed_size(p, f, i.a[0])
                    return (0, sz - 1 if sz else intervals.INF)
                return None
            return k
        for f in p.funcs:
            iv = intervals.Intervals(f, p.m.types, known(f))
            for i, size, off, n in intervals.accesses(p, f, iv):
                self.count('indexed accesses')
                if off[0] < 0 or off[1] + n > size:
                    self.report('L01-index', i, 'the index of an array of %d bytes may be out of bounds (offset %s)' % (
                        size, 'unknown' if abs(off[0]) > 1 << 30 and abs(off[1]) > 1 << 30 else 'from %s to %s' % off))
            for i, st in iv.at():
                n = p.callee(i) if i.op == 'call' else None
                if n is None:
                    continue
                if n.startswith('llvm.mem'):
                    n = n[5:].split('.')[0]
                if n not in Formats.SIZED:
                    continue
                b, k = Formats.SIZED[n]
                if k >= len(i.a):
                    continue
                r = intervals.offset(p, f, iv, st, i.a[b])
                w = fixed_size(p, f, i.a[b])
                v = iv.val(st, i.a[k])
                if r is not None:
                    size, off, var = r
                    if not var and isinstance(i.a[k], int):
                        continue
                elif w is not None and not isinstance(i.a[k], int):
                    size, off = w, (0, 0)
                else:
                    continue
                self.count('bounded writes')
                if off[0] < 0 or off[1] + v[1] > size:
                    self.report('L01-index', i, '%s() may write outside of its buffer of %d bytes' % (n, size))
        return self


# ------------------------------------------------------------------ strings walked character by character
class Folds(Lint):
    """C03: loops over strings, see folds.py"""

    def run(self):
        import folds
        out, n = folds.analyse(self.p.m)
        for rule, f, i, msg in out:
            self.report(rule, i, msg)
        self.count('functions with loops over strings', n['functions'])
        self.count('functions decided', n['decided'])
        self.count('loops summed up', n['loops'])
        self.count('stores and characters proved', n['proved'])
        self.undecided = n['undecided']
        return self


# ------------------------------------------------------------------ recursion
class Recursion(Lint):
    """L03: cycles of direct calls"""

    def run(self):
        p = self.p
        g = {}
        for f in p.funcs:
            for i in f.instrs():
                if i.op == 'call' and i.x[0] != 'asm':
                    n = p.callee(i)
                    if n in p.m.funcs and p.m.funcs[n].defined:
                        g.setdefault(f.name, {}).setdefault(n, i)
                        self.count('direct calls')
        for f in sorted(g):
            # shortest way back
            seen, work = {f: None}, [f]
            while work:
                x = work.pop(0)
                for y, i in g.get(x, {}).items():
                    if y == f:
                        path = [f]
                        while x is not None:
                            path.insert(0, x)
                            x = seen[x]
                        if f == min(path):
                            self.report('recursion', i, 'calls itself (%s): nothing bounds the depth' %
                                        ' > '.join(n.split('.')[0] for n in path))
                        work = []
                        break
                    if y not in seen:
                        seen[y] = x
                        work.append(y)
        self.count('functions', len(p.funcs))
        return self
