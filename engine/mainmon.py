"""nsca-ng.c and send_nsca.c: the process as a whole between conf.h, server.h/client.h, libev and the system.

exit() runs the registered functions; ev_run() runs the callbacks of the active watchers; everything that libConfuse
hands out belongs to the configuration and goes away with it.
"""
from core import *
import models
import models_ext
from models import fork, cstr, content, ptr, strobj, set_cell, do_free
from models_ext import sym1

NODEFAULT = 1 << 4
T_INT, T_FLOAT, T_STR, T_SEC = 1, 2, 3, 5
MON = ('h', 'mainmon', 0, 0)
CFG = ('h', 'cfg', 0, 0)
SERVER = ('h', 'server', 0, 0)
PFH = ('h', 'pidfh', 0, 0)
SIGNALS = {1: 'SIGHUP', 2: 'SIGINT', 15: 'SIGTERM'}
PW_UID, PW_GID = 16, 20
EV_SIGNUM = 40


def M(I):
    return I.mon


# ------------------------------------------------------------------ libConfuse, after parsing
def is_cfg(I, st, p, what):
    if not I.touch(st, p, what):
        return None
    r = I.to_obj(st, p)
    if r is not None and r[0] == CFG:
        return 'top'
    s = sym1(p)
    if type(s) is tuple and s[:2] == ('p', 'sec'):
        if CFG not in st.mem or st.mem[CFG].status != 'alive':
            I.report(st, 'use-after-free', 'a section of a configuration that was freed is passed to %s()' % what)
            return None
        return s
    if type(p) is int and p == 0:
        I.report(st, 'null-deref', 'null pointer passed to %s()' % what)
        return None
    raise Broken('argument of %s() is not understood' % what)


def setness(I, st, name):
    """[(state, is the setting set?)]"""
    o = M(I).opts.get(name)
    if o is None:
        raise Broken('unknown setting "%s"' % name)
    if not o[2] & NODEFAULT or o[1] == T_SEC:
        return [(st, 1)]
    g = st.ghost.get(('set', name))
    if g is not None:
        return [(st, g)]
    fix = I.opts.get('fixed', {}).get(name)
    if fix is not None:
        st.ghost[('set', name)] = fix
        return [(st, fix)]
    s2 = fork(st)
    st.ghost[('set', name)] = 1
    s2.ghost[('set', name)] = 0
    return [(st, 1), (s2, 0)]


def strval(I, st, sec, name):
    """the object that holds a string of the configuration"""
    k = ('str', sec if sec == 'top' else 'section', name)
    o = st.ghost.get(k)
    if o is None:
        o = ('h', 'cfgstr', 'section' if sec != 'top' else '', name)
        w = sec if sec == 'top' else 'section'
        if sec != 'top':
            I.clear_name(st, ('vallen', w, name))
            I.clear_name(st, o)
        n = I.func_sym(st, ('vallen', w, name), 0, (1 << 31) - 16)
        st.mem[o] = Obj('heap', ladd(n, 1), default='T', attrs={'content': ('cfg', w, name), 'len': n, 'res': 'string of the configuration'})
        if name == 'password':
            st.ghost[('secret', o)] = 'plain'
        st.ghost[k] = o
    return ptr(o)


def key(I, st, p, what):
    nm = cstr(I, st, p)
    if nm is None:
        raise Broken('%s() of a setting whose name is not constant' % what)
    return nm.decode('latin1')


def m_size(I, st, a, ins):
    c = is_cfg(I, st, a[0], 'cfg_size')
    if c is None:
        return []
    nm = key(I, st, a[1], 'cfg_size')
    if c != 'top':
        return [(st, 1 if nm == 'password' else I.func_sym(st, ('cfgsize', c, nm), 0, (1 << 31) - 1))]
    if M(I).opts.get(nm, (0, 0))[1] == T_SEC:
        return [(st, lin(('cfgsize', 'top', nm)))]
    return setness(I, st, nm)


def m_getstr(I, st, a, ins):
    c = is_cfg(I, st, a[0], 'cfg_getstr')
    if c is None:
        return []
    nm = key(I, st, a[1], 'cfg_getstr')
    if c != 'top':
        return [(st, strval(I, st, c, nm))]
    return [(s, strval(I, s, 'top', nm) if v else 0) for s, v in setness(I, st, nm)]


def m_getint(I, st, a, ins):
    if is_cfg(I, st, a[0], 'cfg_getint') is None:
        return []
    nm = key(I, st, a[1], 'cfg_getint')
    g = st.ghost.get(('int', nm))
    return [(st, g if g is not None else I.func_sym(st, ('cfgint', nm), 0, (1 << 31) - 1))]


def m_getfloat(I, st, a, ins):
    if is_cfg(I, st, a[0], 'cfg_getfloat') is None:
        return []
    nm = key(I, st, a[1], 'cfg_getfloat')
    return [(st, lin(('cfgfloat', nm)))]


def m_setint(I, st, a, ins):
    if is_cfg(I, st, a[0], 'cfg_setint') is None:
        return []
    nm = key(I, st, a[1], 'cfg_setint')
    I.emit(st, 'cfg_set', nm, a[2])
    st.ghost[('int', nm)] = a[2]
    return [(st, 0 if ins.dest is not None else None)]


def m_setstr(I, st, a, ins):
    if is_cfg(I, st, a[0], 'cfg_setstr') is None or strobj(I, st, a[2], 'cfg_setstr') is None:
        return []
    nm = key(I, st, a[1], 'cfg_setstr')
    c = content(I, st, a[2])
    r = I.to_obj(st, a[2])
    t = st.mem[r[0]].attrs.get('tpl') if r is not None and r[1] == 0 and r[0] in st.mem else None
    n = models.length(I, st, *r) if r is not None else I.fresh(st, 'len', lo=0)
    I.emit(st, 'cfg_set', nm, c)
    k = ('str', 'top', nm)
    old = st.ghost.get(k)
    if old is not None and st.mem[old].status == 'alive':
        I.free(st, old, 'cfg_setstr')
    o = ('h', 'cfgstr', (old[2] if old else '') + "'", nm)
    st.mem[o] = Obj('heap', ladd(n, 1), default='T', attrs={'len': n, 'res': 'string of the configuration'})
    if t is not None:
        models.set_attr(st, o, tpl=t)
    elif c is not None:
        models.set_attr(st, o, content=c)
    st.ghost[k] = o
    st.ghost[('set', nm)] = 1
    return [(st, 0 if ins.dest is not None else None)]


def m_getnsec(I, st, a, ins):
    if is_cfg(I, st, a[0], 'cfg_getnsec') is None:
        return []
    nm = key(I, st, a[1], 'cfg_getnsec')
    s = ('p', 'sec', nm)
    st.iv[s] = (1, None)
    if not (is_num(a[2]) and is_num(st.mem[MON].cells[8][1]) and st.same(a[2], st.mem[MON].cells[8][1])):
        M(I).leave_section(I, st)
    if is_num(a[2]):
        set_cell(st, MON, 8, 8, a[2])
    n = lin(('cfgsize', 'top', nm))
    if not (is_num(a[2]) and st.sure_ge0(a[2]) and st.sure_ge0(ladd(lsub(n, a[2]), -1))):
        I.report(st, 'null-deref', 'a section is looked up that may not exist')
    return [(st, lin(s))]


def m_getopt_(I, st, a, ins):
    c = is_cfg(I, st, a[0], 'cfg_getopt')
    if c is None:
        return []
    s = ('p', 'opt', c, key(I, st, a[1], 'cfg_getopt'))
    st.iv[s] = (1, None)
    return [(st, lin(s))]


def m_opt(I, st, a, ins):
    nm = ins.x[0][1]
    s = sym1(a[0])
    if not (type(s) is tuple and s[:2] == ('p', 'opt')):
        raise Broken('argument of %s() is not understood' % nm)
    if CFG not in st.mem or st.mem[CFG].status != 'alive':
        I.report(st, 'use-after-free', 'a setting of a configuration that was freed is passed to %s()' % nm)
        return []
    if nm == 'cfg_opt_size':
        if s[2] != 'top':
            return [(st, 1)]
        return setness(I, st, s[3])
    if s[2] != 'top':
        return [(st, strval(I, st, s[2], s[3]))]
    return [(z, strval(I, z, 'top', s[3]) if v else 0) for z, v in setness(I, st, s[3])]


def m_cfg_free(I, st, a, ins):
    if a[0] == 0:
        return [(st, -1 if ins.dest is not None else None)]
    M(I).config_freed(I, st)
    if not do_free(I, st, a[0], 'cfg_free'):
        return []
    for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'str']:
        o = st.ghost[k]
        if o in st.mem and st.mem[o].status == 'alive':
            I.free(st, o, 'cfg_free')
        del st.ghost[k]
    for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'secret' or k == ('set', 'password')]:
        del st.ghost[k]
    set_cell(st, MON, 0, 8, 0)
    set_cell(st, MON, 8, 8, -1)
    return [(st, 0 if ins.dest is not None else None)]


# ------------------------------------------------------------------ the process
def symbols(st, x, out):
    if type(x) is tuple:
        if x in st.iv or x in st.ne:
            out.add(x)
        for y in x:
            symbols(st, y, out)


def visible(st, how, stack=False):
    """what the functions that run at exit, and the checks at the end, can tell states apart by"""
    mem = []
    work = [o for o in st.mem if o[0] == 'g' or o in (CFG, SERVER, PFH, MON)]
    regs = frozenset((i, k, v) for i, fr in enumerate(st.frames) for k, v in fr.regs.items()) if stack else frozenset()
    work += [v[1] for _, _, v in regs if type(v) is tuple and v and v[0] == 'P']
    seen = set(work)
    syms = set()
    for _, _, v in regs:
        symbols(st, v, syms)
    while work:
        o = work.pop()
        ob = st.mem.get(o)
        if ob is None:
            continue
        for _, v in ob.cells.values():
            symbols(st, v, syms)
        cells = frozenset(ob.cells.items())
        mem.append((o, ob.status, cells))
        for _, (sz, v) in cells:
            if type(v) is tuple and v and v[0] == 'P' and v[1] not in seen:
                seen.add(v[1])
                work.append(v[1])
    for k, o in st.ghost.items():
        if type(k) is tuple and k[:2] == ('str', 'top') and k[2] != 'password':
            continue
        if type(o) is tuple and o in st.mem and o not in seen:
            mem.append((o, st.mem[o].status))
    g = frozenset((k, v) for k, v in st.ghost.items() if not (type(k) is tuple and (k[0] in ('priv', 'option', 'int') or
                  k[:2] == ('str', 'top') and k[2] != 'password')) and
                  k not in ('given', 'pw', 'colon', 'sockets', 'pwowner', 'privfailed', ('getopt',)))
    known = frozenset((x, st.iv.get(x), repr(st.ne.get(x))) for x in syms)
    return how, frozenset(mem), g, regs, known


def finish(I, st, how, status):
    """runs the functions registered with atexit(), the last one first"""
    work = [st]
    if how in ('exit', 'return'):
        if st.ghost.get('exiting'):
            I.report(st, 'D07-exit', 'exit() is called by a function that runs at exit')
            return []
        st.ghost['exiting'] = 1
        k = visible(st, how)
        if k in M(I).ends:
            return []
        M(I).ends.add(k)
        for fn in reversed(st.ghost.get('atexit', ())):
            nxt = []
            for s in work:
                if fn is None:
                    raise Broken('function registered with atexit() is not known')
                for z, _ in I.dispatch(s, fn, [], None):
                    nxt.append((visible(z, fn), z))
            work = list(dict(nxt).values())
    for s in work:
        M(I).cnt('end')
        M(I).ended(I, s, how, status)
    return []


def m_exit(I, st, a, ins):
    nm = ins.x[0][1]
    I.stats['exits'] += 1
    I.emit(st, 'exit', nm, a[0] if a else None)
    return finish(I, st, nm, a[0] if a else None)


def dies(I, st):
    """a component below ends the program (die())"""
    s = fork(st)
    I.emit(s, 'exit', 'exit', 1)
    finish(I, s, 'exit', 1)


def m_conf_parse(I, st, a, ins):
    if strobj(I, st, a[0], 'conf_parse') is None:
        return []
    dies(I, st)
    M(I).parsed(I, st, a[0])
    st.mem[CFG] = Obj('heap', None, default='T', attrs={'res': 'configuration'})
    sec = [n for n, o in M(I).opts.items() if o[1] == T_SEC]
    for n in sec:
        I.func_sym(st, ('cfgsize', 'top', n), 1, (1 << 31) - 1)
    st.ghost['parsed'] = 1
    return [(st, ptr(CFG))]


def m_server_start(I, st, a, ins):
    for x in a[:4]:
        if strobj(I, st, x, 'server_start') is None:
            return []
    dies(I, st)
    M(I).starting(I, st, a)
    st.mem[SERVER] = Obj('heap', None, default='T', attrs={'res': 'server'})
    return [(st, ptr(SERVER))]


def m_server_stop(I, st, a, ins):
    I.emit(st, 'server_stop', a[0])
    if not do_free(I, st, a[0], 'server_stop'):
        return []
    return [(st, None)]


def active(st):
    return [k for k, v in st.ghost.items() if type(k) is tuple and k[0] == 'ev' and v[1]]


def run_callback(I, st, fn, w, mask):
    f = I.mod.funcs.get(fn)
    if f is None or not f.defined:
        raise Broken('callback %s() not found' % fn)
    return I.dispatch(st, fn, ([lin(('p', 'loop'))] if len(f.params) == 3 else []) + [w, mask], None)


def m_ev_run(I, st, a, ins):
    mon = M(I)
    mon.serving(I, st)
    k = visible(st, 'run', True)
    if k in mon.runs:
        return []
    mon.runs.add(k)
    dies(I, st)
    out, work, seen = [], [st], set()
    for i in range(4):
        nxt = []
        for s in work:
            for k in active(s):
                z = fork(s)
                cb = I.read_cell(z, k[1], I.obj(z, k[1]), k[2] + models.EV_CB, 8, ('p',))
                kind = z.ghost[k][0]
                if not (type(cb) is tuple and cb[0] == 'F'):
                    I.report(z, 'watcher', 'an active watcher without a callback')
                    continue
                if kind == 'signal':
                    sg = I.read_cell(z, k[1], I.obj(z, k[1]), k[2] + EV_SIGNUM, 4, ('i', 32))
                    z.ghost['signal'] = sg
                mon.cnt('%s callback' % kind)
                for y, _ in run_callback(I, z, cb[1], ('P', k[1], k[2]), {'signal': 1 << 10, 'timer': 1 << 8}.get(kind, 1)):
                    if y.ghost.pop('break', None):
                        out.append((y, 0))
                        continue
                    if 'signal' in y.ghost:
                        I.report(y, 'D07-signal', 'the server goes on after it received a signal to end or restart')
                        continue
                    if y.ghost.get('rounds', 0) < 1:
                        y.ghost['rounds'] = y.ghost.get('rounds', 0) + 1
                        nxt.append(y)
        work = nxt
        if not work:
            break
    return [(s, v if ins.dest is not None else None) for s, v in out]


def m_ev_break(I, st, a, ins):
    st.ghost['break'] = 1
    return [(st, None)]


def m_getopt(I, st, a, ins):
    spec = cstr(I, st, a[2])
    if spec is None:
        raise Broken('option string of getopt() is not a literal')
    n = st.ghost.get(('getopt',), 0)
    out = [(st, -1)]
    if n < I.opts.get('max_getopt', 1):
        i = 0
        s = spec.decode('latin1').lstrip('+-:')
        letters = []
        while i < len(s):
            arg = i + 1 < len(s) and s[i + 1] == ':'
            letters.append((s[i], arg))
            i += 2 if arg else 1
        only = I.opts.get('options')
        for ch, arg in letters + [('?', False)]:
            if only is not None and ch not in only:
                continue
            s2 = fork(st)
            s2.ghost[('getopt',)] = n + 1
            if arg:
                sym = ('p', 'optarg', ch, sum(1 for x in s2.ghost.get('given', ()) if x == ch))
                s2.iv[sym] = (1, None)
                X = ('X', sym)
                s2.mem[X] = Obj('ext', None, default='T', attrs={'content': ('option', ch, sym[3])})
                I.store(s2, ('P', ('g', 'optarg'), 0), ('p',), lin(sym))
                s2.ghost[('option', ch)] = sym[3]
            else:
                s2.ghost[('option', ch)] = 1
            s2.ghost['given'] = tuple(sorted(s2.ghost.get('given', ()) + (ch,)))
            M(I).cnt('option -%s' % ch)
            out.append((s2, ord(ch)))
    return out


def m_atoi(I, st, a, ins):
    if strobj(I, st, a[0], 'atoi') is None:
        return []
    return [(st, I.func_sym(st, ('atoi', content(I, st, a[0])), -(1 << 31), (1 << 31) - 1))]


def m_pidfile_open(I, st, a, ins):
    if a[0] == 0 or strobj(I, st, a[0], 'pidfile_open') is None:
        if a[0] == 0:
            I.report(st, 'D02-path', 'a PID file is created although none is configured')
        return []
    M(I).pidfile(I, st, a)
    out = []
    for e in (17, 13):
        s = fork(st)
        models.set_errno(I, s, e)
        if e == 17 and a[2] != 0:
            I.store(s, a[2], ('i', 32), I.fresh(s, 'pid', lo=-1, hi=(1 << 31) - 1))
        s.ghost['pidfile'] = 'failed'
        out.append((s, 0))
    st.ghost['pidfile'] = 'held'
    st.mem[PFH] = Obj('heap', None, default='T', attrs={'res': 'PID file'})
    return out + [(st, ptr(PFH))]


def m_pidfile(I, st, a, ins):
    nm = ins.x[0][1]
    if a[0] == 0:
        I.report(st, 'null-deref', 'null pointer passed to %s()' % nm)
        return []
    if not I.touch(st, a[0], nm):
        return []
    M(I).cnt(nm)
    s2 = fork(st)
    models.set_errno(I, s2)
    if nm == 'pidfile_write':
        st.ghost['pidfile'] = 'written'
        s2.ghost['pidfile'] = 'unwritten'
        return [(st, 0), (s2, -1)]
    st.ghost['pidfile'] = 'removed' if nm == 'pidfile_remove' else 'closed'
    s2.ghost['pidfile'] = 'unremovable' if nm == 'pidfile_remove' else 'closed'
    out = []
    for s, v in ((st, 0), (s2, -1)):
        if do_free(I, s, a[0], nm):
            out.append((s, v))
    return out


def m_daemon(I, st, a, ins):
    s2 = fork(st)
    models.set_errno(I, s2)
    M(I).cnt('daemon')
    st.ghost['daemon'] = 1
    if st.ghost.get('pidfile') == 'written':
        st.ghost['pidfile'] = 'held'        # names the parent
    s2.ghost['daemon'] = 'failed'
    return [(st, 0), (s2, -1)]


def m_sd(I, st, a, ins):
    v = I.fresh(st, 'sd', lo=-(1 << 31), hi=(1 << 31) - 1)
    st.ghost['sockets'] = v
    return [(st, v)]


def m_loop_fork(I, st, a, ins):
    if st.ghost.get('daemon') == 1:
        st.ghost['daemon'] = 'ready'
    return [(st, None)]


def m_strchr(I, st, a, ins):
    if type(a[1]) is int and a[1] == ord(':'):
        st.ghost['colon'] = (content(I, st, a[0]),)
    return models.do_strchr(I, st, a[0], a[1], 'strchr', 'chr')


def m_execvp(I, st, a, ins):
    if strobj(I, st, a[0], 'execvp') is None:
        return []
    M(I).exec(I, st, a)
    models.set_errno(I, st)
    st.ghost['execfailed'] = 1
    return [(st, -1)]


MODELS = {'ev_signal_start': models.ev_start('signal'), 'ev_signal_stop': models.ev_stop('signal'), 'cfg_size': m_size, 'cfg_getstr': m_getstr, 'cfg_getint': m_getint, 'cfg_getfloat': m_getfloat, 'cfg_setint': m_setint,
          'cfg_setstr': m_setstr, 'cfg_getnsec': m_getnsec, 'cfg_getopt': m_getopt_, 'cfg_opt_size': m_opt, 'cfg_opt_getnstr': m_opt,
          'cfg_free': m_cfg_free, 'exit': m_exit, '_exit': m_exit, '_Exit': m_exit, 'conf_parse': m_conf_parse,
          'server_start': m_server_start, 'server_stop': m_server_stop, 'ev_run': m_ev_run, 'ev_break': m_ev_break,
          'getopt': m_getopt, 'atoi': m_atoi, 'pidfile_open': m_pidfile_open, 'pidfile_write': m_pidfile, 'pidfile_remove': m_pidfile,
          'pidfile_close': m_pidfile, 'strchr': m_strchr, 'index': m_strchr, 'daemon': m_daemon, 'sd_listen_fds': m_sd, 'ev_loop_fork': m_loop_fork, 'execvp': m_execvp, 'execv': m_execvp}


def m_version(I, st, a, ins):
    """util.c: names the program and its libraries (analysed in scenario 'text')"""
    s = ('p', 'e', 'version')
    st.iv[s] = (1, None)
    return [(st, lin(s))]


MODELS['nsca_version'] = m_version


class Main:
    def __init__(self, opts):
        self.opts = opts
        self.n = {}
        self.ends, self.runs = set(), set()

    def cnt(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ---------------------------------------------------------------- settings
    def want(self, st, name, letter=None):
        """the content a string setting has, options considered; None: not set"""
        if letter is not None and ('option', letter) in st.ghost:
            return ('option', letter, st.ghost[('option', letter)])
        if st.ghost.get(('set', name)) == 0:
            return None
        return ('cfg', 'top', name)

    def same(self, I, st, p, want):
        """is the string what is expected?"""
        c = content(I, st, p)
        return c == want or c == ('tpl', ('str', want))

    def parsed(self, I, st, p):
        self.cnt('conf_parse')
        g = st.ghost.get(('option', 'c'))
        c = content(I, st, p)
        if g is not None and not self.same(I, st, p, ('option', 'c', g)) or g is None and type(c) is not bytes:
            I.report(st, 'D05-file', 'the configuration file that is read is not the one given with -c (or the default one)')

    def starting(self, I, st, a):
        self.cnt('server_start')
        self.privileges(I, st, 'the server is started')
        self.instance(I, st, 'the server is started')
        for i, (nm, letter) in enumerate((('listen', 'b'), ('tls_ciphers', None), ('command_file', 'C'), ('temp_directory', None))):
            w = self.want(st, nm, letter)
            if nm == 'listen':
                c = content(I, st, a[0])
                base = ('str', w)
                if type(c) is tuple and c[0] == 'tpl':
                    if c[1:2] == (base,) and len(c) == 3 and type(c[2]) is bytes and c[2][:1] == b':':
                        continue
                    if len(c) == 2 and type(c[1]) is bytes and c[1].startswith(b'descriptor='):
                        continue
                if type(c) is bytes and c.startswith(b'descriptor='):
                    continue
                g = st.ghost.get('colon')
                if g is not None and g[0] != c:
                    I.report(st, 'D05-listen', 'the port is not appended to the address that is in effect')
            if not self.same(I, st, a[i], w):
                I.report(st, 'D05-' + nm, 'the server is not started with the configured setting "%s"%s' % (
                    nm, ' or what option -%s overrides it with' % letter if letter else ''))
        for i, nm in ((4, 'max_command_size'), (5, 'max_queue_size')):
            if not (is_num(a[i]) and st.same(a[i], lin(('cfgint', nm)))):
                I.report(st, 'D05-' + nm, 'the server is not started with the configured setting "%s"' % nm)
        if a[6] != lin(('cfgfloat', 'timeout')):
            I.report(st, 'D05-timeout', 'the server is not started with the configured setting "timeout"')

    def level(self, I, st, when):
        v = I.read_cell(st, ('g', 'log_level'), I.obj(st, ('g', 'log_level')), 0, 4, ('i', 32))
        w = lin(('cfgint', 'log_level'))
        if ('option', 'l') in st.ghost:
            x = lin(('atoi', ('option', 'l', st.ghost[('option', 'l')])))
            b = st.bounds(x)
            if b != (-1, -1):
                w = x
        if not (is_num(v) and st.same(v, w)):
            I.report(st, 'D05-level', 'the log level in effect %s is not the one configured or given with -l' % when)

    def pidfile(self, I, st, a):
        self.cnt('pidfile_open')
        self.privileges(I, st, 'the PID file is created')
        w = self.want(st, 'pid_file', 'P')
        if not self.same(I, st, a[0], w):
            I.report(st, 'D05-pid_file', 'the PID file that is created is not the one configured or given with -P')
        if st.ghost.get('pidfile') in ('held', 'written'):
            I.report(st, 'D02-twice', 'the PID file is created twice')

    # ---------------------------------------------------------------- privileges
    def on_getpwnam(self, I, st, name, p):
        st.ghost['pw'] = sym1(p)
        st.ghost['pwowner'] = content(I, st, name)

    def pwfield(self, I, st, v, off):
        s = st.ghost.get('pw')
        if s is None or ('X', s) not in st.mem:
            return False
        X = ('X', s)
        return is_num(v) and st.same(I.read_cell(st, X, st.mem[X], off, 4, ('i', 32)), v) and st.ghost.get('pwowner') == ('cfg', 'top', 'user')

    def on_sys(self, I, st, nm, a, ok):
        g = st.ghost
        steps = {'initgroups': 'groups', 'setgid': 'gid', 'setresgid': 'gid', 'setregid': 'gid', 'setuid': 'uid', 'setresuid': 'uid',
                 'setreuid': 'uid', 'chroot': 'root', 'chdir': 'cwd'}
        step = steps.get(nm)
        if step is None:
            return
        self.cnt('%s %s' % (nm, 'succeeds' if ok else 'fails'))
        if step == 'cwd' and ('priv', 'root') not in g:
            return
        if not ok:
            g['privfailed'] = nm
            return
        if step == 'groups':
            if content(I, st, a[0]) != ('cfg', 'top', 'user') or not self.pwfield(I, st, a[1], PW_GID):
                I.report(st, 'D01-user', 'the supplementary groups are not those of the configured user')
            if ('priv', 'gid') in g or ('priv', 'uid') in g:
                I.report(st, 'D01-order', 'the supplementary groups are set after the group or user was switched')
        elif step == 'gid':
            if not all(self.pwfield(I, st, v, PW_GID) for v in a):
                I.report(st, 'D01-user', 'the group that is switched to is not that of the configured user')
            if ('priv', 'groups') not in g or ('priv', 'uid') in g:
                I.report(st, 'D01-order', 'the group is not switched between the supplementary groups and the user')
        elif step == 'uid':
            if not all(self.pwfield(I, st, v, PW_UID) for v in a):
                I.report(st, 'D01-user', 'the user that is switched to is not the configured one')
            if ('priv', 'gid') not in g:
                I.report(st, 'D01-order', 'the user is switched before the group')
        elif step == 'root':
            if content(I, st, a[0]) != ('cfg', 'top', 'chroot'):
                I.report(st, 'D01-chroot', 'the root directory that is changed to is not the configured one')
            if ('priv', 'uid') in g:
                I.report(st, 'D01-order', 'the root directory is changed when privileges were dropped already')
        elif step == 'cwd':
            if content(I, st, a[0]) != b'/':
                return
        g[('priv', step)] = 1

    def privileges(self, I, st, what):
        g = st.ghost
        if g.get('privfailed'):
            I.report(st, 'D01-failure', '%s although %s() failed' % (what, g['privfailed']))
        for nm, steps, rule in (('user', ('groups', 'gid', 'uid'), 'D01-user'), ('chroot', ('root', 'cwd'), 'D01-chroot')):
            if g.get(('set', nm)) == 0:
                continue
            for x in steps:
                if ('priv', x) not in g:
                    I.report(st, rule, '%s without having switched the %s of the configured %s' % (
                        what, {'groups': 'supplementary groups', 'gid': 'group', 'uid': 'user', 'root': 'root directory',
                               'cwd': 'working directory'}[x], nm))

    # ---------------------------------------------------------------- instances
    def instance(self, I, st, what):
        if self.want(st, 'pid_file', 'P') is None:
            return
        p = st.ghost.get('pidfile')
        if p is None and ('option', 'P') in st.ghost:
            I.report(st, 'D05-pid_file', '%s without having created the PID file given with -P' % what)
        if p not in ('held', 'written'):
            I.report(st, 'D02-lock', '%s without holding the configured PID file (%s)' % (what, p or 'not created'))

    def serving(self, I, st):
        self.cnt('serving')
        self.privileges(I, st, 'clients are served')
        self.level(I, st, 'while clients are served')
        if self.want(st, 'pid_file', 'P') is not None and st.ghost.get('pidfile') != 'written':
            I.report(st, 'D02-write', 'clients are served although the PID file does not hold the ID of this process')
        d = st.ghost.get('daemon')
        if d == 'failed':
            I.report(st, 'D07-daemon', 'clients are served although daemon() failed')
        elif d == 1:
            I.report(st, 'D07-daemon', 'clients are served after daemon() without having told libev about the fork')
        v = st.ghost.get('sockets', 0)
        stay = ('option', 'F') in st.ghost or (st.bounds(v)[0] or 0) > 0
        if d and stay:
            I.report(st, 'D07-daemon', 'the server detaches although -F was given or a socket was passed')
        if not d and not stay and st.bounds(v) == (0, 0):
            I.report(st, 'D07-daemon', 'the server does not detach although neither -F was given nor a socket was passed')
        if SERVER not in st.mem or st.mem[SERVER].status != 'alive':
            I.report(st, 'D07-server', 'the event loop is run without a server')
        have = set()
        for k in active(st):
            if st.ghost[k][0] == 'signal':
                have.add(I.read_cell(st, k[1], I.obj(st, k[1]), k[2] + EV_SIGNUM, 4, ('i', 32)))
        for s, nm in SIGNALS.items():
            if s not in have:
                I.report(st, 'D07-signal', '%s is not handled while clients are served' % nm)

    # ---------------------------------------------------------------- secrets
    def on_memset(self, I, st, d, c, n):
        r = I.to_obj(st, d)
        if r is None or ('secret', r[0]) not in st.ghost:
            return
        ob = st.mem[r[0]]
        if c == 0 and r[1] == 0 and is_num(n) and st.sure_ge0(ladd(lsub(n, ob.size), 1)):
            self.wipe(st, r[0])

    def wipe(self, st, o):
        if st.ghost[('secret', o)] == 'wiped':
            return
        if o[2] == 'section':
            set_cell(st, MON, 0, 8, ladd(st.mem[MON].cells[0][1], 1))
        st.ghost[('secret', o)] = 'wiped'
        if st.ghost.get('wiping') == o:
            del st.ghost['wiping']
            set_cell(st, MON, 16, 8, 0)
        ob = st.mem[o]
        if ob.status == 'alive':
            st.mem[o] = Obj(ob.kind, ob.size, ob.status, {}, 'Z', 0, {k: v for k, v in ob.attrs.items() if k == 'res'})

    def on_store(self, I, st, o, off, size, v):
        """byte by byte: cell 16 holds how many leading bytes were zeroed"""
        if st.ghost.get(('secret', o)) != 'plain' or size != 1 or v != 0:
            return
        if off == 0:
            st.ghost['wiping'] = o
            set_cell(st, MON, 16, 8, 1)
        elif st.ghost.get('wiping') == o and st.same(off, st.mem[MON].cells[16][1]):
            set_cell(st, MON, 16, 8, ladd(off, 1))

    def on_learn(self, I, st, v):
        """the terminator was reached"""
        if not (is_lin(v) and len(v[2]) == 1):
            return
        b = v[2][0][0]
        if b[0] == 'zx' and is_lin(b[1]) and len(b[1][2]) == 1:
            b = b[1][2][0][0]
        if b[0] != 'b' or st.ghost.get(('secret', b[1])) != 'plain' or st.bounds1(b) != (0, 0) or st.mem[b[1]].ver != b[3]:
            return
        if b[2] == 0 or st.ghost.get('wiping') == b[1] and st.sure_ge0(lsub(st.mem[MON].cells[16][1], b[2])):
            self.wipe(st, b[1])

    def wiped_bytes(self, st):
        o = st.ghost.get('wiping')
        if o is not None and o in st.mem and st.ghost.get(('secret', o)) == 'plain' and st.sure_ge0(
                ladd(lsub(st.mem[MON].cells[16][1], st.mem[o].size), 1)):
            self.wipe(st, o)

    def leave_section(self, I, st):
        """the strings of the section that was looked up last are out of sight"""
        self.wiped_bytes(st)
        for k in [k for k in st.ghost if type(k) is tuple and k[:2] == ('str', 'section')]:
            o = st.ghost.pop(k)
            st.ghost.pop(('secret', o), None)
            if st.ghost.get('wiping') == o:
                del st.ghost['wiping']
                set_cell(st, MON, 16, 8, 0)
            st.mem.pop(o, None)

    def wiped(self, I, st, where):
        self.wiped_bytes(st)
        for n, o in self.opts.items():
            if o[1] == T_SEC and not st.same(lin(('cfgsize', 'top', n)), st.mem[MON].cells[0][1]):
                I.report(st, 'D06-wiped', '%s although not every password of a section was wiped' % where)
        if 'password' in self.opts and st.ghost.get(('set', 'password')) != 0:
            if st.ghost.get(('secret', st.ghost.get(('str', 'top', 'password')))) != 'wiped':
                I.report(st, 'D06-wiped', '%s although the global password was not wiped' % where)

    def config_freed(self, I, st):
        self.cnt('configuration freed')
        self.wiped(I, st, 'the configuration is freed')
        st.ghost['freed'] = 1

    def leaks(self, I, st, args, what):
        for v in args:
            r = I.to_obj(st, v)
            if r is None:
                continue
            c = content(I, st, v)
            if st.ghost.get(('secret', r[0])) == 'plain' or c is not None and ("'password'" in repr(c)):
                I.report(st, 'D06-output', 'a password is passed to %s' % what)

    def on_log(self, I, st, nm, args):
        self.leaks(I, st, args, nm + '()')

    def on_output(self, I, st, nm, args):
        self.leaks(I, st, args, nm + '()')

    # ---------------------------------------------------------------- the end
    def exec(self, I, st, a):
        self.cnt('execvp')
        argv = st.ghost.get('argv')
        if a[1] != argv:
            I.report(st, 'D07-restart', 'the program is not executed again with the same arguments')
        q = I.to_obj(st, argv)
        c = st.mem[q[0]].cells.get(0)
        if c is None or c[1] != a[0]:
            I.report(st, 'D07-restart', 'what is executed is not this program')
        if st.ghost.get('signal') != 1:
            I.report(st, 'D07-restart', 'the program is executed again although it was not told to')
        if SERVER in st.mem and st.mem[SERVER].status == 'alive':
            I.report(st, 'D07-restart', 'the program is executed again without having stopped the server')
        self.ended(I, st, 'exec', None)

    def ended(self, I, st, how, status):
        self.cnt('end (%s)' % how)
        what = {'exec': 'the program is executed again', 'return': 'the program returns'}.get(how, 'the program exits')
        if st.ghost.get('pidfile') in ('held', 'written', 'unwritten'):
            I.report(st, 'D02-remove', '%s without having removed the PID file' % what)
        if st.ghost.get('parsed') and not st.ghost.get('freed'):
            self.wiped(I, st, what)
        if how == 'return':
            if SERVER in st.mem and st.mem[SERVER].status == 'alive':
                I.report(st, 'D07-server', 'the program returns without having stopped the server')
            if st.ghost.get('signal') == 1 and 'execfailed' not in st.ghost:
                I.report(st, 'D07-restart', 'the program ends although it was told to restart')
        if st.ghost.get('execfailed') and not (is_num(status) and (st.bounds(status)[0] or 0) > 0):
            I.report(st, 'D07-restart', 'the program ends with success although it could not be restarted')
