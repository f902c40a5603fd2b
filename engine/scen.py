"""Scenarios: which entry points are explored, with which boundaries."""
from core import *
import frontend, ir, models, models_ext, tlsapi, tlslayer, tlsmon, srvmon, climon, fifo as fifomod, confmon, mainmon, modmon
from interp import Interp
from driver import Explorer, canon
from models import fork

_mods = {}
CURRENT = []      # the interpreter and the explorer of the scenario that is being run
THOROUGH = False


def module(program):
    m = _mods.get(program)
    if m is None:
        c = frontend.compile_program(program)
        m = _mods[program] = ir.Module(c.text)
        m.compiled = c
    return m


def interp(program, boundary=None, **opts):
    m = module(program)
    mm = dict(models.M)
    mm.update(models.BUFFER)
    for k in (opts.pop('real', ())):
        mm.pop(k, None)
    if boundary:
        mm.update(boundary)
    I = Interp(m, mm, opts)
    CURRENT[:] = [I]
    return I


def explorer(I):
    X = Explorer(I)
    CURRENT[1:] = [X]
    return X


def extp(I, st, name, null=False):
    s = ('p', 'e', name)
    st.iv[s] = (0 if null else 1, None)
    return lin(s)


def extn(I, st, name, lo=0, hi=None):
    s = ('e', name)
    st.iv[s] = (lo, hi)
    return lin(s)


def need(m, *names):
    for n in names:
        f = m.funcs.get(n)
        if f is None or not f.defined:
            raise Broken('function %s() not found in the analysed program' % n)


# ---------------------------------------------------------------- fifo.h as a boundary
def b_fifo_start(I, st, a, ins):
    o = I.new_obj(st, None, 'heap', 'fifo', 'T', attrs={'res': 'fifo'})
    return [(st, ('P', o, 0))]


def b_fifo_write(I, st, a, ins):
    if not I.touch(st, a[0], 'fifo_write'):
        return []
    r = I.to_obj(st, a[0])
    if r is None or I.obj(st, r[0]).attrs.get('res') != 'fifo':
        I.report(st, 'type-confusion', 'fifo_write() called with something that is not the command file writer')
        return []
    n = a[2]
    rr = I.access(st, a[1], n if is_num(n) else None, False, 'fifo_write')
    if rr is None:
        return []
    I.emit(st, 'fifo_write', a[1], n, a[3])
    if a[3] != 0:
        if type(a[3]) is tuple and a[3][0] == 'F':
            return [(s, None) for s, _ in I.dispatch(st, a[3][1], [a[1]], ins)]
        raise Broken('deallocation callback of fifo_write() not resolved')
    return [(st, None)]


def b_fifo_stop(I, st, a, ins):
    if not models.do_free(I, st, a[0], 'fifo_stop'):
        return []
    return [(st, None)]


FIFO = {'fifo_start': b_fifo_start, 'fifo_write': b_fifo_write, 'fifo_stop': b_fifo_stop}


class Lifecycle:
    """typestate of watchers and asynchronous requests against the memory they live in"""

    def on_store(self, I, st, o, off, size, v):
        if type(off) is not int:
            return
        for k, g in st.ghost.items():
            if type(k) is tuple and k[0] == 'ev' and k[1] == o and g[1] and (
                    g[0] == 'io' and off - k[2] in (models.EV_FD, models.EV_EVENTS) or
                    g[0] == 'timer' and off - k[2] == models.EV_AT):
                I.report(st, 'watcher-modified', 'an active %s watcher is modified' % g[0])
                return

    def on_freed(self, I, st, o, ob, how):
        for k in [k for k in st.ghost if type(k) is tuple and k[0] in ('ev', 'aio', 'aiobuf') and k[1] == o]:
            v = st.ghost[k]
            if k[0] == 'ev' and (v[1] or v[2]):
                cb = ob.cells.get(k[2] + models.EV_CB)
                nm = cb[1][1] if cb and type(cb[1]) is tuple and cb[1][0] == 'F' else '?'
                I.report(st, 'freed-watcher', 'memory holding a still active or pending %s watcher (%s) is freed' % (
                    v[0], nm.split('.')[0]))
            elif k[0] == 'aio' and v == 'inflight':
                I.report(st, 'freed-aio', 'control block of an asynchronous write in flight is freed')
            elif k[0] == 'aiobuf' and st.ghost.get(('aio',) + v) == 'inflight':
                I.report(st, 'freed-aio', 'buffer of an asynchronous write in flight is freed')
            del st.ghost[k]


def server(monitors=(), **opts):
    """server.c, auth.c, parse.c between the TLS layer and the command file writer"""
    m = module('server')
    need(m, 'server_start', 'fifo_write', 'tls_server_start')
    I = interp('server', dict(FIFO, **tlsapi.TLS), **opts)
    I.mon = srvmon.Server()
    I.monitors = [Lifecycle(), I.mon] + list(monitors)
    st = State()
    f64 = ('f', 64)
    args = [extp(I, st, 'listen'), extp(I, st, 'ciphers'), extp(I, st, 'command_file'), extp(I, st, 'tmpdir'),
            extn(I, st, 'max_command_size'), extn(I, st, 'max_queue_size'), I.unknown(st, f64, 'timeout')]
    X = explorer(I)
    X.split = srvmon.split
    for s, v in I.call_fn(st, m.funcs['server_start'], args, None):
        s.ghost[('handle', 'server')] = v
        I.i64slots.add((v[1], srvmon.LIMIT))
        models.set_cell(s, v[1], srvmon.LIMIT, 8, args[4])
        X.add(s, 'after server_start()')
    X.run([tlsapi.events])
    return I, X


def client(monitors=(), **opts):
    """client.c, input.c, parse.c, auth.c between the TLS layer and standard input"""
    m = module('client')
    need(m, 'client_start', 'tls_connect', 'conf_getstr', 'input_read_chunk')
    mon = climon.Client()
    I = interp('client', dict(climon.wrap(mon, tlsapi.TLS), **climon.CONF, **climon.PARSE), **opts)
    I.mon = mon
    I.monitors = [Lifecycle(), mon] + list(monitors)
    X = explorer(I)
    X.boundary.append(mon.boundary)
    for nm in ('COMMAND', 'CHECK_RESULT'):
        for tag in (0, 1):
            st = State()
            t = I.unknown(st, ('f', 64), 'timeout')
            st.ghost[('cls', 'mode')] = (nm, tag)
            st.ghost[('cls', 'timeout')] = t
            d, s = (climon.TAG_D, climon.TAG_S) if tag else (extn(I, st, 'delimiter', -128, 127),
                                                            extn(I, st, 'separator', -128, 127))
            args = [extp(I, st, 'server'), extp(I, st, 'ciphers'), t, m.enum('CLIENT_MODE_' + nm), d, s]
            for z, v in I.call_fn(st, m.funcs['client_start'], args, None):
                X.add(z, 'after client_start()')
    X.run([tlsapi.events])
    return I, X


def parse(**opts):
    """the client's parsers of input records, each with arbitrary text"""
    m = module('client')
    need(m, 'parse_command', 'parse_check_result')
    I = interp('client', {}, **opts)
    mon = climon.Parser()
    I.monitors = [Lifecycle(), mon]
    explorer(I)
    for fn, more in (('parse_command', ()), ('parse_check_result', (1,))):
        st = State()
        n = extn(I, st, 'size', 1, (1 << 31) - 16)
        o = I.new_obj(st, n, 'heap', 'record', 'T')
        st.assume_ge0(lsub(ladd(n, -1), I.func_sym(st, ('len', o, 0), 0, None)))
        args = [('P', o, 0)] + [extn(I, st, 'delimiter', -128, 127)] * len(more)
        for s, v in I.call_fn(st, m.funcs[fn], args, None):
            I.emit(s, 'parsed ' + fn)
            mon.result(I, s, fn, o, v)
            r = I.to_obj(s, v)
            for x, ob in s.mem.items():
                if x[0] == 'h' and ob.kind == 'heap' and ob.status == 'alive' and x != o and (r is None or x != r[0]):
                    I.report(s, 'leak', 'memory allocated while %s() ran is not freed' % fn)
    mon.finish(I, st)
    return I, CURRENT[1]


def tls_server(monitors=(), program='server', **opts):
    """tls.c, server side, under an arbitrary user"""
    m = module(program)
    need(m, 'tls_server_start', 'tls_read', 'tls_read_line', 'tls_write', 'tls_write_line', 'tls_shutdown',
         'tls_on_timeout', 'tls_on_error', 'tls_on_line_too_long')
    I = interp(program, dict(tlslayer.ENV), **opts)
    I.mon = tlsmon.Tls()
    I.monitors = [Lifecycle(), I.mon] + list(monitors)
    st = State()
    d, _ = m.fields('tls_server_state')
    args = [extp(I, st, 'listen'), extp(I, st, 'ciphers'), ('D', float(opts.get('timeout', 60))), ('F', '$connect'),
            ('F', '$psk')]
    X = explorer(I)
    X.boundary.append(tlslayer.stall)
    for s, v in I.call_fn(st, m.funcs['tls_server_start'], args, None):
        s.ghost[('handle', 'tls_server')] = v
        models.set_cell(s, v[1], d['data'], 8, 0)
        X.add(s, 'after tls_server_start()')
    X.run()
    I.any_state = State()
    I.mon.finish(I)
    return I, X


def conf(**opts):
    """conf.c (server) and hash.c above libConfuse"""
    m = module('server')
    need(m, 'conf_parse', 'hash_insert')
    I = interp('server', dict(confmon.MODELS), max_counted=1000, **opts)
    mon = confmon.Conf()
    I.monitors = [Lifecycle(), mon]
    explorer(I)
    st = State()
    st.mem[confmon.MON] = Obj('ext', None, default='T', cells={0: (8, 0)})
    I.i64slots.add((confmon.MON, 0))
    for s, v in I.call_fn(st, m.funcs['conf_parse'], [extp(I, st, 'path')], None):
        mon.returned(I, s, v)
    for k, v in mon.n.items():
        I.evcount[k] = v
    return I, CURRENT[1]


def option_table():
    """the options of the server's configuration, as conf_parse() registers them"""
    class Found(Exception):
        pass

    def init(I, st, a, ins):
        raise Found(confmon.read_table(I, st, a[0], 'cfg_init'))
    m = module('server')
    I = interp('server', dict(confmon.MODELS, cfg_init=init))
    I.monitors = []
    st = State()
    try:
        I.call_fn(st, m.funcs['conf_parse'], [extp(I, st, 'path')], None)
    except Found as e:
        return {o[0]: o for o in e.args[0]}
    raise Broken('conf_parse() does not initialize libConfuse')


def main_server(**opts):
    """nsca-ng.c between conf.h, server.h, libev, libutil and the system"""
    m = module('server')
    need(m, 'main', 'conf_parse', 'server_start', 'server_stop')
    table = option_table()
    I = interp('server', dict(mainmon.MODELS), **opts)
    I.mon = mainmon.Main(table)
    I.monitors = [Lifecycle(), I.mon]
    explorer(I)
    st = State()
    st.mem[mainmon.MON] = Obj('ext', None, default='T', cells={0: (8, 0), 8: (8, -1), 16: (8, 0)})
    I.i64slots |= {(mainmon.MON, 0), (mainmon.MON, 8), (mainmon.MON, 16)}
    argv = I.new_obj(st, 8 * 64, 'ext', 'argv', 'T')
    av = ('P', argv, 0)
    models.set_cell(st, argv, 0, 8, extp(I, st, 'argv0'))
    st.ghost['argv'] = av
    for s, v in I.call_fn(st, m.funcs['main'], [extn(I, st, 'argc', 1, 64), av], None):
        mainmon.finish(I, s, 'return', v)
    for k, v in I.mon.n.items():
        I.evcount[k] = v
    return I, CURRENT[1]


def main_options(**o):
    """likewise, with any two options, but without user and chroot"""
    return main_server(max_getopt=2, fixed={'user': 0, 'chroot': 0}, **o)


def module_python(**opts):
    """nscang.c and client.c (Python) between the interpreter, OpenSSL and the client table"""
    m = module('python-hash')
    I = interp('python-hash', dict(modmon.PYTHON), merge_objs=(modmon.MON,), **opts)
    I.mon = modmon.Mod('python')
    I.monitors = [Lifecycle(), I.mon]
    X = explorer(I)
    modmon.python_object(I, X)
    X.run([modmon.python_events])
    for k, v in I.mon.n.items():
        I.evcount[k] = v
    return I, X


def tls_client(monitors=(), **opts):
    """tls.c, client side, under an arbitrary user"""
    m = module('client')
    need(m, 'tls_client_start', 'tls_connect', 'tls_read', 'tls_read_line', 'tls_write', 'tls_write_line', 'tls_shutdown',
         'tls_on_timeout', 'tls_on_error', 'tls_on_line_too_long', 'tls_client_stop')
    I = interp('client', dict(tlslayer.ENV), **opts)
    I.mon = tlsmon.Tls(client=True)
    I.monitors = [Lifecycle(), I.mon] + list(monitors)
    X = explorer(I)
    X.boundary += [tlslayer.stall, I.mon.silent]
    d, _ = m.fields('tls_client_state')
    for flags in (0, 1):
        for tmo in (0, ('F', '$timeout')):
            st = State()
            st.ghost[('cls', 'autodie')] = flags
            for s, v in I.call_fn(st, m.funcs['tls_client_start'], [extp(I, st, 'ciphers')], None):
                s.ghost['tls_client'] = v
                models.set_cell(s, v[1], d['data'], 8, 0)
                I.emit(s, 'event_start')
                args = [v, extp(I, s, 'server'), ('D', 60.0), flags, ('F', '$connect'), tmo, ('F', '$pskc')]
                for z, _ in I.call_fn(s, m.funcs['tls_connect'], args, None):
                    I.emit(z, 'event_end', 'tls_connect')
                    X.add(z, 'after tls_connect()')
    X.run()
    I.any_state = State()
    I.mon.finish(I)
    return I, X


def tls_client_read(**o):
    return tls_client(side='read', **o)


def tls_client_write(**o):
    return tls_client(side='write', **o)


def tls_read(**o):
    return tls_server(side='read', **o)


def tls_write(**o):
    return tls_server(side='write', **o)


def fifo(monitors=(), program='server', **opts):
    """fifo.c under an arbitrary sequence of writes"""
    m = module(program)
    need(m, 'fifo_start', 'fifo_write', 'fifo_stop')
    I = interp(program, {}, **opts)
    mon = fifomod.Fifo()
    I.monitors = [Lifecycle(), mon] + list(monitors)
    st = State()
    mx = extn(I, st, 'max_queue_size', 0, (1 << 31) - 1)
    X = explorer(I)
    X.boundary.append(mon.boundary)
    X.split = fifomod.split
    I.emit(st, 'event_start')
    for s, v in I.call_fn(st, m.funcs['fifo_start'], [extp(I, st, 'path'), extp(I, st, 'dump_dir'), mx], None):
        I.emit(s, 'event_end', 'start')
        s.ghost[('handle', 'fifo')] = v
        I.i64slots.add((v[1], fifomod.LIMIT))
        models.set_cell(s, v[1], fifomod.LIMIT, 8, lmul(mx, 1 << 20))
        X.add(s, 'after fifo_start()')
    X.run([fifomod.events(mon)])
    I.mon = mon
    return I, X


def text(program='server', **opts):
    """vlog() and the string helpers, each with arbitrary text"""
    m = module(program)
    need(m, 'vlog', 'concat', 'parse_line', 'skip_newlines', 'skip_whitespace', 'chomp', 'nsca_version')
    I = interp(program, {}, real=('vlog', 'concat'), **opts)
    I.monitors = [Lifecycle()]
    X = explorer(I)

    def call(name, *args, **kw):
        st = State()
        out = I.call_fn(st, m.funcs[name], [a(st) if callable(a) else a for a in args], None)
        I.emit(st, 'called ' + name)
        return out

    def s(n):
        return lambda st: extp(I, st, n)

    call('vlog', lambda st: extn(I, st, 'level', -(1 << 31), (1 << 31) - 1), s('format'), lambda st: ('P', I.new_obj(
        st, 24, 'heap', 'ap', 'T'), 0))
    call('concat', s('a'), s('b'))
    call('skip_newlines', s('a'))
    call('skip_whitespace', s('a'))
    call('nsca_version')
    return I, X


def fifo_noaio(monitors=(), **opts):
    return fifo(monitors, 'server-noaio', **opts)


# ---------------------------------------------------------------- analyses without exploration
class Lints:
    def __init__(self, program, names):
        import lints
        self.parts = []
        m = module(program)
        for n in names:
            self.parts.append(getattr(lints, n)(program, m).run())

    def result(self):
        r = None
        for p in self.parts:
            x = p.result()
            if r is None:
                r = x
            else:
                r['findings'] += x['findings']
                for k in ('events', 'obligations'):
                    for a, b in x[k].items():
                        r[k][a] = r[k].get(a, 0) + b
        return r


def lint(program, *names):
    def run(**o):
        CURRENT[:] = [Lints(program, names)]
    return run


for _p in ('server', 'client', 'perl', 'python'):
    globals()['formats_' + _p] = lint(_p, 'Formats', 'Wformat')
    globals()['allocs_' + _p] = lint(_p, 'Allocs')
    globals()['calls_' + _p] = lint(_p, 'Recursion')
    globals()['folds_' + _p] = lint(_p, 'Folds')
    globals()['index_' + _p] = lint(_p, 'Index')
signals_server = lint('server', 'Signals')
signals_client = lint('client', 'Signals')


if __name__ == '__main__':
    import sys, time
    t = time.time()
    try:
        I, X = globals()[sys.argv[1]]()
        print('states', len(X.seen), 'rounds', X.rounds, 'steps', I.steps, round(time.time() - t, 1), 's')
        print(X.events)
    finally:
        pass
    for f in I.findings.values():
        print(f)
        for t in f.trace[-14:]:
            print('      ', t)
    print(I.stats['unknown_ext'])
    for k, v in I.stats['bounds_unk'].items():
        print('bounds?', k, v)
