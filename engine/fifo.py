"""The command file writer (fifo.c) under an arbitrary sequence of fifo_write() calls.

Below: the named pipe, dump files, POSIX AIO (a completion signal may arrive at
any boundary), libev and the buffer contract.  Both builds, with and without
POSIX AIO, are explored.

Obligations decided here: what reaches the pipe (F01), when a PROCESS_FILE
command may be queued (F02), that accepted data is always written, still held
or its loss logged (F03), the queue bound (F04), resources (F05), how the pipe
is opened (F07).
"""
from core import *
import models
from models import fork, ptr
from interp import KEEP_ATTRS

PIPE_BUF = 4096
GH = 1 << 17           # pseudo-cells: ghost quantities that take part in joins
DONE = GH + 8          # bytes of a data object already written to the dump file
LIMIT = GH + 16        # configured queue limit in bytes (on the fifo object)
O_WRONLY, O_NONBLOCK, O_ACCMODE, O_CREAT = 1, 0o4000, 3, 0o100
SI_ASYNCIO = -4
LOSS_LOG = ('error', 'warning', 'critical', 'notice')


class Fifo:
    def __init__(self):
        self.n = {'write': 0, 'dump': 0, 'append': 0, 'submit': 0, 'open': 0}

    # -------------------------------------------------- bookkeeping of accepted data
    def hold(self, st, o):
        st.ghost[('data', o)] = 'held'

    def on_event_start(self, I, st):
        for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'cls' and k[1] != 'limit']:
            del st.ghost[k]
        st.ghost.pop('losslog', None)
        st.ghost.pop('lost', None)

    def on_event_end(self, I, st, what):
        l = st.ghost.get('lost')
        if l and not st.ghost.get('losslog'):
            I.report(st, 'F03-loss', 'data accepted for the command file is discarded without an error message (%s)' % l[0],
                     where=l[1])
        for k in ('losslog', 'lost', 'dumpclosed'):
            st.ghost.pop(k, None)
        if st.ghost.get('dump') != 'inflight':
            st.ghost.pop('dump', None)
        for k in [k for k in st.ghost if type(k) is tuple and k[0] == 'data']:
            ob = st.mem.get(k[1])
            if ob is None or (ob.attrs.get('res') == 'buffer' and st.simp(ob.cells[0][1]) == 0):
                del st.ghost[k]

    def on_log(self, I, st, name, args):
        if name.split('.')[0] in LOSS_LOG:
            st.ghost['losslog'] = 1

    def lose(self, I, st, why):
        f, l = I.mod.loc(I.ins.loc)
        st.ghost['lost'] = (why, (f, l, I.ins.fn.name.split('.')[0]))

    def on_freed(self, I, st, o, ob, how):
        t = st.ghost.pop(('data', o), None)
        if t is None:
            return
        if t != 'dump':
            st.ghost.pop(('datalen', o), None)
        if t == 'aio':
            return
        if t == 'dump':
            d = ob.cells.get(DONE)
            full = d is not None and ob.size is not None and self.covers(st, o, d[1])
            st.ghost['dump'] = 'full' if full else 'partial'
            if not full:
                self.lose(I, st, 'a dump file is incomplete')
            return
        if t == 'held' or t == 'aiofail':
            if how == 'buffer_free':
                pass
            self.lose(I, st, 'memory holding it is released')

    def covers(self, st, o, n):
        """n bytes from the start of o are all of its data"""
        ob = st.mem.get(o)
        if ob is None or ob.size is None or not is_num(n):
            return True
        d = lsub(n, ob.size)
        if st.ghost.get(('datalen', o)) == 'str':
            d = ladd(d, 1)
        return st.sure_ge0(d)

    def on_memcpy(self, I, st, d, s, n):
        a, b = I.to_obj(st, d), I.to_obj(st, s)
        if a and b and st.ghost.get(('data', b[0])) == 'held':
            ob = I.obj(st, b[0])
            if b[1] == 0 and self.covers(st, b[0], n):
                st.ghost[('data', b[0])] = 'copied'
                st.ghost[('data', a[0])] = 'held'

    def on_buffer_append(self, I, st, b, p, n):
        r = I.to_obj(st, p)
        if r is None:
            return
        self.n['append'] += 1
        ob = I.obj(st, r[0])
        self.queued(I, st, r[0], n)
        if st.ghost.get(('data', r[0])) == 'held' and r[1] == 0 and self.covers(st, r[0], n):
            st.ghost[('data', r[0])] = 'copied'
        st.ghost[('data', b)] = 'held'
        # F04: the queue never grows past its limit
        fifo = st.ghost.get(('handle', 'fifo'))
        lim = st.mem[fifo[1]].cells.get(LIMIT) if fifo else None
        if lim:
            sz = st.mem[b].cells[0][1]
            if st.simp(sz) == 0 or lim[1] == 0 or st.sure_ge0(lmul(sz, -1)):
                return
            if st.sure_ge0(lmul(lim[1], -1)):
                return      # no limit configured
            if not st.sure_ge0(lsub(lsub(lim[1], sz), n)):
                I.report(st, 'F04-bound', 'data is added to a non-empty queue without the configured limit being respected')

    def on_buffer_slurp(self, I, st, b, o, sz):
        st.ghost.pop(('data', b), None)
        st.ghost[('data', o)] = 'held'

    def on_buffer_read(self, I, st, b, p, k):
        r = I.to_obj(st, p)
        if r:
            st.ghost[('data', r[0])] = 'held'
            v = st.mem[b].cells[0][1]
            if st.simp(v) == 0:
                st.ghost.pop(('data', b), None)
            else:
                lo, hi = st.bounds(v)
                if hi == 0:
                    st.ghost.pop(('data', b), None)

    # -------------------------------------------------- the pipe
    def on_open(self, I, st, path, flags, fd):
        self.n['open'] += 1
        if type(flags) is not int:
            raise Broken('open() flags not resolved')
        if flags & O_ACCMODE != O_WRONLY:
            I.report(st, 'F07-open', 'the command file is not opened write-only')
        if not flags & O_NONBLOCK:
            I.report(st, 'F07-open', 'the command file is opened without O_NONBLOCK, so the server blocks while nothing reads it')
        if flags & O_CREAT:
            I.report(st, 'F07-open', 'the command file would be created when it does not exist')
        c = models.content(I, st, path)
        r = I.to_obj(st, path)
        if not (r and r[0] == ('X', ('p', 'e', 'path'))):
            fo = st.ghost.get(('handle', 'fifo'))

    def on_write(self, I, st, s, g, fd, p, n):
        r = I.to_obj(st, p)
        if g is None:
            I.report(st, 'F01-fd', 'write() to something that is not an open descriptor')
            return
        if g[0] == 'dump':
            self.n['dump'] += 1
            if r and st.ghost.get(('data', r[0])) == 'held':
                st.ghost[('data', r[0])] = 'dump'
                I.i64slots.add((r[0], DONE))
                models.set_cell(st, r[0], DONE, 8, 0)
            if r and st.ghost.get(('data', r[0])) == 'dump':
                d = st.mem[r[0]].cells.get(DONE)
                if d and not (st.simp(lsub(d[1], r[1])) == 0 or st.same(d[1], r[1])):
                    I.report(st, 'F02-dump', 'the dump file is not written contiguously: position %s after %s bytes' % (
                        srepr(r[1]), srepr(d[1])))
            return
        self.n['write'] += 1
        if g[0] != 'fifo':
            I.report(st, 'F01-fd', 'command data is written to a descriptor that was not verified to be a named pipe (%s)' % g[0])
        if not (is_num(n) and st.sure_ge0(lsub(PIPE_BUF, n))):
            I.report(st, 'F01-atomic', 'a write to the command file may exceed PIPE_BUF bytes, so it is not atomic')
        if r is None:
            return
        ob = I.obj(st, r[0])
        if r[1] != 0 or not self.covers(st, r[0], n):
            I.report(st, 'F01-whole', 'a write to the command file does not cover the whole pending output')
        t = st.ghost.get(('data', r[0]))
        if t == 'written':
            I.report(st, 'F01-twice', 'output that was already written to the command file is written again')

    def on_written(self, I, st, s, g, p, n, k):
        r = I.to_obj(st, p)
        if r is None or g is None:
            return
        if g[0] == 'dump':
            if st.ghost.get(('data', r[0])) == 'dump':
                d = st.mem[r[0]].cells[DONE][1]
                models.set_cell(st, r[0], DONE, 8, ladd(d, k))
            return
        self.queued(I, st, r[0], n)
        if ('data', r[0]) in st.ghost:
            st.ghost[('data', r[0])] = 'written'

    # -------------------------------------------------- dump files
    def on_mkstemp(self, I, st, p, fd):
        r = I.to_obj(st, p)
        c = models.content(I, st, p)
        st.ghost['dump'] = 'new'
        if not (type(c) is tuple and c[0] == 'tpl' and type(c[-1]) is bytes and c[-1].endswith(b'XXXXXX') and
                len(c) >= 3 and c[1][0] == 'str'):
            I.report(st, 'F02-name', 'the dump file is not created under the configured directory with a random name')

    def on_aio_write(self, I, st, o, off):
        ob = st.mem[o]

        def f(k, sz, ty):
            return I.read_cell(st, o, ob, off + k, sz, ty)
        if st.ghost.get(('aio', o, off)) == 'inflight':
            I.report(st, 'F05-aio', 'a second asynchronous write is started while one is in flight')
        buf, n, fd, pos = f(16, 8, ('p',)), f(24, 8, ('i', 64)), f(0, 4, ('i', 32)), f(128, 8, ('i', 64))
        val, sig, how = f(32, 8, ('p',)), f(40, 4, ('i', 32)), f(44, 4, ('i', 32))
        for nm, v in (('aio_buf', buf), ('aio_nbytes', n), ('aio_fildes', fd), ('aio_offset', pos),
                      ('sigev_value', val), ('sigev_signo', sig), ('sigev_notify', how)):
            if v == 'U':
                I.report(st, 'F05-aio', 'aio_write() with %s not set' % nm)
                return
        if how != 0:
            I.report(st, 'F05-aio', 'completion of the asynchronous write is not announced by a signal')
        import models_ext
        s, g = models_ext.fdstate(st, fd)
        if g is None or g[0] != 'dump':
            I.report(st, 'F02-dump', 'the asynchronous write does not go to the dump file')
        if pos != 0:
            I.report(st, 'F02-dump', 'the asynchronous write does not start at the beginning of the dump file')
        r = I.to_obj(st, buf)
        if r is None:
            return
        if r[1] != 0 or not self.covers(st, r[0], n):
            I.report(st, 'F02-dump', 'the asynchronous write does not cover the whole pending output')
        st.ghost[('data', r[0])] = 'aio'
        st.ghost[('aiobuf', r[0])] = (o, off)
        st.ghost['dump'] = 'inflight'
        self.n['dump'] += 1

    def on_aio_failed(self, I, st, o, off):
        r = I.to_obj(st, I.read_cell(st, o, st.mem[o], off + 16, 8, ('p',)))
        if r:
            st.ghost[('data', r[0])] = 'held'
            st.ghost.pop(('aiobuf', r[0]), None)
        st.ghost['dump'] = 'failed'

    def on_aio_result(self, I, st, o, off, res):
        st.ghost['dump'] = 'full' if res == 'complete' else 'partial'
        if res != 'complete':
            self.lose(I, st, 'an asynchronous write failed')

    def on_closed(self, I, st, s, g, ok):
        if g is not None and g[0] == 'dump':
            st.ghost['dumpclosed'] = (st.ghost.get('dump'), ok)
            if not ok and st.ghost.get('dump') == 'full':
                self.lose(I, st, 'the dump file could not be closed')

    def queued(self, I, st, o, n):
        """o's bytes have been handed to the output path: a PROCESS_FILE command?"""
        if st.ghost.get(('data', o)) == 'command':
            self.submit(I, st, o)
            return

    def on_formatted(self, I, st, o, t):
        if not t or not any(type(x) is bytes and b'PROCESS_FILE' in x for x in t):
            return
        self.n['submit'] += 1
        st.ghost[('data', o)] = 'command'
        st.ghost[('datalen', o)] = 'str'
        # [<time>] PROCESS_FILE;<path>;<delete>\n
        shape = [x if type(x) is bytes else x[0] for x in t]
        if not (len(t) == 5 and t[0] == b'[' and t[1][0] == 'num' and t[2] == b'] PROCESS_FILE;' and
                t[4] == b';1\n' and t[3] == ('str', ('mkstemp',))):
                I.report(st, 'F02-form', 'malformed PROCESS_FILE command %r' % (shape,))

    def submit(self, I, st, o):
        """a PROCESS_FILE command enters the queue"""
        c = st.ghost.pop('dumpclosed', None)
        st.ghost[('data', o)] = 'held'
        if c is None:
            I.report(st, 'F02-early', 'PROCESS_FILE is queued before the dump file was closed')
        elif c[0] == 'new' and not any(type(k) is tuple and k[0] == 'data' and k[1] != o and v == 'held'
                                       for k, v in st.ghost.items()):
            pass                # nothing was pending: an empty dump file is complete
        elif c[0] != 'full':
            I.report(st, 'F02-partial', 'PROCESS_FILE is queued for a dump file that was not written completely')
        elif not c[1]:
            I.report(st, 'F02-close', 'PROCESS_FILE is queued although closing the dump file failed')

    def on_store(self, I, st, o, off, size, v):
        if is_ptr(v) and st.ghost.get(('data', v[1])) == 'command' and o in st.mem and st.mem[o].kind in ('heap', 'global'):
            self.submit(I, st, v[1])

    # -------------------------------------------------- boundary invariants
    def boundary(self, I, c):
        h = c.ghost.get(('handle', 'fifo'))
        if h is None or h[1] not in c.mem or c.mem[h[1]].status != 'alive':
            return
        o = h[1]
        ev = {k[2]: v for k, v in c.ghost.items() if type(k) is tuple and k[0] == 'ev' and k[1] == o and (v[1] or v[2])}
        kinds = {v[0] for v in ev.values()}
        fds = [v for k, v in c.ghost.items() if type(k) is tuple and k[0] == 'fd' and v[0] in ('fifo', 'open', 'regular')]
        if not fds and 'timer' not in kinds:
            I.report(c, 'F07-retry', 'the command file is not open and no attempt to open it is scheduled',
                     where='event loop')
        if len(fds) > 1:
            I.report(c, 'F05-fd', 'the command file is opened a second time without closing it', where='event loop')
        if fds and not kinds & {'io', 'async', 'idle'}:
            for k, v in c.ghost.items():
                if type(k) is tuple and k[0] == 'data' and v in ('held', 'command') and k[1] in c.mem:
                    ob = c.mem[k[1]]
                    I.report(c, 'F03-stuck', 'data is queued and the command file is open, but nothing is scheduled to write it',
                             where='event loop')
                    break


def split(I, st):
    """states in which pending data fits / does not fit into one atomic write are kept apart"""
    sts = [st]
    h = st.ghost.get(('handle', 'fifo'))
    if ('cls', 'limit') not in st.ghost and h is not None:
        lim = st.mem[h[1]].cells[LIMIT][1]
        sts = []
        for c, e in ((0, lmul(lim, -1)), (1, ladd(lim, -1))):
            n = st.copy()
            if n.assume_ge0(e):
                n.ghost[('cls', 'limit')] = c
                sts.append(n)
    for k in [k for k, v in st.ghost.items() if type(k) is tuple and k[0] == 'data']:
        out = []
        for s in sts:
            ob = s.mem.get(k[1])
            v = None
            if ob is not None and ob.status == 'alive':
                v = ob.cells[0][1] if ob.attrs.get('res') == 'buffer' else ob.size
            if v is None or not is_num(v):
                out.append(s)
                continue
            if s.ghost.get(('datalen', k[1])) == 'str':
                v = ladd(v, -1)
            for c, e in ((0, ladd(lmul(v, -1), PIPE_BUF)), (1, ladd(v, -PIPE_BUF - 1))):
                n = s.copy()
                if n.assume_ge0(e):
                    n.ghost[('cls', k[1])] = c
                    out.append(n)
        sts = out
    return sts


def aio_events(I, st):
    out = []
    for k, v in st.ghost.items():
        if type(k) is tuple and k[0] == 'aio' and v == 'inflight':
            out.append(('aio', lambda s, k=k: aio_done(I, s, k)))
    return out


def aio_done(I, st, k):
    _, o, off = k
    h = st.ghost.get('sighandler')
    if h is None or type(h[0]) is not tuple:
        I.report(st, 'F05-aio', 'no handler is installed for the completion signal', where='event loop')
        return []
    I.note(st, 'event: the asynchronous write completes')
    I.emit(st, 'event_start')
    st.ghost[k] = 'signaled'
    for b in [b for b, v in st.ghost.items() if type(b) is tuple and b[0] == 'aiobuf']:
        del st.ghost[b]
    f = I.mod.funcs.get(h[0][1])
    val = I.read_cell(st, o, st.mem[o], off + 32, 8, ('p',))
    si = I.new_obj(st, 128, 'ext', 'siginfo', 'T', cells={8: (4, SI_ASYNCIO), 24: (8, val)})
    st.ghost['insig'] = 1
    out = []
    for s, _ in I.call_fn(st, f, [I.fresh(st, 'signo', lo=1, hi=64), ptr(si), 0], None):
        s.ghost.pop('insig', None)
        s.mem.pop(si, None)
        if not any(type(e) is tuple and e[0] == 'ev' and e[1] == o and v[0] == 'async' and v[2]
                   for e, v in s.ghost.items()):
            I.report(s, 'F05-aio', 'the completion of an asynchronous write is not noticed', where=h[0][1])
        out.append(s)
    return out


def events(mon):
    def g(I, st):
        if 'stopped' in st.ghost:
            return []
        h = st.ghost.get(('handle', 'fifo'))
        return [('write', lambda s: do_write(I, s, mon)), ('stop', lambda s: do_stop(I, s, mon))] + aio_events(I, st)
    return g


def do_write(I, st, mon):
    h = st.ghost[('handle', 'fifo')]
    I.note(st, 'event: a command is handed to fifo_write()')
    I.emit(st, 'event_start')
    n = I.fresh(st, 'size', lo=1, hi=(1 << 31) - 1)
    o = I.new_obj(st, n, 'heap', 'payload', 'T')
    mon.hold(st, o)
    out = []
    for s, _ in I.call_fn(st, I.mod.funcs['fifo_write'], [h, ptr(o), n, ('F', 'free')], None):
        I.emit(s, 'event_end', 'write')
        out.append(s)
    return out


def do_stop(I, st, mon):
    h = st.ghost[('handle', 'fifo')]
    I.note(st, 'event: the server stops')
    out = []
    for s, _ in I.call_fn(st, I.mod.funcs['fifo_stop'], [h], None):
        s.ghost.pop(('handle', 'fifo'), None)
        s.ghost['stopped'] = 1
        for k in [k for k in s.ghost if type(k) is tuple and k[0] in ('data', 'datalen', 'pf')]:
            del s.ghost[k]
        s.ghost.pop('lost', None)
        out.append(s)
    return out
