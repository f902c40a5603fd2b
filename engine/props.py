"""Which scenarios and rules decide which property.

A part is (scenario, rules, needs): the scenario of scen.py that is explored,
the rules whose findings violate the property, and the interface events the
exploration must have met (an analysis that meets none of them decides nothing
and ends with an error).
"""
MEM = ('use-after-free', 'double-free', 'bad-free', 'use-after-return', 'leak', 'null-deref', 'null-call', 'uninit',
       'bounds', 'type-confusion', 'div0')
RES = ('fd-leak', 'closed-fd', 'double-close', 'ssl', 'buffer')
EVL = ('watcher', 'freed-watcher', 'freed-aio', 'stall')
API = ('tls-api', 'concurrent-read', 'double-shutdown', 'read-after-shutdown', 'write-after-shutdown', 'read-size')

CORE = MEM + RES + EVL
CL, PA = 'client', 'parse'
TR, TW = 'tls_read', 'tls_write'
KR, KW = 'tls_client_read', 'tls_client_write'


def both(rules, *needs):
    return [(TR, rules, needs), (TW, rules, needs)]


def conn(rules, *needs):
    return [(KR, rules, needs), (KW, rules, needs)]


def fifo(rules, *needs):
    return [('fifo', rules, needs), ('fifo_noaio', rules, needs)]


PROPS = {
    'S01': [('server', ('S01-*',), ('fifo_write', 'regexec'))],
    'S02': [('server', ('S02-*', 'S01-exact', 'S01-nul'), ('fifo_write',))],
    'S03': [('conf', ('S03-*',), ('pattern compiled', 'pattern result', 'configuration accepted'))],
    'D03': [('conf', ('D03-*',), ('section registered', 'validator result', 'configuration accepted'))],
    'D04': [('conf', ('D04-*',), ('section registered', 'fallback'))],
    'D01': [('main_server', ('D01-*',), ('serving', 'setuid succeeds', 'configuration freed'))],
    'D02': [('main_server', ('D02-*',) + MEM, ('pidfile_open', 'execvp', 'end'))],
    'D05': [('main_options', ('D05-*',) + MEM, ('server_start', 'option -C')), ('main_server', ('D05-*',), ('server_start',))],
    'D06': [('main_server', ('D06-*',) + MEM, ('configuration freed', 'execvp'))],
    'D07': [('main_server', ('D07-*',), ('serving', 'signal callback', 'execvp', 'end'))],
    'S04': [('server', ('S04-*',), ('psk_result',)), (TR, ('S05-identity',), ('up_connected',))],
    'S05': [('server', ('S05-*', 'tls-api'), ('tls_read_bytes',))] + both(('S05-*',), 'up_connected'),
    'S06': [('server', ('S06-*', 'concurrent-read', 'double-shutdown', 'read-after-shutdown', 'write-after-shutdown',
                        'stall'), ('tls_write_line', 'tls_shutdown')), (TW, ('S06-*', 'stall'), ('ssl_write', 'op_written'))],
    'S07': [('server', ('S07-*', 'read-size', 'bounds', 'S01-exact'), ('tls_read_bytes',)),
            (TR, ('S07-*', 'bounds', 'stall'), ('ssl_read', 'up_read'))],
    'S08': both(('S08-*', 'S05-early'), 'SSL_new', 'cipher_list') + conn(('S08-*', 'S05-early'), 'SSL_new', 'cipher_list'),
    'S09': [('server', CORE + API, ('connected', 'request_done'))] + both(CORE + ('S09-*', 'watcher-modified'), 'up_connected', 'freed'),
    'S10': [('server', ('S10-*',), ('too_long_done',))] + both(('S10-*',), 'up_long', 'ssl_read'),
    'S11': [('server', ('S11-*',), ('timeout_done',))] + both(('S11-*', 'watcher-modified'), 'up_timeout'),
    'S12': both(('S12-*', 'stall', 'watcher-modified'), 'ssl_want') + conn(('S12-*', 'stall', 'watcher-modified'), 'ssl_want'),
    'F01': fifo(('F01-*',), 'write'),
    'F02': fifo(('F02-*',), 'write'),
    'F03': fifo(('F03-*',), 'write'),
    'F04': fifo(('F04-*',), 'write'),
    'F05': fifo(('F05-*',) + CORE, 'write'),
    'C01': [(CL, ('C01-*',), ('request_done', 'tls_shutdown'))] + conn(('C01-*', 'S11-*', 'S05-early'), 'up_connected'),
    'C02': [(CL, ('C02-*',), ('tls_write_line', 'tls_write'))],
    'C03': [(CL, ('C03-*',), ('tls_write',)), (PA, ('C03-*',) + MEM, ('parsed parse_command', 'parsed parse_check_result')),
            ('folds_client', ('fold-*',), ('functions with loops over strings',))],
    'C04': [(CL, ('C04-*', 'C02-order'), ('tls_write_line',))],
    'C07': [(CL, CORE + API, ('connected', 'request_done'))] + conn(CORE + ('S09-*', 'watcher-modified'), 'up_connected', 'freed'),
    'C08': [(CL, ('C08-*',), ('pskc_result',))],
    'F07': fifo(('F07-*', 'watcher-modified'), 'open'),
}

LINT = 'dataflow analysis of the whole program\'s compiled IR (call graph, def-use chains, intervals)'


def lint(name, rules, progs, *needs):
    return [('%s_%s' % (name, p), rules, needs) for p in progs]


ALL = ('server', 'client', 'perl', 'python')
PROPS.update({
    'F06': lint('signals', ('F06-*',), ('server', 'client')),
    'L01': lint('formats', ('L01-*',), ('server', 'client'), 'formatting calls', 'constant formats') +
    lint('index', ('L01-*',), ('server', 'client'), 'indexed accesses') + [('text', MEM, ('called vlog',))],
    'L02': lint('allocs', ('L02-*',), ALL, 'allocations'),
    'L03': lint('calls', ('recursion',), ALL, 'direct calls') +
    [(x, ('recursion',), ()) for x in ('server', CL, TR, TW, KR, KW, 'fifo', 'fifo_noaio', PA, 'text')],
    'M06': lint('formats', ('L01-format', 'L01-type'), ('perl', 'python'), 'formatting calls', 'constant formats'),
})

TECH = {k: LINT for k in ('F06', 'L02', 'M06')}
TECH['L03'] = 'call graph analysis of the compiled IR, abstract interpretation of the event handlers for cycles through callbacks'
TECH['L01'] = LINT + ', abstract interpretation of the logging functions'
NOTES = {}


SCEN = {
    'tls_read': 'tls.c on the server side, receiving: an arbitrary user of tls.h above, OpenSSL and libev below, every result of '
                'every OpenSSL call',
    'tls_write': 'tls.c on the server side, sending: an arbitrary user of tls.h above, OpenSSL and libev below, every result of '
                 'every OpenSSL call',
    'tls_client_read': 'tls.c on the client side, receiving: likewise, with and without a timeout handler and with and without '
                       'ending the program on failure',
    'tls_client_write': 'tls.c on the client side, sending: likewise',
    'server': 'server.c, auth.c and parse.c between the TLS layer interface (tls.h) and the command file writer '
              'interface (fifo.h): every callback order, every request text, every configuration',
    'client': 'client.c, input.c, auth.c and buffer.c between the TLS layer interface (tls.h), the results of conf.c and parse.c, '
              'and libev: every callback order, every response, all input, every result of read()',
    'parse': 'parse.c with arbitrary records and delimiters, by abstract interpretation',
    'conf': 'conf.c and hash.c of the server above the libConfuse interface: every value of every setting, every number of sections and '
            'of values, every result of every libConfuse call, every callback of the option tables',
    'main_server': 'nsca-ng.c of the server above libConfuse (after the file was read), libev, the PID file library and the system calls: '
                   'every set of options, every configuration, every result of every call, every signal, every way to end',
    'main_options': 'likewise, with up to two options on the command line and no user and root directory configured',
    'text': 'vlog() and the string helpers with arbitrary formats and strings, by abstract interpretation',
    'fifo': 'fifo.c (asynchronous I/O build) under an arbitrary sequence of writes, every result of every system call',
    'fifo_noaio': 'fifo.c (build without asynchronous I/O) under an arbitrary sequence of writes, every result of '
                  'every system call',
}


LINTS = {
    'formats': 'every call that formats text, directly or through wrappers found to a fixpoint, including calls through function '
               'pointers: the format is constant text and fits the types of the arguments',
    'index': 'every access to an array of fixed size through a variable index: interval analysis proves it in bounds',
    'allocs': 'every allocation: no path uses its result before it was compared with null',
    'folds': 'every loop that walks a string, evaluated for each character and summed up over the string: sizes allocated against '
             'what is written, and what each character becomes',
    'calls': 'cycles of direct calls',
    'signals': 'everything the installed signal handlers may call, transitively: async-signal-safe, errno preserved',
}


def explain(pid):
    parts = PROPS[pid]
    l = [s for s in dict.fromkeys(p[0] for p in parts) if s.split('_')[0] in LINTS and s not in SCEN]
    if l:
        t = ' '.join('%s: %s (%s).' % (s, LINTS[s.split('_')[0]], s.split('_')[1]) for s in l)
        r = [s for s in dict.fromkeys(p[0] for p in parts) if s not in l]
        return ('Dataflow analyses of the LLVM IR compiled from the current sources, over every function of the program. ' + t +
                ' ' + ' '.join('%s: %s.' % (s, SCEN[s]) for s in r if s in SCEN) +
                ' Counts below are the constructs found and checked; every finding of the listed rules is a violation.')
    return ('Abstract interpretation of the LLVM IR compiled from the current sources, to a fixpoint over all orders of '
            'events. ' + ' '.join('%s: %s.' % (s, SCEN[s]) for s in dict.fromkeys(p[0] for p in parts) if s in SCEN) +
            ' Counts below are abstract states between two callbacks, callback runs, IR instructions of the functions '
            'reached, interface events met and obligations checked; every finding of the listed rules is a violation.')


def assumptions(pid, res):
    out = ['clang 18 compiles the sources as the build does (config/config.h)',
           'library functions behave as modelled from their documentation (engine/models*.py)',
           'callbacks of one process do not interleave (libev is single-threaded)']
    for s, r in res.items():
        for u in r.get('undecided_bounds', ()) or ():
            out.append('%s: memory access not decided: %s' % (s, u))
        if r.get('unmodelled'):
            out.append('%s: external functions assumed to have no relevant effect: %s' % (s, ', '.join(r['unmodelled'])))
    return out
