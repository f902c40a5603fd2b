#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and engine/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import props

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), technique=technique, note=note, na=na))


S, C = 'src/server/', 'src/common/'
ABS = 'abstract interpretation of the compiled IR with a typestate/interface monitor'
NOTE = ('Over-approximating static analysis: every path, every result of every library call and every event order is '
        'covered; libraries are modelled from their documentation. ')

# ------------------------------------------------------------------ server
p('S01', 'Only authorized submissions reach the command file, byte for byte',
  'Data a client submits is queued for the monitoring system\'s command file only if it matches one of the host, service or '
  'command patterns configured for that client\'s own identity (or, only if that identity has no section of its own, for "*"), '
  'matched against the text behind the timestamp. What is queued is exactly the data that was received and checked: all of it, '
  'nothing else, once, and no bytes that escaped the check (such as bytes behind a NUL character).',
  ['inputs', 'configurations', 'histories'], 'every submission, identity, configuration and sequence of requests',
  'The tests send a few well-formed commands with one configuration; they never try NUL bytes, lookalike identities, or failing matches.',
  [S + 'auth.c', S + 'server.c'], [('authorization check', S + 'auth.c'), ('submission handler', S + 'server.c')],
  ['hand-over to the command file writer'])
p('S02', 'Queued commands are single, terminated, timestamped lines',
  'A submission is queued only if it is one line: it starts with a bracketed timestamp, ends with a newline, and contains no other '
  'newline. So no client can make the monitoring system see a second command that was not checked.',
  ['inputs'], 'every byte string a client may submit', 'The tests submit well-formed lines only.',
  [S + 'auth.c', S + 'server.c'], [('format check', S + 'auth.c')], ['hand-over to the command file writer'])
p('S03', 'Command patterns are anchored and decide by themselves',
  'Every configured host, service or command pattern (any text that is itself a regular expression) is compiled as one extended regular expression that is anchored at both ends as a whole, '
  'so that it can authorize only commands it matches completely, and a host or service pattern authorizes only the check results of '
  'that host or service. A pattern that cannot be compiled is never used: the server refuses to start.',
  ['configurations', 'inputs'], 'every pattern text of every section', 'The tests use a handful of simple patterns.',
  [S + 'conf.c', S + 'auth.c'], [('pattern construction', S + 'conf.c')], ['pattern compilation and matching'])
p('S04', 'Clients are authenticated by the pre-shared key of their own identity',
  'A TLS handshake succeeds only with the password configured for the identity the client presented, or with that of "*" if that identity has no '
  'section of its own; unknown identities are rejected, and never more is copied than the key buffer holds. The identity that is '
  'later used for authorization is a private, unmodified copy of the one that was authenticated.',
  ['inputs', 'configurations', 'histories'], 'every identity and password, every key buffer size, repeated handshake callbacks',
  'The tests try one right and one wrong password.',
  [S + 'auth.c', C + 'tls.c'], [('PSK callback', S + 'auth.c')], ['result and output buffer of the PSK callback'])
p('S05', 'Requests are served only after TLS authentication and the MOIN handshake',
  'A connection is handed to the request handlers only after its TLS handshake succeeded and an identity was recorded for it; before that, no application data is '
  'read from or sent to the peer. Submissions are accepted and queued only after a MOIN request with a positive protocol version was answered with success.',
  ['histories', 'schedules', 'inputs'], 'every sequence of requests and socket events', 'The tests run complete, orderly sessions only.',
  [S + 'server.c', C + 'tls.c'], [('handshake handler', S + 'server.c'), ('accept callbacks', C + 'tls.c')], ['TLS layer interface'])
p('S06', 'Each request gets exactly one response, completely sent, then the next step',
  'Every request line and every submission is answered with exactly one terminated response line whose code (MOIN, OKAY, FAIL, BAIL, PONG) fits the request and its outcome '
  '(only BAIL from the client goes unanswered); a submission is answered OKAY if and only if it was queued. After each response the server either waits for exactly one further '
  'request or starts to shut down, and everything queued for output is sent in order and completely before a regular shutdown.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every request, in every state of the connection, with every pattern of partial writes',
  'The tests see a few request types and never a partial write.',
  [S + 'server.c', C + 'tls.c'], [('request handlers', S + 'server.c'), ('output buffering', C + 'tls.c')], ['TLS layer interface', 'SSL_write'])
p('S07', 'A submission is read exactly as announced and within the size limit',
  'The server reads submission data only for a PUSH request that announced a positive size within the configured maximum, and hands over exactly that many bytes, in order, '
  'NUL-terminated, in memory large enough for them.',
  ['inputs', 'configurations', 'fault_sequences'], 'every announced size, limit and fragmentation of the data', 'The tests announce one correct size and never fragment the data.',
  [S + 'server.c', C + 'tls.c'], [('PUSH handling', S + 'server.c'), ('byte reader', C + 'tls.c')], ['TLS layer interface', 'SSL_read'])
p('S08', 'All traffic goes through TLS with the configured ciphers',
  'Data is exchanged with peers only through TLS sessions, never through the bare socket. Sessions are created only with the configured cipher list in effect, with '
  'SSLv3 and older protocol versions disabled, and the program gives up if the ciphers cannot be set.',
  ['configurations', 'inputs'], 'every cipher setting, every connection', 'The tests use one cipher setting.',
  [C + 'tls.c'], [('TLS initialization', C + 'tls.c')], ['OpenSSL calls'])
p('S09', 'Connections never corrupt or leak memory or descriptors',
  'Whatever the peer sends and in whatever order events occur, the server never uses freed memory, frees twice, accesses memory out of bounds, uses uninitialised data or dereferences a null pointer while handling connections, '
  'and each connection\'s memory, TLS state and socket are released exactly once; a connection that ended is never touched again.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'], 'every order of events, every request, every result of every library call',
  'The tests run a few clean connections and check neither memory nor descriptors.',
  [S + 'server.c', S + 'auth.c', C + 'tls.c'], [('connection teardown', C + 'tls.c'), ('connection objects', S + 'server.c')], ['allocation, OpenSSL and libev calls'])
p('S10', 'Overlong request lines are refused, and memory per line is bounded',
  'At most 2048 bytes of a request line are ever buffered for a peer, a line that fits into 1024 bytes is never refused as too long, and received bytes are neither dropped nor reordered. A longer line makes the server '
  'stop reading, say so with one BAIL response, and close the connection.',
  ['inputs', 'fault_sequences'], 'every line length and fragmentation', 'No test sends an overlong or fragmented line.',
  [C + 'tls.c', S + 'server.c'], [('line reader', C + 'tls.c')], ['SSL_read, buffer and TLS layer interface'])
p('S11', 'Idle connections time out',
  'From the moment a connection is accepted until it is freed a timeout is armed for it (during the handshakes, between requests, and during shutdown), and when it expires without activity the client is told with one BAIL line and the '
  'connection is shut down, or freed if it was being set up or shut down already.',
  ['schedules', 'histories'], 'every state of a connection in which the peer may fall silent', 'No test waits for a timeout.',
  [C + 'tls.c', S + 'server.c'], [('timeout watcher', C + 'tls.c')], ['libev timers'])
p('S12', 'TLS retries never stall or corrupt a connection',
  'Whenever the TLS library asks to wait until the socket is readable or writable, exactly that is waited for; a new read request is tried at once because data may be buffered already, an operation in one direction makes a waiting one in the other direction be '
  'retried, an unfinished write is repeated with the same data, and nothing is read or delivered while a request is being handled.',
  ['schedules', 'fault_sequences'], 'every result of every TLS call in every state', 'On a fast local connection the tests never see a want-read or want-write.',
  [C + 'tls.c'], [('retry handling', C + 'tls.c')], ['SSL_get_error and libev watchers'])

# ------------------------------------------------------------------ command file writer
p('F01', 'Commands reach the command file atomically and unmixed',
  'Data is written to the command file only through the descriptor that was verified to be a FIFO, in single writes of at most PIPE_BUF bytes that consist of whole submitted commands, starting at the first byte; '
  'a command that was written is never written again.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'], 'every sequence of submissions of every size, every result of write()',
  'The tests write a few short commands to a ready FIFO.',
  [S + 'fifo.c'], [('command file writer', S + 'fifo.c')], ['write() on the command file'])
p('F02', 'Spooled commands are announced only once they are complete',
  'Commands that do not fit are spooled to a private temporary file, and the monitoring system is told to process that file, with the documented PROCESS_FILE command naming the file and asking for its removal, only after all of the data was written to it and it was closed '
  'successfully. A file that could not be written completely is never announced.',
  ['fault_sequences', 'schedules', 'histories'], 'every result of every file operation, synchronous or asynchronous', 'The tests never overflow the pipe nor fail a write.',
  [S + 'fifo.c'], [('spooling', S + 'fifo.c')], ['file operations and what is written to the command file'])
p('F03', 'Accepted commands are kept until written, or their loss is logged',
  'A command accepted for the command file is kept in memory until it was written to the command file or to a spool file; if it has to be given up (queue full, spool file failure) that is logged. As long as '
  'something is queued the writer always waits for an event that makes it proceed.',
  ['fault_sequences', 'schedules', 'histories'], 'every order of events and every failure', 'The tests never see the FIFO unavailable or a failing write.',
  [S + 'fifo.c'], [('queue handling', S + 'fifo.c')], ['writer interface, write(), log'])
p('F04', 'The command queue is bounded by the configured maximum',
  'If a maximum queue size is configured, the commands queued in memory never exceed it: commands that would exceed it are dropped, which is logged, and those that fit are not dropped; without a limit nothing is dropped.',
  ['histories', 'configurations', 'inputs'], 'every sequence of submissions and every limit', 'The tests never fill the queue.',
  [S + 'fifo.c'], [('queue limit', S + 'fifo.c')], ['writer interface'])
p('F05', 'The writer releases every resource once and never under running I/O',
  'In every order of events and for every failure the command file writer never uses freed memory, frees or closes twice, or leaks memory or descriptors; at most one asynchronous write is in flight, and its control block and data stay alive and unchanged until it has '
  'completed, also when the writer is stopped.',
  ['schedules', 'fault_sequences', 'histories', 'crash_points'], 'every order of events, results of system calls and times of stopping', 'The tests check neither memory nor descriptors and never stop under load.',
  [S + 'fifo.c'], [('writer state', S + 'fifo.c')], ['allocation, descriptor and aio calls'])
p('F06', 'Signal handlers only use async-signal-safe operations',
  'Everything that may run inside a signal handler of the programs is async-signal-safe: it calls no function that may allocate, lock or log, and does not clobber errno for the interrupted code.',
  ['schedules'], 'a signal arriving at any instruction', 'Tests cannot place a signal at every instruction.',
  [S + 'fifo.c', S + 'nsca-ng.c'], [('completion signal handler', S + 'fifo.c')], ['call graph of signal handlers'])
p('F07', 'The command file is opened safely and retried',
  'The command file is opened write-only and non-blocking, used only if it turns out to be a FIFO, and closed again otherwise; a missing FIFO or reader makes the server retry periodically, for ever, instead of failing or '
  'blocking, and pending retries are never lost.',
  ['fault_sequences', 'histories', 'configurations'], 'every result of open and stat, any number of times', 'The tests provide a FIFO with a reader.',
  [S + 'fifo.c'], [('open callback', S + 'fifo.c')], ['open(), fstat(), libev timers'])

# ------------------------------------------------------------------ process
p('D01', 'Privileges are dropped completely and before serving',
  'If a user is configured, the server switches supplementary groups, group and user IDs, in this order; if a chroot directory is configured, it changes root and working directory while still privileged; all this happens before the PID file is created, the socket is opened and any client is served. '
  'Failure of any of these steps ends the program.',
  ['configurations', 'fault_sequences'], 'every combination of the settings and every failing call', 'The tests run without privileges and never configure user or chroot.',
  [S + 'nsca-ng.c'], [('privilege dropping', S + 'nsca-ng.c')], ['system calls'])
p('D02', 'One instance per PID file, which is written and removed correctly',
  'If a PID file is configured, the server starts serving only while holding its lock, gives up if another instance holds it or it cannot be created or written, writes the ID of the process that serves (after daemonizing), '
  'and removes the file when it ends or restarts.',
  ['configurations', 'fault_sequences', 'histories'], 'every configuration, failure and way to end', 'The tests never start two instances nor fail a PID file operation.',
  [S + 'nsca-ng.c'], [('PID file handling', S + 'nsca-ng.c')], ['pidfile and daemon calls'])
p('D03', 'Invalid configurations are refused',
  'The server starts only with a configuration that libConfuse parsed successfully, in which every numeric setting is non-negative (and not NaN), every pattern compiles, and there is at least one authorization section, each with a title of its own and '
  'with a password (its own or the global one), all of them registered under their titles; otherwise it logs why and exits with failure.',
  ['configurations', 'fault_sequences'], 'every configuration text', 'The tests use a few valid configurations.',
  [S + 'conf.c'], [('configuration parsing', S + 'conf.c')], ['configuration library calls'])
p('D04', 'Global settings are fallbacks only',
  'A password or pattern list given outside of the authorization sections applies to exactly those sections that do not set it themselves, and never overrides or extends what a section sets.',
  ['configurations'], 'every combination of global and section settings', 'The tests use a few combinations.',
  [S + 'conf.c'], [('default handling', S + 'conf.c')], ['configuration library calls'])
p('D05', 'Command line options override the configuration',
  'The log level, command file, PID file and listen address given to the server on the command line take precedence over the configuration file before anything uses these settings, and settings not given on the command line keep their configured values.',
  ['configurations'], 'every combination of options', 'The tests use few options.',
  [S + 'nsca-ng.c'], [('option handling', S + 'nsca-ng.c')], ['configuration and start-up calls'])
p('D06', 'Passwords are wiped on exit and never logged',
  'Passwords read from the configuration are overwritten in memory before that memory is freed, and no password is ever passed to a logging or output function or to another program.',
  ['configurations', 'histories'], 'every configuration and way to end', 'Tests cannot see freed memory.',
  [S + 'nsca-ng.c', 'src/client/send_nsca.c', S + 'auth.c', 'src/client/auth.c'], [('configuration disposal', S + 'nsca-ng.c')], ['memory, log and exec calls'])
p('D07', 'Start-up, shutdown and restart clean up exactly once',
  'Whatever fails during start-up and however the server ends, registered clean-up work never runs twice on the same resource or on freed memory, and a restart stops the server, cleans up, and executes the same program again (or fails). Unless it was told to stay in the foreground or was given its socket, the server detaches itself, and the event loop survives that; SIGHUP, SIGINT and SIGTERM are handled whenever it serves.',
  ['fault_sequences', 'histories', 'configurations'], 'every failure and way to end', 'The tests only terminate idle servers.',
  [S + 'nsca-ng.c'], [('main program', S + 'nsca-ng.c')], ['exit handlers, execvp'])
p('L01', 'Formatted output is type-correct and bounded',
  'Every formatted log message, request or response is produced from a fixed format whose conversions match the types of their arguments, so no peer or configuration text is ever interpreted as a format, and no formatting or fixed-size buffer is overrun.',
  ['inputs', 'configurations'], 'every formatting call and every text', 'Tests cannot exercise every message with hostile text.',
  [C + 'log.c', C + 'util.c', 'lib/wrappers.c'], [('logging', C + 'log.c')], ['printf-family calls'])
p('L02', 'Out-of-memory is never ignored',
  'No program uses the result of a memory allocation without having checked it: allocation failure ends the program with a message or is handled.',
  ['fault_sequences'], 'every allocation in every state', 'The tests never fail an allocation.',
  ['lib/wrappers.c'], [('checked allocation', 'lib/wrappers.c')], ['allocation calls'])

p('L03', 'Input cannot make the call stack grow without bound',
  'No function of the server, the client or the modules calls itself, directly or through the event callbacks it causes, with a depth that input, peers or the size of data determine.',
  ['inputs', 'histories'], 'every input and every chain of calls and callbacks', 'Tests use inputs that are too small to exhaust the stack.',
  ['src/client/input.c', C + 'tls.c'], [('event callbacks', C + 'tls.c')], ['call graph, event callbacks'])

# ------------------------------------------------------------------ client
p('C01', 'The client reports success only if the server acknowledged everything',
  'send_nsca exits successfully only after the server answered its final QUIT with OKAY, which it sends only when all input was acknowledged; any refusal, protocol violation, connection error or timeout makes it exit with failure and a message.',
  ['inputs', 'fault_sequences', 'histories'], 'every sequence of server responses and failures', 'The tests use a cooperative server.',
  ['src/client/client.c', 'src/client/send_nsca.c'], [('response handlers', 'src/client/client.c')], ['exit status'])
p('C02', 'The client sends one announced submission at a time',
  'The client announces each submission with its exact size, sends the data only after the server answered OKAY, and neither reads further input nor announces another submission before the data was acknowledged with OKAY.',
  ['inputs', 'histories'], 'every input and every sequence of responses', 'The tests use a cooperative server.',
  ['src/client/client.c'], [('response handlers', 'src/client/client.c')], ['TLS layer interface'])
p('C03', 'Client input becomes exactly one well-formed command line',
  'Each non-empty input record is turned into one command: a bracketed timestamp, the host or service check result command for three or four fields, and the fields as they stand in the record, with newlines and backslashes escaped unambiguously so that the command contains no newline; a newline is appended, and no memory is overrun. Records with too few fields end the program with an error.',
  ['inputs'], 'every input record and delimiter', 'The tests use a few records.',
  ['src/client/parse.c', 'src/client/client.c'], [('encoding', 'src/client/parse.c')], ['text sent'])
p('C04', 'The client accepts only the protocol version it speaks',
  'The client submits data only after the server answered its MOIN with a MOIN response carrying protocol version 1; every other answer makes it give up.',
  ['inputs'], 'every response', 'The tests use a cooperative server.',
  ['src/client/client.c'], [('MOIN response handler', 'src/client/client.c')], ['TLS layer interface'])
p('C05', 'The client reads its configuration safely and strictly',
  'Whatever the configuration file contains, reading it never accesses memory out of bounds, and unknown settings, malformed lines, and values of the wrong type end the program with an error that names the place.',
  ['configurations', 'inputs'], 'every file content', 'The tests use a few valid files.',
  ['src/client/conf.c'], [('configuration parser', 'src/client/conf.c')], ['memory accesses, exits'])
p('C06', 'Delimiters are validated',
  'The client accepts only a single character (or a documented escape sequence for one) as field delimiter and as record separator, and refuses sequences out of range as well as delimiters that would be ambiguous.',
  ['configurations', 'inputs'], 'every option argument', 'The tests use a few delimiters.',
  ['src/client/send_nsca.c'], [('escape parser', 'src/client/send_nsca.c')], ['options'])
p('C07', 'The client releases resources once, in every way a session can end',
  'Whatever the server sends and however the session ends, the client never uses freed memory, frees twice, leaks a submission, or continues to use a connection it has given up.',
  ['inputs', 'fault_sequences', 'schedules'], 'every sequence of responses, input and failures', 'The tests use a cooperative server and check no memory.',
  ['src/client/client.c', 'src/client/input.c', C + 'tls.c'], [('client state', 'src/client/client.c')], ['allocation and TLS layer calls'])
p('C08', 'The client authenticates with its configured identity and password',
  'The identity and password handed to the TLS library are the configured ones, complete up to the size of the buffers it provides and never beyond, the identity terminated, and the length returned is that of the password copied.',
  ['configurations', 'inputs'], 'every identity, password and buffer size', 'The tests use short values.',
  ['src/client/auth.c'], [('PSK callback', 'src/client/auth.c')], ['PSK callback'])
p('B01', 'Byte buffers never lose count or overrun',
  'The byte buffer used for network input and output never accesses memory out of bounds, frees twice or leaks, hands out memory of exactly the size it reports with its terminator inside, and its reported size always equals what was appended minus what was taken out.',
  ['histories', 'inputs'], 'every sequence of operations and sizes', 'There are no tests of the buffer of its own.',
  [C + 'buffer.c'], [('buffer blocks', C + 'buffer.c')], ['buffer operations'])

# ------------------------------------------------------------------ language modules
p('M01', 'Module calls succeed only if the server acknowledged',
  'A submission through the Perl or Python module returns success only if the server answered OKAY to the announcement of the data and then OKAY to the data itself; every error, refusal, timeout or unexpected answer is reported to the caller as an error.',
  ['inputs', 'fault_sequences'], 'every sequence of responses and failures', 'The stable tests only load the modules.',
  ['perl/client.c', 'python/client.c', 'perl/Client.xs', 'python/nscang.c'], [('protocol functions', 'python/client.c')], ['return values'])
p('M02', 'The modules never overrun their buffers',
  'Whatever the caller passes and the server answers, the modules never read or write outside of their buffers; requests that do not fit are refused.',
  ['inputs'], 'every argument and response', 'The stable tests only load the modules.',
  ['perl/client.c', 'python/client.c'], [('buffer sizes', 'python/client.c')], ['memory accesses'])
p('M03', 'Module calls never block without a time limit',
  'The sockets of the modules are non-blocking while data is exchanged, and whenever the TLS library has to wait for the network the module waits with the timeout the caller configured and reports an error when it expires.',
  ['schedules', 'fault_sequences'], 'every TLS operation', 'The stable tests only load the modules.',
  ['perl/client.c', 'python/client.c'], [('wait function', 'python/client.c')], ['select() calls'])
p('M04', 'Identities of concurrent module clients never get mixed up',
  'The table that maps TLS contexts to credentials is consulted and modified only with its lock held, the lock is released on every path, every client is registered before it is used and deregistered before it is freed.',
  ['schedules', 'histories'], 'every interleaving of threads using several clients', 'The stable tests only load the modules.',
  ['perl/client.c', 'python/client.c'], [('credential table', 'python/client.c')], ['lock and table calls'])
p('M05', 'Module objects are safe from construction failure to destruction',
  'Creating, using, disconnecting and destroying a client object in any order, also after failed construction, never frees twice, uses freed memory, or leaks its TLS context or strings.',
  ['histories', 'fault_sequences'], 'every sequence of calls and failures', 'The stable tests only load the modules.',
  ['perl/client.c', 'python/client.c', 'python/nscang.c', 'perl/Client.xs'], [('object lifecycle', 'python/nscang.c')], ['allocation and OpenSSL calls'])
p('M06', 'Server text is never used as a format by the modules',
  'Text received from the server or passed by the caller is only ever an argument of a formatted message, never its format.',
  ['inputs'], 'every message', 'The stable tests only load the modules.',
  ['perl/client.c', 'perl/Client.xs', 'python/client.c', 'python/nscang.c'], [('error reporting', 'python/nscang.c')], ['formatting calls'])

# ------------------------------------------------------------------ out of reach of this family
p('X01', 'Submissions reach the monitoring system in order and exactly once',
  'Every command acknowledged to a client is executed by the monitoring system exactly once, and commands of one client are executed in the order they were submitted, also across restarts and crashes.',
  ['crash_points', 'histories', 'schedules'], 'every crash point and restart', 'Tests do not crash the server.',
  [S + 'fifo.c', S + 'server.c'], [('queue', S + 'fifo.c')], [],
  na='Order and exactly-once execution across processes and crashes depend on run-time queue contents, the kernel\'s pipe and the '
     'reader\'s behaviour; the queue is volatile by design, so no argument over the source alone decides it (the per-process parts that are decidable are F01-F05).')
p('X02', 'The byte stream between peers is transported unchanged',
  'The bytes taken out of a buffer are the bytes that were put in, in the same order.',
  ['inputs', 'histories'], 'every content', 'Tests use short contents.',
  [C + 'buffer.c'], [('buffer', C + 'buffer.c')], [],
  na='Equality of unbounded byte contents through a linked list of blocks needs functional verification; the abstract domain here tracks sizes, '
     'ownership and bounds (B01) but not contents.')
p('X03', 'Timeouts take the configured time',
  'A silent peer is disconnected after the configured number of seconds, neither earlier nor much later.',
  ['schedules'], 'every timing', 'Tests do not measure time.',
  [C + 'tls.c'], [('timeout', C + 'tls.c')], [],
  na='Real time and floating-point arithmetic on clock values are outside of what the analysis tracks; that a timeout is always armed and has the right effect is S11.')
p('X04', 'Traffic is confidential and authentic',
  'Nobody without the pre-shared key can read or forge traffic.',
  ['inputs'], 'every attacker', 'Tests do not attack.',
  [C + 'tls.c'], [('TLS', C + 'tls.c')], [],
  na='Cryptographic strength is a property of OpenSSL and of the cipher configuration, not of this source; that everything goes through TLS is S08.')


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                            'observe_at': x['observe'], 'hook_needed': None}}) + '\n')
            assert len(x['title']) <= 80, x['id']
    checks, na = [], []
    for x in P:
        i = x['id']
        if i in props.PROPS:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                           'thorough_cmd': 'python3 check.py %s --thorough' % i,
                           'technique': props.TECH.get(i, ABS), 'level': 'other',
                           'level_note': NOTE + props.NOTES.get(i, '')})
        else:
            na.append({'property': i, 'reason': x['na'] or 'no sound check built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: see DESIGN.md. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


write()
