"""Compile /repo's current sources to LLVM IR (text) with the build's flags.

Every run compiles from /repo's working tree into a scratch directory that is
removed afterwards; nothing is read from a previous build.
"""
import os, subprocess, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CONFIG = os.path.join(os.path.dirname(HERE), 'config')

CLANG = next((c for c in ('clang-18', 'clang') if shutil.which(c)), 'clang')
def _tool(n):
    for c in (n + '-18', '/usr/lib/llvm-18/bin/' + n, n):
        if shutil.which(c):
            return c
    raise RuntimeError('missing tool ' + n)

BASE = ['-std=gnu17', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
        '-fno-discard-value-names', '-w', '-S', '-emit-llvm', '-ferror-limit=5',
        '-fno-builtin', '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE']


class AnalysisBroken(Exception):
    """The analysis could not be carried out (error exit, never a verdict)."""


def _srcs(pat):
    r = sorted(glob.glob(os.path.join(REPO, pat)))
    if not r:
        raise AnalysisBroken('no sources match %s' % pat)
    return r


def _core_flags(variant=''):
    f = ['-DHAVE_CONFIG_H', '-I' + CONFIG + ('-noaio' if variant == 'noaio' else ''), '-I' + os.path.join(REPO, 'lib'),
         '-I' + os.path.join(REPO, 'src/common'), '-I' + os.path.join(REPO, 'lib/ev'),
         '-I' + os.path.join(REPO, 'lib/pidfile'),
         '-DSYSCONFDIR="/usr/local/etc"', '-DLOCALSTATEDIR="/usr/local/var"',
         '-DNSCA_VERSION="1.7"', '-DEV_STANDALONE=0']
    return f


def _lib_sources(program):
    lib = os.path.join(REPO, 'lib')
    out = [os.path.join(lib, 'wrappers.c')]
    if program.startswith('server'):
        out += sorted(f for f in glob.glob(os.path.join(lib, 'pidfile', '*.c'))
                      if os.path.basename(f) != 'flock.c')
    # any new plain C file a change adds to lib/ is picked up here
    known = {'daemon.c', 'progname.c', 'strcasecmp.c', 'strdup.c', 'strncasecmp.c',
             'xprintf.c', 'wrappers.c'}
    out += [f for f in sorted(glob.glob(os.path.join(lib, '*.c')))
            if os.path.basename(f) not in known]
    return out


def units(program):
    """[(source, flags)] for one program."""
    if program in ('server', 'server-noaio'):
        fl = _core_flags('noaio' if program.endswith('noaio') else '')
        return [(s, fl) for s in _srcs('src/server/*.c') + _srcs('src/common/*.c')
                + _lib_sources(program)]
    if program == 'client':
        fl = _core_flags()
        return [(s, fl) for s in _srcs('src/client/*.c') + _srcs('src/common/*.c')
                + _lib_sources(program)]
    if program in ('python', 'python-hash'):
        inc = subprocess.run(['/usr/bin/python3', '-c',
            'import sysconfig;print(sysconfig.get_paths()["include"])'],
            capture_output=True, text=True).stdout.strip()
        fl = ['-I' + inc, '-DVERSION="1.1"', '-I' + os.path.join(REPO, 'python')]
        if program.endswith('-hash'):
            fl = fl + ['-include', os.path.join(HERE, 'stubs', 'uthash_model.h')]
        return [(s, fl) for s in _srcs('python/*.c')]
    if program == 'perl-hash':
        fl = ['-I' + os.path.join(HERE, 'stubs', 'perl'), '-I' + os.path.join(REPO, 'perl'), '-DVERSION="2.0.0"', '-DXS_VERSION="2.0.0"',
              '-D_REENTRANT', '-D_GNU_SOURCE', '-fwrapv', '-include', os.path.join(HERE, 'stubs', 'uthash_model.h')]
        return [(s, fl) for s in _srcs('perl/*.c')] + [('XS', fl)]
    if program == 'perl':
        core = subprocess.run(['perl', '-MConfig', '-e', 'print "$Config{archlibexp}/CORE"'],
                              capture_output=True, text=True).stdout.strip()
        fl = ['-I' + core, '-I' + os.path.join(REPO, 'perl'), '-DVERSION="2.0.0"',
              '-DXS_VERSION="2.0.0"', '-D_REENTRANT', '-D_GNU_SOURCE', '-fwrapv']
        return [(s, fl) for s in _srcs('perl/*.c')] + [('XS', fl)]
    raise AnalysisBroken('unknown program ' + program)


def _xs_to_c(out):
    xs = os.path.join(REPO, 'perl', 'Client.xs')
    tm = os.path.join(REPO, 'perl', 'typemap')
    cmd = ['perl', '-MExtUtils::ParseXS', '-MConfig', '-e',
           'my($xs,$tm,$out)=@ARGV; '
           'ExtUtils::ParseXS::process_file(filename=>$xs,output=>$out,prototypes=>0,'
           'typemap=>["$Config{privlibexp}/ExtUtils/typemap",$tm]);', xs, tm, out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise AnalysisBroken('xsubpp failed: ' + p.stderr[-500:])


class Compiled:
    def __init__(self, program, text, sources, sha):
        self.program, self.text, self.sources, self.sha = program, text, sources, sha


def compile_program(program):
    tmp = tempfile.mkdtemp(prefix='nsca-sa-')
    try:
        us = units(program)
        def one(i_u):
            i, (src, fl) = i_u
            if src == 'XS':
                c = os.path.join(tmp, 'Client_xs.c')
                _xs_to_c(c)
                src = c
            o = os.path.join(tmp, 'u%d.ll' % i)
            p = subprocess.run([CLANG] + BASE + fl + [src, '-o', o], capture_output=True,
                               text=True, cwd=REPO)
            if p.returncode:
                raise AnalysisBroken('clang failed on %s: %s' % (src, p.stderr[-800:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, enumerate(us)))
        linked = os.path.join(tmp, 'all.ll')
        p = subprocess.run([_tool('llvm-link'), '-S', '-o', linked] + outs, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken('llvm-link: ' + p.stderr[-800:])
        opt = os.path.join(tmp, 'opt.ll')
        p = subprocess.run([_tool('opt'), '-S', '-passes=function(mem2reg)', linked, '-o', opt],
                           capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken('opt: ' + p.stderr[-800:])
        text = open(opt, errors='replace').read()
        return Compiled(program, text, [u[0] for u in us], hashlib.sha256(text.encode()).hexdigest())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys, time
    for p in sys.argv[1:]:
        t = time.time()
        c = compile_program(p)
        open('/tmp/%s.ll' % p, 'w').write(c.text)
        print(p, len(c.sources), 'units', len(c.text.splitlines()), 'lines', round(time.time() - t, 2), 's')
