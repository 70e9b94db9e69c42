"""Builds the simulator binaries from the current working tree of /repo.

Objects of the repository are compiled with clang and AddressSanitizer, their
references to the operating system are renamed to the simulated ones, and the
result is linked with the simulator.  Results are cached by the hash of every
input, so an unchanged tree is built once."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LIBDIR = '/usr/lib/x86_64-linux-gnu'

# operating system calls that go to the simulated world
REPO_SYMS = '''fopen fdopen freopen fclose fileno open close read write lseek pread pwrite ftruncate truncate
fsync fdatasync sync stat lstat fstat access unlink remove rename mkstemp tmpfile mmap munmap msync
random srandom rand srand time clock_gettime gettimeofday clock getrandom syscall exit _exit abort
malloc calloc realloc reallocarray aligned_alloc posix_memalign free strdup strndup getenv'''.split()
# objects the binding asks the interpreter for: an allocation may fail
PY_SEAM = ['bpak_printf=bpak_py_printf', 'PyBytes_FromStringAndSize=simpy_FromStringAndSize', 'PyList_New=simpy_List_New',
           'PyList_Append=simpy_List_Append', 'PyUnicode_AsASCIIString=simpy_AsASCIIString', 'PyLong_FromLong=simpy_FromLong',
           '_PyObject_New=simpy_Object_New', 'PyUnicode_DecodeASCII=simpy_DecodeASCII', 'PyImport_ImportModule=simpy_ImportModule']
ALIAS = {'main': 'bpak_tool_main'}
REPO_SYMS += '''fopen64 freopen64 open64 lseek64 pread64 pwrite64 ftruncate64 truncate64 stat64 lstat64 fstat64 mmap64 tmpfile64
_Exit __assert_fail mkstemp64 secure_getenv'''.split()
LIB_SYMS = {'malloc': 'simx_malloc', 'calloc': 'simx_calloc', 'free': 'simx_free', 'fopen': 'sim_fopen',
            'fclose': 'sim_fclose', 'syscall': 'sim_syscall', 'gettimeofday': 'sim_gettimeofday', 'rand': 'sim_rand',
            'rename': 'sim_rename', 'remove': 'sim_remove', 'open': 'sim_open', 'close': 'sim_close', 'read': 'sim_read',
            'getrandom': 'sim_getrandom', 'time': 'sim_time', 'clock_gettime': 'sim_clock_gettime'}
VARIANTS = {
    'a': ['-ftrivial-auto-var-init=pattern', '-DBPAK_CHUNK_BUFFER_LENGTH=4096'],
    'b': ['-ftrivial-auto-var-init=zero', '-DBPAK_CHUNK_BUFFER_LENGTH=512'],
}
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def statics(obj):
    """the tool's variables go to sections of their own: a new process starts with fresh ones"""
    r = []
    for s in set(re.findall(r'\s(\.(?:bss|data)(?:\.\S+)?)\s+(?:NOBITS|PROGBITS)', run(['readelf', '-SW', obj]))):
        if not s.startswith('.data.rel.ro'):
            r += ['--rename-section', '%s=bpaktool_%s' % (s, s[1:].split('.')[0])]
    return r


def repo_sources():
    c = []
    for d in ('lib', 'lib/heatshrink', 'ext/uuid', 'src'):
        c += sorted(glob.glob(os.path.join(REPO, d, '*.c')))
    return c


def py_sources():
    return sorted(glob.glob(os.path.join(REPO, 'python', '*.c')))


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    h = []
    for d in ('include', 'lib', 'ext', 'src', 'python'):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            h += [os.path.join(r, f) for f in fs if f.endswith(('.h', '.in'))]
    return h


def harness_files():
    return sorted(glob.glob(os.path.join(VERIF, 'sim', '*.cc')) + glob.glob(os.path.join(VERIF, 'sim', '*.h')))


def has_python():
    return os.path.exists('/usr/include/python3.12/Python.h') and os.path.exists(os.path.join(VERIF, 'sim', 'pyexec.cc'))


def build(variants=('a', 'b'), py=False, verbose=False):
    """returns {variant: binary path}; with py=True also 'py' """
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variants, py, verbose)


def _build(variants, py, verbose):
    key = digest(repo_sources() + py_sources() + headers() + harness_files() + [os.path.abspath(__file__)])
    bindir = os.path.join(BUILD, 'bin-' + key)
    os.makedirs(bindir, exist_ok=True)
    want = list(variants) + (['py'] if py else [])
    out = {v: os.path.join(bindir, 'sim-' + v) for v in want}
    todo = [v for v in want if not os.path.exists(out[v])]
    if not todo:
        return out
    # older results are of no further use
    for d in glob.glob(os.path.join(BUILD, 'bin-*')):
        if d != bindir:
            shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='work-', dir=BUILD)
    try:
        with ThreadPoolExecutor(8) as ex:
            inc = os.path.join(tmp, 'inc', 'bpak')
            os.makedirs(inc)
            cfg = open(os.path.join(REPO, 'lib', 'build_config.h.in')).read()
            cfg = re.sub(r'@[A-Za-z_]+@', '1', cfg)
            open(os.path.join(inc, 'build_config.h'), 'w').write(cfg)
            incs = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(tmp, 'inc'), '-I', os.path.join(REPO, 'ext', 'uuid'), '-I', os.path.join(REPO, 'lib'), '-I', os.path.join(REPO, 'lib', 'heatshrink'), '-I', os.path.join(REPO, 'src')]
            sym = os.path.join(tmp, 'syms')
            with open(sym, 'w') as f:
                for s in REPO_SYMS:
                    f.write('%s sim_%s\n' % (s, s))
                for a, b in ALIAS.items():
                    f.write('%s %s\n' % (a, b))
            lsym = os.path.join(tmp, 'lsyms')
            with open(lsym, 'w') as f:
                for a, b in LIB_SYMS.items():
                    f.write('%s %s\n' % (a, b))
            futs = []

            def cc(src, obj, flags, extra_redef=()):
                run(['clang', '-std=gnu99', '-g', '-O1', '-U_FORTIFY_SOURCE', '-w', '-fPIE'] + ASAN + flags + incs + ['-c', src, '-o', obj])
                run(['objcopy', '--redefine-syms=' + sym] + ['--redefine-sym=%s' % e for e in extra_redef] +
                    (statics(obj) if os.sep + 'src' + os.sep in src[len(REPO):] else []) + [obj])

            objs = {v: [] for v in todo}
            for v in todo:
                fl = VARIANTS['a' if v == 'py' else v] + (['-I', os.path.join(REPO, 'python'), '-I', '/usr/include/python3.12'] if v == 'py' else [])
                srcs = [(s, 'r') for s in repo_sources()]
                if v == 'py':
                    srcs += [(s, 'p') for s in py_sources()]
                for i, (s, kind) in enumerate(srcs):
                    o = os.path.join(tmp, '%s-%d-%s.o' % (v, i, os.path.basename(s)[:-2]))
                    objs[v].append(o)
                    ed = PY_SEAM if kind == 'p' else ['bpak_printf=bpak_tool_printf'] if v == 'py' and '/src/' in s else []
                    futs.append(ex.submit(cc, s, o, fl, ed))
            hobj = {}
            hflags = ['-std=c++17', '-g', '-O2', '-U_FORTIFY_SOURCE', '-w', '-fPIE', '-D_GNU_SOURCE'] + incs

            def cxx(src, obj, fl):
                run(['clang++'] + hflags + fl + ['-c', src, '-o', obj])
            for s in harness_files():
                if not s.endswith('.cc'):
                    continue
                b = os.path.basename(s)[:-3]
                if b == 'pyexec':
                    if 'py' in todo:
                        o = os.path.join(tmp, 'h-pyexec.o')
                        objs['py'].append(o)
                        futs.append(ex.submit(cxx, s, o, ['-DWITH_PY', '-I', '/usr/include/python3.12', '-I', os.path.join(REPO, 'python')]))
                    continue
                if b in ('exec2',) and 'py' in todo:
                    o = os.path.join(tmp, 'h-%s-py.o' % b)
                    objs['py'].append(o)
                    futs.append(ex.submit(cxx, s, o, ['-DWITH_PY']))
                    if todo == ['py']:
                        continue
                o = os.path.join(tmp, 'h-%s.o' % b)
                futs.append(ex.submit(cxx, s, o, []))
                for v in todo:
                    if not (v == 'py' and b == 'exec2'):
                        objs[v].append(o)
            libs = []
            for l in ('libmbedcrypto.a', 'liblzma.a'):
                d = os.path.join(tmp, l)
                libs.append(d)
                futs.append(ex.submit(run, ['objcopy', '--redefine-syms=' + lsym, os.path.join(LIBDIR, l), d]))
            for f in futs:
                f.result()

            def link(v):
                py_l = ['-lpython3.12'] if v == 'py' else []
                run(['clang++', '-fsanitize=address', '-pie', '-g', '-rdynamic', '-o', out[v] + '.tmp'] + objs[v] + libs +
                    ['-Wl,--wrap=mbedtls_timing_hardclock'] + py_l + ['-lpthread', '-lm', '-ldl'])
                os.rename(out[v] + '.tmp', out[v])
            for f in [ex.submit(link, v) for v in todo]:
                f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    import time
    t = time.time()
    try:
        print(build(variants=sys.argv[1].split(',') if len(sys.argv) > 1 else ('a', 'b'), py=len(sys.argv) > 2))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print('%.1f s' % (time.time() - t))
