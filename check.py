#!/usr/bin/python3 -B
"""Builds /repo's working tree with sanitizers plus one property harness, and runs the search.

usage: check.py <property> [--tier quick|thorough] [--replay FILE] [--cases N] [--print]
       check.py --build-all
exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check itself failed.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
OUT = os.path.join(HERE, 'out')
CC, CXX = 'clang', 'clang++'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-sanitize=shift-base,nonnull-attribute,pointer-overflow,function,vptr,alignment']
TSAN = ['-fsanitize=thread', '-DPBT_TSAN']
TSAN_LIB = ['-O0']     # optimizing may drop the very accesses that race
COMMON = ['-g', '-O1', '-fno-omit-frame-pointer', '-D_GNU_SOURCE', '-DRCUTILS_ENABLE_FAULT_INJECTION', '-w']
LIBFLAGS = ['-std=gnu11', '-DRCUTILS_BUILDING_DLL', '-fPIC', '-ftrivial-auto-var-init=pattern']
COV = ['-fsanitize-coverage=inline-8bit-counters,trace-cmp']
FUZZCOV = ['-fsanitize=fuzzer-no-link']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    """The library's own source list, from its CMakeLists.txt."""
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\(rcutils_sources(.*?)\)', txt, re.S)
    srcs = []
    if m:
        for tok in m.group(1).split():
            if tok.startswith('#'):
                continue
            tok = tok.replace('${time_impl_c}', 'src/time_unix.c')
            if tok.endswith('.c') and '$' not in tok:
                srcs.append(tok)
    if len(srcs) < 5:
        srcs = [os.path.relpath(p, REPO) for p in glob.glob(REPO + '/src/**/*.c', recursive=True)
                if not p.endswith('time_win32.c')]
    return srcs


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        try:
            h.update(open(p, 'rb').read())
        except OSError:
            h.update(b'<missing>')
    return h


def repo_files():
    out = []
    for d in ('src', 'include', 'resource', 'rcutils'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x != '__pycache__']
            out += [os.path.join(root, f) for f in files if not f.endswith('.pyc')]
    out.append(os.path.join(REPO, 'CMakeLists.txt'))
    return out


class BuildError(Exception):
    pass


def compile_many(jobs):
    def one(j):
        r = sh(j)
        if r.returncode:
            raise BuildError(' '.join(j) + '\n' + r.stdout)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + '*')), key=os.path.getmtime)
    for d in ds[:-keep] if keep else ds:
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
        else:
            os.unlink(d)


def build_lib(variant):
    h = tree_hash(repo_files())
    flags = COMMON + LIBFLAGS + (TSAN + TSAN_LIB if variant == 'tsan' else SAN + (FUZZCOV if variant == 'fuzz' else COV))
    h.update(repr(flags).encode())
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, h.hexdigest()[:16]))
    if os.path.exists(d + '/ok'):
        os.utime(d)
        return d
    prune('lib-%s-' % variant, 4)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/include/rcutils')
    code = ("import em; em.invoke(['-o', %r, '-D', 'rcutils_module_path=\"%s\"', %r])"
            % (d + '/include/rcutils/logging_macros.h', REPO, REPO + '/resource/logging_macros.h.em'))
    r = sh(['/usr/bin/python3', '-B', '-c', code])
    if r.returncode:
        raise BuildError(r.stdout)
    inc = ['-I', REPO + '/include', '-I', d + '/include']
    jobs, objs = [], []
    for s in repo_sources():
        o = d + '/' + s.replace('/', '_') + '.o'
        objs.append(o)
        jobs.append([CC] + flags + inc + ['-c', os.path.join(REPO, s), '-o', o])
    compile_many(jobs)
    r = sh(['ar', 'rcs', d + '/librcutils.a'] + objs)
    if r.returncode:
        raise BuildError(r.stdout)
    open(d + '/ok', 'w').close()
    return d


def spec(pid):
    """Optional per-property build settings: lines '// BUILD key: value' in the harness."""
    out = {'wrap': [], 'ldflags': [], 'cflags': [], 'sanitize': []}
    for line in open(os.path.join(HERE, 'props', pid + '.cpp')):
        m = re.match(r'// BUILD (\w+): (.*)', line)
        if m:
            out[m.group(1)] = m.group(2).split()
    return out


def variant_of(pid):
    return 'tsan' if 'thread' in spec(pid)['sanitize'] else 'pbt'


def build_prop(pid, variant, lib):
    sp = spec(pid)
    eng = sorted(glob.glob(HERE + '/engine/*'))
    mine = sorted(glob.glob(HERE + '/props/' + pid + '*'))
    h = tree_hash(eng + mine)
    h.update(lib.encode())
    san = TSAN if variant == 'tsan' else SAN
    flags = COMMON + san + ['-I', REPO + '/include', '-I', lib + '/include', '-I', HERE + '/engine'] + sp['cflags']
    h.update(repr((flags, sp)).encode())
    exe = os.path.join(BUILD, 'bin-%s-%s-%s' % (variant, pid, h.hexdigest()[:16]))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    prune('bin-%s-%s-' % (variant, pid), 1)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        jobs, objs = [], []
        fz = ['-DPBT_LIBFUZZER'] if variant == 'fuzz' else []
        for s in [HERE + '/engine/driver.cpp', HERE + '/engine/rc.cpp'] + \
                [m for m in mine if m.endswith(('.cpp', '.c'))]:
            o = tmp + '/' + os.path.basename(s) + '.o'
            objs.append(o)
            if s.endswith('.c'):
                jobs.append([CC, '-std=gnu11'] + flags + fz + ['-c', s, '-o', o])
            else:
                jobs.append([CXX, '-std=c++17'] + flags + fz + ['-c', s, '-o', o])
        compile_many(jobs)
        link = [CXX] + COMMON + san + (['-fsanitize=fuzzer'] if variant == 'fuzz' else []) + objs
        link += ['-Wl,--wrap=' + w for w in sp['wrap']]
        link += [lib + '/librcutils.a', '-ldl', '-lpthread'] + sp['ldflags'] + ['-o', tmp + '/exe']
        r = sh(link)
        if r.returncode:
            raise BuildError(' '.join(link) + '\n' + r.stdout)
        os.rename(tmp + '/exe', exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def findings(pid):
    """Entries of known_findings.txt for this property: (key, replay file, text)."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) replay=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:'
                    'max_allocation_size_mb=2048:abort_on_error=0:exitcode=99:symbolize=1:quarantine_size_mb=16:'
                    'check_initialization_order=0:detect_odr_violation=0:intercept_tls_get_addr=1:'
                    'strict_string_checks=0:hard_rss_limit_mb=6000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:report_signal_unsafe=0:die_after_fork=0:symbolize=1',
    'LC_ALL': 'C', 'TZ': 'UTC', 'HOME': '/nonexistent-home',
}


def child_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith('RCUTILS_') and k not in ('LD_PRELOAD',)}
    e.update(ENV)
    return e


def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    if args and args[0] == '--build-all':
        lib = build_lib('pbt')
        for p in sorted(glob.glob(HERE + '/props/*.cpp')):
            pid = os.path.basename(p)[:-4]
            if re.match(r'^[A-Z][0-9]{2,3}$', pid):
                v = variant_of(pid)
                build_prop(pid, v, lib if v == 'pbt' else build_lib(v))
        return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    extra, i, replay = [], 1, None
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]; i += 2
        elif args[i] == '--replay':
            replay = args[i + 1]; i += 2
        else:
            extra.append(args[i]); i += 1
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    variant = variant_of(pid)
    lib = build_lib(variant)
    exe = build_prop(pid, variant, lib)
    env = child_env()
    # exec a private copy so that a concurrent rebuild cannot pull the binary away
    known = findings(pid)
    kargs = []
    for k, _, _ in known:
        kargs += ['--known', k]
    if replay:
        return subprocess.call([exe, '--replay', replay] + kargs, env=env)
    level = 'exploration'
    for c in json.load(open(HERE + '/MANIFEST.json'))['checks'] if os.path.exists(HERE + '/MANIFEST.json') else []:
        if c['property'] == pid:
            level = c['level']
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    reg = []
    for f in sorted(glob.glob(HERE + '/regress/' + pid + '-*.case')):
        reg += ['--regress', f]
    cmd = [exe, '--tier', tier, '--seed', str(seed), '--evidence', ev, '--out', OUT, '--level', level]
    r = subprocess.call(cmd + reg + kargs + extra, env=env)
    if r not in (0, 1):
        print('check failed: driver exit %d' % r)
        return 2
    if r == 0 and tier == 'thorough':
        r = libfuzzer(pid, lib, exe, ev, seed, kargs, level, env, t0)
    if r == 0:
        for k, rep, text in known:
            p = sh([exe, '--replay', os.path.join(HERE, rep)], env=env)
            if p.returncode == 1:
                print('KNOWN-FINDING: property=%s %s' % (pid, text))
            else:
                print('note: listed finding %s no longer reproduces' % k)
    print('%s %s total %.1f s' % (pid, tier, time.time() - t0))
    return r


def libfuzzer(pid, lib, exe, ev, seed, kargs, level, env, t0):
    """Coverage-guided byte-level campaign over the same property (thorough tier)."""
    src = open(os.path.join(HERE, 'props', pid + '.cpp')).read()
    m = re.search(r'kBudget\s*=?\s*\{\s*([0-9\']+)u?\s*,\s*([0-9\']+)u?\s*,\s*([0-9\']+)', src)
    runs = int(m.group(3).replace("'", '')) if m else 0
    if not runs:
        return 0
    flib = build_lib('fuzz')
    fexe = build_prop(pid, 'fuzz', flib)
    top = tempfile.mkdtemp(prefix='rcutils-fuzz-')
    try:
        procs = []
        for w in range(8):
            d = os.path.join(top, 'w%d' % w)
            os.makedirs(d + '/corpus'); os.makedirs(d + '/scratch'); os.makedirs(d + '/art')
            e = dict(env)
            e['PBT_SCRATCH'] = d + '/scratch'
            e['PBT_KNOWN'] = ','.join(kargs[1::2])
            log = open(d + '/log', 'w')
            cmd = [fexe, d + '/corpus', '-runs=%d' % (runs // 8), '-seed=%d' % (seed * 131 + w + 1),
                   '-max_len=%d' % (400 if w % 2 else 2000), '-artifact_prefix=' + d + '/art/', '-timeout=120',
                   '-use_value_profile=%d' % (w % 2), '-len_control=20', '-print_final_stats=1', '-max_total_time=%d' % float(os.environ.get('VERIF_FUZZ_SECONDS', max(30, 780 - (time.time() - t0)))),
                   '-rss_limit_mb=6000', '-close_fd_mask=3', '-detect_leaks=0']
            procs.append((subprocess.Popen(cmd, env=e, stdout=log, stderr=log, cwd=d), d))
        for p, _ in procs:
            p.wait()
        arts, execs, cov = [], 0, 0
        for _, d in procs:
            arts += [a for a in glob.glob(d + '/art/*') if not os.path.basename(a).startswith(('timeout-', 'slow-', 'oom-'))]
            t = open(d + '/log', errors='replace').read()
            mm = re.search(r'stat::number_of_executed_units:\s*(\d+)', t)
            execs += int(mm.group(1)) if mm else 0
            cs = re.findall(r'cov: (\d+)', t)
            cov = max(cov, int(cs[-1]) if cs else 0)
        old = json.load(open(ev))
        old['coverage']['libfuzzer_executions'] = execs
        old['coverage']['libfuzzer_edges'] = cov
        old['coverage']['evaluations'] += execs
        json.dump(old, open(ev, 'w'), indent=1)
        print('%s: libFuzzer %d executions, %d edges, %d artifacts' % (pid, execs, cov, len(arts)))
        if arts:
            b = []
            for a in arts[:8]:
                b += ['--bytes', a]
            return subprocess.call([exe, '--tier', 'thorough', '--seed', str(seed), '--evidence', ev, '--out', OUT,
                                    '--level', level, '--no-search'] + b + kargs, env=env)
        return 0
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('build failed:\n' + str(e)[-6000:])
        sys.exit(2)
