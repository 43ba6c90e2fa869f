"""Build MaRC and the library probe from /repo's *current working tree*.

Two variants are built, both with the same configuration header as the
project's own build (assertions enabled):

  fast : -O1, used where speed matters (numerical oracles)
  san  : -O1 + ASan + UBSan (no recovery), used for the robustness properties

Everything goes to /verif/build (git-ignored), or to $VERIF_BUILD.  Object
files are keyed by a content hash (source text, all header text, flags), never
by time stamps, so a changed tree is always seen and an unchanged one is free.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

COMMON = ['-std=c++17', '-g0', '-w', '-pthread']
FLAGS = {
    'fast': ['-O1'],
    'san': ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
            '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _includes():
    fmt = sorted(glob.glob(os.path.join(REPO, 'opt', 'fmt-*', 'include')))
    inc = ['-I' + os.path.join(VERIF, 'conf')]
    inc += ['-I' + os.path.join(REPO, 'lib')]
    inc += ['-I' + p for p in fmt]
    return inc


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' %
                         (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))


def _headers_hash():
    # Whatever a source file might include: all but the sources proper and build products.
    h = []
    for top in ('lib', 'src'):
        for d, sub, names in os.walk(os.path.join(REPO, top)):
            sub[:] = sorted(x for x in sub if not x.startswith('.'))
            for n in sorted(names):
                ext = os.path.splitext(n)[1]
                if (n == 'config.h' or n.startswith('Makefile') or n.startswith('.')
                        or ext in ('', '.o', '.lo', '.la', '.a', '.so', '.log', '.trs', '.in',
                                   '.am', '.cc', '.hh', '.gcno', '.gcda', '.tmp')
                        or (ext == '.cpp' and not n.endswith('_t.cpp'))):
                    continue
                p = os.path.join(d, n)
                h.append(os.path.relpath(p, REPO))
                h.append(_read(p))
    h.append(_read(os.path.join(VERIF, 'conf', 'marc', 'config.h')))
    return _sha(*h)


def _sources():
    lib = [p for p in sorted(glob.glob(os.path.join(REPO, 'lib/marc/*.cpp')))
           if not p.endswith('_t.cpp')]
    src = [p for p in sorted(glob.glob(os.path.join(REPO, 'src/*.cpp')))
           if not p.endswith('_t.cpp')]
    return lib, src


def build(variant='fast', probe=True, marc=True):
    """Build and return {'marc': path, 'probe': path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock-' + variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, probe, marc)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(variant, probe, marc):
    out = os.path.join(BUILD, variant)
    obj = os.path.join(out, 'obj')
    gen = os.path.join(out, 'gen')
    os.makedirs(obj, exist_ok=True)
    os.makedirs(gen, exist_ok=True)

    hh = _headers_hash()
    flags = COMMON + FLAGS[variant]
    lib, src = _sources()

    # Generated parser and scanner.
    yy, ll = os.path.join(REPO, 'src/parse.yy'), os.path.join(REPO, 'src/lexer.ll')
    key = _sha(_read(yy), _read(ll))
    stamp = os.path.join(gen, 'stamp')
    if not (os.path.exists(stamp) and _read(stamp).decode() == key):
        for f in os.listdir(gen):
            os.unlink(os.path.join(gen, f))
        _run(['bison', '-d', '-o', 'parse.cc', yy], cwd=gen)
        _run(['flex', '-o', 'lexer.cc', ll], cwd=gen)
        if not os.path.exists(os.path.join(gen, 'lexer.hh')):
            raise BuildError('flex did not generate lexer.hh')
        with open(stamp, 'w') as f:
            f.write(key)

    inc = _includes()
    srcinc = ['-I' + os.path.join(REPO, 'src'), '-I' + gen]
    # parse.hh / lexer.hh in the source directory must not shadow ours.
    srcinc = ['-I' + gen, '-I' + os.path.join(REPO, 'src')]

    jobs = []   # (source, object, extra flags)

    def add(path, group):
        text = _read(path)
        k = _sha(os.path.relpath(path, '/'), text, hh, ' '.join(flags))[:24]
        o = os.path.join(obj, '%s_%s_%s.o' % (group,
                         os.path.splitext(os.path.basename(path))[0], k))
        jobs.append((path, o, inc + (srcinc if group != 'lib' else
                                     ['-I' + os.path.join(REPO, 'lib', 'marc')])))
        return o

    lib_o = [add(p, 'lib') for p in lib]
    main_o, priv_o = [], []
    for p in src:
        o = add(p, 'src')
        (main_o if os.path.basename(p) == 'marc.cpp' else priv_o).append(o)
    for n in ('parse.cc', 'lexer.cc'):
        main_o.append(add(os.path.join(gen, n), 'gen'))
    probe_o = []
    if probe:
        probe_o = [add(os.path.join(VERIF, 'probe', 'probe.cpp'), 'probe')]

    want = set(o for _, o, _ in jobs)
    todo = [j for j in jobs if not os.path.exists(j[1])]

    def comp(j):
        p, o, i = j
        tmp = o + '.tmp.o'
        # "#include \"config.h\"" in lib/marc resolves to our copy.
        _run(['g++'] + flags + ['-I' + os.path.join(VERIF, 'conf', 'marc')] + i +
             ['-c', p, '-o', tmp])
        os.rename(tmp, o)

    errs = []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = [(j, ex.submit(comp, j)) for j in todo]
        for j, f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError('\n'.join(errs))

    # Drop stale objects so that the directory does not grow without bound.
    for f in os.listdir(obj):
        p = os.path.join(obj, f)
        if p not in want and (probe or not f.startswith('probe_')):
            os.unlink(p)

    res = {}

    def link(name, objs):
        exe = os.path.join(out, name)
        k = _sha(*[os.path.basename(o) for o in objs])
        st = exe + '.stamp'
        if not (os.path.exists(exe) and os.path.exists(st)
                and _read(st).decode() == k):
            tmp = exe + '.tmp'
            _run(['g++'] + flags + objs + ['-o', tmp, '-lcfitsio'])
            os.rename(tmp, exe)
            with open(st, 'w') as f:
                f.write(k)
        res[name] = exe

    if marc:
        link('marc', main_o + priv_o + lib_o)
    if probe:
        link('probe', probe_o + priv_o + lib_o)
    return res


if __name__ == '__main__':
    vs = sys.argv[1:] or ['fast', 'san']
    hasp = os.path.exists(os.path.join(VERIF, 'probe', 'probe.cpp'))
    for v in vs:
        print(v, build(v, probe=hasp))
