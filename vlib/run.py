"""Run the instrumented marc program on generated inputs in scratch space."""
import os, shutil, signal, subprocess, tempfile, resource

ENV = {
    'PATH': '/usr/bin:/bin',
    'LC_ALL': 'C',
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
                    'handle_abort=0:max_allocation_size_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1',
}


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'signal', 'dir')

    @property
    def crashed(self):
        return self.signal is not None

    def tail(self, n=600):
        return (self.err[-n:] or self.out[-n:]).decode(errors='replace')


def scratch():
    base = os.environ.get('VERIF_SCRATCH')
    if not base:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='marcpbt-', dir=base)


def _limits(fsize, mem=None):
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    if fsize is None:
        fsize = 256 << 20
    else:
        # Writing beyond the limit fails with EFBIG instead of killing the process.
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))


def _run(exe, args, cwd, config, timeout, fsize=None, home=None, mem=None):
    env = dict(ENV)
    env['HOME'] = cwd
    env['XDG_CONFIG_HOME'] = config if config else os.path.join(cwd, 'no-config')
    if home:
        env['HOME'] = home
        env.pop('XDG_CONFIG_HOME')
    r = Result()
    r.dir = cwd
    r.timeout = False
    r.signal = None
    p = subprocess.Popen([exe] + args, cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=lambda: _limits(fsize, mem))
    try:
        r.out, r.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    if r.rc < 0 and not r.timeout:
        r.signal = -r.rc
    return r


def marc(exe, text, cwd, config=None, timeout=60, name='in.marc', extra=(),
         fsize=None, via='xdg', mem=None, decoys=()):
    """Run marc on the given input text (str or bytes)."""
    if isinstance(text, str):
        text = text.encode('latin-1')
    with open(os.path.join(cwd, name), 'wb') as f:
        f.write(text)
    cfg = home = None
    if config is not None:
        cfg = os.path.join(cwd, 'cfg')
        if via == 'home':
            home = os.path.join(cwd, 'home')
            cfg = os.path.join(home, '.config')
        os.makedirs(cfg, exist_ok=True)
        with open(os.path.join(cfg, 'marc'), 'wb') as f:
            f.write(config.encode('latin-1') if isinstance(config, str) else config)
    for n, c in dict(decoys).items():           # files below the home directory
        p = os.path.join(home or cwd, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(c)
    return _run(exe, [name] + list(extra), cwd, cfg, timeout, fsize, home, mem)


def clean(d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass
