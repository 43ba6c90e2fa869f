"""Client of the library probe (probe/probe.cpp)."""
import subprocess
from vlib.engine import Violation


class ProbeError(Exception):
    """The library threw an exception."""


class Probe:
    def __init__(self, exe, cwd):
        self.exe, self.cwd, self.p = exe, cwd, None

    def _start(self):
        self.p = subprocess.Popen([self.exe], cwd=self.cwd, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def raw(self, cmd, *args):
        """One request; returns the answer text."""
        if self.p is None:
            self._start()
        req = ' '.join([cmd] + [fmt(a) for a in args]) + '\n'
        try:
            self.p.stdin.write(req.encode())
            self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline()
                if not l:
                    break
                if l.startswith(b'@@ '):
                    a = l[3:].decode().strip()
                    if a.startswith('ERR probe:'):
                        raise RuntimeError(a + ': ' + req)
                    if a.startswith('ERR'):
                        raise ProbeError(a[4:])
                    return a
        except BrokenPipeError:
            pass
        rc = self.p.wait()
        self.close()
        raise Violation('the library crashed (status %s) in: %s' % (rc, req.strip()[:300]))

    def ask(self, cmd, *args):
        """Answer as a list of numbers (None for 'none')."""
        return [num(t) for t in self.raw(cmd, *args).split()]


def num(t):
    if t == 'none':
        return None
    return float.fromhex(t)


def fmt(a):
    if isinstance(a, (list, tuple)) or getattr(a, 'ndim', 0):
        return ' '.join(fmt(x) for x in a)
    if isinstance(a, str):
        return a
    if a is None:
        return 'nan'
    if isinstance(a, bool):
        return '1' if a else '0'
    return float(a).hex()
