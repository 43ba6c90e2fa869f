from vlib.engine import Arm, Violation
from props import proj
from vlib import gen

ID = 'P04'
RULE = ('one case = one generated map (ORTHO; body, window/orientation and size drawn '
        'at random) run through the program; every pixel of its LATITUDE and '
        'LONGITUDE planes is compared with an independent model of the projection. '
        'strips: maps of up to 70000 samples or lines. '
        'Non-trivial: at least 2x2 pixels, at least 4 of them compared')


def check(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx)
    n = int((on if sure is None else on & sure).sum())
    if min(s['samples'], s['lines']) < 2 or n < 4:
        return None
    return label(s)


def label(s):
    q = s['proj']
    return ('pro' if s['body']['prograde'] else 'retro') + '/' + ','.join(
        k for k in sorted(q) if k not in ('type',))


def check_strip(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx)
    return '>32767' if max(s['samples'], s['lines']) > 32767 else 'strip'


ARMS = [Arm('pixels', gen.base(kinds=('ORTHO',)), check, n=6000, thorough=150000),
        Arm('strips', gen.strip(('ORTHO',)), check_strip, n=60, thorough=1500)]
