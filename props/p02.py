import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from props import proj
from vlib import gen

ID = 'P02'
RULE = ('one case = one generated map (MERCATOR; body, window/orientation and size drawn '
        'at random) run through the program; every pixel of its LATITUDE and '
        'LONGITUDE planes is compared with an independent model of the projection. '
        'tall: maps up to 9.5 times higher than wide. strips: maps of up to 70000 samples or lines. '
        'Non-trivial: at least 2x2 pixels, at least 4 of them compared')


def check(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx)
    n = int((on if sure is None else on & sure).sum())
    if min(s['samples'], s['lines']) < 2 or n < 4:
        return None
    return label(s)


def label(s):
    q = s['proj']
    return ('pro' if s['body']['prograde'] else 'retro') + '/' + ','.join(
        k for k in sorted(q) if k not in ('type',))


def check_strip(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx)
    return '>32767' if max(s['samples'], s['lines']) > 32767 else 'strip'


@st.composite
def tall(draw):
    """Maps whose edges are close to the poles."""
    s = draw(gen.base(kinds=('MERCATOR',), size=st.integers(1, 12)))
    s['lines'] = max(1, int(s['samples'] * draw(gen.fl(3, 9.5))))
    return s


def check_tall(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx, tol=1e-10)
    if not (np.abs(p[0]) < 90).all():
        raise Violation('a pixel is at the pole')
    if not (np.diff(p[0], axis=0) > 0).all():
        raise Violation('latitudes do not increase strictly')
    return 'x%d' % (s['lines'] // s['samples'])


ARMS = [Arm('tall', tall(), check_tall, n=500, thorough=15000),
        Arm('pixels', gen.base(kinds=('MERCATOR',)), check, n=6000, thorough=150000),
        Arm('strips', gen.strip(('MERCATOR',)), check_strip, n=60, thorough=1500)]
