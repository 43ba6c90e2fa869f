from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from props import proj
from vlib import gen

ID = 'P01'
RULE = ('one case = one generated map (SIMPLE_C; body, window/orientation and size drawn '
        'at random) run through the program; every pixel of its LATITUDE and '
        'LONGITUDE planes is compared with an independent model of the projection '
        '(narrow: windows from 1e-6 to 10 degrees wide, to 1e-11 degrees). '
        'strips: maps of up to 70000 samples or lines. '
        'Non-trivial: at least 2x2 pixels, at least 4 of them compared')


def check(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx)
    n = int((on if sure is None else on & sure).sum())
    if min(s['samples'], s['lines']) < 2 or n < 4:
        return None
    return label(s)


def label(s):
    q = s['proj']
    return ('pro' if s['body']['prograde'] else 'retro') + '/' + ','.join(
        k for k in sorted(q) if k not in ('type',))


@st.composite
def narrow(draw):
    """High resolution windows, also across longitude zero."""
    s = draw(gen.base(kinds=('SIMPLE_C',), size=st.integers(1, 12)))
    q = {'type': 'SIMPLE_C'}
    if draw(st.booleans()):
        q['lat_type'] = draw(st.sampled_from(['GRAPHIC', 'CENTRIC']))
    w = st.builds(lambda m, e: m * 10. ** e, st.integers(1, 99).map(lambda m: m / 10.),
                  st.integers(-6, 0))
    a, d = draw(gen.fl(-89, 79)), draw(w)
    k = draw(st.integers(0, 5))
    if k == 0:                          # next to a pole
        q['lo_lat'], q['hi_lat'] = 90 - d, 90.
    elif k == 1:
        q['lo_lat'], q['hi_lat'] = -90., d - 90
    else:
        q['lo_lat'], q['hi_lat'] = a, min(90., a + d)
    a, d = draw(gen.lon), draw(w)
    q['lo_lon'], q['hi_lon'] = a, a + d
    if q['hi_lon'] > 360:
        q['hi_lon'] -= 360
    if a == 360.:
        q['lo_lon'] = 0.
    s['proj'] = q
    return s


def check_narrow(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx, 1e-11)
    q = s['proj']
    w = (q['hi_lon'] - q['lo_lon']) % 360
    return 'lon<1e-4' if w < 1e-4 else 'lon<1e-2' if w < 1e-2 else 'lon>1e-2'


def check_strip(case, ctx):
    s, p, lat, lon, on, sure = proj.check(case, ctx)
    return '>32767' if max(s['samples'], s['lines']) > 32767 else 'strip'


ARMS = [Arm('pixels', gen.base(kinds=('SIMPLE_C',)), check, n=6000, thorough=150000),
        Arm('narrow', narrow(), check_narrow, n=2000, thorough=50000),
        Arm('strips', gen.strip(('SIMPLE_C',)), check_strip, n=80, thorough=1500)]
