import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model
from vlib.common import *
from props import virt

ID = 'P06'
RULE = ('one case = one generated map (any projection, 1-3 virtual planes, any data '
        'type); stored pixels are converted with the recorded scale and offset and '
        'compared with the model value; quanta of different widths are compared. '
        'Non-trivial: at least 4 on-body pixels compared and an integer type')


@st.composite
def cases(draw):
    dt = draw(st.sampled_from(['BYTE', 'SHORT', 'LONG', 'LONGLONG', 'SHORT', 'BYTE',
                               'FLOAT', 'DOUBLE']))
    s = draw(gen.base(size=st.integers(1, 30), data_type=dt))
    n = draw(st.sampled_from([1, 1, 1, 1, 1, 2, 2, 3, 4, 11]))
    v = gen.virtual(s['body']['a'])
    if dt == 'BYTE':
        v = v.filter(lambda p: p['kind'] != 'LONGITUDE')
    s['planes'] = draw(st.lists(v, min_size=n, max_size=n))
    if draw(st.booleans()) and virt.BITS[dt] > 0:
        s['blank'] = draw(st.integers(0, 100))
    return s


TYPE_RANGE = {'BYTE': 255., 'SHORT': 2. ** 16 - 1, 'LONG': 2. ** 32 - 1,
              'LONGLONG': 2. ** 64 - 1}


def check(case, ctx):
    s = case
    h = run_maps(ctx, s)[s['file']][0]
    if h.h['BITPIX'] != virt.BITS[s['data_type']]:
        raise Violation('BITPIX is %r' % h.h['BITPIX'])
    p = planes_of(h, len(s['planes']))
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    n = 0
    for j, (got, pl, (sc, ze)) in enumerate(zip(p, s['planes'],
                                                virt.plane_scales(h, s))):
        ex = model.plane_values(body, pl, lat, lon)
        lo, hi = virt.LIM[pl['kind']]
        if virt.BITS[s['data_type']] > 0:
            if not sc > 0:
                raise Violation('scale %r of plane %d is not positive' % (sc, j + 1))
            q = sc * TYPE_RANGE[s['data_type']] / (hi - lo)
            if q > 30:
                raise Violation('quantum %g of a %s %s plane is coarser than the data '
                                'type allows' % (sc, s['data_type'], pl['kind']))
            if q < 1 - 1e-9:
                raise Violation('quantum %g of a %s %s plane is so fine that the data '
                                'overflow the type' % (sc, s['data_type'], pl['kind']))
        quantum = sc if virt.BITS[s['data_type']] > 0 else 0.
        fp = {'FLOAT': 1e-6 * (hi - lo)}.get(s['data_type'], 0.)
        tol = quantum * (1 + 1e-6) + fp + 2e-8 * cond
        if s['data_type'] == 'LONGLONG':
            tol = tol + 1e-12 * (hi - lo)
        phys = ze + sc * got.astype(float)
        e = np.abs(phys - ex)
        if pl['kind'] == 'LONGITUDE':
            e = np.minimum(e, np.abs(360 - e))
            e = np.where(np.abs(np.cos(lat)) > 1e-3, e, 0)
            tol = tol / np.maximum(np.abs(np.cos(lat)), 1e-3)
        if s['data_type'] in ('FLOAT', 'DOUBLE'):
            e = np.where(np.isnan(got), np.inf, e)
        bad = on & sure & ~(e <= tol)
        if bad.any():
            k, i = where(bad)
            raise Violation('plane %d (%s, %s) at (sample %d, line %d): stored %r -> '
                            'physical %.12g with scale %g offset %g, expected %.12g'
                            % (j + 1, pl['kind'], s['data_type'], i, k, got[k, i],
                               phys[k, i], sc, ze, ex[k, i]))
        n += int((on & sure).sum())
    if n < 4 or virt.BITS[s['data_type']] < 0:
        return None
    return '%s/%d' % (s['data_type'], len(s['planes']))


@st.composite
def widths(draw):
    s = draw(gen.base(size=st.integers(1, 12)))
    v = gen.virtual(s['body']['a']).filter(lambda p: p['kind'] != 'LONGITUDE')
    s['planes'] = [draw(v)]
    return s


def check_widths(case, ctx):
    specs = []
    for dt in ('BYTE', 'SHORT', 'LONG', 'LONGLONG'):
        specs.append(dict(case, data_type=dt, file=dt.lower() + '.fits'))
    out = run_maps(ctx, *specs)
    sc = [virt.plane_scales(out[s['file']][0], s)[0][0] for s in specs]
    if sorted(sc, reverse=True) != sc or len(set(sc)) != 4:
        raise Violation('quanta of BYTE, SHORT, LONG and LONGLONG maps do not '
                        'decrease: %r' % sc)
    return case['planes'][0]['kind']


ARMS = [Arm('quantum', cases(), check, n=7000, thorough=120000),
        Arm('widths', widths(), check_widths, n=600, thorough=5000)]
