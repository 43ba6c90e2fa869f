import re
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img
from vlib.common import *
from props import virt, p07

ID = 'P08'
RULE = ('one case = one generated map (1-4 planes, virtual planes and photos, every data type, '
        'DATA_MIN/DATA_MAX and DATA_BLANK, projections with and without sky) whose DATAMIN and '
        'DATAMAX cards must equal the extrema of the physical values of the pixels the reference '
        'model says are plotted; the planes reported to have no data must be the ones without '
        'plotted pixels. Non-trivial: at least two different values plotted; classes by '
        'data type, plane count and whether some plane is entirely blank')


@st.composite
def cases(draw):
    dt = draw(st.sampled_from(['BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE']))
    s = draw(gen.base(size=st.integers(1, 16), data_type=dt))
    v = gen.virtual(s['body']['a'])
    if dt == 'BYTE':
        v = v.filter(lambda p: p['kind'] != 'LONGITUDE')
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 4, 5, 10]))
    s['photos'] = {}
    for j in range(n):
        if draw(st.integers(0, 2)) == 0:
            ns, nl = draw(st.integers(2, 12)), draw(st.integers(2, 12))
            name = 'p%d.fits' % j
            d = {'ns': ns, 'nl': nl, 'mod': 31, 'mul': 1,
                 'base': draw(st.integers(0, 200) if dt == 'BYTE' else st.integers(-300, 300))}
            s['photos'][name] = d
            p = {'kind': 'IMAGE', 'images': [draw(gen.image(s['body'], ns, nl, name))]}
            lo, hi = d['base'], d['base'] + 31
        else:
            p = dict(draw(v))
            lo, hi = virt.LIM[p['kind']]
        if draw(st.booleans()):
            p = draw(p07.limits(p, lo, hi))
        s['planes'].append(p)
    if virt.BITS[dt] > 0 and draw(st.booleans()):
        s['blank'] = draw(st.one_of(st.integers(*p07.BL[dt]), st.sampled_from([0, 1, 100])))
    return s


def check(case, ctx):
    s = case
    lat, lon, on, sure0, cond = virt.geometry(s)
    body = model.body_of(s)
    pre = []
    try:
        for pl in s['planes']:
            if pl['kind'] == 'IMAGE':
                im = pl['images'][0]
                pre.append(model.photo(body, im, img.array(s['photos'][im['file']]),
                                       lat, lon, on))
            else:
                pre.append(None)
    except model.Ambiguous:
        return None
    h = run_maps(ctx, s, files={n: img.writer(d) for n, d in s['photos'].items()}
                 )[s['file']][0]
    p = planes_of(h, len(s['planes']))
    bits = virt.BITS[s['data_type']]
    scales = virt.plane_scales(h, s)
    must, may = [], []
    empty = 0
    for j, (got, pl, m) in enumerate(zip(p, s['planes'], pre)):
        if m is not None:
            ex, ok = m['value'], sure0 & m['sure']
            want = ~np.isnan(ex)
            if pl.get('data_min') is not None:
                want &= ~(ex < pl['data_min'])
            if pl.get('data_max') is not None:
                want &= ~(ex > pl['data_max'])
        else:
            ex, want, ok = virt.expected(body, pl, lat, lon, on, sure0, cond,
                                         s['data_type'], scales[j][0])
        must.append(got[ok & want])
        may.append(got[~ok])
        if not (ok & want).any():
            empty += 1
    said = {int(x) for x in re.findall(rb'No data mapped for plane (\d+)',
                                       ctx.last.out + ctx.last.err)}
    for j, (a, b) in enumerate(zip(must, may)):
        if not len(a) and not len(b) and j + 1 not in said:
            raise Violation('plane %d of %d has no data, which was not reported' % (j + 1, len(p)))
        if len(a) and j + 1 in said:
            raise Violation('plane %d of %d has data, but was reported to have none' % (
                j + 1, len(p)))
    must, may = np.concatenate(must), np.concatenate(may)
    if bits < 0:
        must, may = must[~np.isnan(must)], may[~np.isnan(may)]
    sc, ze = scales[0] if len(p) == 1 else (1., 0.)
    lo, hi = h.h.get('DATAMIN'), h.h.get('DATAMAX')
    if not len(must):
        if not len(may) and (lo is not None or hi is not None):
            raise Violation('nothing is plotted, but DATAMIN/DATAMAX are %r/%r' % (lo, hi))
        return None
    if lo is None or hi is None:
        raise Violation('data was plotted, but DATAMIN/DATAMAX are %r/%r' % (lo, hi))
    for nm, card, fn, sgn in (('DATAMIN', lo, np.min, 1), ('DATAMAX', hi, np.max, -1)):
        v = fn(must)
        cand = [v] + [x for x in may if sgn * (int(x) - int(v) if bits > 0 else x - v) < 0]
        rel = {-32: 1e-6, -64: 1e-14}.get(bits, 0 if sc == 1 and ze == 0 else 1e-14)

        def same(x):
            if rel == 0:
                return card == int(x)
            y = float(x) * sc + ze
            t = rel * (abs(y) + abs(ze)) + (1e-300 if bits < 0 else 0)
            if bits == 64 and sc != 1:
                t += 4e-16 * abs(ze)
            return abs(card - y) <= t
        if not any(same(x) for x in cand):
            raise Violation('%s is %r, but the plotted pixels give %.17g' % (
                nm, card, float(v) * sc + ze))
    if len(set(must.tolist())) < 2:
        return None
    return '%s/%d%s' % (s['data_type'], len(p), '/empty-plane' if empty else '')


ARMS = [Arm('extrema', cases(), check, n=9000, thorough=120000)]
