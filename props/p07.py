import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img
from vlib.common import *
from props import virt, p12

ID = 'P07'
RULE = ('one case = one generated map with per-plane DATA_MIN/DATA_MAX (one sided, both, '
        'none), optionally DATA_BLANK, over virtual planes (virtual) or a photo whose '
        'pixel values and limits coincide exactly in places (photo) or a mosaic (mosaic). Every pixel must be '
        'plotted iff its physical value is in the closed interval, else hold the blank '
        'value. Non-trivial: at least one pixel plotted and one suppressed by a limit')


@st.composite
def limits(draw, p, lo, hi, vals=None):
    k = draw(st.integers(0, 3))
    v = vals if vals is not None else gen.fl(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo))
    if draw(st.integers(0, 3)) == 0:        # zero and the ends of the natural range
        v = st.one_of(v, st.sampled_from([x for x in (0., float(lo), float(hi)) if lo <= x <= hi]))
    a, b = sorted((draw(v), draw(v)))
    if k in (1, 3):
        p['data_min'] = a
    if k in (2, 3):
        p['data_max'] = b
    if 'data_min' in p and 'data_max' not in p:
        p['data_min'] = min(p['data_min'], hi)
    if 'data_max' in p and 'data_min' not in p:
        p['data_max'] = max(p['data_max'], lo)
    if p.get('data_min') is not None and p.get('data_max') is not None \
            and p['data_min'] == p['data_max']:      # rejected by design
        p['data_max'] = p['data_min'] + (0.1 * (hi - lo) if vals is None else 1.)
    return p


BL = {'BYTE': (0, 255), 'SHORT': (-32768, 32767), 'LONG': (-2**31, 2**31 - 1),
      'LONGLONG': (-2**62, 2**62)}


@st.composite
def cases(draw):
    dt = draw(st.sampled_from(['BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE',
                               'DOUBLE', 'SHORT']))
    s = draw(gen.base(size=st.integers(1, 25), data_type=dt))
    v = gen.virtual(s['body']['a'])
    if dt == 'BYTE':
        v = v.filter(lambda p: p['kind'] != 'LONGITUDE')
    n = draw(st.sampled_from([1, 1, 2, 3]))
    pl = draw(st.lists(v, min_size=n, max_size=n))
    s['planes'] = [draw(limits(dict(p), *virt.LIM[p['kind']])) for p in pl]
    if virt.BITS[dt] > 0 and draw(st.booleans()):
        s['blank'] = draw(st.one_of(st.integers(*BL[dt]), st.sampled_from(BL[dt])))
    return s


def blank_of(s, h):
    """Expected blank value; checks the BLANK card."""
    if virt.BITS[s['data_type']] < 0:
        return None
    b = s.get('blank')
    if b is None:
        if 'BLANK' in h.h and h.h['BLANK'] != 0:
            raise Violation('BLANK card %r although no blank value was requested'
                            % h.h['BLANK'])
        return 0
    if h.h.get('BLANK') != b:
        raise Violation('BLANK card is %r, requested %d' % (h.h.get('BLANK'), b))
    return b


def is_blank(got, blank):
    return np.isnan(got) if blank is None else got == blank


def check(case, ctx):
    s = case
    h = run_maps(ctx, s)[s['file']][0]
    p = planes_of(h, len(s['planes']))
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    blank = blank_of(s, h)
    nplot = nsup = 0
    for j, (got, pl, (sc, ze)) in enumerate(zip(p, s['planes'],
                                                virt.plane_scales(h, s))):
        ex = model.plane_values(body, pl, lat, lon)
        nlo, nhi = virt.LIM[pl['kind']]
        lo = pl['data_min'] if pl.get('data_min') is not None else nlo
        hi = pl['data_max'] if pl.get('data_max') is not None else nhi
        q = sc if blank is not None else 0.
        eps = q * 1.001 + 1e-7 * cond
        if s['data_type'] == 'FLOAT':
            eps = eps + 1e-6 * (nhi - nlo)
        if pl['kind'] == 'LONGITUDE':
            eps = eps / np.maximum(np.abs(np.cos(lat)), 1e-3)
        ok = sure & (np.abs(np.cos(lat)) > 1e-3) if pl['kind'] == 'LONGITUDE' else sure
        # natural limits cannot be crossed by true values
        near = np.zeros_like(ok)
        if lo > nlo:
            near |= np.abs(ex - lo) <= eps
        if hi < nhi:
            near |= np.abs(ex - hi) <= eps
        if pl['kind'] == 'LONGITUDE':
            near |= (ex < eps) | (ex > 360 - eps)
        ok = ok & ~near
        want = on & (ex >= lo) & (ex <= hi)
        want |= on & (lo <= nlo) & (hi >= nhi)
        isb = is_blank(got, blank)
        bad = ok & ~want & ~isb
        if bad.any():
            k, i = where(bad)
            raise Violation('plane %d (%s) at (sample %d, line %d) holds %r although its '
                            'physical value %.9g is %s' % (
                                j + 1, pl['kind'], i, k, got[k, i], ex[k, i],
                                'outside of [%r, %r]' % (lo, hi) if on[k, i] else
                                'not on the body'))
        phys = ze + sc * got.astype(float)
        e = np.abs(phys - ex)
        if pl['kind'] == 'LONGITUDE':
            e = np.minimum(e, np.abs(360 - e))
        bad = ok & want & ~(e <= eps)
        if bad.any():
            k, i = where(bad)
            raise Violation('plane %d (%s) at (sample %d, line %d) holds %r (%.9g) although '
                            'its physical value %.9g is inside of [%r, %r]' % (
                                j + 1, pl['kind'], i, k, got[k, i], phys[k, i], ex[k, i],
                                lo, hi))
        nplot += int((ok & want).sum())
        nsup += int((ok & on & ~want).sum())
    if not (nplot and nsup):
        return None
    return '%s/%d%s' % (s['data_type'], len(s['planes']),
                        '/blank' if s.get('blank') is not None else '')


# ------------------------------------------------------------------ photos

@st.composite
def photo_cases(draw):
    dt = draw(st.sampled_from(['BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE']))
    s = draw(gen.base(size=st.integers(2, 25), data_type=dt))
    ns, nl = draw(gen.img_size), draw(gen.img_size)
    d = {'ns': ns, 'nl': nl, 'mod': draw(st.sampled_from([97, 31, 0])),
         'mul': 1, 'base': draw(st.integers(0, 60)) if dt == 'BYTE'
         else draw(st.integers(-100, 100))}
    if dt == 'BYTE' and not d['mod']:
        d['mod'] = 97
    if draw(st.integers(0, 2)) == 0:        # fractional data
        d['mul'] = draw(st.sampled_from([0.25, 0.75, 1.5]))
        if dt == 'BYTE':
            d['mod'] = 97
    s['photo'] = d
    im = draw(gen.image(s['body'], ns, nl))
    top = d['base'] + int((d['mod'] or ns * nl) * d['mul'])
    vals = st.integers(d['base'] - 2, top + 2).map(float)
    if draw(st.booleans()):
        vals = st.one_of(vals, vals.map(lambda x: x + 0.5), vals.map(lambda x: x - 0.25))
    p = draw(limits({'kind': 'IMAGE', 'images': [im]}, d['base'], top, vals))
    s['planes'] = [p]
    hd = {}
    if draw(st.integers(0, 2)) == 0:
        hv = st.one_of(vals, vals, st.just(0.)) if d['base'] <= 0 <= top else vals
        a, b = sorted((draw(hv), draw(hv)))
        if draw(st.booleans()):
            hd['DATAMIN'] = a
        if draw(st.booleans()):
            hd['DATAMAX'] = b
        lo = p.get('data_min', hd.get('DATAMIN'))
        hi = p.get('data_max', hd.get('DATAMAX'))
        if lo is not None and hi is not None and lo >= hi:
            hd = {}
    s['src_header'] = hd
    if virt.BITS[dt] > 0 and draw(st.booleans()):
        s['blank'] = draw(st.integers(*BL[dt]))
    return s


def check_photo(case, ctx):
    s = case
    pl = s['planes'][0]
    im = pl['images'][0]
    d = s['photo']
    data = img.array(d)
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    try:
        m = model.photo(body, im, data, lat, lon, on)
    except model.Ambiguous:
        return None
    h = run_maps(ctx, s, files={'p.fits': img.writer(d, -64, list(s['src_header'].items()))}
                 )[s['file']][0]
    got = planes_of(h, 1)[0]
    blank = blank_of(s, h)
    sure = sure & m['sure']
    lo = pl.get('data_min', s['src_header'].get('DATAMIN'))
    hi = pl.get('data_max', s['src_header'].get('DATAMAX'))
    v = m['value']
    want = ~np.isnan(v)
    base = want.copy()
    if lo is not None:
        want &= ~(v < lo)
    if hi is not None:
        want &= ~(v > hi)
    isb = is_blank(got, blank)
    bad = sure & ~want & ~isb
    if bad.any():
        k, i = where(bad)
        raise Violation('photo plane at (sample %d, line %d) holds %r; source value %r, '
                        'limits [%r, %r]' % (i, k, got[k, i], v[k, i], lo, hi))
    # integer maps hold the value to within one
    bad = sure & want & ~((got == v) if virt.BITS[s['data_type']] < 0 or d['mul'] == 1
                          else np.abs(got - v) < 1)
    if bad.any():
        k, i = where(bad)
        raise Violation('photo plane at (sample %d, line %d) holds %r instead of %r, '
                        'limits [%r, %r]' % (i, k, got[k, i], v[k, i], lo, hi))
    if not ((sure & want).any() and (sure & base & ~want).any()):
        return None
    eq = ((v == lo) | (v == hi)) & sure & want
    return s['data_type'] + ('/fraction' if d['mul'] != 1 else '') + ('/at-limit' if eq.any() else '') + (
        '/header' if s['src_header'] else '')


ARMS = [Arm('virtual', cases(), check, n=7000, thorough=100000),
        Arm('photo', photo_cases(), check_photo, n=7000, thorough=100000),
        Arm('mosaic', p12.cases(limits=True), p12.check, n=1500, thorough=30000)]
