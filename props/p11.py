import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img, fits
from vlib.common import *
from props import virt

ID = 'P11'
RULE = ('one case = one generated photo file (BITPIX 8/16/32/64/-32/-64, BSCALE, BZERO, BLANK or '
        'NaN pixels), optional flat field file (own type and scaling), INVERT, and (arm '
        'interpolate) INTERPOLATE with nibbling, mapped to a DOUBLE map; every pixel is compared '
        'with the reference (physical value - flat field, then inversion, then single pixel or '
        'mean of the edge interpolations of the surrounding 2x2 square). Non-trivial: at least 3 '
        'plotted pixels with 2 different values (or a constant image); classes by the options')

RANGE = {8: (0, 255), 16: (-32768, 32767), 32: (-2**31, 2**31 - 1), 64: (-2**52, 2**52),
         -32: (-2**20, 2**20), -64: (-2**40, 2**40)}


@st.composite
def source(draw, ns, nl):
    bp = draw(st.sampled_from([8, 16, 32, 64, -32, -64]))
    lo, hi = RANGE[bp]
    # stored values: base + mul * index, mod
    mod = draw(st.sampled_from([0, 61, 251]))
    span = (mod or ns * nl)
    mul = draw(st.sampled_from([1, 1, 3, 0]))
    if bp == 8 and span * mul > 255:
        mod, span = 61, 61
        mul = min(mul, 3)
    base = draw(st.integers(lo, hi - span * mul))
    d = {'ns': ns, 'nl': nl, 'bitpix': bp, 'base': base, 'mul': mul, 'mod': mod}
    k = draw(st.integers(0, 3))
    if k == 1:
        d['bscale'] = draw(st.sampled_from([2., 0.5, -1., 0.1, 1e-3]))
        d['bzero'] = draw(st.sampled_from([0., 10.25, -7.]))
    elif k == 2 and bp == 16:
        d['bscale'], d['bzero'] = 1., 32768.
    if bp > 0 and draw(st.booleans()):
        d['blank'] = base + mul * draw(st.integers(0, span - 1))
    elif bp < 0:
        d['nan'] = sorted(set(draw(st.lists(st.integers(0, ns * nl - 1), max_size=10))))
    return d


def stored(d):
    n = d['ns'] * d['nl']
    k = np.arange(n)
    if d['mod']:
        k = (k * 37) % d['mod']
    if d['bitpix'] > 0:
        a = d['base'] + d['mul'] * k
    else:
        a = (d['base'] + d['mul'] * k).astype('f4' if d['bitpix'] == -32 else 'f8')
        for i in d.get('nan', ()):
            if i < n:
                a[i] = np.nan
    return a.reshape(d['nl'], d['ns'])


def physical(d):
    a = stored(d)
    p = a.astype(float) * d.get('bscale', 1.) + d.get('bzero', 0.)
    if d.get('blank') is not None:
        p[a == d['blank']] = np.nan
    return p


def write(d):
    ex = []
    if 'bscale' in d:
        ex += [('BSCALE', d['bscale']), ('BZERO', d['bzero'])]
    if d.get('blank') is not None:
        ex.append(('BLANK', d['blank']))
    return lambda path: fits.write(path, stored(d), d['bitpix'], ex)


@st.composite
def cases(draw, interp):
    s = draw(gen.base(size=st.integers(3, 25), data_type='DOUBLE'))
    ns, nl = draw(gen.img_size), draw(gen.img_size)
    im = draw(gen.image(s['body'], ns, nl, geom=False))
    s['src'] = draw(source(ns, nl))
    if draw(st.integers(0, 2)) == 0:
        im['flat'] = 'flat.fits'
        s['flat'] = draw(source(ns, nl))
    if draw(st.booleans()):
        im['invert'] = draw(st.sampled_from(['HORIZONTAL', 'VERTICAL', 'BOTH']))
    if interp:
        im['interpolate'] = True
        for a, n in (('nl', ns), ('nr', ns), ('nt', nl), ('nb', nl)):
            if draw(st.integers(0, 3)) == 0:
                im[a] = draw(st.integers(0, (n - 1) // 2))
        im['remove_sky'] = draw(st.booleans())
    elif draw(st.booleans()):
        im['interpolate'] = False
    s['planes'] = [{'kind': 'IMAGE', 'images': [im]}]
    return s


def interpolated(m):
    """Values by interpolation, (min, max) of the square, and where the result
    is not affected by the rounding of the position."""
    a = m['image']
    l, r, t, b = m['bounds']
    x, z = m['x'], m['z']
    i, k = m['i'], m['k']
    inside = m['used'] & (i >= l) & (i + 1 < r) & (k >= t) & (k + 1 < b)
    i1 = np.where(inside, i + 1, i)
    k1 = np.where(inside, k + 1, k)
    fx, fz = x - i, z - k
    A, B, C, E = a[k, i], a[k, i1], a[k1, i], a[k1, i1]
    edges = [A + (B - A) * fx, C + (E - C) * fx, A + (C - A) * fz, B + (E - B) * fz]
    e = np.stack(edges)
    ok = ~np.isnan(e)
    n = ok.sum(0)
    with np.errstate(invalid='ignore', divide='ignore'):
        v = np.where(n > 0, np.where(ok, e, 0).sum(0) / np.maximum(n, 1), np.nan)
    v = np.where(inside, v, np.nan)
    q = np.stack([A, B, C, E])
    with np.errstate(all='ignore'):
        q0 = np.where(np.isnan(q), np.inf, q).min(0)
        q1 = np.where(np.isnan(q), -np.inf, q).max(0)
    return v, q0, q1


def check(case, ctx):
    s = case
    im = s['planes'][0]['images'][0]
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    data = physical(s['src'])
    flat = physical(s['flat']) if 'flat' in s else None
    try:
        m = model.photo(body, im, data, lat, lon, on, flat)
    except model.Ambiguous:
        return None
    sure = sure & m['sure'] & (cond < 1e4)
    files = {'p.fits': write(s['src'])}
    if 'flat' in s:
        files['flat.fits'] = write(s['flat'])
    h = run_maps(ctx, s, files=files)[s['file']][0]
    got = planes_of(h, 1)[0]
    fin = m['image'][~np.isnan(m['image'])]
    mag = np.abs(fin).max() if len(fin) else 0
    if flat is not None:
        for q in (data, flat):
            q = q[~np.isnan(q)]
            mag = max(mag, np.abs(q).max() if len(q) else 0)
    if im.get('interpolate'):
        v, q0, q1 = interpolated(m)
        span = np.where(q1 > q0, q1 - q0, 0)
        tol = 1e-13 * mag + 1e-6 * (1 + np.abs(m['x']) + np.abs(m['z'])) * span
    else:
        v = m['value']
        tol = 1e-15 * mag * 4 if flat is not None or 'bscale' in s['src'] else 0.
        tol = tol + np.zeros_like(v)
    bad = sure & (np.isnan(got) != np.isnan(v))
    if bad.any():
        k, i = where(bad)
        raise Violation('map pixel (sample %d, line %d) is %s; expected %r (photo position '
                        '%.4f, %.4f)' % (i, k, 'blank' if np.isnan(got[k, i]) else got[k, i],
                                         v[k, i], m['x'][k, i], m['z'][k, i]))
    use = sure & ~np.isnan(v)
    bad = use & ~(np.abs(got - v) <= tol)
    if bad.any():
        k, i = where(bad)
        raise Violation('map pixel (sample %d, line %d) holds %.17g; expected %.17g (photo '
                        'position %.4f, %.4f)' % (i, k, got[k, i], v[k, i], m['x'][k, i],
                                                  m['z'][k, i]))
    if im.get('interpolate'):
        e = 1e-13 * mag
        bad = use & ~((got >= q0 - e) & (got <= q1 + e))
        if bad.any():
            k, i = where(bad)
            raise Violation('interpolated value %.17g at (sample %d, line %d) is outside of the '
                            'range [%.17g, %.17g] of the surrounding pixels' % (
                                got[k, i], i, k, q0[k, i], q1[k, i]))
    g = v[use]
    if len(g) < 3 or (s['src']['mul'] and len(set(g.tolist())) < 2):
        return None
    return '%d' % s['src']['bitpix'] + ''.join('/' + k for k in ('flat', 'invert') if im.get(k)) \
        + ('/scaled' if 'bscale' in s['src'] else '') \
        + ('/blank' if s['src'].get('blank') is not None or s['src'].get('nan') else '')


ARMS = [Arm('values', cases(False), check, n=6000, thorough=100000),
        Arm('interpolate', cases(True), check, n=6000, thorough=100000)]
