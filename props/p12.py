import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img
from vlib.common import *
from props import virt, p11

ID = 'P12'
RULE = ('one case = one map plane made of 2-9 generated photos of the same body (similar or '
        'different cameras, sizes, nibbles, invalid pixels, sky removal, flat fields, inversion, '
        'interpolation, terminator; the same photo may '
        'occur more than once) with one averaging technique; every map pixel is compared with '
        'the reference composition of the single photo samples. Pixels whose membership in any '
        'photo is within rounding of a boundary are skipped. Non-trivial: some pixel is covered '
        'by at least two photos with different values; classes by averaging and sky removal')


@st.composite
def cases(draw, limits=False):
    s = draw(gen.base(size=st.integers(3, 25), data_type='DOUBLE'))
    n = draw(st.sampled_from([2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 9]))
    ns, nl = draw(st.integers(2, 25)), draw(st.integers(2, 25))
    first = draw(gen.image(s['body'], ns, nl, 'p0.fits', geom=False))
    ims, photos = [first], {}
    for j in range(n):
        name = 'p%d.fits' % j
        if j:
            k = draw(st.integers(0, 3))
            if k == 0:
                ns, nl = draw(st.integers(2, 25)), draw(st.integers(2, 25))
                im = draw(gen.image(s['body'], ns, nl, name, geom=False))
            else:
                im = {**first, 'file': name}
                ns, nl = photos['p0.fits']['ns'], photos['p0.fits']['nl']
                if 'sample_center' in im:
                    im['sample_center'] += draw(gen.fl(-ns / 2., ns / 2.))
                    im['line_center'] += draw(gen.fl(-nl / 2., nl / 2.))
                if k == 2:
                    im['sub_lon'] = (im['sub_lon'] + draw(gen.fl(-60, 60))) % 360
            ims.append(im)
        im = ims[-1]
        photos[name] = {'ns': ns, 'nl': nl, 'mod': draw(st.sampled_from([0, 97])),
                        'mul': draw(st.sampled_from([1, 0])),
                        'base': 1000 * j + draw(st.integers(0, 400)),
                        'nan': sorted(set(draw(st.lists(st.integers(0, ns * nl - 1),
                                                        max_size=6))))}
        for a, m in (('nl', ns), ('nr', ns), ('nt', nl), ('nb', nl)):
            im.pop(a, None)
            if draw(st.integers(0, 4)) == 0:
                im[a] = draw(st.integers(0, (m - 1) // 2))
        im.pop('remove_sky', None)
        if draw(st.booleans()):
            im['remove_sky'] = True
        for a in ('invert', 'flat', 'interpolate', 'terminator', 'emi'):
            im.pop(a, None)
        if draw(st.integers(0, 5)) == 0:
            im['invert'] = draw(st.sampled_from(['HORIZONTAL', 'VERTICAL', 'BOTH']))
        if draw(st.integers(0, 5)) == 0:
            im['flat'] = 'f%d.fits' % j
            photos[im['flat']] = {'ns': ns, 'nl': nl, 'mod': draw(st.sampled_from([0, 7])),
                                  'mul': 1, 'base': draw(st.integers(-50, 50)), 'nan': []}
        if draw(st.integers(0, 7)) == 0:
            im['interpolate'] = True
        if draw(st.integers(0, 7)) == 0:
            im['terminator'] = True
        if draw(st.integers(0, 5)) == 0:
            im['emi'] = draw(gen.fl(20, 89))
    s['averaging'] = draw(st.sampled_from([None, 'NONE', 'UNWEIGHTED', 'WEIGHTED', 'WEIGHTED']))
    s['photos'] = photos
    p = {'kind': 'IMAGE', 'images': ims}
    if limits or draw(st.integers(0, 4)) == 0:
        a, b = draw(gen.fl(-100, 1000. * n)), draw(gen.fl(1, 2000))
        if draw(st.booleans()):
            p['data_min'] = a
        if draw(st.booleans()):
            p['data_max'] = a + b
    s['planes'] = [p]
    return s


def weight(m):
    """Weight of every photo sample: distance to the nearest edge of the image
    or sky pixel on the same line or sample."""
    nl, ns = m['image'].shape
    i, k = m['i'], m['k']
    w = np.minimum(np.minimum(i, ns - i), np.minimum(k, nl - k)).astype(float)
    if m['mask'] is None:
        return w
    l, r, t, b = m['bounds']
    out = w.copy()
    mask = m['mask']
    for idx in np.argwhere(m['used']):
        y, x = idx
        ii, kk = i[y, x], k[y, x]
        row = np.flatnonzero(~mask[kk, l:r]) + l
        col = np.flatnonzero(~mask[t:b, ii]) + t
        for p, c in ((row, ii), (col, kk)):
            if len(p):
                out[y, x] = min(out[y, x], np.abs(p - c).min())
    return out


def check(case, ctx):
    s = case
    ims = s['planes'][0]['images']
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    sure = sure & (cond < 1e4)
    ms = []
    try:
        for im in ims:
            flat = img.array(s['photos'][im['flat']]) if im.get('flat') else None
            m = model.photo(body, im, img.array(s['photos'][im['file']]), lat, lon, on, flat)
            m['tol'] = np.zeros(lat.shape)
            if im.get('interpolate'):
                m['value'], q0, q1 = p11.interpolated(m)
                m['tol'] = np.where(q1 > q0, 1e-6 * (1 + np.abs(m['x']) + np.abs(m['z']))
                                    * np.where(q1 > q0, q1 - q0, 0), 0) + 1e-11
            if im.get('remove_sky'):
                # An uncertain mask pixel may influence any weight.
                if not model.body_mask(m['cam'])[1].all():
                    return None
            ms.append(m)
    except model.Ambiguous:
        return None
    for m in ms:
        sure = sure & m['sure']
    h = run_maps(ctx, s, files={n: img.writer(d) for n, d in s['photos'].items()}
                 )[s['file']][0]
    got = planes_of(h, 1)[0]
    v = np.stack([m['value'] for m in ms])
    valid = ~np.isnan(v)
    cnt = valid.sum(0)
    v0 = np.where(valid, v, 0)
    avg = s['averaging'] or 'WEIGHTED'
    if avg == 'NONE':
        first = np.argmax(valid, axis=0)
        want = np.take_along_axis(v0, first[None], 0)[0]
    elif avg == 'UNWEIGHTED':
        want = v0.sum(0) / np.maximum(cnt, 1)
    else:
        w = np.where(valid, np.stack([weight(m) for m in ms]), 0)
        ws = w.sum(0)
        one = v0.sum(0)
        # All weights zero: any mean will do.
        amb = (cnt > 1) & (ws == 0)
        want = np.where(cnt == 1, one, (w * v0).sum(0) / np.where(ws > 0, ws, 1))
        with np.errstate(all='ignore'):
            lo = np.where(valid, v, np.inf).min(0)
            hi = np.where(valid, v, -np.inf).max(0)
        e = np.where(valid, np.stack([m['tol'] for m in ms]), 0).max(0)
        bad = sure & amb & ~((got >= lo - e) & (got <= hi + e))
        if 'data_min' in s['planes'][0] or 'data_max' in s['planes'][0]:
            bad &= ~np.isnan(got)
        if bad.any():
            k, i = where(bad)
            raise Violation('mosaic value %r at (sample %d, line %d) is outside of the range of '
                            'the photos' % (got[k, i], i, k))
        sure = sure & ~amb
    want = np.where(cnt > 0, want, np.nan)
    tol = np.where(cnt > 1, 1e-12 * np.abs(v0).max(0), 0)
    tol = tol + np.where(valid, np.stack([m['tol'] for m in ms]), 0).max(0)
    # the limits of the plane apply to the composed value
    for k, sg in (('data_min', 1), ('data_max', -1)):
        q = s['planes'][0].get(k)
        if q is not None:
            with np.errstate(invalid='ignore'):
                sure = sure & ~(np.abs(want - q) <= tol)
                if (s['averaging'] or 'WEIGHTED') == 'WEIGHTED':
                    sure = sure & ~((cnt > 1) & (ws == 0))
                want = np.where(sg * (want - q) < 0, np.nan, want)
    bad = sure & ~((np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        k, i = where(bad)
        raise Violation('%s mosaic holds %r instead of %r at (sample %d, line %d); photo values '
                        '%s' % (avg, float(got[k, i]), float(want[k, i]), i, k,
                                [float(x) for x in v[:, k, i]]))
    with np.errstate(all='ignore'):
        diff = sure & (cnt > 1) & (np.where(valid, v, np.inf).min(0)
                                   != np.where(valid, v, -np.inf).max(0))
    if not diff.any():
        return None
    return '%s/%d%s' % (s['averaging'] or 'default', len(ims),
                        '/sky' if any(im.get('remove_sky') for im in ims) else '')


ARMS = [Arm('mosaic', cases(), check, n=8000, thorough=120000)]
