import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img
from vlib.common import *
from props import virt, p11

ID = 'P10'
RULE = ('one case = one generated body, camera, projection and combination of EMI_ANG_LIMIT, '
        'TERMINATOR, NIBBLE*, INVERT and REMOVE_SKY, some photo pixels invalid (NaN); every map pixel '
        'must be plotted iff the reference model of the visibility rules says so (pixels whose '
        'decision is within rounding of a boundary are skipped). Non-trivial: at least one '
        'plotted pixel and at least one pixel suppressed by one of the rules though it is on '
        'the visible hemisphere and in the frame; classes by the rules that are active. '
        'interpolate: the same with interpolation, which needs the two by two pixels at the '
        'point to be in the image without its nibbled margins')


@st.composite
def cases(draw, interp=False):
    s = draw(gen.base(size=st.integers(3, 30), data_type='DOUBLE'))
    ns, nl = draw(gen.img_size), draw(gen.img_size)
    s['photo'] = {'ns': ns, 'nl': nl, 'mod': 0, 'mul': 1, 'base': 1,
                  'nan': sorted(set(draw(st.lists(st.integers(0, ns * nl - 1), max_size=8))))}
    im = draw(gen.image(s['body'], ns, nl))
    if draw(st.integers(0, 2)) == 0:
        im['emi'] = draw(st.one_of(gen.fl(0, 90), st.sampled_from([0.0, 90., 89., 45.])))
    if draw(st.booleans()):
        im['terminator'] = draw(st.sampled_from([True, True, True, False]))
    k = draw(st.integers(0, 3))
    if k == 1:
        im['nibble'] = draw(st.integers(0, (min(ns, nl) - 1) // 2))
    elif k == 2:
        for a, b, n in (('nl', 'nr', ns), ('nt', 'nb', nl)):
            x = draw(st.integers(0, n - 1))
            y = draw(st.integers(0, n - 1 - x))
            if draw(st.integers(0, 2)):
                im[a] = x
            if draw(st.integers(0, 2)):
                im[b] = y
    if draw(st.booleans()):
        im['remove_sky'] = draw(st.sampled_from([True, True, True, False]))
    if draw(st.integers(0, 3)) == 0:
        im['invert'] = draw(st.sampled_from(['HORIZONTAL', 'VERTICAL', 'BOTH']))
    if interp:
        im['interpolate'] = True
    s['planes'] = [{'kind': 'IMAGE', 'images': [im]}]
    return s


def check(case, ctx):
    s = case
    im = s['planes'][0]['images'][0]
    d = s['photo']
    data = img.array(d)
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    try:
        m = model.photo(body, im, data, lat, lon, on)
        plain = model.photo(body, {k: v for k, v in im.items() if k not in (
            'emi', 'terminator', 'nibble', 'nl', 'nr', 'nt', 'nb', 'remove_sky')},
            data, lat, lon, on)
    except model.Ambiguous:
        return None
    sure = sure & m['sure'] & (cond < 1e4)
    h = run_maps(ctx, s, files={'p.fits': img.writer(d, -64)})[s['file']][0]
    got = planes_of(h, 1)[0]
    # an interpolated point needs the square of pixels beside it
    want = ~np.isnan(p11.interpolated(m)[0] if im.get('interpolate') else m['value'])
    bad = sure & (np.isnan(got) == want)
    if bad.any():
        k, i = where(bad)
        raise Violation('map pixel (sample %d, line %d), latitude %.6f, longitude %.6f, imaged '
                        'at photo position (%.4f, %.4f), must %sbe plotted' % (
                            i, k, lat[k, i] / D, np.mod(lon[k, i] / D, 360), m['x'][k, i],
                            m['z'][k, i], '' if want[k, i] else 'not '))
    sup = sure & plain['sure'] & ~want & plain['used']
    if not (sure & want).any() or not sup.any():
        return None
    return '+'.join(k for k in ('emi', 'terminator', 'nibble', 'nl', 'nr', 'nt', 'nb',
                                'remove_sky') if im.get(k) not in (None, False, 0)) or 'nan'


ARMS = [Arm('visible', cases(), check, n=10000, thorough=150000),
        Arm('interpolate', cases(True), check, n=3000, thorough=50000)]
