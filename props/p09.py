import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img
from vlib.common import *
from props import virt

ID = 'P09'
RULE = ('one case = one generated body, camera and projection; the photo has a unique value in '
        'every pixel, so the map shows which photo pixel was sampled at every surface point; it '
        'is compared with an independent pinhole camera model (points within 1e-6 pixel of a '
        'pixel border or 1e-9 of the limb are skipped). Non-trivial: at least 3 map pixels '
        'sample at least 2 different photo pixels; classes by scale notation, centre notation '
        'and options. The wide arm uses images around the 400/800 pixel formats of the lens '
        'correction, the small arm maps windows around the sub-observation point')


@st.composite
def cases(draw, wide=False, small=False):
    s = draw(gen.base(size=st.integers(2, 30), data_type='DOUBLE',
                      kinds=('SIMPLE_C',) if small else gen.KINDS))
    if wide:
        ns = draw(st.sampled_from([380, 399, 400, 401, 402, 640, 800]))
        nl = draw(st.sampled_from([100, 380, 400, 401, 800]))
    else:
        ns, nl = draw(gen.img_size), draw(gen.img_size)
    s['photo'] = {'ns': ns, 'nl': nl, 'mod': 0, 'mul': 1, 'base': 1}
    im = draw(gen.image(s['body'], ns, nl))
    if wide and draw(st.integers(0, 3)):
        im['geom'] = True
    if small:
        # A window of a few degrees around the sub-observation point
        w = draw(st.sampled_from([1., 4., 15.]))
        la = max(-89. + w, min(89. - w, im['sub_lat']))
        lo = im['sub_lon']
        s['proj'] = {'type': 'SIMPLE_C', 'lo_lat': la - w, 'hi_lat': la + w,
                     'lo_lon': (lo - w) % 360, 'hi_lon': (lo + w) % 360}
    if draw(st.integers(0, 3)) == 0:
        im['emi'] = draw(gen.fl(1, 89.9))
    if draw(st.integers(0, 5)) == 0:
        im['invert'] = draw(st.sampled_from(['HORIZONTAL', 'VERTICAL', 'BOTH']))
    s['planes'] = [{'kind': 'IMAGE', 'images': [im]}]
    return s


def check(case, ctx):
    s = case
    im = s['planes'][0]['images'][0]
    d = s['photo']
    data = img.array(d)
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    try:
        m = model.photo(body, im, data, lat, lon, on)
    except model.Ambiguous:
        return None
    # An orthographic map near its limb is ill conditioned.
    sure = sure & m['sure'] & (cond < 1e4)
    h = run_maps(ctx, s, files={'p.fits': img.writer(d, -64)})[s['file']][0]
    got = planes_of(h, 1)[0]
    v = m['value']
    bad = sure & ~((got == v) | (np.isnan(got) & np.isnan(v)))
    if bad.any():
        k, i = where(bad)
        ns = d['ns']

        def pix(x):
            return 'blank' if np.isnan(x) else 'photo pixel (%d, %d)' % (
                (int(x) - 1) % ns, (int(x) - 1) // ns)
        raise Violation('map pixel (sample %d, line %d), latitude %.6f, longitude %.6f holds '
                        '%s; the camera images that point at (%.4f, %.4f): %s' % (
                            i, k, lat[k, i] / D, np.mod(lon[k, i] / D, 360), pix(got[k, i]),
                            m['x'][k, i], m['z'][k, i], pix(v[k, i])))
    g = v[sure & ~np.isnan(v)]
    if len(g) < 3 or len(set(g.tolist())) < 2:
        return None
    return '/'.join([next(k for k in ('kmpp', 'arcsec', 'focal') if k in im),
                     'center' if 'sample_center' in im else 'latlon'] +
                    [k for k in ('geom', 'oa_s', 'emi') if k in im])


ARMS = [Arm('photo', cases(), check, n=9000, thorough=150000),
        Arm('small', cases(small=True), check, n=2500, thorough=40000),
        Arm('wide', cases(wide=True), check, n=1200, thorough=20000)]
