"""Hypothesis strategies for MaRC inputs (all produce JSON-able values)."""
from hypothesis import strategies as st

KINDS = ('SIMPLE_C', 'MERCATOR', 'P_STEREO', 'ORTHO')
bools = st.booleans()


def fl(lo, hi, nd=None):
    """Floats in [lo, hi]: a mix of round and arbitrary values."""
    f = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)
    step = 1.0
    a, b = int(-(-lo // step)), int(hi // step)
    opts = [f.map(lambda x: float('%.12g' % x) if lo <= float('%.12g' % x) <= hi else x)]
    if b >= a:
        opts.append(st.integers(a, b).map(float))
    else:
        opts.append(st.integers(0, 16).map(lambda k: lo + (hi - lo) * k / 16))
    return st.one_of(*opts).map(lambda x: 0.0 if abs(x) < 1e-9 else x)


@st.composite
def body(draw, max_f=0.5):
    a = draw(st.one_of(st.sampled_from([71492.0, 6378.137, 1.0, 1000.0, 3396.19]),
                       fl(10, 1e5), fl(0, 7).map(lambda e: 10. ** e)))
    f = draw(st.one_of(st.sampled_from([0.0, 0.0648744, 0.00335281, 0.1, 0.3]),
                       fl(0, max_f), fl(-6, -1.5).map(lambda e: 10 ** e)))
    f = min(f, max_f)
    c = a * (1 - f)
    return {'name': 'Body', 'a': a, 'c': c, 'prograde': draw(bools),
            'radii': draw(st.sampled_from(['ac', 'ac', 'ac', 'ca']))}


lat = st.one_of(fl(-90, 90), st.sampled_from([-90., 90., 0., 45., -45.]))
lat_in = st.one_of(fl(-89.5, 89.5), st.sampled_from([0., 30., -60.]))
lon = st.one_of(fl(0, 360), st.sampled_from([0., 90., 180., 270., 360.]))
angle = st.one_of(fl(-360, 360), st.sampled_from([0., 90., 180., -90.]))

size = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 60),
                 st.integers(1, 60), st.integers(1, 200))


@st.composite
def simple_c(draw):
    p = {'type': 'SIMPLE_C'}
    if draw(bools):
        p['lat_type'] = draw(st.sampled_from(['GRAPHIC', 'CENTRIC']))
    if draw(st.integers(0, 3)):
        a, b = draw(lat), draw(lat)
        if abs(a - b) < 1e-3:
            a, b = -30., 40.
        p['lo_lat'], p['hi_lat'] = min(a, b), max(a, b)
    if draw(st.integers(0, 3)):
        a = draw(lon)
        b = draw(st.one_of(lon, st.just(a)))
        if a != b and abs((a - b + 180) % 360 - 180) < 1e-3 and not (a % 360 == b % 360):
            b = (a + 50.) % 360
        p['lo_lon'], p['hi_lon'] = a, b
    return p


@st.composite
def p_stereo(draw):
    p = {'type': 'P_STEREO'}
    if draw(st.integers(0, 4)):
        p['pole'] = draw(st.sampled_from(['N', 'S']))
        if draw(bools):
            m = draw(st.one_of(fl(-60, 85), fl(-60, 85), fl(-85, 89.5)))
            p['max_lat'] = m if p['pole'] == 'N' else -m
    return p


@st.composite
def ortho(draw, b, ns, nl):
    p = {'type': 'ORTHO'}
    sub = lambda: p.update(sub_lat=draw(lat), sub_lon=draw(lon))
    pa = lambda: p.update(pa=draw(angle))

    def km():
        p['kmpp'] = max(b['a'], 1e-3) / max(min(ns, nl), 2) * draw(
            st.sampled_from([0.3, 1., 1.7, 2.1, 2.5, 4.]))

    def ctr():
        if draw(bools):
            p.update(sample_center=draw(fl(-0.25 * ns, 1.25 * ns)),
                     line_center=draw(fl(-0.25 * nl, 1.25 * nl)))
        else:
            sl, so = p.get('sub_lat', 0.), p.get('sub_lon', 0.)
            la = max(-90., min(90., sl + draw(fl(-40, 40))))
            p.update(lat_at_center=la,
                     lon_at_center=(so + draw(fl(-40, 40))) % 360)
    k = draw(st.integers(0, 8))
    if k == 0:
        pass
    elif k == 1:
        pa()
    elif k == 2:
        km()
    elif k == 3:
        ctr()
    else:
        for f in (sub, pa, km, ctr)[:k - 3 if k < 8 else 4]:
            f()
    return p


@st.composite
def projection(draw, b, ns, nl, kinds=KINDS):
    k = draw(st.sampled_from(list(kinds)))
    if k == 'SIMPLE_C':
        return draw(simple_c())
    if k == 'MERCATOR':
        return {'type': 'MERCATOR'}
    if k == 'P_STEREO':
        return draw(p_stereo())
    return draw(ortho(b, ns, nl))


@st.composite
def base(draw, kinds=KINDS, size=size,
         planes=(), data_type='DOUBLE', max_f=0.5):
    """A map specification without planes."""
    b = draw(body(max_f))
    ns, nl = draw(size), draw(size)
    p = draw(projection(b, ns, nl, kinds))
    if p['type'] == 'MERCATOR':
        nl = min(nl, 6 * ns)
    return {'file': 'm.fits', 'body': b, 'data_type': data_type, 'proj': p,
            'samples': ns, 'lines': nl, 'planes': list(planes),
            'planes_kw': True}


@st.composite
def strip(draw, kinds):
    """Maps of very many samples or lines."""
    s = draw(base(kinds=kinds, size=st.integers(1, 3)))
    k = draw(st.sampled_from(['samples', 'samples', 'lines']))
    n = draw(st.one_of(st.sampled_from([255, 256, 257, 32767, 32768, 65535, 65536, 65537]),
                       st.integers(200, 70000)))
    s[k] = n if s['proj']['type'] != 'MERCATOR' or k == 'samples' else 6 * s['samples']
    return s


@st.composite
def mu(draw, a):
    return {'kind': 'MU', 'sub_lat': draw(lat), 'sub_lon': draw(lon),
            'range': a * draw(st.one_of(st.sampled_from([1.5, 3., 10., 1000.]), fl(1.1, 200)))}


@st.composite
def mu0(draw):
    return {'kind': 'MU0', 'sun_lat': draw(lat), 'sun_lon': draw(lon)}


@st.composite
def phase(draw, a):
    m = draw(mu(a))
    m.update(draw(mu0()))
    m['kind'] = 'PHASE'
    return m


@st.composite
def virtual(draw, a):
    k = draw(st.integers(0, 4))
    if k == 0:
        p = {'kind': 'LATITUDE'}
        if draw(bools):
            p['lat_type'] = draw(st.sampled_from(['GRAPHIC', 'CENTRIC']))
        return p
    if k == 1:
        return {'kind': 'LONGITUDE'}
    return draw([mu(a), mu0(), phase(a)][k - 2])


# ------------------------------------------------------------------ photos

@st.composite
def image(draw, b, ns, nl, name='p.fits', simple=False, geom=True, oa=True,
          center=None):
    """A photo of the body `b`, ns x nl pixels, most of it usually visible."""
    a = b['a']
    im = {'file': name}
    rng = a * draw(st.sampled_from([3., 6., 20., 1000.]))
    if draw(bools):
        rng *= draw(fl(0.8, 1.6))
    sub_lat = draw(st.one_of(fl(-80, 80), fl(-89, 89), st.sampled_from(
        [0., 10., -35., 60., 90., -90.])))
    sub_lon = draw(lon)
    # kilometres per pixel: the body spans 0.4 to 3 image widths
    km = 2 * a / (min(ns, nl) * draw(st.sampled_from([0.5, 0.8, 1.0, 1.5, 3.0])))
    mode = draw(st.sampled_from(['kmpp', 'arcsec', 'focal']))
    if mode == 'kmpp':
        im['kmpp'] = km
    elif mode == 'arcsec':
        im['arcsec'] = km / rng * 180 / 3.141592653589793 * 3600
    else:
        im['focal'] = draw(st.sampled_from([100., 1501.039, 35.]))
        im['scale'] = rng / km / im['focal']
    if oa and draw(st.integers(0, 3)) == 0:
        im['oa_s'] = ns / 2. + draw(fl(-ns / 2., ns / 2.))
        im['oa_l'] = nl / 2. + draw(fl(-nl / 2., nl / 2.))
    if center is None:
        center = draw(st.sampled_from(['pixel', 'pixel', 'latlon']))
    if center == 'pixel':
        im['sample_center'] = ns / 2. + draw(fl(-ns / 2., ns / 2.))
        im['line_center'] = nl / 2. + draw(fl(-nl / 2., nl / 2.))
    else:
        # The direction to the north is ill conditioned near the poles.
        sub_lat = max(-80., min(80., sub_lat))
        im['lat_at_center'] = max(-80., min(80., sub_lat + draw(fl(-35, 35))))
        im['lon_at_center'] = (sub_lon + draw(fl(-35, 35))) % 360
    if geom and draw(st.integers(0, 4)) == 0:
        im['geom'] = True
    im.update(sub_lat=sub_lat, sub_lon=sub_lon, pa=draw(angle),
              sun_lat=draw(st.one_of(fl(-60, 60), fl(-90, 90))),
              sun_lon=(sub_lon + draw(fl(-120, 120))) % 360, range=rng)
    return im


@st.composite
def pixels(draw, ns, nl, integer=True, nan=False):
    """Compact description of an image array (see img.array)."""
    d = {'ns': ns, 'nl': nl,
         'base': draw(st.integers(-50, 200)) if integer else draw(fl(-50, 200)),
         'mul': draw(st.sampled_from([1, 3, 7])) if integer else
         draw(st.sampled_from([0.5, 1.25, 0.1])),
         'mod': draw(st.sampled_from([0, 0, 251, 97]))}
    if nan:
        d['nan'] = sorted(set(draw(st.lists(st.integers(0, ns * nl - 1), max_size=12))))
    return d


img_size = st.one_of(st.integers(2, 10), st.integers(5, 40))
