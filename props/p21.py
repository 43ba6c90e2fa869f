"""Camera round trips through the library interface."""
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model
from vlib.probe import ProbeError
from vlib.common import angdiff

ID = 'P21'
RULE = ('trip: a generated camera (any attitude, scale notation, optical axis, lens correction, '
        'close or far, body shape and rotation sense), 24 surface points and 24 image positions; '
        'each point is visible exactly if an independent camera model says so, projects to the '
        'model\'s position, and is traced back to the same latitude and longitude; each position '
        'meets the body exactly if the model\'s ray does, the traced point is on the near side '
        'and projects back to the position; the body mask of the image equals the model\'s mask. '
        'Points within rounding of a boundary are left out. ray: arbitrary lines against the '
        'spheroid. body: radius, latitude conversions and curvature radii against their '
        'definitions. Non-trivial: at least 4 visible points and 4 positions on the body')

D = np.pi / 180
NPTS = 24


@st.composite
def cases(draw):
    b = draw(gen.body())
    ns, nl = draw(gen.img_size), draw(gen.img_size)
    if draw(st.integers(0, 3)) == 0:
        # Galileo images have 400 or 800 samples
        ns, nl = draw(st.sampled_from([(400, 400), (800, 800), (401, 300), (600, 90)]))
    im = draw(gen.image(b, ns, nl))
    if draw(st.integers(0, 3)) == 0:
        im['range'] = b['a'] * draw(st.sampled_from([1.2, 1.5, 2., 1e5]))
        if 'focal' in im:
            im['scale'] = im['scale'] * draw(st.sampled_from([0.5, 1., 2.]))
    if draw(st.integers(0, 3)) == 0:
        im['emi'] = draw(st.sampled_from([0.5, 30., 60., 75., 89.5, 90.]))
    if draw(st.integers(0, 3)) == 0:
        im['terminator'] = True
    for k in ('sub_lon', 'sun_lon', 'lon_at_center'):
        # the library takes longitudes from -360 to 360 degrees
        if im.get(k) is not None and im[k] > 0 and draw(st.integers(0, 2)) == 0:
            im[k] -= 360
    return {'body': b, 'im': im, 'ns': ns, 'nl': nl, 'seed': draw(st.integers(0, 10 ** 6)),
            'wide': draw(st.integers(0, 3)) == 0}


def setup(pr, body, im, ns, nl):
    if im.get('kmpp') is not None:
        sc = ['km', im['kmpp'], 0.]
    elif im.get('arcsec') is not None:
        sc = ['arc', im['arcsec'], 0.]
    else:
        sc = ['foc', im['focal'], im['scale']]
    if im.get('sample_center') is not None:
        ce = ['sl', im['sample_center'], im['line_center']]
    else:
        ce = ['ll', im['lat_at_center'], im['lon_at_center']]
    return pr.raw('vg', body.prograde, body.a, body.c, im['sub_lat'], im['sub_lon'], im['sun_lat'],
                  im['sun_lon'], im['range'], im['pa'], sc, ce, im.get('oa_s'), im.get('oa_l'),
                  im.get('emi'), bool(im.get('terminator')), bool(im.get('geom')), ns, nl)


def check(case, ctx):
    b = case['body']
    body = model.Body(b['a'], b['c'], b['prograde'])
    im, ns, nl = case['im'], case['ns'], case['nl']
    try:
        cam = model.Camera(body, im, ns, nl)
    except model.Ambiguous:
        return None
    pr = ctx.probe()
    try:
        setup(pr, body, im, ns, nl)
    except ProbeError as e:
        raise Violation('valid camera rejected: %s' % e)
    nvis = nbody = 0

    # surface points, most of them on the near side
    mu_min = 0.02
    far = im['range'] / body.a
    prec = 1e-15 * far + 1e-12          # of the direction of sight
    cut = 1e-9 + 1e-14 * far ** 2       # of the discriminant
    rnd = np.random.default_rng(case['seed'])
    for u, v in rnd.random((NPTS, 2)):
        if case['wide']:
            lat, lon = np.arcsin(2 * u - 1), 2 * np.pi * v
        else:
            lat = np.clip(cam.slat + (u - 0.5) * 2.6, -1.57, 1.57)
            lon = (cam.slon + (v - 0.5) * 2.6) % (2 * np.pi)
        vis, d = cam.visibility(lat, lon)
        x, z, depth = cam.pixel(np.array(lat), np.array(lon))
        x, z, depth = float(x), float(z), float(depth)
        if d < 1e-9 or abs(depth) < 1e-6 * im['range'] or not np.isfinite(x + z):
            continue
        a = pr.ask('ll', lat, lon)
        what = 'latitude %r longitude %r' % (lat / D, lon / D)
        if bool(a[0]) != bool(vis and depth > 0):
            raise Violation('%s is %s but the library says otherwise' % (
                what, 'in view' if vis and depth > 0 else 'not in view'))
        if pr.ask('vis', lat, lon)[0] != float(vis):
            raise Violation('is_visible of %s is wrong' % what)
        if not a[0]:
            continue
        nvis += 1
        pt = 1e-9 * (1 + abs(x) + abs(z)) + prec * cam.focal * 10
        if abs(a[1] - x) > pt or abs(a[2] - z) > pt:
            raise Violation('%s is imaged at (%r, %r), not at (%r, %r)' % (what, x, z, a[1], a[2]))
        mu = body.mu(cam.slat, cam.slon, lat, lon, cam.range)
        if mu < mu_min or abs(lat) > 1.56:
            continue
        if im.get('geom') and abs(x) + abs(z) > 1e6:
            continue            # the cubic of the lens is ill-conditioned that far off the frame
        t = pr.ask('px', a[1], a[2])
        if not t[0]:
            raise Violation('%s, imaged at (%r, %r), is not found at that position' % (
                what, a[1], a[2]))
        tol = (1e-8 + 1e2 * prec + cut) / mu ** 2
        if abs(t[1] - lat) > tol or abs(angdiff(t[2] / D, lon / D)) * D * np.cos(lat) > tol:
            raise Violation('%s is traced back to latitude %r longitude %r' % (
                what, t[1] / D, t[2] / D))

    # image positions
    cx, cz, _ = cam.pixel(np.array(cam.slat), np.array(cam.slon))
    rad = cam.focal / max(far, 1.)
    for k, (u, v) in enumerate(rnd.random((NPTS, 2))):
        if k % 2:
            x, z = (u * 1.6 - 0.3) * ns, (v * 1.6 - 0.3) * nl
        else:                   # around the body
            x, z = cx + (2 * u - 1) * 1.2 * rad, cz + (2 * v - 1) * 1.2 * rad
        x, z = float(x), float(z)
        if im.get('geom') and abs(x) + abs(z) > 1e6:
            continue            # as above
        m = float(cam.on_body(np.array(x), np.array(z)))
        if abs(m) < cut:
            continue
        t = pr.ask('px', x, z)
        if bool(t[0]) != (m > 0):
            raise Violation('the line of sight of (%r, %r) %s the body, but the library says '
                            'otherwise' % (x, z, 'meets' if m > 0 else 'misses'))
        if not t[0]:
            continue
        nbody += 1
        mu = float(body.mu(cam.slat, cam.slon, t[1], t[2], cam.range))
        if not mu > -1e-6 - cut:
            raise Violation('(%r, %r) is traced to the far side' % (x, z))
        X, Z, _ = cam.pixel(np.array(t[1]), np.array(t[2]))
        tol = 1e-6 * (1 + abs(x) + abs(z)) + (1e3 * prec + cut) * cam.focal / far
        if abs(X - x) > tol or abs(Z - z) > tol:
            raise Violation('(%r, %r) is traced to latitude %r longitude %r, which is imaged '
                            'at (%r, %r)' % (x, z, t[1] / D, t[2] / D, float(X), float(Z)))

    # body mask
    if ns * nl <= 1600:
        k = pr.raw('mask', ns, nl)
        got = np.array([c == '1' for c in k]).reshape(nl, ns)
        z, x = np.meshgrid(np.arange(nl, dtype=float), np.arange(ns, dtype=float), indexing='ij')
        m = cam.on_body(x, z)
        bad = (got != (m > 0)) & (np.abs(m) > cut)
        if bad.any():
            j, i = np.argwhere(bad)[0]
            raise Violation('body mask at sample %d line %d is %s' % (i, j, got[j, i]))
    if nvis >= 4 and nbody >= 4:
        return '%s%s' % ('retrograde' if not body.prograde else 'prograde',
                         '/lens' if im.get('geom') else '')
    return None


# ---------------------------------------------------------------- rays

@st.composite
def rays(draw):
    b = draw(gen.body())
    a = b['a']
    u = gen.fl(-1, 1)
    return {'a': a, 'c': b['c'], 'o': draw(st.tuples(u, u, u).map(list)),
            'dist': draw(st.sampled_from([1.5, 3., 100., 1e5])),
            'at': draw(st.tuples(u, u, u).map(list)), 'len': draw(st.sampled_from([1., 1e-6, 1e6]))}


def check_ray(case, ctx):
    a, c = case['a'], case['c']
    o = np.array(case['o'])
    n = np.linalg.norm(o)
    if n < 1e-3:
        return None
    o = o / n * a * case['dist']
    at = np.array(case['at']) * a * 1.2
    d = (at - o)
    d = d / np.linalg.norm(d) * case['len']
    s = np.array([1 / a, 1 / a, 1 / c])
    O, Dd = o * s, d * s
    A, B, C = Dd @ Dd, Dd @ O, O @ O - 1
    # distance of the line from the centre in the scaled space
    cr = np.cross(O, Dd / np.sqrt(A))
    m = 1 - cr @ cr
    if abs(m) < 1e-9 + 1e-14 * case['dist'] ** 2 or abs(B) < 1e-9 * np.sqrt(A):
        return None
    if B > 0:
        m = -abs(m)             # the spheroid is behind the observer
    r = ctx.probe().ask('hit', a, c, o, d)
    if bool(r[0]) != (m > 0):
        raise Violation('the line %s the spheroid, but the library says otherwise' % (
            'meets' if m > 0 else 'misses'))
    if not r[0]:
        return 'miss'
    lat, lon = r[1], r[2]
    rad = 1 / np.hypot(np.cos(lat) / a, np.sin(lat) / c)
    p = rad * np.array([np.cos(lat) * np.sin(lon), -np.cos(lat) * np.cos(lon), np.sin(lat)])
    # on the line, and the nearer of the two points
    dd = d / np.linalg.norm(d)
    off = np.linalg.norm(np.cross(p - o, dd))
    tol = a * (1e-9 + 1e-13 * case['dist'] ** 2) / max(m, 1e-12) ** 0.5
    if off > tol:
        raise Violation('intersection %r is %r km off the line' % (p.tolist(), off))
    nrm = p * s * s
    if nrm @ dd > 1e-6 * np.linalg.norm(nrm):
        raise Violation('the farther intersection was chosen')
    return 'hit'


# ---------------------------------------------------------------- spheroid

@st.composite
def bodies(draw):
    b = draw(gen.body())
    return {'a': b['a'], 'c': b['c'], 'prograde': b['prograde'],
            'lats': draw(st.lists(st.one_of(gen.fl(-89.999, 89.999),
                                            st.sampled_from([0., 45., -89.999, 1e-9])),
                                  min_size=4, max_size=4))}


def check_body(case, ctx):
    a, c = case['a'], case['c']
    e2 = 1 - (c / a) ** 2
    for lat in case['lats']:
        lat *= D
        r, g, cen, M, N, ecc, flat = ctx.probe().ask('body', case['prograde'], a, c, lat)

        def near(what, x, y, tol=1e-12):
            if not abs(x - y) <= tol * max(abs(x), abs(y)):
                raise Violation('%s at latitude %r: %r, should be %r' % (what, lat / D, x, y))
        x, z = r * np.cos(lat), r * np.sin(lat)
        near('spheroid equation', (x / a) ** 2 + (z / c) ** 2, 1.)
        near('planetographic tangent', np.tan(g), np.tan(lat) * (a / c) ** 2, 1e-9)
        near('planetocentric tangent', np.tan(cen), np.tan(lat) * (c / a) ** 2, 1e-9)
        if abs(g) > np.pi / 2 or abs(cen) > np.pi / 2:
            raise Violation('latitude out of range')
        # radii of curvature from the parametric form
        w = 1 - e2 * np.sin(g) ** 2
        near('meridional radius of curvature', M, a * (1 - e2) / w ** 1.5, 1e-9)
        near('transverse radius of curvature', N, a / np.sqrt(w), 1e-9)
        near('radius of the parallel', N * np.cos(g), x, 1e-9)
        if abs(ecc ** 2 - e2) > 1e-12:
            raise Violation('eccentricity %r' % ecc)
        if abs(flat - (a - c) / a) > 1e-12:
            raise Violation('flattening %r' % flat)
    return 'sphere' if a == c else 'spheroid'


ARMS = [Arm('trip', cases(), check, n=12000, thorough=300000, needs=('fast:probe',)),
        Arm('ray', rays(), check_ray, n=8000, thorough=100000, needs=('fast:probe',)),
        Arm('body', bodies(), check_body, n=1500, thorough=30000, needs=('fast:probe',))]
