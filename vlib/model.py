"""Independent reference model of MaRC, written from its documentation and the
published definitions of the projections and of spheroid geometry (numpy).

Angles in radians unless stated otherwise.  `lat` is planetocentric.
"""
import numpy as np

D = np.pi / 180
AU = 149597870.7


class Body:
    def __init__(self, a, c, prograde):
        self.a, self.c, self.prograde = float(a), float(c), bool(prograde)

    def radius(self, lat):
        return 1 / np.sqrt((np.cos(lat) / self.a) ** 2 + (np.sin(lat) / self.c) ** 2)

    def graphic(self, lat):
        return np.arctan2(self.a ** 2 * np.sin(lat), self.c ** 2 * np.cos(lat))

    def centric(self, latg):
        return np.arctan2(self.c ** 2 * np.sin(latg), self.a ** 2 * np.cos(latg))

    @property
    def ecc(self):
        return np.sqrt(max(0.0, 1 - (self.c / self.a) ** 2))

    # Longitudes are measured in the same sense for every argument, so the
    # handedness of the frame is irrelevant for angles between vectors.
    def point(self, lat, lon):
        r = self.radius(lat)
        return np.stack(np.broadcast_arrays(r * np.cos(lat) * np.cos(lon),
                                            r * np.cos(lat) * np.sin(lon),
                                            r * np.sin(lat)), -1)

    def normal(self, lat, lon):
        p = self.point(lat, lon)
        n = p / np.array([self.a ** 2, self.a ** 2, self.c ** 2])
        return n / np.linalg.norm(n, axis=-1, keepdims=True)

    @staticmethod
    def direction(lat, lon):
        return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon),
                         np.sin(lat)])

    def mu(self, slat, slon, lat, lon, rng):
        """Cosine of the emission angle for an observer at finite range."""
        v = rng * self.direction(slat, slon) - self.point(lat, lon)
        v = v / np.linalg.norm(v, axis=-1, keepdims=True)
        return np.sum(v * self.normal(lat, lon), -1)

    def mu0(self, slat, slon, lat, lon):
        return np.sum(self.normal(lat, lon) * self.direction(slat, slon), -1)

    def cos_phase(self, olat, olon, slat, slon, lat, lon, rng):
        v = rng * self.direction(olat, olon) - self.point(lat, lon)
        v = v / np.linalg.norm(v, axis=-1, keepdims=True)
        return np.sum(v * self.direction(slat, slon), -1)


# ---------------------------------------------------------------- input angles

def circ(x):
    x = np.fmod(x, 360.0)
    return x if x >= 0 else x + 360


def lat_deg(v, body):
    """Value of a latitude entry, planetocentric degrees."""
    suf = ''
    if isinstance(v, (list, tuple)):
        v, suf = v
    v = float(v)
    if 'S' in suf:
        v = -v
    if 'G' in suf:
        v = float(body.centric(v * D)) / D
    return v


def lon_deg(v, body):
    """Value of a longitude entry in the body's own sense (W if prograde)."""
    suf = ''
    if isinstance(v, (list, tuple)):
        v, suf = v
    x = circ(float(v))
    if 'E' in suf and body.prograde:
        x = 360 - x
    if 'W' in suf and not body.prograde:
        x = 360 - x
    return x


def pa_deg(v):
    suf = ''
    if isinstance(v, (list, tuple)):
        v, suf = v
        suf = ' '.join(suf) if not isinstance(suf, str) else suf
    x = circ(float(v))
    return 360 - x if suf.replace(' ', '') == 'CW' else x


def range_km(v):
    if isinstance(v, (list, tuple)):
        v, suf = v
        u = suf if isinstance(suf, str) else ''.join(suf)
        return float(v) * AU if u == 'AU' else float(v)
    return float(v)


# ---------------------------------------------------------------- projections
# Each returns (lat, lon, plotted) arrays of shape (lines, samples); lat is
# planetocentric radians, lon radians (any branch).  `plotted` is False where
# the projection has no surface point (orthographic sky).

def simple_c(body, p, ns, nl):
    lo_lat = lat_deg(p['lo_lat'], body) if p.get('lo_lat') is not None else -90.
    hi_lat = lat_deg(p['hi_lat'], body) if p.get('hi_lat') is not None else 90.
    lo_lon = lon_deg(p['lo_lon'], body) if p.get('lo_lon') is not None else 0.
    hi_lon = lon_deg(p['hi_lon'], body) if p.get('hi_lon') is not None else 360.
    graphic = p.get('lat_type') == 'GRAPHIC'
    if lo_lon > hi_lon:
        lo_lon -= 360
    elif lo_lon == hi_lon:
        hi_lon += 360
    if graphic:
        # Latitude entries are centric once read; the map spans them graphically.
        lo_lat = float(body.graphic(lo_lat * D)) / D
        hi_lat = float(body.graphic(hi_lat * D)) / D
    k = np.arange(nl)
    i = np.arange(ns)
    lat = (lo_lat + (k + .5) / nl * (hi_lat - lo_lat)) * D
    if graphic:
        lat = body.centric(lat)
    f = (i + .5) / ns * (hi_lon - lo_lon)
    lon = (hi_lon - f if body.prograde else lo_lon + f) * D
    lat, lon = np.meshgrid(lat, lon, indexing='ij')
    return lat, lon, np.ones((nl, ns), bool)


def mercator_x(body, latg):
    """Isometric latitude (ordinate of the Mercator map / equatorial radius)."""
    e = body.ecc
    s = np.sin(latg)
    return np.arctanh(s) - e * np.arctanh(e * s)


def mercator_lat(body, x):
    """Graphic latitude of a given ordinate: fixed point on the conformal
    latitude, as in the cartographic literature."""
    e = body.ecc
    t = np.exp(-np.abs(x))
    phi = np.pi / 2 - 2 * np.arctan(t)
    for _ in range(10000):
        s = e * np.sin(phi)
        # log form of ((1-s)/(1+s))^(e/2)
        new = np.pi / 2 - 2 * np.arctan(t * np.exp(-e * np.arctanh(np.minimum(s, 1 - 1e-16))))
        if np.all(np.abs(new - phi) < 1e-15):
            phi = new
            break
        phi = new
    return np.sign(x) * phi


def mercator(body, p, ns, nl):
    xmax = nl / ns * np.pi
    k = np.arange(nl)
    x = ((k + .5) / nl * 2 - 1) * xmax
    latg = mercator_lat(body, x)
    lat = body.centric(latg)
    lon = (np.arange(ns) + .5) / ns * 2 * np.pi
    if body.prograde:
        lon = 2 * np.pi - lon
    lat, lon = np.meshgrid(lat, lon, indexing='ij')
    return lat, lon, np.ones((nl, ns), bool)


def stereo_rho(body, latg):
    """Polar stereographic radius (north aspect) for graphic latitude."""
    e = body.ecc
    s = np.sin(latg)
    # t = tan(pi/4 - latg/2) / ((1 - e s)/(1 + e s))^(e/2)
    return np.tan(np.pi / 4 - latg / 2) * np.exp(e * np.arctanh(e * s)
                                                 if e < 1 else 0)


def stereo_lat(body, t):
    """Graphic latitude for a given (unscaled) radius."""
    e = body.ecc
    phi = np.pi / 2 - 2 * np.arctan(t)
    for _ in range(10000):
        s = e * np.sin(phi)
        new = np.pi / 2 - 2 * np.arctan(t * np.exp(-e * np.arctanh(np.clip(s, -1 + 1e-16, 1 - 1e-16))))
        if np.all(np.abs(new - phi) < 1e-15):
            phi = new
            break
        phi = new
    return phi


def p_stereo(body, p, ns, nl):
    north = not (p.get('pole') or 'N').upper().startswith('S')
    ml = p.get('max_lat')
    max_lat = 0. if ml is None else lat_deg(ml, body)
    sgn = 1 if north else -1
    # An explicit limit is given on the sphere of the chosen pole.
    tmax = stereo_rho(body, body.graphic(sgn * max_lat * D) if ml is not None
                      else 0.)
    md = min(ns, nl)
    k = np.arange(nl)[:, None] + .5 - nl / 2.
    i = np.arange(ns)[None, :] + .5 - ns / 2.
    t = 2 * tmax / md * np.hypot(k, i)
    latg = stereo_lat(body, t)
    lat = body.centric(latg) * sgn
    ccw = north == body.prograde
    lon = np.arctan2(i if ccw else -i, k) + 0 * t
    return lat, lon, np.ones((nl, ns), bool)


def wrap(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


def rotation_body_to_camera(slat, pa):
    """Rows: camera right, camera depth (away from observer), camera up, in
    the body frame with y pointing away from the observer's meridian.

    Camera looks at the body centre from centric latitude slat; north is
    rotated counter-clockwise from image up by pa."""
    depth = np.array([0., np.cos(slat), -np.sin(slat)])
    right0 = np.array([1., 0., 0.])
    up0 = np.array([0., np.sin(slat), np.cos(slat)])   # projected north
    # north appears at angle pa counter-clockwise from up:
    #   north = -sin(pa) right + cos(pa) up   and   east-ish = right0
    right = np.cos(pa) * right0 - np.sin(pa) * up0
    up = np.sin(pa) * right0 + np.cos(pa) * up0
    return np.array([right, depth, up])


def body_frame_point(body, lat, lon, slon):
    """Surface point in the observer-meridian body frame (x right, y away)."""
    dl = (slon - lon) if body.prograde else (lon - slon)
    r = body.radius(lat)
    return np.stack(np.broadcast_arrays(r * np.cos(lat) * np.sin(dl),
                                        -r * np.cos(lat) * np.cos(dl),
                                        r * np.sin(lat)), -1)


PROJ = {'SIMPLE_C': simple_c, 'MERCATOR': mercator, 'P_STEREO': p_stereo}


def project(spec):
    b = spec['body']
    body = Body(b['a'], b['c'], b['prograde'])
    p = spec['proj']
    return PROJ[p['type']](body, p, spec['samples'], spec['lines'])


def ortho_setup(body, p, ns, nl):
    slat = lat_deg(p['sub_lat'], body) if p.get('sub_lat') is not None else 0.
    slon = lon_deg(p['sub_lon'], body) if p.get('sub_lon') is not None else 0.
    pa = pa_deg(p['pa']) if p.get('pa') is not None else 0.
    if abs(abs(slat) - 90) < 1e-10:
        # Polar aspect: fixed orientation, observer on the prime meridian.
        slon = 0.
        pa = 180. if slat > 0 else 0.
    km = p.get('kmpp')
    if km is None:
        km = 2 * max(body.a, body.c) / (0.9 * min(ns, nl))
    km = float(km)
    R = rotation_body_to_camera(slat * D, pa * D)
    sc, lc = ns / 2., nl / 2.
    if p.get('sample_center') is not None:
        sc, lc = float(p['sample_center']), float(p['line_center'])
    elif p.get('lat_at_center') is not None:
        la = lat_deg(p['lat_at_center'], body) * D
        lo = lon_deg(p['lon_at_center'], body) * D
        q = R @ body_frame_point(body, la, lo, slon * D)
        sc, lc = ns / 2. - q[0] / km, nl / 2. - q[2] / km
    return slat * D, slon * D, R, km, sc, lc


def ortho(body, p, ns, nl, full=False):
    slat, slon, R, km, sc, lc = ortho_setup(body, p, ns, nl)
    x = (np.arange(ns)[None, :] + .5 - sc) * km
    z = (np.arange(nl)[:, None] + .5 - lc) * km
    x, z = np.broadcast_arrays(x, z)
    inv = 1 / np.array([body.a, body.a, body.c])
    base = (x[..., None] * R[0] + z[..., None] * R[2]) * inv
    d = R[1] * inv
    A = d @ d
    B = base @ d
    C = np.sum(base * base, -1) - 1
    disc = B * B - A * C
    margin = disc / A            # > 0: on the body
    on = disc > 0
    y = (-B - np.sqrt(np.where(on, disc, 0))) / A
    pt = x[..., None] * R[0] + y[..., None] * R[1] + z[..., None] * R[2]
    lat = np.arctan2(pt[..., 2], np.hypot(pt[..., 0], pt[..., 1]))
    dl = np.arctan2(pt[..., 0], -pt[..., 1])
    lon = slon - dl if body.prograde else slon + dl
    if full:
        return lat, lon, on, margin
    return lat, lon, on


PROJ['ORTHO'] = ortho


def plane_values(body, plane, lat, lon):
    """Physical value of a virtual image plane at every map pixel."""
    k = plane['kind']
    if k == 'LATITUDE':
        v = body.graphic(lat) if plane.get('lat_type') == 'GRAPHIC' else lat
        return v / D
    if k == 'LONGITUDE':
        return np.mod(lon / D, 360.)
    if k == 'MU':
        return body.mu(lat_deg(plane['sub_lat'], body) * D,
                       lon_deg(plane['sub_lon'], body) * D, lat, lon,
                       range_km(plane['range']))
    if k == 'MU0':
        return body.mu0(lat_deg(plane['sun_lat'], body) * D,
                        lon_deg(plane['sun_lon'], body) * D, lat, lon)
    if k == 'PHASE':
        return body.cos_phase(lat_deg(plane['sub_lat'], body) * D,
                              lon_deg(plane['sub_lon'], body) * D,
                              lat_deg(plane['sun_lat'], body) * D,
                              lon_deg(plane['sun_lon'], body) * D,
                              lat, lon, range_km(plane['range']))
    raise ValueError(k)


def body_of(spec):
    b = spec['body']
    return Body(b['a'], b['c'], b['prograde'])


# ---------------------------------------------------------------- photographs

class Ambiguous(Exception):
    """The camera attitude is not determined by the given parameters."""


def km_per_pixel(im, rng, oa, center):
    if im.get('focal') is not None:
        f = float(im['focal']) * float(im['scale'])
        if center is None:
            return None, f
        return rng / np.sqrt((oa[0] - center[0]) ** 2 + f * f
                             + (oa[1] - center[1]) ** 2), f
    if im.get('arcsec') is not None:
        return float(im['arcsec']) / 3600 * D * rng, None
    return float(im['kmpp']), None


class Camera:
    """Pinhole camera.  Body frame: x right, y away along the sub-observer
    meridian, z north.  Camera frame rows of R: right, depth, up."""

    def __init__(self, body, im, ns, nl):
        self.body, self.im, self.ns, self.nl = body, im, ns, nl
        self.slat = lat_deg(im['sub_lat'], body) * D
        self.slon = lon_deg(im['sub_lon'], body) * D
        self.sunlat = lat_deg(im['sun_lat'], body) * D
        self.sunlon = lon_deg(im['sun_lon'], body) * D
        pa = pa_deg(im['pa']) * D
        self.range = rng = range_km(im['range'])
        self.obs = rng * np.array([0., -np.cos(self.slat), np.sin(self.slat)])
        self.oa = (ns / 2. if im.get('oa_s') is None else float(im['oa_s']),
                   nl / 2. if im.get('oa_l') is None else float(im['oa_l']))
        north = np.array([0., 0., 1.])
        # image direction of north: x right, z up
        nd = np.array([-np.sin(pa), 0., np.cos(pa)])
        if im.get('sample_center') is not None:
            self.center = (float(im['sample_center']), float(im['line_center']))
            km, f = km_per_pixel(im, rng, self.oa, self.center)
            ox = (self.oa[0] - self.center[0]) * km
            oz = (self.center[1] - self.oa[1]) * km
            m2 = ox * ox + oz * oz
            if m2 >= rng * rng:
                raise Ambiguous('centre out of view')
            nrange = np.sqrt(rng * rng - m2)
            oc = np.array([ox, -nrange, oz])      # observer, camera frame
            # north in the camera frame: s nd + t depth with s >= 0
            al, be = oc @ nd / rng, oc[1] / rng
            h = np.hypot(al, be)
            q = np.sin(self.slat) / h
            if abs(q) >= 1:
                raise Ambiguous('no attitude')
            base, d = np.arctan2(be, al), np.arccos(q)
            th = [wrap(base + d), wrap(base - d)]
            th = [t for t in th if abs(t) <= np.pi / 2 - 1e-3]
            th2 = [wrap(base + d), wrap(base - d)]
            th2 = [t for t in th2 if abs(t) <= np.pi / 2 + 1e-3]
            if len(th) != 1 or len(th2) != 1:
                raise Ambiguous('two attitudes')
            nc = np.cos(th[0]) * nd + np.sin(th[0]) * np.array([0., 1., 0.])

            def triad(u, v):
                a = u / np.linalg.norm(u)
                b = np.cross(u, v)
                b = b / np.linalg.norm(b)
                return np.array([a, b, np.cross(a, b)])
            if np.linalg.norm(np.cross(self.obs / rng, north)) < 1e-6:
                raise Ambiguous('polar')
            self.R = triad(oc, nc).T @ triad(self.obs, north)
            # right-handedness: (right, depth, up) and (x, y, z) agree
            self.focal = nrange / km if f is None else f
            self.km = km
        else:
            self.center = None
            la = lat_deg(im['lat_at_center'], body) * D
            lo = lon_deg(im['lon_at_center'], body) * D
            r0 = body_frame_point(body, la, lo, self.slon)
            depth = r0 - self.obs
            depth = depth / np.linalg.norm(depth)
            up = north - (north @ depth) * depth
            if np.linalg.norm(up) < 1e-6:
                raise Ambiguous('looking along the axis')
            n = up / np.linalg.norm(up)
            rt = np.cross(depth, n)               # right = depth x up
            # n = cos(pa) up - sin(pa) right
            upv = np.cos(pa) * n + np.sin(pa) * rt
            right = -np.sin(pa) * n + np.cos(pa) * rt
            self.R = np.array([right, depth, upv])
            km, f = km_per_pixel(im, rng, self.oa, None)
            self.nrange = -(self.R @ self.obs)[1]
            self.focal = self.nrange / km if f is None else f
            self.km = km

    def pixel(self, lat, lon):
        """Image position (x, z) and depth of surface points."""
        p = body_frame_point(self.body, lat, lon, self.slon) - self.obs
        c = p @ self.R.T
        x = self.oa[0] + c[..., 0] / c[..., 1] * self.focal
        z = self.oa[1] - c[..., 2] / c[..., 1] * self.focal
        if self.im.get('geom'):
            x, z = gll_distort(x, z, self.ns)
        return x, z, c[..., 1]

    def on_body(self, x, z):
        """Margin (>0 on the body) of image positions."""
        if self.im.get('geom'):
            x, z = gll_undistort(x, z, self.ns)
        d = (((x - self.oa[0]) / self.focal)[..., None] * self.R[0]
             + self.R[1]
             + ((self.oa[1] - z) / self.focal)[..., None] * self.R[2])
        s = 1 / np.array([self.body.a, self.body.a, self.body.c])
        d, o = d * s, self.obs * s
        B = d @ o
        cr = np.cross(np.broadcast_to(o, d.shape), d)
        m = 1 - np.sum(cr * cr, -1) / np.sum(d * d, -1)
        return np.where(B < 0, m, -np.abs(m) - 1)   # B >= 0: the body is behind the camera

    def visibility(self, lat, lon):
        """(visible, distance to the visibility boundary)."""
        mu = self.body.mu(self.slat, self.slon, lat, lon, self.range)
        lim = np.cos((90. if self.im.get('emi') is None
                      else float(self.im['emi'])) * D)
        m = mu - lim
        if self.im.get('terminator'):
            m = np.minimum(m, self.body.mu0(self.sunlat, self.sunlon, lat, lon))
        return m > 0, np.abs(m)


def gll_distort(x, z, ns):
    """Galileo SSI: image = object + K r^2 (object - axis), axis at 400."""
    f = 2. if ns <= 400 else 1.
    dx, dz = x * f - 400, z * f - 400
    k = 1 + 6.58e-9 * (dx * dx + dz * dz)
    return (dx * k + 400) / f, (dz * k + 400) / f


def gll_undistort(x, z, ns):
    """Inverse of gll_distort (Newton's method)."""
    f = 2. if ns <= 400 else 1.
    dx, dz = x * f - 400, z * f - 400
    r = np.hypot(dx, dz)
    q = r.copy()
    for _ in range(50):
        q = q - (q + 6.58e-9 * q ** 3 - r) / (1 + 3 * 6.58e-9 * q * q)
    k = np.where(r > 0, q / np.where(r > 0, r, 1), 1)
    return (dx * k + 400) / f, (dz * k + 400) / f


def body_mask(cam):
    """(mask, certain) of the pixels of an image; a pixel belongs to the body
    if its position (sample, line) does."""
    z, x = np.meshgrid(np.arange(cam.nl, dtype=float), np.arange(cam.ns, dtype=float),
                       indexing='ij')
    m = cam.on_body(x, z)
    return m > 0, np.abs(m) > 1e-9 + 1e-14 * (cam.range / cam.body.a) ** 2


def nibbles(im, ns, nl, default=(0, 0, 0, 0)):
    """Half-open bounds left, right, top, bottom."""
    l, r, t, b = default
    if im.get('nibble') is not None:
        l = r = t = b = int(im['nibble'])
    else:
        l = l if im.get('nl') is None else int(im['nl'])
        r = r if im.get('nr') is None else int(im['nr'])
        t = t if im.get('nt') is None else int(im['nt'])
        b = b if im.get('nb') is None else int(im['nb'])
    return l, ns - r, t, nl - b


def preprocess(im, data, flat=None):
    a = np.array(data, float)
    if flat is not None:
        a = a - flat
    inv = im.get('invert')
    if inv in ('HORIZONTAL', 'BOTH'):
        a = a[:, ::-1]
    if inv in ('VERTICAL', 'BOTH'):
        a = a[::-1, :]
    return a


def photo(body, im, data, lat, lon, on, flat=None, nib=(0, 0, 0, 0),
          eps=1e-6):
    """Expected photo samples on a map.

    Returns dict: value (nan if nothing is to be plotted), sure (False where
    rounding could legitimately change the answer), x, z, i, k."""
    a = preprocess(im, data, flat)
    nl, ns = a.shape
    cam = Camera(body, im, ns, nl)
    x, z, depth = cam.pixel(lat, lon)
    vis, vm = cam.visibility(lat, lon)
    sure = vm > 1e-9
    l, r, t, b = nibbles(im, ns, nl, nib)
    with np.errstate(invalid='ignore'):
        fi, fk = np.floor(x), np.floor(z)
        inside = (fi >= l) & (fi < r) & (fk >= t) & (fk < b) & (depth > 0)
        near = ((np.abs(x - np.round(x)) < eps * (1 + np.abs(x)))
                | (np.abs(z - np.round(z)) < eps * (1 + np.abs(z))))
    # An uncertain pixel index matters only where the point could be inside.
    win = (x > l - 1) & (x < r + 1) & (z > t - 1) & (z < b + 1)
    sure &= ~(near & win & vis)
    sure &= ~(vis & (depth <= 1e-6 * cam.range))
    ii = np.where(inside, fi, 0).astype(int)
    kk = np.where(inside, fk, 0).astype(int)
    use = vis & inside & on
    mask = None
    if im.get('remove_sky'):
        mask, certain = body_mask(cam)
        sure &= ~(use & ~certain[kk, ii])
        use = use & mask[kk, ii]
    v = np.where(use, a[kk, ii], np.nan)
    return {'mask': mask, 'value': v, 'sure': sure, 'x': x, 'z': z, 'i': ii, 'k': kk,
            'used': use, 'cam': cam, 'image': a,
            'bounds': (l, r, t, b)}
