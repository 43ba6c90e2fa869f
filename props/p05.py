import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model
from vlib.common import *

ID = 'P05'
RULE = ('one case = one generated map (any projection) with 1-4 virtual planes '
        '(LATITUDE, LONGITUDE, MU, MU0, PHASE with random observer, sun and range); '
        'every pixel is compared with vector geometry on the spheroid. zoom: windows of '
        '1e-5 to 10 degrees at the poles, the prime meridian, the equator, below the observer or '
        'the sun and at the limb. Non-trivial: '
        'at least 4 plotted pixels compared and at least one cosine plane')


@st.composite
def cases(draw, big=False):
    s = draw(gen.base(size=st.one_of(st.integers(1, 12), st.integers(1, 50))))
    s['planes'] = draw(st.lists(gen.virtual(s['body']['a']), min_size=1, max_size=4))
    return s


@st.composite
def colocated(draw):
    """Observer, sun and map pixel centre coincide or are antipodal."""
    n = draw(st.integers(1, 9))
    b = draw(gen.body())
    la, lo = draw(gen.lat_in), draw(gen.lon)
    half = 5.
    s = {'file': 'm.fits', 'body': b, 'data_type': 'DOUBLE', 'planes_kw': True,
         'samples': n, 'lines': n,
         'proj': {'type': 'SIMPLE_C', 'lo_lat': max(-90., la - half),
                  'hi_lat': min(90., la + half),
                  'lo_lon': (lo - half) % 360, 'hi_lon': (lo + half) % 360}}
    if draw(st.booleans()):
        la, lo = -la, (lo + 180) % 360
    # The surface normal points at planetographic latitude.
    lag = la
    if draw(st.booleans()):
        body = model.Body(b['a'], b['c'], True)
        lag = float(body.graphic(la * D)) / D
    rng = b['a'] * draw(st.sampled_from([2., 50., 1e6]))
    s['planes'] = [{'kind': 'MU', 'sub_lat': la, 'sub_lon': lo, 'range': rng},
                   {'kind': 'MU0', 'sun_lat': lag, 'sun_lon': lo},
                   {'kind': 'PHASE', 'sub_lat': la, 'sub_lon': lo, 'range': rng,
                    'sun_lat': draw(st.sampled_from([la, -la])),
                    'sun_lon': draw(st.sampled_from([lo, (lo + 180) % 360]))}]
    return s


@st.composite
def zoom(draw):
    """Small windows at the poles, the prime meridian, below the observer or the sun, at the
    limb and the terminator."""
    b = draw(gen.body())
    w = draw(st.integers(10, 99)) / 10. * 10. ** draw(st.integers(-5, 0))
    place = draw(st.sampled_from(['pole', 'meridian', 'observer', 'sun', 'limb', 'equator']))
    sub = draw(gen.lat_in), draw(gen.lon)
    sun = draw(gen.lat_in), draw(gen.lon)
    rng = b['a'] * draw(st.sampled_from([1.05, 1.5, 4., 50., 3000., 1e6]))
    la, lo = draw(gen.lat_in), draw(gen.lon)
    if place == 'pole':
        la = draw(st.sampled_from([-90., 90.])) + draw(gen.fl(-1, 1)) * w
    elif place == 'meridian':
        lo = draw(gen.fl(-1, 1)) * w
    elif place == 'observer':
        la, lo = sub
    elif place == 'sun':
        la, lo = sun
    elif place == 'equator':
        la = draw(gen.fl(-1, 1)) * w
    elif place == 'limb':
        p = draw(st.sampled_from([sub, sun]))
        la = 0.
        lo = p[1] + draw(st.sampled_from([90., -90.]))
    lo_lat, hi_lat = max(-90., la - w), min(90., la + w)
    if hi_lat - lo_lat < w / 10:
        lo_lat, hi_lat = (90 - w, 90.) if la > 0 else (-90., w - 90)
    n = draw(st.integers(1, 9))
    s = {'file': 'm.fits', 'body': b, 'data_type': 'DOUBLE', 'planes_kw': True,
         'samples': n, 'lines': draw(st.integers(1, 9)),
         'proj': {'type': 'SIMPLE_C', 'lo_lat': lo_lat, 'hi_lat': hi_lat,
                  'lo_lon': (lo - w) % 360, 'hi_lon': (lo + w) % 360}}
    s['planes'] = [{'kind': 'MU', 'sub_lat': sub[0], 'sub_lon': sub[1], 'range': rng},
                   {'kind': 'MU0', 'sun_lat': sun[0], 'sun_lon': sun[1]},
                   {'kind': 'PHASE', 'sub_lat': sub[0], 'sub_lon': sub[1], 'range': rng,
                    'sun_lat': sun[0], 'sun_lon': sun[1]},
                   {'kind': 'LATITUDE', 'lat_type': draw(st.sampled_from(['GRAPHIC', 'CENTRIC']))},
                   {'kind': 'LONGITUDE'}]
    s['place'] = place
    return s


def check_zoom(case, ctx):
    h = run_maps(ctx, case)[case['file']]
    n = compare(case, h[0])
    return case['place'] if n >= 4 else None


def compare(s, h, tol=1e-9):
    body = model.body_of(s)
    p = planes_of(h, len(s['planes']))
    sure = np.ones((s['lines'], s['samples']), bool)
    cond = 1.
    if s['proj']['type'] == 'ORTHO':
        lat, lon, on, margin = model.ortho(body, s['proj'], s['samples'],
                                           s['lines'], full=True)
        R = max(body.a, body.c)
        sure = np.abs(margin) > 1e-9 * R * R
        cond = 1 + 1 / np.sqrt(np.maximum(np.abs(margin) / R ** 2, 1e-12))
    else:
        lat, lon, on = model.project(s)
    n = 0
    for got, pl in zip(p, s['planes']):
        ex = model.plane_values(body, pl, lat, lon)
        blank = np.isnan(got)
        bad = (blank == on) & sure
        if bad.any():
            k, i = where(bad)
            raise Violation('%s: pixel (sample %d, line %d) is %s (expected value %.17g)'
                            % (pl['kind'], i, k, 'blank' if blank[k, i] else
                               'plotted off the body', ex[k, i]))
        if pl['kind'] == 'LONGITUDE':
            e = angdiff(got, ex) * np.minimum(1, np.abs(np.cos(lat)))
            t = 1e-8 * cond
            e = np.where(np.abs(np.cos(lat)) > 1e-7, e, 0)
        elif pl['kind'] == 'LATITUDE':
            e, t = np.abs(got - ex), 2e-8 * cond
        else:
            e, t = np.abs(got - ex), tol * cond
        bad = on & sure & ~(e <= t)
        if bad.any():
            k, i = where(bad)
            raise Violation('%s at (sample %d, line %d; lat %.9g, lon %.9g) is %.12g, '
                            'expected %.12g' % (pl['kind'], i, k, lat[k, i] / D,
                                                np.mod(lon[k, i] / D, 360), got[k, i], ex[k, i]))
        n += int((on & sure).sum())
    return n


def check(case, ctx):
    h = run_maps(ctx, case)[case['file']]
    n = compare(case, h[0])
    kinds = sorted(set(p['kind'] for p in case['planes']))
    if n < 4 or not set(kinds) & {'MU', 'MU0', 'PHASE'}:
        return None
    return case['proj']['type'] + '/' + ('pro' if case['body']['prograde'] else 'retro')


ARMS = [Arm('planes', cases(), check, n=6000, thorough=150000),
        Arm('zoom', zoom(), check_zoom, n=2500, thorough=50000),
        Arm('colocated', colocated(), check, n=2000, thorough=40000)]
