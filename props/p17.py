"""Grids: every requested parallel and meridian, and nothing else."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from vlib import gen, model
from vlib.common import *
from vlib.engine import Arm

ID = 'P17'
RULE = ('one case = one generated map with (or without) a grid request; the grid image is '
        'compared with densely sampled parallels and meridians projected by an independent '
        'model, both ways. Non-trivial: a grid with both marked and unmarked pixels and at '
        'least one line inside of the map')

LATI = [2.5, 5., 7.5, 10., 15., 22.5, 30., 45., 90., 60., 3.75, 18., 6.,
        3.6, 7.2, 1.8, 50., 35., 4.8, 180 / 7., 100., 170.]
LONI = [2.5, 5., 7.5, 10., 15., 22.5, 30., 45., 90., 60., 120., 180., 360., 3.75, 72., 18.,
        3.6, 7.2, 1.8, 50., 35., 4.8, 360 / 7., 100., 170., 200., 14.4, 40 / 3.]
LARGE = st.integers(100, 330)
size = st.one_of(st.integers(2, 20), st.integers(20, 80), st.integers(40, 80))


@st.composite
def cases(draw, kind, size=size):
    s = draw(gen.base(kinds=(kind,), size=size, max_f=0.35))
    if kind == 'P_STEREO':
        if s['proj'].get('max_lat') is not None:
            s['proj']['max_lat'] = max(-70., min(70., s['proj']['max_lat']))
    elif kind == 'ORTHO' and draw(st.integers(0, 5)) == 0:
        # looking at a pole, or at the equator
        s['proj'] = {'type': 'ORTHO', 'sub_lat': draw(st.sampled_from([90., -90., 0.])),
                     'sub_lon': draw(gen.lon)}
    s['planes'] = [{'kind': 'LATITUDE'}]
    s['grid'] = draw(st.sampled_from(['YES'] * 9 + ['NO', None]))
    if s['grid'] == 'YES':
        k = draw(st.integers(0, 5))
        if k == 0:
            s['grid_both'] = draw(st.sampled_from([x for x in LATI if x in LONI]))
        else:
            if k != 1:
                s['grid_lat'] = draw(st.sampled_from(LATI))
            if k != 2:
                s['grid_lon'] = draw(st.sampled_from(LONI))
    if draw(st.booleans()):
        s['data_type'] = draw(st.sampled_from(['BYTE', 'SHORT', 'FLOAT', 'DOUBLE']))
    return s


def intervals(s):
    both = s.get('grid_both')
    la = both if both is not None else s.get('grid_lat')
    lo = both if both is not None else s.get('grid_lon')
    return (10. if la is None else la), (10. if lo is None else lo)


POLES = [-90., 90.]


def lines_of(s, n=2400):
    """Arrays (x, y, step, use): continuous pixel positions of points on the
    grid lines, distance to the next point 0.18 degrees on, and whether the
    point is safely visible."""
    body = model.body_of(s)
    p = s['proj']
    ns, nl = s['samples'], s['lines']
    ilat, ilon = intervals(s)
    t = p['type']
    # Parallels are counted from the south pole; the poles themselves may be drawn or not.
    plats = [-90 + k * ilat for k in range(1, 1000) if -90 + k * ilat < 90 - 1e-6]
    plats = np.array(plats + POLES)
    # Meridians are counted from the prime meridian.
    mlons = np.array([k * ilon for k in range(1000) if k * ilon < 360 - 1e-6])
    if t != 'ORTHO':
        mlons = 360 - mlons
    if t in ('SIMPLE_C', 'MERCATOR'):
        # straight lines: positions along one axis only
        if t == 'SIMPLE_C':
            lo_lat, hi_lat = p.get('lo_lat', -90.), p.get('hi_lat', 90.)
            if p.get('lat_type') == 'GRAPHIC':
                lo_lat = float(body.graphic(lo_lat * D)) / D
                hi_lat = float(body.graphic(hi_lat * D)) / D
            opt = (np.array(POLES) - lo_lat) / (hi_lat - lo_lat) * nl
            y = (plats[:-2] - lo_lat) / (hi_lat - lo_lat) * nl
            a = model.lon_deg(p['lo_lon'], body) if 'lo_lon' in p else 0.
            b = model.lon_deg(p['hi_lon'], body) if 'hi_lon' in p else 360.
            if a > b:
                a -= 360
            elif a == b:
                b += 360
            m = np.concatenate([mlons - 720, mlons - 360, mlons, mlons + 360])
            q = (m - a) / (b - a) * ns
            x = ns - q if body.prograde else q
        else:
            opt = np.zeros(0)           # poles are infinitely far away
            y = model.mercator_x(body, body.graphic(plats[:-2] * D)) * ns / (2 * np.pi) + nl / 2.
            q = np.concatenate([[0.], mlons]) / 360 * ns
            x = ns - q if body.prograde else q
        return np.unique(x), np.unique(y), opt
    # latitude circles, then meridians (centric latitudes)
    lon = np.linspace(0, 360, n + 1)
    lat = np.linspace(-90, 90, n + 1)
    if t == 'P_STEREO':
        # resolve the neighbourhood of the far pole, which may be inside of long maps
        north = not (p.get('pole') or 'N').upper().startswith('S')
    A, B = np.meshgrid(plats, lon, indexing='ij')
    M, L = np.meshgrid(mlons, lat, indexing='ij')

    def pos(la, lo):
        la, lo = la * D, lo * D
        if t == 'P_STEREO':
            sg = 1 if north else -1
            ml = p.get('max_lat')
            tmax = model.stereo_rho(body, body.graphic(sg * ml * D) if ml is not None else 0.)
            g = np.minimum(sg * body.graphic(la), np.pi / 2)
            with np.errstate(all='ignore'):
                r = np.where(g <= -np.pi / 2 + 1e-9, 1e9,
                             model.stereo_rho(body, np.maximum(g, -np.pi / 2 + 1e-9)))
            r = r / (2 * tmax / min(ns, nl))
            r = np.minimum(r, 1e9)
            ccw = north == body.prograde
            return (r * np.sin(lo) * (1 if ccw else -1) + ns / 2.,
                    r * np.cos(lo) + nl / 2., np.ones_like(r))
        slat, slon, R, km, sc, lc = model.ortho_setup(body, p, ns, nl)
        pt = model.body_frame_point(body, la, lo, slon)
        q = pt @ R.T
        nrm = pt / np.array([body.a ** 2, body.a ** 2, body.c ** 2])
        nrm /= np.linalg.norm(nrm, axis=-1, keepdims=True)
        return q[..., 0] / km + sc, q[..., 2] / km + lc, -(nrm @ R[1])

    xs, ys, st_, vis, must = [], [], [], [], []
    # Points on meridians may be evenly spaced in either kind of latitude.
    uneven = (body.a / body.c) ** 2 if t == 'P_STEREO' else 1.
    for a, o, dens in ((A, B, 360. / 2000),
                       (L, M, 180. / 1000 if t == 'ORTHO' else 180. / 2000 * uneven)):
        if a.size == 0:
            continue
        x, y, v = pos(a, o)
        d = np.hypot(np.diff(x, axis=1), np.diff(y, axis=1))
        unit = (360. if a is A else 180.) / n
        d = np.concatenate([d, d[:, -1:]], axis=1)
        d = np.maximum(d, np.concatenate([d[:, :1], d[:, :-1]], axis=1))
        st_.append((d * dens / unit).ravel())
        xs.append(x.ravel())
        ys.append(y.ravel())
        vis.append(v.ravel())
        must.append((np.abs(a) < 90 - 1e-9).ravel() if a is A else np.ones(a.size, bool))
    return tuple(map(np.concatenate, (xs, ys, st_, vis, must)))


def check(s, ctx):
    h = run_maps(ctx, s)[s['file']]
    ns, nl = s['samples'], s['lines']
    if s['grid'] != 'YES':
        if len(h) != 1:
            raise Violation('the map has %d images although no grid was requested' % len(h))
        return 'nogrid'
    if len(h) != 2:
        raise Violation('the map has %d images, expected the map and its grid' % len(h))
    g = h[1]
    a = g.data
    if a is None or a.shape != (nl, ns):
        raise Violation('grid is %s, the map is %d samples x %d lines'
                        % (None if a is None else a.shape, ns, nl))
    if g.h.get('BITPIX') != 8:
        raise Violation('grid has BITPIX %s' % g.h.get('BITPIX'))
    a = np.asarray(a, float)
    mark = a == 255
    if not (mark | (a == 0) | np.isnan(a)).all():
        raise Violation('grid pixels hold values other than 0 and 255')
    t = s['proj']['type']
    if t in ('SIMPLE_C', 'MERCATOR'):
        x, y, opt = lines_of(s)
        cols, rows = mark.all(axis=0), mark.all(axis=1)
        # Every marked pixel belongs to a complete line or column.
        if (mark & ~(cols[None, :] | rows[:, None])).any():
            k, i = where(mark & ~(cols[None, :] | rows[:, None]))
            raise Violation('grid pixel (sample %d, line %d) is marked on its own' % (i, k))
        inside = 0
        # A map with lines in every row or column tells nothing about the other axis.
        for what, got, pos, n, ok in (('meridian', cols, x, ns, not rows.all()),
                                      ('parallel', rows, y, nl, not cols.all())):
            may = np.concatenate([pos, opt]) if what == 'parallel' else pos
            if not ok:
                continue
            c = np.arange(n) + 0.5
            near = (np.abs(c[:, None] - may[None, :]).min(axis=1) if len(may)
                    else np.full(n, np.inf))
            bad = got & (near > 1.0 + 1e-6)
            if bad.any():
                raise Violation('%s drawn at pixel %d although the nearest one is %.3f pixels '
                                'away' % (what, where(bad)[0], near[bad][0]))
            for q in pos[(pos > 1e-6) & (pos < n - 0.5 - 1e-6)]:
                inside += 1
                if not (got & (np.abs(c - q) <= 1.0 + 1e-6)).any():
                    raise Violation('no %s is drawn near %.3f of %d pixels' % (what, q, n))
        nt = inside and mark.any() and not mark.all()
        return t if nt else None
    x, y, step, vis, must = lines_of(s)
    LIM = 0.02
    cand = (x > -3) & (x < ns + 3) & (y > -3) & (y < nl + 3)
    k, i = np.nonzero(mark)
    m = np.stack([i + .5, k + .5], 1)
    u = cand & (vis > -LIM)
    L = np.stack([x[u], y[u]], 1)
    if len(m):
        if not len(L):
            raise Violation('grid pixel (sample %d, line %d) is marked but no line crosses the '
                            'map' % (i[0], k[0]))
        d, j = cKDTree(L).query(m, p=np.inf)
        bad = d > 1.0 + 0.01 + 0.5 * step[u][j]
        if bad.any():
            b = int(np.argmax(bad))
            raise Violation('grid pixel (sample %d, line %d) is marked, the nearest line is '
                            '%.3f pixels away' % (i[b], k[b], d[b]))
    w = (x > 0.01) & (x < ns - .51) & (y > 0.01) & (y < nl - .51) & (vis > LIM)
    w &= (step < 1.) & must
    L, sp = np.stack([x[w], y[w]], 1), step[w]
    if len(L):
        if not len(m):
            raise Violation('no grid pixel is marked but a line passes sample %.2f, line %.2f'
                            % tuple(L[0]))
        d, _ = cKDTree(m).query(L, p=np.inf)
        # the program draws points, not curves
        bad = d > 1.0 + 0.01 + 0.5 * sp
        if bad.any():
            b = int(np.argmax(bad))
            raise Violation('a grid line passes (%.3f, %.3f) but the nearest marked pixel is '
                            '%.3f pixels away' % (L[b][0], L[b][1], d[b]))
    return t if len(L) and len(m) and not mark.all() else None


ARMS = [Arm('simple', cases('SIMPLE_C'), check, n=2000, thorough=60000),
        Arm('mercator', cases('MERCATOR'), check, n=1000, thorough=30000),
        Arm('stereo', cases('P_STEREO'), check, n=900, thorough=30000),
        Arm('ortho', cases('ORTHO'), check, n=900, thorough=30000),
        Arm('large-stereo', cases('P_STEREO', LARGE), check, n=40, thorough=1500),
        Arm('large-ortho', cases('ORTHO', LARGE), check, n=60, thorough=1500)]
