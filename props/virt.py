"""Shared by P06-P08: model values of virtual planes on a map."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, model
from vlib.common import *

LIM = {'LATITUDE': (-90., 90.), 'LONGITUDE': (0., 360.), 'MU': (-1., 1.),
       'MU0': (-1., 1.), 'PHASE': (-1., 1.)}
BITS = {'BYTE': 8, 'SHORT': 16, 'LONG': 32, 'LONGLONG': 64, 'FLOAT': -32, 'DOUBLE': -64}


def geometry(s):
    """lat, lon, on (projection plots here), sure, cond."""
    body = model.body_of(s)
    if s['proj']['type'] == 'ORTHO':
        lat, lon, on, margin = model.ortho(body, s['proj'], s['samples'],
                                           s['lines'], full=True)
        R = max(body.a, body.c)
        sure = np.abs(margin) > 1e-9 * R * R
        cond = 1 + 1 / np.sqrt(np.maximum(np.abs(margin) / R ** 2, 1e-12))
        return lat, lon, on, sure, cond
    lat, lon, on = model.project(s)
    return lat, lon, on, np.ones(lat.shape, bool), np.ones(lat.shape)


def plane_scales(h, s):
    """[(bscale, bzero)] per plane as recorded in the file."""
    n = len(s['planes'])
    dt = s['data_type']
    if BITS[dt] < 0:
        for k in ('BSCALE', 'BZERO'):
            if k in h.h and h.h[k] != (1 if k == 'BSCALE' else 0):
                raise Violation('floating point map has a %s card: %r' % (k, h.h[k]))
        return [(1., 0.)] * n
    if n == 1:
        if s['planes'][0]['kind'] == 'IMAGE':
            return [(float(h.h.get('BSCALE', 1)), float(h.h.get('BZERO', 0)))]
        if 'BSCALE' not in h.h or 'BZERO' not in h.h:
            raise Violation('BSCALE/BZERO cards missing in an integer map of a '
                            'virtual plane')
        return [(float(h.h['BSCALE']), float(h.h['BZERO']))]
    out = [(1., 0.)] * n
    cur, got = None, {}
    for t in h.texts('HISTORY'):
        w = t.split()
        if len(w) >= 3 and w[0] == 'Plane' and w[2].startswith('charact'):
            cur = int(w[1])
            if not 1 <= cur <= n or cur in got:
                raise Violation('bad plane number in HISTORY card %r' % t)
            got[cur] = {}
        elif cur and len(w) == 2 and w[0] in ('BSCALE:', 'BZERO:'):
            got[cur][w[0]] = float(w[1])
    for i, p in enumerate(s['planes']):
        if p['kind'] == 'IMAGE':
            continue
        g = got.get(i + 1, {})
        if set(g) != {'BSCALE:', 'BZERO:'}:
            raise Violation('scale and offset of plane %d are not recorded in '
                            'the map file' % (i + 1))
        out[i] = (g['BSCALE:'], g['BZERO:'])
    return out


def expected(body, pl, lat, lon, on, sure, cond, data_type, scale):
    """(physical values, to be plotted, not affected by rounding) of a virtual
    plane with its limits."""
    ex = model.plane_values(body, pl, lat, lon)
    nlo, nhi = LIM[pl['kind']]
    lo = pl['data_min'] if pl.get('data_min') is not None else nlo
    hi = pl['data_max'] if pl.get('data_max') is not None else nhi
    eps = (scale if BITS[data_type] > 0 else 0.) * 1.001 + 1e-7 * cond
    if data_type == 'FLOAT':
        eps = eps + 1e-6 * (nhi - nlo)
    ok = sure
    if pl['kind'] == 'LONGITUDE':
        eps = eps / np.maximum(np.abs(np.cos(lat)), 1e-3)
        ok = sure & (np.abs(np.cos(lat)) > 1e-3)
    near = np.zeros_like(ok)
    if lo > nlo:
        near |= np.abs(ex - lo) <= eps
    if hi < nhi:
        near |= np.abs(ex - hi) <= eps
    if pl['kind'] == 'LONGITUDE':
        near |= (ex < eps) | (ex > 360 - eps)
    want = on & (ex >= lo) & (ex <= hi)
    want |= on & (lo <= nlo) & (hi >= nhi)
    return ex, want, ok & ~near
