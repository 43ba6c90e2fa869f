"""Shared by P01-P04: compare LATITUDE/LONGITUDE planes with the model."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, model
from vlib.common import *

PLANES = [{'kind': 'LATITUDE'}, {'kind': 'LONGITUDE'},
          {'kind': 'LATITUDE', 'lat_type': 'GRAPHIC'}]


def check(case, ctx, tol=1e-8):
    s = dict(case, planes=PLANES)
    h = run_maps(ctx, s)[s['file']]
    p = planes_of(h[0], 3)
    if p.shape[1:] != (s['lines'], s['samples']):
        raise Violation('map is %s pixels' % (p.shape,))
    body = model.body_of(s)
    sure = None
    if s['proj']['type'] == 'ORTHO':
        lat, lon, on, margin = model.ortho(body, s['proj'], s['samples'],
                                           s['lines'], full=True)
        R = max(body.a, body.c)
        sure = np.abs(margin) > 1e-9 * R * R
        # Near the limb the intersection is ill conditioned.
        tol_arr = tol * (1 + 1 / np.sqrt(np.maximum(np.abs(margin) / R ** 2, 1e-12)))
        check_latlon(p[:2], s, lat, lon, on, sure, tol_arr, tol_arr)
    else:
        lat, lon, on = model.project(s)
        check_latlon(p[:2], s, lat, lon, on, None, tol, tol)
    return s, p, lat, lon, on, sure
