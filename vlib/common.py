"""Helpers shared by the property modules."""
import os
import numpy as np
from vlib import fits, model, run, spec
from vlib.engine import Violation

D = np.pi / 180


def run_maps(ctx, *specs, exe=None, config=None, text=None, expect=0, timeout=120,
             files=None, fresh=True):
    """Run marc on the rendered specs; returns {file name: [HDU, ...]}."""
    d = ctx.fresh() if fresh else ctx.dir
    for n, w in (files or {}).items():
        w(os.path.join(d, n))
    t = spec.render(*specs) if text is None else text
    r = run.marc(exe or ctx.fast, t, d, config=config, timeout=timeout)
    ctx.last = r
    if r.timeout:
        raise Violation('marc did not terminate within %d s' % timeout)
    if r.crashed:
        raise Violation('marc was killed by signal %d: %s' % (r.signal, r.tail()))
    if expect is not None and r.rc != expect:
        raise Violation('marc exited with status %d instead of %s on a valid '
                        'input: %s' % (r.rc, expect, r.tail()))
    out = {}
    for s in specs:
        try:
            out[s['file']] = fits.read(os.path.join(d, s['file']))
        except FileNotFoundError:
            raise Violation('map file %s was not written: %s' % (s['file'], r.tail()))
        except fits.FitsError as e:
            raise Violation('map file is not a valid FITS file: %s' % e)
    return out


def planes_of(h, nplanes):
    a = h.data
    if a is None:
        raise Violation('primary image is empty')
    if a.ndim == 2:
        a = a[None]
    if a.shape[0] != nplanes:
        raise Violation('map has %d planes, %d requested' % (a.shape[0], nplanes))
    return a


def angdiff(a, b):
    return np.abs((a - b + 180.) % 360. - 180.)


def where(mask):
    k = np.argwhere(mask)
    return tuple(int(x) for x in k[0])


def check_latlon(p, s, lat, lon, on, sure=None, tol_lat=1e-8, tol_lon=1e-8):
    """Compare stored centric latitude/longitude planes against the model."""
    body = model.body_of(s)
    if sure is None:
        sure = np.ones_like(on)
    got_lat, got_lon = p
    blank = np.isnan(got_lat)
    bad = (blank == on) & sure
    if bad.any():
        k, i = where(bad)
        raise Violation('pixel (sample %d, line %d) is %s but should %sbe plotted'
                        % (i, k, 'blank' if blank[k, i] else 'plotted',
                           '' if on[k, i] else 'not '))
    use = on & sure
    e = np.abs(got_lat - lat / D)
    bad = use & ~(e <= tol_lat)
    if bad.any():
        k, i = where(bad)
        raise Violation('latitude at (sample %d, line %d) is %.12g, expected %.12g'
                        % (i, k, got_lat[k, i], lat[k, i] / D))
    # Longitude is undefined at the poles.
    c = np.abs(np.cos(lat))
    e = angdiff(got_lon, lon / D) * np.minimum(1, c)
    bad = use & (c > 1e-7) & ~(e <= tol_lon)
    if bad.any():
        k, i = where(bad)
        raise Violation('longitude at (sample %d, line %d) is %.12g, expected %.12g'
                        % (i, k, got_lon[k, i], np.mod(lon[k, i] / D, 360)))
    bad = use & ~((got_lon >= 0) & (got_lon <= 360))
    if bad.any():
        k, i = where(bad)
        raise Violation('longitude %.17g at (sample %d, line %d) is outside of '
                        '[0, 360]' % (got_lon[k, i], i, k))
