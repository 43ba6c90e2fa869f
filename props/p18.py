"""Map files: valid, complete, described by their header; write faults reported."""
import os, re
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, img, spec, fits, run, model
from vlib.common import *
from props import p15

ID = 'P18'
RULE = ('header: generated maps (projections, 1-5 planes, sizes from one pixel, data types, blank '
        'values, texts of printable characters up to 150 long, photos with header texts of '
        'their own) read back by an independent strict FITS reader: structure, checksums, '
        'dimensions, type, texts, notes, blank value, order and values of the planes. fault: the '
        'output file cannot grow beyond a generated size, its directory does not exist, or '
        'its name is that of a directory; status zero if and only if the complete file has been '
        'written. inherit: maps of 1-5 planes, some of them photos of different files whose headers have '
        'or lack texts and blank values: the map has those given in the input, or else those of the '
        'first photo that has them. Non-trivial: inherit: at least two photos; header: more than one pixel or plane, or any text; fault: always')

PROJ = {'SIMPLE_C': 'Simple Cylindrical', 'MERCATOR': 'Mercator',
        'P_STEREO': 'Polar Stereographic', 'ORTHO': 'Orthographic'}
printable = st.characters(min_codepoint=0x20, max_codepoint=0x7e)
text = st.one_of(st.text(printable, min_size=1, max_size=30),
                 st.text(printable, min_size=60, max_size=150),
                 st.text(printable, min_size=1, max_size=150),
                 st.sampled_from(["O'Hara", "it''s", 'a = b', '# no comment', 'x / y', ': :',
                                  'MAP: other.fits', 'END', '&', 'trailing   ', 'T', '3.5'])
                 ).map(lambda s: s if s.strip() else 'x' + s)
name = st.from_regex(r"[A-Za-z][A-Za-z0-9_'.()+-]{0,25}", fullmatch=True)
dims = st.one_of(st.integers(1, 4), st.integers(1, 30), st.integers(1, 120))


@st.composite
def header_cases(draw):
    s = draw(p15.valid())
    ns, nl = draw(dims), draw(dims)
    if s['proj']['type'] == 'MERCATOR':
        nl = min(nl, 6 * ns)
    if s['proj']['type'] != 'ORTHO':
        s['samples'], s['lines'] = ns, nl
    s.pop('author', None)
    s.pop('comments', None)
    s['body']['name'] = draw(name)
    for k in ('author', 'origin'):
        if draw(st.booleans()):
            s[k] = draw(text)
    s['comments'] = draw(st.lists(text, max_size=3))
    s['xcomments'] = draw(st.lists(text, max_size=2))
    kinds = [p['kind'] for p in s['planes']]
    if 'IMAGE' not in kinds:
        extra = draw(st.lists(gen.virtual(s['body']['a']), max_size=draw(
            st.sampled_from([3, 3, 3, 3, 11]))))
        s['planes'] += extra
        for p in s['planes']:
            p.pop('data_min', None)
            p.pop('data_max', None)
    else:
        s['psrc'] = {'bitpix': draw(st.sampled_from([8, 16, 32, 64, -32, -64])),
                     'author': draw(st.one_of(st.none(), name)),
                     'origin': draw(st.one_of(st.none(), name)),
                     'object': draw(st.one_of(st.none(), name))}
        if kinds == ['IMAGE'] and len(s['planes'][0]['images']) == 1 and draw(st.booleans()):
            s['data_type'] = None
            s.pop('blank', None)
    return s


def squeeze(t):
    return re.sub(r'\s+', '', t)


def check_text(h, key, want):
    got = h.h.get(key)
    if want is None:
        if got is not None:
            raise Violation('%s is %r although none was given' % (key, got))
        return
    want = want.strip()
    if got is None:
        raise Violation('%s is missing, expected %r' % (key, want))
    if str(got).strip() == want:
        return
    # A string value fits on one card: 68 characters, quotes are doubled.
    g = str(got).strip()
    if not (want.startswith(g) and len(g.replace("'", "''")) >= 60):
        raise Violation('%s is %r, expected %r' % (key, got, want))


def check_comments(h, want, what):
    got = [t for t in h.texts('COMMENT')
           if 'FITS (Flexible Image' not in t and 'Astrophysics' not in t]
    a, b = squeeze(''.join(got)), squeeze(''.join(want))
    if a != b:
        raise Violation('%s comments are %r, expected %r' % (what, got, want))


def check_structure(hdus):
    for i, h in enumerate(hdus):
        e = fits.verify_checksums(h)
        if e:
            raise Violation('HDU %d: %s' % (i, e))


def check_header(s, ctx):
    d = ctx.fresh()
    src = s.get('psrc')
    if src:
        extra = [(k.upper(), src[k]) for k in ('author', 'origin', 'object') if src[k]]
        img.writer(s['photo'], src['bitpix'], extra)(os.path.join(d, 'p.fits'))
        img.writer(dict(s['photo'], base=0, mul=0), -64)(os.path.join(d, 'f.fits'))
    r = run.marc(ctx.fast, spec.render(s), d, timeout=60)
    if r.timeout or r.crashed:
        raise Violation('marc crashed or did not terminate: %s' % r.tail())
    if r.rc != 0:
        if s['proj'].get('lat_at_center') is not None or any(
                im.get('lat_at_center') is not None
                for p in s['planes'] for im in p.get('images', ())):
            return None         # the requested centre may be invisible
        raise Violation('status %d on a valid input: %s' % (r.rc, r.tail()))
    path = os.path.join(d, s['file'])
    try:
        hdus = fits.read(path)
    except FileNotFoundError:
        raise Violation('status 0 but the map has not been written')
    except fits.FitsError as e:
        raise Violation('not a valid FITS file: %s' % e)
    check_structure(hdus)
    h = hdus[0]
    grid = s.get('grid') == 'YES'
    if len(hdus) != 1 + grid:
        raise Violation('%d HDUs, expected %d' % (len(hdus), 1 + grid))
    n = len(s['planes'])
    a = planes_of(h, n)
    if a.shape[1:] != (s['lines'], s['samples']):
        raise Violation('%d x %d pixels, expected %d samples and %d lines' % (
            a.shape[2], a.shape[1], s['samples'], s['lines']))
    want = spec.TYPES[s['data_type']] if s['data_type'] else src['bitpix']
    if h.h['BITPIX'] != want:
        raise Violation('BITPIX is %d, expected %d' % (h.h['BITPIX'], want))
    check_text(h, 'OBJECT', s['body']['name'])
    for k in ('author', 'origin'):
        w = s.get(k)
        if w is None and src:
            w = src[k]
        check_text(h, k.upper(), w)
    check_comments(h, s['comments'], 'map')
    for x in hdus:
        if not str(x.h.get('CREATOR')).startswith('MaRC') or \
                not re.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', str(x.h.get('DATE'))):
            raise Violation('CREATOR is %r and DATE is %r' % (x.h.get('CREATOR'),
                                                              x.h.get('DATE')))
    if want > 0 and n == 1 and s['planes'][0]['kind'] != 'IMAGE':
        w = 'deg' if s['planes'][0]['kind'] in ('LATITUDE', 'LONGITUDE') else None
        if h.h.get('BUNIT') != w:
            raise Violation('BUNIT of a %s map is %r, expected %r' % (
                s['planes'][0]['kind'], h.h.get('BUNIT'), w))
    if not any(PROJ[s['proj']['type']] in t for t in h.texts('HISTORY')):
        raise Violation('no HISTORY card names the %s projection: %r' % (
            PROJ[s['proj']['type']], h.texts('HISTORY')))
    if want > 0:
        if s.get('blank') is not None and h.h.get('BLANK') != s['blank']:
            raise Violation('BLANK is %r, expected %d' % (h.h.get('BLANK'), s['blank']))
    elif 'BLANK' in h.h:
        raise Violation('BLANK card in a floating point map')
    if grid:
        g = hdus[1]
        if g.data is None or g.data.shape != (s['lines'], s['samples']):
            raise Violation('the grid does not have the dimensions of the map')
        check_comments(g, s['xcomments'], 'grid')
        if not any(PROJ[s['proj']['type']] in t for t in g.texts('HISTORY')):
            raise Violation('no HISTORY card of the grid names the projection')
        got = g.h.get('EXTNAME'), g.h.get('BLANK'), g.h.get('DATAMIN'), g.h.get('DATAMAX')
        if got != ('GRID', 0, 255, 255):
            raise Violation('EXTNAME, BLANK, DATAMIN, DATAMAX of the grid are %r' % (got,))
    # values, in order (limits are the subject of P07, photos of P09)
    if not src and want < 0:
        body = model.body_of(s)
        margin = None
        if s['proj']['type'] == 'ORTHO':
            lat, lon, on, margin = model.ortho(body, s['proj'], s['samples'], s['lines'],
                                               full=True)
            R = max(body.a, body.c)
            use = margin > 1e-4 * R * R
        else:
            lat, lon, on = model.project(s)
            use = on
        use = use & (np.abs(np.cos(lat)) > 1e-3)
        tol = 1e-3 if want == -32 else 1e-5
        for j, p in enumerate(s['planes']):
            v = model.plane_values(body, p, lat, lon)
            e = angdiff(a[j], v) if p['kind'] == 'LONGITUDE' else np.abs(a[j] - v)
            lim = tol if p['kind'] in ('LATITUDE', 'LONGITUDE') else 2e-6
            if body.c / body.a < 1e-2:
                continue
            # values at the very end of the plane's range may be excluded by rounding
            end = np.abs(np.abs(v) - (90 if p['kind'] == 'LATITUDE' else 1)) < 1e-6
            if p['kind'] == 'LONGITUDE':
                end = (np.abs(v) < 1e-4) | (np.abs(v - 360) < 1e-4)
            bad = use & ~end & ~(e <= lim)
            if bad.any():
                k, i = where(bad)
                raise Violation('plane %d of %d (%s) holds %.9g at (sample %d, line %d), '
                                'expected %.9g' % (j + 1, n, p['kind'], a[j][k, i], i, k,
                                                   v[k, i]))
    if s['samples'] * s['lines'] * n == 1 and not s['comments'] and not s.get('author'):
        return None
    return '%s/%d%s' % (s['data_type'], n, '+grid' if grid else '')


# ------------------------------------------------------------------ faults

@st.composite
def fault_cases(draw):
    big = st.one_of(st.integers(1, 20), st.integers(20, 90), st.integers(90, 160))
    maps = []
    for j in range(draw(st.sampled_from([1, 1, 2]))):
        s = {'file': 'm%d.fits' % j, 'body': draw(gen.body(0.3)),
             'data_type': draw(st.sampled_from(['BYTE', 'SHORT', 'LONG', 'FLOAT', 'DOUBLE'])),
             'proj': {'type': draw(st.sampled_from(['SIMPLE_C', 'SIMPLE_C', 'ORTHO']))},
             'samples': draw(big), 'lines': draw(big), 'planes_kw': True,
             'planes': [{'kind': 'LATITUDE'}] * draw(st.integers(1, 3)),
             'comments': ['c'] * draw(st.sampled_from([0, 3, 40]))}
        if draw(st.booleans()):
            s['grid'] = 'YES'
        maps.append(s)
    f = draw(st.sampled_from(['limit'] * 6 + ['nodir', 'isdir', 'none']))
    c = {'maps': maps, 'fault': f, 'which': draw(st.integers(0, len(maps) - 1)),
         'stale': draw(st.booleans())}
    if f == 'limit':
        c['frac'] = draw(st.one_of(st.floats(0, 1.1), st.floats(0.9, 1.01)))
        c['less'] = draw(st.sampled_from([None, None, 0, 1, 5, 100, 2880, 2881, 4096]))
    return c


def check_fault(case, ctx):
    maps = [dict(s) for s in case['maps']]
    d = ctx.fresh()
    r = run.marc(ctx.fast, spec.render(*maps), d, timeout=60)
    if r.rc != 0:
        raise Violation('status %d on a valid input: %s' % (r.rc, r.tail()))
    ref = [fits.read(os.path.join(d, s['file'])) for s in maps]
    sizes = [os.path.getsize(os.path.join(d, s['file'])) for s in maps]
    d = ctx.fresh()
    bad, fsize = set(), None
    w = case['which']
    f = case['fault']
    if f == 'limit':
        fsize = int(case['frac'] * sizes[w]) if case['less'] is None else \
            max(0, sizes[w] - case['less'])
        bad = {j for j in range(len(maps)) if sizes[j] > fsize}
    elif f == 'nodir':
        maps[w]['file'] = 'nodir/m.fits'
        bad = {w}
    elif f == 'isdir':
        os.mkdir(os.path.join(d, maps[w]['file']))
        bad = {w}
    if case['stale']:
        for j in range(len(maps)):
            if j not in bad:
                fits.write(os.path.join(d, maps[j]['file']), np.arange(5000.).reshape(50, 100))
    r = run.marc(ctx.fast, spec.render(*maps), d, timeout=60, fsize=fsize)
    how = '%s%s' % (f, '' if fsize is None else ' of %d bytes, complete files need %s' % (
        fsize, sizes))
    if r.timeout or r.crashed:
        raise Violation('%s: marc crashed or did not terminate: %s' % (how, r.tail()))
    if bad:
        if r.rc == 0:
            raise Violation('%s: status 0 although map %d could not be written'
                            % (how, min(bad) + 1))
        if not p15.message(r):
            raise Violation('%s: status %d without any error message' % (how, r.rc))
        return f
    if r.rc != 0:
        raise Violation('%s: status %d: %s' % (how, r.rc, r.tail()))
    for j, s in enumerate(maps):
        try:
            h = fits.read(os.path.join(d, s['file']))
        except (FileNotFoundError, fits.FitsError) as e:
            raise Violation('%s: status 0 but %s: %s' % (how, s['file'], e))
        if [x.raw_data for x in h] != [x.raw_data for x in ref[j]]:
            raise Violation('%s: status 0 but the data of %s are different' % (how, s['file']))
        check_structure(h)
    return f + '-ok'


# ------------------------------------------------------------------ texts of the photos

@st.composite
def inherit_cases(draw):
    s = draw(gen.base(size=st.integers(1, 6), max_f=0.3, data_type='LONG'))
    word = st.one_of(st.none(), st.sampled_from(['alpha', 'beta b', "O'Hara"]), name)
    s['planes'], s['src'] = [], []
    for j in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 3)) == 0:
            s['planes'].append({'kind': 'LATITUDE'})
            continue
        im = draw(gen.image(s['body'], 5, 5, name='p%d.fits' % len(s['src'])))
        s['planes'].append({'kind': 'IMAGE', 'images': [im]})
        s['src'].append({'author': draw(word), 'origin': draw(word), 'object': draw(word),
                         'bitpix': draw(st.sampled_from([8, 16, 32, -32])),
                         'blank': draw(st.one_of(st.none(), st.integers(40, 45)))})
    s['body']['name'] = draw(name)
    for k in ('author', 'origin'):
        if draw(st.integers(0, 2)) == 0:
            s[k] = draw(name)
    if draw(st.integers(0, 3)) == 0:
        s['blank'] = draw(st.integers(-3, 3))
    return s


def check_inherit(s, ctx):
    d = ctx.fresh()
    for j, q in enumerate(s['src']):
        extra = [(k.upper(), q[k]) for k in ('author', 'origin', 'object') if q[k]]
        if q['blank'] is not None and q['bitpix'] > 0:
            extra.append(('BLANK', q['blank']))
        img.writer({'ns': 5, 'nl': 5, 'mod': 0, 'mul': 1, 'base': 1}, q['bitpix'], extra)(
            os.path.join(d, 'p%d.fits' % j))
    r = run.marc(ctx.fast, spec.render(s), d, timeout=60)
    if r.timeout or r.crashed:
        raise Violation('marc crashed or did not terminate: %s' % r.tail())
    if r.rc != 0:
        return None             # a requested centre may be invisible
    h = fits.read(os.path.join(d, s['file']))[0]

    def first(k, ok=lambda q: True):
        return next((q[k] for q in s['src'] if q[k] is not None and ok(q)), None)
    for k in ('author', 'origin'):
        check_text(h, k.upper(), s.get(k, first(k)))
    check_text(h, 'OBJECT', s['body']['name'])
    w = s.get('blank', first('blank', lambda q: q['bitpix'] > 0))
    if w is not None and h.h.get('BLANK') != w:
        raise Violation('BLANK is %r, expected %r' % (h.h.get('BLANK'), w))
    return '%d photos' % len(s['src']) if len(s['src']) > 1 else None


ARMS = [Arm('header', header_cases(), check_header, n=4000, thorough=100000),
        Arm('fault', fault_cases(), check_fault, n=1200, thorough=20000),
        Arm('inherit', inherit_cases(), check_inherit, n=1500, thorough=40000)]
