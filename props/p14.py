import copy, math
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img, spec, fits
from vlib.common import *
from props import virt

ID = 'P14'
RULE = ('one case = one generated map (virtual planes and/or a photo) written twice: plainly, and '
        'with randomly chosen equivalent notations (radii/flattening, N/S, C/G, E/W, CW/CCW, '
        'KM/AU, negative angles, defaults written out, keyword synonyms and order, letter case, '
        'blank lines, comments, photo compressed as a whole or by tiles, in an '
        'extension, of another data type); both runs must give the same pixels up to '
        'rounding of the converted numbers. Non-trivial: at least one notation changed and at '
        'least one pixel plotted; classes by kind of planes')


class Vary:
    def __init__(self, draw, body):
        self.draw, self.body, self.used = draw, model.Body(body['a'], body['c'],
                                                           body['prograde']), []

    def pick(self, *opts):
        return self.draw(st.sampled_from(opts))

    def lat(self, v):
        h = 'NS'[v < 0]
        k = self.pick('', h, h, 'C', 'G', h + 'C', h + 'G')
        if not k:
            return v
        self.used.append('lat' + k)
        x = v
        if 'G' in k:
            if abs(v) == 90:
                x = v
            else:
                x = math.degrees(float(self.body.graphic(math.radians(v))))
        if 'S' in k:
            x = -x
        return [x, k]

    def lon(self, v, exact=False, k=None):
        """Same angle; with `exact` the same number in [0, 360)."""
        if exact and v % 360 == 0:
            return v
        k = k or self.pick('', 'E', 'W', '-', '-E', '-W')
        if not k:
            return v
        self.used.append('lon' + k)
        x = v
        own = 'W' if self.body.prograde else 'E'
        if k[-1] in 'EW' and k[-1] != own:
            x = 360 - v
        if '-' in k:
            x = x - 360
        return [x, k.replace('-', '')] if k != '-' else x

    def pa(self, v):
        k = self.pick('', 'CW', 'CCW', '-')
        if not k:
            return v
        self.used.append('pa' + k)
        if k == 'CW':
            return [-v, ['CW']]
        if k == 'CCW':
            return [v, ['CCW']]
        return v - 360 if v > 0 else v + 360

    def range(self, v):
        k = self.pick('', 'KM', 'AU', 'expr')
        if not k:
            return v
        self.used.append('range' + k)
        if k == 'AU':
            return [v / model.AU, ['AU']]
        if k == 'expr':
            return '(%r + 1) - 1' % v
        return [v, ['KM']]

    def obs(self, p):
        for k in ('sub_lat', 'sun_lat', 'lat_at_center'):
            if p.get(k) is not None:
                p[k] = self.lat(p[k])
        for k in ('sub_lon', 'sun_lon', 'lon_at_center'):
            if p.get(k) is not None:
                p[k] = self.lon(p[k])
        if p.get('pa') is not None:
            p['pa'] = self.pa(p['pa'])
        if p.get('range') is not None:
            p['range'] = self.range(p['range'])

    def default(self, d, k, v):
        if d.get(k) is None and self.draw(st.integers(0, 2)) == 0:
            d[k] = v
            self.used.append('default ' + k)


@st.composite
def cases(draw, photo):
    s = draw(gen.base(size=st.integers(1, 16), data_type='DOUBLE', max_f=0.4))
    if photo:
        ns, nl = draw(gen.img_size), draw(gen.img_size)
        s['photo'] = {'ns': ns, 'nl': nl, 'mod': 0, 'mul': 1, 'base': 1}
        s['planes'] = [{'kind': 'IMAGE', 'images': [draw(gen.image(s['body'], ns, nl))]}]
    else:
        s['planes'] = draw(st.lists(gen.virtual(s['body']['a']), min_size=1, max_size=3))
    s['planes_kw'] = False
    box = None
    v = Vary(draw, s['body'])
    t = copy.deepcopy(s)
    b = t['body']
    r = v.pick('ac', 'ca', 'af', 'fa', 'cf', 'fc')
    if 'f' in r and r != b['radii']:
        b['f'] = 1 - b['c'] / b['a']
    if r != b['radii']:
        v.used.append('radii ' + r)
    b['radii'] = r
    p = t['proj']
    if v.pick(0, 1):
        p['kw'] = 'PROJECTION'
        v.used.append('PROJECTION')
    if p['type'] == 'SIMPLE_C':
        if p.get('lo_lat') is not None:
            p['lo_lat'], p['hi_lat'] = v.lat(p['lo_lat']), v.lat(p['hi_lat'])
        elif v.pick(0, 1):
            p['lo_lat'], p['hi_lat'] = -90., 90.
            v.used.append('default latitudes')
        if p.get('lo_lon') is not None:
            if p['lo_lon'] == p['hi_lon']:
                k = v.pick('-', 'E', 'W')
                p['lo_lon'] = v.lon(p['lo_lon'], True, k)
                p['hi_lon'] = v.lon(p['hi_lon'], True, k)
            else:
                p['lo_lon'] = v.lon(p['lo_lon'], True)
                p['hi_lon'] = v.lon(p['hi_lon'], True)
        v.default(p, 'lat_type', v.pick('CENTRIC', 'CENTRIC_LAT'))
        if p.get('lat_type') == 'GRAPHIC' and v.pick(0, 1):
            p['lat_type'] = 'GRAPHIC_LAT'
    elif p['type'] == 'P_STEREO':
        v.default(p, 'pole', 'N')
        if p.get('pole'):
            p['pole'] = v.pick(p['pole'], {'N': 'NORTH', 'S': 'SOUTH'}[p['pole']])
            if p.get('max_lat') is not None:
                p['max_lat'] = v.lat(p['max_lat'])
    elif p['type'] == 'ORTHO':
        v.obs(p)
        # The options have to be given in order, all or one.
        have = {k for k, f in (('sub', 'sub_lat'), ('pa', 'pa'), ('km', 'kmpp'),
                               ('ctr', 'sample_center'), ('ctr', 'lat_at_center'))
                if p.get(f) is not None}
        for k, d in (('sub', {'sub_lat': 0., 'sub_lon': 0.}), ('pa', {'pa': 0.}),
                     ('ctr', {'sample_center': s['samples'] / 2.,
                              'line_center': s['lines'] / 2.})):
            n = have | {k}
            if k not in have and (len(n) == 1 or n in ({'sub', 'pa'}, {'sub', 'pa', 'km'},
                                                       {'sub', 'pa', 'km', 'ctr'})) \
                    and v.pick(0, 1):
                p.update(d)
                have = n
                v.used.append('default ' + k)
    if photo and v.pick(0, 1):
        t['averaging'] = v.pick('NONE', 'WEIGHTED', 'UNWEIGHTED')
        v.used.append('averaging')
    elif v.pick(0, 1):
        p['options'] = p['type'] == 'ORTHO' or p['type'] == 'SIMPLE_C'
        p['options'] = False
    if v.pick(0, 1):
        t['grid'] = 'NO'
        v.used.append('GRID: NO')
    t['planes_kw'] = draw(st.booleans())
    for q in t['planes']:
        if q['kind'] == 'IMAGE':
            im = q['images'][0]
            v.obs(im)
            for k, d in (('interpolate', False), ('remove_sky', False), ('geom', False),
                         ('terminator', False), ('emi', 90.), ('nl', 0), ('nr', 0), ('nt', 0),
                         ('nb', 0)):
                v.default(im, k, d)
            if im.get('oa_s') is None and v.pick(0, 1):
                im['oa_s'] = s['photo']['ns'] / 2.
                im['oa_l'] = s['photo']['nl'] / 2.
                v.used.append('default axis')
            if v.pick(0, 1):
                how = v.pick(*img.CONTAINERS)
                im['file'] = 'q.fits' + ('.gz' if how.endswith('gzip') and v.pick(0, 1) else '')
                v.used.append(how)
                box = [how, v.pick(-64, -32, 32, 16), draw(st.integers(1, nl)),
                       draw(st.integers(1, ns))]
        else:
            v.obs(q)
            if q['kind'] == 'LATITUDE':
                v.default(q, 'lat_type', 'CENTRIC')
            elif q['kind'] in ('MU', 'MU0') and v.pick(0, 0, 1):
                # entries that are no longer needed
                q['unused'] = [draw(gen.lat), draw(gen.lon), s['body']['a'] * draw(gen.fl(2, 99))]
                v.used.append('unused')
    lay = {'case': draw(st.integers(0, 3)), 'every': draw(st.integers(0, 5)),
           'swap': draw(st.integers(0, 2 ** len(PAIRS) - 1)),
           'pad': draw(st.sampled_from(['', ' ', '\t', '   ']))}
    return {'spec': s, 'variant': t, 'layout': lay, 'used': v.used, 'box': box}


FREE = ('MAP', 'BODY', 'IMAGE', 'FLAT_FIELD', 'COMMENT', 'XCOMMENT', 'AUTHOR', 'ORIGIN')


PAIRS = [('SAMPLE_CENTER', 'LINE_CENTER'), ('LAT_AT_CENTER', 'LON_AT_CENTER'),
         ('SAMPLE_OA', 'LINE_OA'), ('SUB_OBSERV_LAT', 'SUB_OBSERV_LON'),
         ('SUB_SOLAR_LAT', 'SUB_SOLAR_LON'), ('LO_LAT', 'HI_LAT'), ('LO_LON', 'HI_LON'),
         ('FOCAL_LENGTH', 'PIXEL_SCALE')]


def layout(lines, lay):
    out = []
    lines = list(lines)
    for b, (x, y) in enumerate(PAIRS):
        for j in range(len(lines) - 1):
            if lay['swap'] >> b & 1 and lines[j].startswith(x + ':') \
                    and lines[j + 1].startswith(y + ':'):
                lines[j], lines[j + 1] = lines[j + 1], lines[j]
    for j, l in enumerate(lines):
        k, c, val = l.partition(':')
        if lay['case'] == 1 or (lay['case'] == 2 and j % 2):
            k = k.lower()
            if c and k.upper() not in FREE and not any(f in val for f in ('sin', 'exp')):
                val = val.lower()
        elif lay['case'] == 3:
            k = k.capitalize()
        l = lay['pad'] + k + (lay['pad'] if j % 3 == 0 else '') + c + lay['pad'] + val
        if c and k.upper() not in FREE and lay['every'] and j % (lay['every'] + 1) == 0:
            l += '  # comment: 1 + ( %d' % j
        out.append(l)
        if lay['every'] and j % lay['every'] == 0:
            out += ['# a comment, KEYWORD: 5', '', ' \t '][:1 + j % 3]
    return '\n'.join(out) + '\n'


def check(case, ctx):
    s, t = case['spec'], case['variant']
    photo = 'photo' in s
    lat, lon, on, sure, cond = virt.geometry(s)
    body = model.body_of(s)
    m = None
    if photo:
        try:
            m = model.photo(body, s['planes'][0]['images'][0], img.array(s['photo']), lat, lon,
                            on)
        except model.Ambiguous:
            return None
        sure = sure & m['sure'] & (cond < 1e4)

    files = {}
    if photo:
        files = {'p.fits': img.writer(s['photo'])}
        if case.get('box'):
            how, bp, tl, ts = case['box']
            if bp == 16 and s['photo']['nl'] * s['photo']['ns'] > 32000:
                bp = 32
            files[t['planes'][0]['images'][0]['file']] = img.contained(s['photo'], how,
                                                                       (tl, ts), bp)
    a = planes_of(run_maps(ctx, s, files=files)[s['file']][0], len(s['planes'])).copy()
    b = planes_of(run_maps(ctx, t, files=files, text=layout(spec.render_lines(t),
                                                            case['layout']))[t['file']][0],
                  len(t['planes']))
    if photo:
        bad = (sure & ~((a[0] == b[0]) | (np.isnan(a[0]) & np.isnan(b[0]))))[None]
    else:
        tol = 1e-7 * cond
        bad = np.zeros(a.shape, bool)
        near_pole = np.abs(np.cos(lat)) < 1e-4
        for j, q in enumerate(s['planes']):
            with np.errstate(invalid='ignore'):
                e = np.abs(a[j] - b[j])
                if q['kind'] == 'LONGITUDE':
                    e = np.minimum(e, np.abs(360 - e)) * np.minimum(1, np.abs(np.cos(lat)))
                    ok = sure & ~near_pole
                else:
                    ok = sure
                bad[j] = ok & ~((e <= tol) | (np.isnan(a[j]) & np.isnan(b[j])))
    if bad.any():
        j, k, i = where(bad)
        raise Violation('plane %d, (sample %d, line %d): %r in plain notation, %r with %s' % (
            j + 1, i, k, a[j, k, i], b[j, k, i], ', '.join(case['used'])))
    if not case['used'] or np.isnan(a).all():
        return None
    return ('photo/' if photo else 'virtual/') + s['proj']['type']


ARMS = [Arm('virtual', cases(False), check, n=6000, thorough=100000),
        Arm('photo', cases(True), check, n=4000, thorough=80000)]
