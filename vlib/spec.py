"""Map specifications (JSON-able dicts) and their rendering as MaRC input text.

spec = {
  'file': 'm.fits', 'author': None|str, 'origin': None|str,
  'comments': [...], 'xcomments': [...],
  'body': {'name', 'a', 'c', 'prograde', 'radii': 'ac'|'ca'|'af'|'fa'|'cf'|'fc'},
  'data_type': None|'BYTE'|..., 'blank': None|int,
  'grid': None|'NO'|'YES', 'grid_lat': None|x, 'grid_lon': None|x,
  'proj': {'type': 'SIMPLE_C', ...},
  'averaging': None|'NONE'|...,
  'planes_kw': bool, 'samples', 'lines', 'planes': [plane, ...]
}
A number is given either as a float/int or as a literal string; an angle may
be a [value, suffix] pair (suffix in N S E W C G NC ...).
"""

TYPES = {'BYTE': 8, 'SHORT': 16, 'LONG': 32, 'LONGLONG': 64,
         'FLOAT': -32, 'DOUBLE': -64}


def num(x):
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        raise TypeError('bool')
    if isinstance(x, int):
        return str(x)
    return repr(float(x))


def ang(x):
    if isinstance(x, (list, tuple)):
        v, suf = x
        return num(v) + (' ' + ' '.join(suf) if suf else '')
    return num(x)


class Out:
    def __init__(self):
        self.l = []

    def kv(self, k, v=None):
        self.l.append('%s: %s' % (k, v) if v is not None else k + ':')

    def raw(self, s):
        self.l.append(s)


def body_lines(o, b):
    o.kv('BODY', b.get('name', 'Body'))
    a, c = b['a'], b['c']
    r = b.get('radii', 'ac')
    for ch in r:
        if ch == 'a':
            o.kv('EQ_RAD', num(a))
        elif ch == 'c':
            o.kv('POL_RAD', num(c))
        else:
            o.kv('FLATTENING', num(b['f']) if 'f' in b
                 else '(%s - %s) / %s' % (num(a), num(c), num(a)))
    o.kv('ROTATION', 'PROGRADE' if b['prograde'] else 'RETROGRADE')


def center_lines(o, p):
    if p.get('sample_center') is not None:
        o.kv('SAMPLE_CENTER', num(p['sample_center']))
        o.kv('LINE_CENTER', num(p['line_center']))
    elif p.get('lat_at_center') is not None:
        o.kv('LAT_AT_CENTER', ang(p['lat_at_center']))
        o.kv('LON_AT_CENTER', ang(p['lon_at_center']))


def proj_lines(o, s):
    p = s['proj']
    t = p['type']
    o.kv(p.get('kw', 'TYPE'), t)
    avg = s.get('averaging')
    sub = Out()
    if t == 'SIMPLE_C':
        if p.get('lat_type'):
            sub.kv('LATITUDE_TYPE', p['lat_type'])
        if p.get('lo_lat') is not None:
            sub.kv('LO_LAT', ang(p['lo_lat']))
            sub.kv('HI_LAT', ang(p['hi_lat']))
        if p.get('lo_lon') is not None:
            sub.kv('LO_LON', ang(p['lo_lon']))
            sub.kv('HI_LON', ang(p['hi_lon']))
    elif t == 'P_STEREO':
        if p.get('pole'):
            sub.kv('POLE', p['pole'])
            if p.get('max_lat') is not None:
                sub.kv('MAX_LAT', ang(p['max_lat']))
    elif t == 'ORTHO':
        if p.get('sub_lat') is not None:
            sub.kv('SUB_OBSERV_LAT', ang(p['sub_lat']))
            sub.kv('SUB_OBSERV_LON', ang(p['sub_lon']))
        if p.get('pa') is not None:
            sub.kv('POSITION_ANGLE', ang(p['pa']))
        if p.get('kmpp') is not None:
            sub.kv('KM_PER_PIXEL', num(p['kmpp']))
        center_lines(sub, p)
    if t == 'P_STEREO' and not sub.l and avg:
        sub.kv('POLE', 'N')         # POLE is mandatory in P_STEREO options
    if sub.l or avg or p.get('options'):
        o.kv('OPTIONS')
        if avg:
            o.kv('AVERAGING', avg)
        o.l += sub.l


def image_lines(o, p):
    o.kv('IMAGE', p['file'])
    if p.get('nibble') is not None:
        o.kv('NIBBLE', num(p['nibble']))
    else:
        for k, n in (('nl', 'NIBBLE_LEFT'), ('nr', 'NIBBLE_RIGHT'),
                     ('nt', 'NIBBLE_TOP'), ('nb', 'NIBBLE_BOTTOM')):
            if p.get(k) is not None:
                o.kv(n, num(p[k]))
    if p.get('invert'):
        o.kv('INVERT', p['invert'])
    if p.get('interpolate') is not None:
        o.kv('INTERPOLATE', 'YES' if p['interpolate'] else 'NO')
    if p.get('remove_sky') is not None:
        o.kv('REMOVE_SKY', 'YES' if p['remove_sky'] else 'NO')
    center_lines(o, p)
    if p.get('oa_s') is not None:
        o.kv('SAMPLE_OA', num(p['oa_s']))
        o.kv('LINE_OA', num(p['oa_l']))
    if p.get('flat'):
        o.kv('FLAT_FIELD', p['flat'])
    if p.get('geom') is not None:
        o.kv('GEOM_CORRECT', 'YES' if p['geom'] else 'NO')
    if p.get('emi') is not None:
        o.kv('EMI_ANG_LIMIT', num(p['emi']))
    if p.get('terminator') is not None:
        o.kv('TERMINATOR', 'YES' if p['terminator'] else 'NO')
    o.kv('SUB_OBSERV_LAT', ang(p['sub_lat']))
    o.kv('SUB_OBSERV_LON', ang(p['sub_lon']))
    o.kv('POSITION_ANGLE', ang(p['pa']))
    o.kv('SUB_SOLAR_LAT', ang(p['sun_lat']))
    o.kv('SUB_SOLAR_LON', ang(p['sun_lon']))
    o.kv('RANGE', ang(p['range']))
    if p.get('focal') is not None:
        o.kv('FOCAL_LENGTH', num(p['focal']))
        o.kv('PIXEL_SCALE', num(p['scale']))
    elif p.get('arcsec') is not None:
        o.kv('ARCSEC_PER_PIX', num(p['arcsec']))
    else:
        o.kv('KM_PER_PIXEL', num(p['kmpp']))


def plane_lines(o, p, n=None):
    o.kv('PLANE', num(n) if n is not None else None)
    if p.get('data_min') is not None:
        o.kv('DATA_MIN', num(p['data_min']))
    if p.get('data_max') is not None:
        o.kv('DATA_MAX', num(p['data_max']))
    k = p['kind']
    if k == 'IMAGE':
        for im in p['images']:
            image_lines(o, im)
    elif k == 'LONGITUDE':
        o.raw('LONGITUDE')
    elif k == 'LATITUDE':
        o.kv('LATITUDE')
        if p.get('lat_type'):
            o.kv('LATITUDE_TYPE', p['lat_type'])
    elif k == 'MU':
        o.kv('MU')
        o.kv('SUB_OBSERV_LAT', ang(p['sub_lat']))
        o.kv('SUB_OBSERV_LON', ang(p['sub_lon']))
        o.kv('RANGE', ang(p['range']))
        if p.get('unused'):
            o.kv('SUB_SOLAR_LAT', ang(p['unused'][0]))
            o.kv('SUB_SOLAR_LON', ang(p['unused'][1]))
    elif k == 'MU0':
        o.kv('MU0')
        if p.get('unused'):
            o.kv('SUB_OBSERV_LAT', ang(p['unused'][0]))
            o.kv('SUB_OBSERV_LON', ang(p['unused'][1]))
            o.kv('RANGE', ang(p['unused'][2]))
        o.kv('SUB_SOLAR_LAT', ang(p['sun_lat']))
        o.kv('SUB_SOLAR_LON', ang(p['sun_lon']))
    elif k == 'PHASE':
        o.kv('PHASE')
        o.kv('SUB_OBSERV_LAT', ang(p['sub_lat']))
        o.kv('SUB_OBSERV_LON', ang(p['sub_lon']))
        o.kv('RANGE', ang(p['range']))
        o.kv('SUB_SOLAR_LAT', ang(p['sun_lat']))
        o.kv('SUB_SOLAR_LON', ang(p['sun_lon']))
    else:
        raise ValueError(k)


def render_lines(s):
    o = Out()
    o.kv('MAP', s.get('file', 'm.fits'))
    if s.get('author') is not None:
        o.kv('AUTHOR', s['author'])
    if s.get('origin') is not None:
        o.kv('ORIGIN', s['origin'])
    for c in s.get('comments', ()):
        o.kv('COMMENT', c)
    for c in s.get('xcomments', ()):
        o.kv('XCOMMENT', c)
    body_lines(o, s['body'])
    if s.get('offset') is not None:
        o.kv('DATA_OFFSET', num(s['offset']))
    if s.get('dscale') is not None:
        o.kv('DATA_SCALE', num(s['dscale']))
    if s.get('data_type'):
        o.kv('DATA_TYPE', s['data_type'])
    if s.get('blank') is not None:
        o.kv('DATA_BLANK', num(s['blank']))
    if s.get('grid'):
        o.kv('GRID', s['grid'])
        if s.get('grid_both') is not None:
            o.kv('GRID_INTERVAL', num(s['grid_both']))
        else:
            if s.get('grid_lat') is not None:
                o.kv('LAT_GRID_INTERVAL', num(s['grid_lat']))
            if s.get('grid_lon') is not None:
                o.kv('LON_GRID_INTERVAL', num(s['grid_lon']))
    proj_lines(o, s)
    if s.get('planes_kw'):
        o.kv('PLANES', num(len(s['planes'])))
    o.kv('SAMPLES', num(s['samples']))
    o.kv('LINES', num(s['lines']))
    for i, p in enumerate(s['planes']):
        plane_lines(o, p, i + 1 if s.get('planes_kw') else None)
    return o.l


def render(*specs):
    l = []
    for s in specs:
        l += render_lines(s)
    return '\n'.join(l) + '\n'
