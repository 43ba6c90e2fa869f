import os, re
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, img, model, spec, fits, run
from vlib.common import *

ID = 'P15'
RULE = ('mutate: a valid generated input (virtual planes, photo, grid, all projections) after 1-6 '
        'line, token and byte level mutations; soup: keywords, numbers and bytes in random order, '
        'as input or as user configuration. Both run under ASan/UBSan with assertions enabled: '
        'no signal, sanitizer report, assertion or hang; a nonzero status comes with an error '
        'message; status zero means that every announced map exists and is a valid FITS file. '
        'extreme: 1-4 numbers of a valid input replaced by numbers of any magnitude, same oracle. '
        'invalid: a valid input with exactly one entry replaced by an out of range, malformed or '
        'inconsistent one must give a nonzero status and an error message and no map with data. '
        'slots: all invalid values of one entry of a valid input in turn. '
        'farside: an orthographic map centred at a surface point is accepted if the observer can '
        'see the point and rejected if it is on the far side. '
        'Non-trivial: the program got as far as the parser (any case but an empty text); classes '
        'by outcome (mutate, soup) or by the entry made invalid')

NUMS = ['0', '-0', '1', '-1', '90', '-90', '90.0000001', '91', '-91', '180', '360', '-360', '361',
        '-361', '1e308', '-1e308', '1e-308', '1e999', '1e150', '-1e150', '1e77', '1e-77', '1e5',
        '0.5', '-0.5', '1e-5', 'acos(2)', 'exp(1000)', '-exp(1000)', 'ln(0)', 'sqrt(-1)', '1 / 0',
        '0 / 0', '(-8) ^ 0.5', '2147483648', '-2147483649', '9223372036854775807',
        '9223372036854775808', '-9223372036854775808', '99999999999999999999', '4294967296',
        '255', '256', '-32769', '1e', 'e5', '.', '..', '1.2.3', '0x10', '1,5', 'nan', 'inf', '()',
        '((((1))))', '1 +', '* 2', 'sin', 'sin()', 'sin(1', '2 x', '1 N', '1 S', '-5 S', '10 E',
        '370 W', '20 G', '20 C', '95 G', '5 NG', '2 AU', '2 KM', '30 CW', '400 CCW', 'm = 2', '']
WORDS = ['MAP', 'AUTHOR', 'ORIGIN', 'COMMENT', 'XCOMMENT', 'BODY', 'EQ_RAD', 'POL_RAD',
         'FLATTENING', 'ROTATION', 'PROGRADE', 'RETROGRADE', 'DATA_OFFSET', 'DATA_SCALE',
         'DATA_TYPE', 'BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE', 'DATA_BLANK', 'GRID',
         'YES', 'NO', 'Y', 'N', 'GRID_INTERVAL', 'LAT_GRID_INTERVAL', 'LON_GRID_INTERVAL', 'TYPE',
         'PROJECTION', 'SIMPLE_C', 'MERCATOR', 'ORTHO', 'P_STEREO', 'PERSPECTIVE', 'SINUSOID',
         'OPTIONS', 'AVERAGING', 'WEIGHTED', 'UNWEIGHTED', 'NONE', 'LATITUDE_TYPE', 'CENTRIC',
         'GRAPHIC', 'LO_LAT', 'HI_LAT', 'LO_LON', 'HI_LON', 'POLE', 'NORTH', 'S', 'MAX_LAT',
         'PLANES', 'PLANE', 'SAMPLES', 'LINES', 'DATA_MIN', 'DATA_MAX', 'IMAGE', 'PHOTO', 'MU',
         'MU0', 'PHASE', 'LATITUDE', 'LONGITUDE', 'NIBBLE', 'NIBBLE_LEFT', 'NIBBLE_RIGHT',
         'NIBBLE_TOP', 'NIBBLE_BOTTOM', 'INVERT', 'VERTICAL', 'HORIZONTAL', 'BOTH', 'INTERPOLATE',
         'REMOVE_SKY', 'SAMPLE_CENTER', 'LINE_CENTER', 'LAT_AT_CENTER', 'LON_AT_CENTER',
         'SAMPLE_OA', 'LINE_OA', 'FLAT_FIELD', 'MINNAERT', 'AUTO', 'TABLE', 'GEOM_CORRECT',
         'EMI_ANG_LIMIT', 'TERMINATOR', 'SUB_OBSERV_LAT', 'SUB_OBSERV_LON', 'POSITION_ANGLE',
         'SUB_SOLAR_LAT', 'SUB_SOLAR_LON', 'RANGE', 'FOCAL_LENGTH', 'PIXEL_SCALE',
         'ARCSEC_PER_PIX', 'KM_PER_PIXEL']
FREE = ('MAP', 'IMAGE', 'FLAT_FIELD')


@st.composite
def valid(draw, kinds=('virtual', 'photo', 'mixed')):
    """A valid input (spec)."""
    s = draw(gen.base(size=st.integers(1, 9), max_f=0.4, data_type=draw(st.sampled_from(
        ['DOUBLE', 'FLOAT', 'LONGLONG', 'LONG', 'SHORT', 'SHORT']))))
    k = draw(st.sampled_from(list(kinds)))
    ns, nl = draw(st.integers(4, 12)), draw(st.integers(4, 12))
    s['photo'] = {'ns': ns, 'nl': nl, 'mod': 0, 'mul': 1, 'base': 1}
    s['planes'] = []
    if k != 'photo':
        s['planes'] += draw(st.lists(gen.virtual(s['body']['a']), min_size=1, max_size=2))
    if k != 'virtual':
        n = draw(st.sampled_from([1, 1, 2]))
        ims = []
        for j in range(n):
            im = draw(gen.image(s['body'], ns, nl))
            if draw(st.integers(0, 3)) == 0:
                im['interpolate'] = True
            if draw(st.integers(0, 3)) == 0:
                im['remove_sky'] = True
            if draw(st.integers(0, 3)) == 0:
                im['terminator'] = True
            if draw(st.integers(0, 3)) == 0:
                im['invert'] = draw(st.sampled_from(['HORIZONTAL', 'VERTICAL', 'BOTH']))
            if draw(st.integers(0, 3)) == 0:
                im['emi'] = 80.
            if draw(st.integers(0, 3)) == 0:
                im['nibble'] = 1
            if draw(st.integers(0, 4)) == 0:
                im['flat'] = 'f.fits'
            ims.append(im)
        s['planes'].append({'kind': 'IMAGE', 'images': ims})
    if draw(st.integers(0, 2)) == 0:
        s['grid'] = 'YES'
        if draw(st.booleans()):
            s['grid_lat'] = 15
            s['grid_lon'] = 30
    if draw(st.integers(0, 3)) == 0:
        s['averaging'] = draw(st.sampled_from(['NONE', 'WEIGHTED', 'UNWEIGHTED']))
    if draw(st.integers(0, 3)) == 0:
        s['author'] = 'Somebody'
        s['comments'] = ['one', 'two: 3']
    for p in s['planes']:
        if draw(st.integers(0, 3)) == 0:
            p['data_min'], p['data_max'] = -0.75, 0.5
    if spec.TYPES[s['data_type']] > 0 and draw(st.integers(0, 3)) == 0:
        s['blank'] = draw(st.integers(-3, 3)) if s['data_type'] != 'BYTE' else 7
    s['planes_kw'] = draw(st.booleans())
    return s


@st.composite
def mutations(draw, n):
    return draw(st.lists(st.one_of(
        st.tuples(st.just('del'), st.integers(0, 200)),
        st.tuples(st.just('dup'), st.integers(0, 200), st.integers(0, 200)),
        st.tuples(st.just('swap'), st.integers(0, 200), st.integers(0, 200)),
        st.tuples(st.just('num'), st.integers(0, 200), st.sampled_from(NUMS)),
        st.tuples(st.just('num'), st.integers(0, 200), st.sampled_from(NUMS)),
        st.tuples(st.just('num'), st.integers(0, 200), st.sampled_from(NUMS)),
        st.tuples(st.just('word'), st.integers(0, 200), st.sampled_from(WORDS)),
        st.tuples(st.just('key'), st.integers(0, 200), st.sampled_from(WORDS)),
        st.tuples(st.just('chop'), st.integers(0, 200), st.integers(0, 40)),
        st.tuples(st.just('end'), st.integers(0, 200), st.integers(0, 40)),
        st.tuples(st.just('byte'), st.integers(0, 200), st.integers(0, 40), st.integers(0, 255)),
        st.tuples(st.just('cut'), st.integers(0, 200), st.integers(0, 40)),
    ).map(list), min_size=1, max_size=n))


def mutate(lines, muts):
    l = list(lines)
    tail = '\n'
    for m in muts:
        if not l:
            break
        k, i = m[0], m[1] % len(l)
        key, c, val = l[i].partition(':')
        if k == 'del':
            del l[i]
        elif k == 'dup':
            l.insert(m[2] % (len(l) + 1), l[i])
        elif k == 'swap':
            j = m[2] % len(l)
            l[i], l[j] = l[j], l[i]
        elif k in ('num', 'word'):
            if key not in FREE:
                l[i] = key + ': ' + m[2]
        elif k == 'key':
            l[i] = m[2] + c + val
        elif k == 'chop':
            l[i] = l[i][:m[2]]
        elif k == 'end':
            l = l[:i + 1]
            l[i] = l[i][:m[2]]
            tail = ''
        elif k == 'byte':
            j = min(m[2], len(l[i]))
            l[i] = l[i][:j] + chr(m[3]) + l[i][j:]
        elif k == 'cut':
            j = min(m[2], len(l[i]))
            l[i] = l[i][:j] + l[i][j + 1:]
    return '\n'.join(l) + tail


def contain(text):
    """No path may lead out of the scratch directory: '/' only on its own; no
    map or grid so large that it is merely slow."""
    text = re.sub(r'(?<![ \t])/|/(?![ \t])', ':', text)
    for m in re.finditer(r'(?i)(SAMPLES|LINES)\s*:\s*\+?([0-9]+)', text):
        v = int(m.group(2))
        if 3000 < v < 2 ** 63:
            return None
    for m in re.finditer(r'(?i)INTERVAL\s*:\s*([^\n#]*)', text):
        if re.search(r'(?i)e-|0\.0|^\s*\.|/|\^|exp|sin|tan|ln|cos', m.group(1)):
            return None
    return text


def message(r):
    t = (r.out + r.err).decode(errors='replace').lower()
    return 'error' in t or 'usage' in t or 'fatal' in t or 'failed' in t or 'unable' in t


def outcome(r, d, what=''):
    if r.timeout:
        raise Violation('no termination within the time limit' + what)
    if r.crashed or b'Sanitizer' in r.err or b'runtime error:' in r.err:
        raise Violation('crash (status %s)%s: %s' % (r.rc, what, first_line(r)))
    if r.rc != 0:
        if not message(r):
            raise Violation('exit status %d without any error message%s' % (r.rc, what))
        return 'rejected'
    for m in re.finditer(rb'Created map: (.*)\n', r.out):
        name = m.group(1).decode('latin-1')
        if not re.fullmatch(r'[A-Za-z0-9_.]+', name) or name in ('-', 'stdout'):
            continue
        try:
            h = fits.read(os.path.join(d, name))
        except FileNotFoundError:
            raise Violation('exit status 0 but map %r does not exist' % name)
        except fits.FitsError as e:
            if name.endswith(('.gz', '.Z')) or name == 'in.marc':
                continue
            raise Violation('exit status 0 but map %r is not valid: %s' % (name, e))
    return 'mapped' if b'Created map' in r.out else 'nothing'


def first_line(r):
    t = r.err.decode(errors='replace')
    for l in t.splitlines():
        if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'what()' in l:
            return l[:300]
    return t[-300:]


def prepare(ctx, s):
    d = ctx.fresh()
    img.writer(s['photo'])(os.path.join(d, 'p.fits'))
    img.writer(dict(s['photo'], base=0, mul=0))(os.path.join(d, 'f.fits'))
    return d


@st.composite
def mut_cases(draw):
    return {'spec': draw(valid()), 'muts': draw(mutations(draw(st.sampled_from([1, 1, 1, 2, 6]))))}


def check_mutate(case, ctx):
    s = case['spec']
    text = contain(mutate(spec.render_lines(s), case['muts']))
    if text is None:
        return None
    d = prepare(ctx, s)
    r = run.marc(ctx.san, text, d, timeout=60)
    return outcome(r, d)


@st.composite
def soup_cases(draw):
    tok = st.one_of(st.sampled_from(WORDS).map(lambda w: w + ':'), st.sampled_from(WORDS),
                    st.sampled_from(NUMS), st.sampled_from(
                        ['\n', '\n', ':', '#', '\n\n', ' ', '\t', 'm.fits', 'p.fits', '\x00',
                         '\xff', '(', ')', '=', '^', "'", '"', '[', ']', '\\', '\r\n']),
                    st.binary(min_size=1, max_size=6).map(lambda b: b.decode('latin-1')))
    seps = st.sampled_from(['\n', '\n', ' '])
    t = ''.join(draw(st.lists(st.tuples(tok, seps).map(''.join), max_size=40)))
    return {'text': t, 'as': draw(st.sampled_from(['input', 'input', 'config', 'after']))}


TINY = {'file': 't.fits', 'body': {'a': 100., 'c': 90., 'prograde': True}, 'data_type': 'DOUBLE',
        'proj': {'type': 'SIMPLE_C'}, 'samples': 4, 'lines': 3, 'planes': [{'kind': 'LATITUDE'}]}


def check_soup(case, ctx):
    text = contain(case['text'])
    if not text:
        return None
    d = ctx.fresh()
    img.writer({'ns': 5, 'nl': 5, 'mod': 0, 'mul': 1, 'base': 1})(os.path.join(d, 'p.fits'))
    if case['as'] == 'config':
        r = run.marc(ctx.san, spec.render(TINY), d, config=text, timeout=60)
    elif case['as'] == 'after':
        r = run.marc(ctx.san, spec.render(TINY) + text, d, timeout=60)
    else:
        r = run.marc(ctx.san, text, d, timeout=60)
    return case['as'] + ' ' + outcome(r, d)


# ---------------------------------------------------------------- invalid

LAT = ['90.001', '-90.001', '91', '1e5', '91 N', '91 S', '-1 N', '-1 S', 'acos(2)', 'exp(1000)',
       '100 C', '-95 G']
LON = ['360.001', '-360.001', '1000', '361 E', '-361 W', 'acos(2)', '-exp(1000)', '5 N']
PA = ['360.001', '-361', '400 CW', '-400 CCW', 'acos(2)', '3 N']
POS = ['0', '-1', '-0.001', 'ln(0)', 'acos(2)']
SIZE = ['0', '-1', '1.5', '2.5e1', '9223372036854775808', 'x', '', '3 4', '1e999', '2 + 3']
COUNT = ['-1', '1.5', '99999999999999999999', 'x']
BAD = {
    'EQ_RAD': POS, 'POL_RAD': POS, 'FLATTENING': ['-0.001', '1', '1.5', 'acos(2)', '-1'],
    'ROTATION': ['SIDEWAYS', '', 'YES', '1'], 'DATA_TYPE': ['INT', '', '8', 'YES', 'LATITUDE'],
    'GRID': ['MAYBE', '', '1'], 'GRID_INTERVAL': POS, 'LAT_GRID_INTERVAL': POS,
    'LON_GRID_INTERVAL': POS, 'TYPE': ['SINUSOID', 'PERSPECTIVE', 'CUBIC', '', '1'],
    'POLE': ['E', '1', '', 'UP'], 'MAX_LAT': LAT, 'LO_LAT': LAT, 'HI_LAT': LAT, 'LO_LON': LON,
    'HI_LON': LON, 'SUB_OBSERV_LAT': LAT, 'SUB_SOLAR_LAT': LAT, 'LAT_AT_CENTER': LAT,
    'SUB_OBSERV_LON': LON, 'SUB_SOLAR_LON': LON, 'LON_AT_CENTER': LON, 'POSITION_ANGLE': PA,
    'KM_PER_PIXEL': POS, 'ARCSEC_PER_PIX': POS, 'FOCAL_LENGTH': POS, 'PIXEL_SCALE': POS,
    'SAMPLES': SIZE, 'LINES': SIZE, 'PLANES': SIZE + ['77'], 'NIBBLE': COUNT + ['1000'],
    'NIBBLE_LEFT': COUNT + ['1000'], 'NIBBLE_RIGHT': COUNT + ['1000'],
    'NIBBLE_TOP': COUNT + ['1000'], 'NIBBLE_BOTTOM': COUNT + ['1000'],
    'INVERT': ['DIAGONAL', '', '1'], 'INTERPOLATE': ['2', ''], 'REMOVE_SKY': ['2', ''],
    'TERMINATOR': ['2', ''], 'GEOM_CORRECT': ['2', ''], 'EMI_ANG_LIMIT': ['90.001', '-91', '1e9',
                                                                       'acos(2)'],
    'RANGE': ['0', '-1', '1e-3', '-5 AU', '3 N', 'acos(2)', 'exp(1000)'],
    'AVERAGING': ['MEDIAN', '', '1'], 'LATITUDE_TYPE': ['ASTRO', '', '1'],
    'IMAGE': ['nosuchfile.fits', 'in.marc'], 'FLAT_FIELD': ['nosuchfile.fits', 'in.marc'],
    'SAMPLE_CENTER': ['x', '', '1 2', 'acos(2)'], 'LINE_CENTER': ['x', '', '3 E', 'acos(2)'],
    'SAMPLE_OA': ['x', '', 'acos(2)'], 'LINE_OA': ['x', '', 'acos(2)'],
    'PLANE': ['0', '-1', '1000', 'x'],
}
ANY = ['1 +', '(1', '1)', 'foo(1)', '1 / 0', '1.2.3', '1 ; 2', '*', '@']
NUMERIC = [k for k in BAD if k not in (
    'ROTATION', 'DATA_TYPE', 'GRID', 'TYPE', 'POLE', 'INVERT', 'INTERPOLATE', 'REMOVE_SKY',
    'TERMINATOR', 'GEOM_CORRECT', 'AVERAGING', 'LATITUDE_TYPE', 'IMAGE', 'FLAT_FIELD')]
MANDATORY = ['MAP', 'BODY', 'EQ_RAD', 'POL_RAD', 'ROTATION', 'TYPE', 'SAMPLES', 'LINES',
             'SUB_OBSERV_LAT', 'SUB_OBSERV_LON', 'SUB_SOLAR_LAT', 'SUB_SOLAR_LON', 'RANGE',
             'KM_PER_PIXEL', 'ARCSEC_PER_PIX', 'FOCAL_LENGTH', 'PIXEL_SCALE', 'LAT_AT_CENTER',
             'LON_AT_CENTER', 'SAMPLE_CENTER', 'LINE_CENTER', 'LO_LAT', 'HI_LAT', 'LO_LON',
             'HI_LON', 'SAMPLE_OA', 'LINE_OA']


@st.composite
def bad_cases(draw):
    s = draw(valid())
    lines = spec.render_lines(s)
    keys = [l.partition(':')[0] for l in lines]
    k = draw(st.sampled_from(['value', 'value', 'value', 'value', 'missing', 'order', 'minmax',
                              'latorder', 'blank', 'junk', 'plane', 'size']))
    c = {'spec': s, 'how': k}
    if k == 'value':
        i = draw(st.sampled_from([i for i, x in enumerate(keys) if x in BAD]))
        x = keys[i]
        v = draw(st.sampled_from(BAD[x] + (ANY if x in NUMERIC and x != 'PLANE' else [])))
        if x == 'PLANES' and v == '':
            v = '0'
        if x == 'LATITUDE_TYPE' and v == '':
            v = 'ASTRO'
        c.update(line=i, value=v, what=x)
    elif k in ('missing', 'order'):
        # entries that follow TYPE are options of the projection
        end = keys.index('TYPE') if 'TYPE' in keys else len(keys)
        i = draw(st.sampled_from([i for i, x in enumerate(keys) if x in MANDATORY and i <= end]))
        c.update(line=i, what=keys[i])
        if k == 'order':
            # a mandatory entry far away from its place
            j = draw(st.sampled_from([0, len(lines)]))
            c.update(to=j)
    elif k == 'minmax':
        c.update(what='DATA_MIN', lo=draw(gen.fl(-5, 5)), d=draw(st.sampled_from([0., 1., 1e-9])))
    elif k == 'latorder':
        c.update(what='LO_LAT', lo=draw(gen.fl(-80, 80)), d=draw(st.sampled_from([0., 1., 10.])))
    elif k == 'blank':
        t = draw(st.sampled_from([('FLOAT', '0'), ('DOUBLE', '-1'), ('BYTE', '256'),
                                  ('BYTE', '-1'), ('SHORT', '32768'), ('SHORT', '-32769'),
                                  ('LONG', '2147483648'), ('LONG', '-2147483649'),
                                  ('LONGLONG', '9223372036854775808'), ('SHORT', '1.5'),
                                  ('LONG', 'x')]))
        c.update(what='DATA_BLANK', type=t[0], blank=t[1])
    elif k == 'junk':
        c.update(what='junk', line=draw(st.integers(0, len(lines))), text=draw(st.sampled_from(
            ['FOO: 3', 'garbage', '42', ': 1', '@', 'PLANEX: 1', 'EQ_RAD 5', 'MAP', '= 3',
             'ROTATION: PROGRADE', 'GRID_INTERVAL: 10', 'KM_PER_PIXEL: 1', '\x01'])))
    elif k == 'plane':
        c.update(what='planes', n=draw(st.sampled_from(['more', 'less', 'reorder', 'unannounced'])))
    elif k == 'size':
        c.update(what='size', text=draw(st.sampled_from(
            ['SAMPLES: 4294967296|LINES: 4294967296', 'SAMPLES: 9223372036854775807|LINES: 2',
             'SAMPLES: 2|LINES: 9223372036854775807',
             'SAMPLES: 3037000500|LINES: 3037000500'])))
    return c


def bad_text(c):
    s = dict(c['spec'])
    k = c['how']
    if k == 'minmax':
        s['planes'] = [dict(p) for p in s['planes']]
        s['planes'][-1].update(data_min=c['lo'], data_max=c['lo'] - c['d'])
    elif k == 'latorder':
        s['proj'] = {'type': 'SIMPLE_C', 'lo_lat': c['lo'], 'hi_lat': c['lo'] - c['d']}
    elif k == 'blank':
        s['data_type'], s['blank'] = c['type'], c['blank']
        s['planes'] = [{'kind': 'LATITUDE'}]
    elif k == 'plane':
        s['planes_kw'] = True
    lines = spec.render_lines(s)
    if k == 'value':
        lines[c['line']] = c['what'] + ': ' + c['value']
    elif k == 'missing':
        del lines[c['line']]
    elif k == 'order':
        l = lines.pop(c['line'])
        if c['to'] == 0:
            if c['what'] == 'MAP':
                lines.insert(1, l)
            else:
                lines.insert(0, l)
        else:
            lines.append(l)
            if c['line'] == len(lines) - 1:
                return None
            if c['what'] == 'FOCAL_LENGTH' and c['line'] == len(lines) - 2:
                return None     # FOCAL_LENGTH and PIXEL_SCALE may come in either order
    elif k == 'junk':
        lines.insert(c['line'], c['text'])
    elif k == 'plane':
        i = [j for j, l in enumerate(lines) if l.startswith('PLANES:')][0]
        pl = [j for j, l in enumerate(lines) if l.startswith('PLANE:')]
        if c['n'] == 'more':
            lines[i] = 'PLANES: %d' % (len(s['planes']) + 1)
        elif c['n'] == 'less':
            if len(s['planes']) < 2:
                return None
            lines[i] = 'PLANES: %d' % (len(s['planes']) - 1)
        elif c['n'] == 'reorder':
            lines[pl[-1]] = 'PLANE: %d' % (len(pl) + 1)
        else:
            del lines[i]
    elif k == 'size':
        a, b = c['text'].split('|')
        lines = [a if l.startswith('SAMPLES:') else b if l.startswith('LINES:') else l
                 for l in lines]
    return '\n'.join(lines) + '\n'


def check_bad(case, ctx, first=True):
    text = bad_text(case)
    if text is None:
        return None
    s = case['spec']
    # the valid input itself must be mapped
    d = prepare(ctx, s)
    if first and case['how'] != 'size':
        r = run.marc(ctx.fast, spec.render(s), d, timeout=60)
        if r.rc != 0:
            return None            # e.g. a geometry that is rejected as such
        os.unlink(os.path.join(d, s['file']))
    if case['how'] == 'junk' and accepted_anyway(case, text):
        return None
    what = ' (invalid %s)' % case['what']
    r = run.marc(ctx.fast, text, d, timeout=60)
    if r.timeout:
        raise Violation('no termination within 60 s' + what)
    if r.crashed:
        raise Violation('crash (signal %d)%s: %s' % (r.signal, what, first_line(r)))
    if r.rc == 0:
        raise Violation('invalid input is accepted%s: %s' % (what, describe(case)))
    if not message(r):
        raise Violation('exit status %d without any error message%s' % (r.rc, what))
    if re.search(rb'Created map: ' + re.escape(s['file'].encode()), r.out):
        raise Violation('map announced as created though the input was rejected' + what)
    return case['how'] + ' ' + case['what']


def slot_values(x):
    v = BAD[x] + (ANY if x in NUMERIC and x != 'PLANE' else [])
    return [y for y in v if not (y == '' and x in ('PLANES', 'LATITUDE_TYPE'))]


@st.composite
def slot_cases(draw):
    """All invalid values of one entry."""
    s = draw(valid())
    keys = [l.partition(':')[0] for l in spec.render_lines(s)]
    i = draw(st.sampled_from([i for i, x in enumerate(keys) if x in BAD]))
    return {'spec': s, 'line': i, 'what': keys[i]}


def check_slot(case, ctx):
    n = None
    for v in slot_values(case['what']):
        n = check_bad({'spec': case['spec'], 'how': 'value', 'line': case['line'],
                       'what': case['what'], 'value': v}, ctx, first=n is None)
        if n is None:
            return None
    return case['what']


def accepted_anyway(case, text):
    """The junk line completes an optional entry or falls into free text."""
    lines = text.splitlines()
    i, t = case['line'], case['text']
    prev = lines[i - 1].partition(':')[0] if i else ''
    if t == 'GRID_INTERVAL: 10':
        return prev == 'GRID'
    if t == 'ROTATION: PROGRADE':
        return False
    if t == 'KM_PER_PIXEL: 1':
        # an option of ORTHO
        return 'ORTHO' in text
    return False


def describe(case):
    return {k: v for k, v in case.items() if k != 'spec'}


NUMKEYS = ('EQ_RAD', 'POL_RAD', 'FLATTENING', 'LO_LAT', 'HI_LAT', 'LO_LON', 'HI_LON', 'MAX_LAT',
           'SUB_OBSERV_LAT', 'SUB_OBSERV_LON', 'SUB_SOLAR_LAT', 'SUB_SOLAR_LON', 'POSITION_ANGLE',
           'RANGE', 'KM_PER_PIXEL', 'ARCSEC_PER_PIX', 'FOCAL_LENGTH', 'PIXEL_SCALE', 'DATA_MIN',
           'DATA_MAX', 'SAMPLE_CENTER', 'LINE_CENTER', 'LAT_AT_CENTER', 'LON_AT_CENTER',
           'SAMPLE_OA', 'LINE_OA', 'EMI_ANG_LIMIT', 'DATA_BLANK', 'NIBBLE')


@st.composite
def extreme_cases(draw):
    s = draw(valid())
    lines = spec.render_lines(s)
    idx = [i for i, l in enumerate(lines) if l.partition(':')[0] in NUMKEYS]
    num = st.one_of(
        st.tuples(st.sampled_from(['', '-']), st.integers(1, 9), st.integers(-307, 307)).map(
            lambda t: '%s%de%d' % t),
        st.sampled_from(['0', '90', '-90', '360', '-360', '89.9999999999', '1e-15', '180']),
        st.integers(-400, 400).map(str),
        st.tuples(st.sampled_from(['', '-']), st.integers(1, 9), st.integers(-20, 20)).map(
            lambda t: '%s%de%d' % t))
    ch = draw(st.lists(st.tuples(st.sampled_from(idx), num).map(list), min_size=1, max_size=4))
    return {'spec': s, 'set': ch}


def check_extreme(case, ctx):
    s = case['spec']
    lines = spec.render_lines(s)
    for i, v in case['set']:
        lines[i] = lines[i].partition(':')[0] + ': ' + v
    d = prepare(ctx, s)
    r = run.marc(ctx.san, '\n'.join(lines) + '\n', d, timeout=60)
    return outcome(r, d)


@st.composite
def far_cases(draw):
    """An orthographic map centred at a given surface point, visible or not."""
    s = draw(gen.base(kinds=('ORTHO',), size=st.integers(1, 6), max_f=0.5))
    s['planes'] = [{'kind': 'LATITUDE'}]
    slat = draw(st.one_of(gen.fl(-89.9, 89.9), st.sampled_from([0., 90., -90., 45., -30.])))
    slon = draw(gen.fl(0, 360))
    k = draw(st.sampled_from(['any', 'beyond', 'hidden']))
    if k == 'any':
        lat, lon = draw(gen.fl(-90, 90)), draw(gen.fl(0, 360))
    elif k == 'beyond':                 # on the opposite side, in sight of the observer's pole
        lat = draw(gen.fl(-30, 30))
        lon = (slon + 180 + draw(gen.fl(-100, 100))) % 360
    else:                               # the polar region turned away
        lat = (-1 if slat > 0 else 1) * draw(gen.fl(max(0., 90 - abs(slat) - 15), 90))
        lon = (slon + draw(gen.fl(-60, 60))) % 360
    s['proj'] = {'type': 'ORTHO', 'sub_lat': slat, 'sub_lon': slon,
                 'kmpp': round(s['body']['a'] * draw(gen.fl(0.01, 1.)), 3),
                 'lat_at_center': lat, 'lon_at_center': lon}
    s['proj']['pa'] = draw(st.one_of(st.just(0.), gen.fl(-180, 180)))
    return s


def check_far(s, ctx):
    p = s['proj']
    body = model.body_of(s)
    slat, slon, R, km, sc, lc = model.ortho_setup(body, p, s['samples'], s['lines'])
    pt = model.body_frame_point(body, model.lat_deg(p['lat_at_center'], body) * D,
                                model.lon_deg(p['lon_at_center'], body) * D, slon)
    n = pt / np.array([body.a ** 2, body.a ** 2, body.c ** 2])
    n /= np.linalg.norm(n)
    mu = -float(n @ R[1])
    if abs(mu) < 1e-3:
        return None                     # too close to the limb
    d = ctx.fresh()
    r = run.marc(ctx.fast, spec.render(s), d, timeout=60)
    if r.timeout or r.crashed:
        raise Violation('crash or hang: %s' % first_line(r))
    what = 'map centre at latitude %r longitude %r seen from %r, %r' % (
        p['lat_at_center'], p['lon_at_center'], p['sub_lat'], p['sub_lon'])
    if mu > 0:
        if r.rc:
            raise Violation('%s is visible but rejected (status %d)' % (what, r.rc))
        return 'visible'
    if r.rc == 0:
        raise Violation('%s is on the far side but accepted' % what)
    if not message(r):
        raise Violation('exit status %d without any error message' % r.rc)
    return 'far side, %s' % ('polar' if abs(slat) > 1.57 else 'latitude in view' if
                             abs((body.a / body.c) ** 2 * np.tan(p['lat_at_center'] * D)
                                 * np.tan(slat)) <= 1 else 'latitude out of view')


ARMS = [Arm('farside', far_cases(), check_far, n=800, thorough=20000),
        Arm('extreme', extreme_cases(), check_extreme, n=3000, thorough=100000, needs=('san',)),
        Arm('invalid', bad_cases(), check_bad, n=3000, thorough=60000),
        Arm('slots', slot_cases(), check_slot, n=500, thorough=15000),
        Arm('mutate', mut_cases(), check_mutate, n=5000, thorough=150000, needs=('san',)),
        Arm('soup', soup_cases(), check_soup, n=2500, thorough=60000, needs=('san',))]
