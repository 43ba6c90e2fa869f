"""User configuration: defaults for entries that a map leaves out, nothing else."""
import copy, os
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, img, spec, fits, run
from vlib.common import *
from props import p15, p16

ID = 'P19'
RULE = ('defaults: 1-3 generated maps, each with a random subset of its own grid, range and nibble '
        'entries, made with a generated configuration file and made without one but with the '
        'configured values written into every map (plane, image) that leaves them out; the files '
        'must be identical (but DATE and CHECKSUM); values that are neither in the map nor configured '
        'are written out as the built-in defaults; there may be no configuration, and files in the '
        'wrong places (~/.marc, or ~/.config/marc while XDG_CONFIG_HOME is set). malformed: a configuration with one wrong '
        'entry must give a nonzero status, an error message and no map. Non-trivial: at least one '
        'configured value is used by a map, or overridden by it; classes by the configured entries')

INT = [5., 7.5, 10., 15., 30., 45.]


@st.composite
def config(draw):
    c = {}
    k = draw(st.integers(0, 5))
    if k == 0:
        c['grid_both'] = draw(st.sampled_from(INT))
    elif k <= 3:
        if k != 2:
            c['grid_lat'] = draw(st.sampled_from(INT))
        if k != 3:
            c['grid_lon'] = draw(st.sampled_from(INT))
    k = draw(st.integers(0, 4))
    lo, hi = draw(gen.fl(-60, 20)), draw(gen.fl(20.5, 100))
    if draw(st.integers(0, 3)) == 0:
        lo, hi = -0.5, 0.5
    if k in (0, 2):
        c['data_min'] = lo
    if k in (1, 2):
        c['data_max'] = hi
    k = draw(st.integers(0, 3))
    if k == 0:
        c['nibble'] = draw(st.integers(0, 2))
    elif k <= 2:
        for n in ('nl', 'nr', 'nt', 'nb'):
            if draw(st.booleans()):
                c[n] = draw(st.integers(0, 3))
    if not c:
        c['nibble'] = 1
    c['swap'] = draw(st.booleans())
    return c


def render_config(c):
    o = spec.Out()
    if c.get('grid_both') is not None:
        o.kv('GRID_INTERVAL', spec.num(c['grid_both']))
    g = [(n, spec.num(c[k])) for k, n in (('grid_lat', 'LAT_GRID_INTERVAL'),
                                          ('grid_lon', 'LON_GRID_INTERVAL')) if k in c]
    r = [(n, spec.num(c[k])) for k, n in (('data_min', 'DATA_MIN'), ('data_max', 'DATA_MAX'))
         if k in c]
    if c.get('swap'):
        g, r = g[::-1], r[::-1]
    for k, v in g + r:
        o.kv(k, v)
    if c.get('nibble') is not None:
        o.kv('NIBBLE', spec.num(c['nibble']))
    for k, n in (('nl', 'NIBBLE_LEFT'), ('nr', 'NIBBLE_RIGHT'), ('nt', 'NIBBLE_TOP'),
                 ('nb', 'NIBBLE_BOTTOM')):
        if k in c:
            o.kv(n, spec.num(c[k]))
    return '\n'.join(o.l) + '\n'


@st.composite
def one(draw, j):
    s = draw(p15.valid(kinds=('virtual', 'photo', 'photo', 'mixed', 'mixed')))
    s['file'] = 'm%d.fits' % j
    s['photo'] = {'ns': draw(st.integers(8, 14)), 'nl': draw(st.integers(8, 14)), 'mod': 0,
                  'mul': 1, 'base': draw(st.integers(-40, 20))}
    for k in ('grid_both', 'grid_lat', 'grid_lon'):
        s.pop(k, None)
    s['grid'] = draw(st.sampled_from(['YES', 'YES', 'NO', None]))
    if s['grid'] == 'YES':
        k = draw(st.integers(0, 5))
        if k == 0:
            s['grid_both'] = draw(st.sampled_from(INT))
        if k in (1, 2):
            s['grid_lat'] = draw(st.sampled_from(INT))
        if k in (2, 3):
            s['grid_lon'] = draw(st.sampled_from(INT))
    for p in s['planes']:
        p.pop('data_min', None)
        p.pop('data_max', None)
        k = draw(st.integers(0, 5))
        if k in (0, 1):
            p['data_min'] = draw(gen.fl(-70, 15))
        if k in (0, 2):
            p['data_max'] = draw(gen.fl(16, 120))
        for im in p.get('images', ()):
            im['file'] = 'p%d.fits' % j
            if im.get('flat'):
                im['flat'] = 'f%d.fits' % j
            im.pop('nibble', None)
            k = draw(st.integers(0, 3))
            if k == 0:
                im['nibble'] = draw(st.integers(0, 2))
            elif k == 1:
                for n in ('nl', 'nr', 'nt', 'nb'):
                    if draw(st.booleans()):
                        im[n] = draw(st.integers(0, 3))
    s['planes_kw'] = draw(st.booleans())
    return s


@st.composite
def cases(draw):
    return {'config': draw(config()), 'maps': [draw(one(j)) for j in range(
        draw(st.sampled_from([1, 1, 2, 3])))], 'via': draw(st.sampled_from(['xdg', 'xdg', 'home'])),
        'split': draw(st.booleans()), 'decoy': draw(st.integers(0, 3)),
        'none': draw(st.integers(0, 5)) == 0}


def written_out(s, c):
    """The map with the configured values written where it leaves them out.
    Returns (spec, number of values used or overridden, empty range?)."""
    s = copy.deepcopy(s)
    n, empty = 0, False
    # the built-in defaults: grid lines every ten degrees, no nibbling
    glat = c.get('grid_both', c.get('grid_lat', 10))
    glon = c.get('grid_both', c.get('grid_lon', 10))
    if s.get('grid') == 'YES':
        n += glat is not None or glon is not None
        if s.get('grid_both') is None:
            if s.get('grid_lat') is None and glat is not None:
                s['grid_lat'] = glat
            if s.get('grid_lon') is None and glon is not None:
                s['grid_lon'] = glon
    for p in s['planes']:
        for k in ('data_min', 'data_max'):
            if k in c:
                n += 1
                p.setdefault(k, c[k])
        if 'data_min' in p and 'data_max' in p and not p['data_min'] < p['data_max']:
            empty = True
        for im in p.get('images', ()):
            for k in ('nl', 'nr', 'nt', 'nb'):
                v = c.get('nibble', c.get(k, 0))
                n += 1
                if im.get('nibble') is None and im.get(k) is None:
                    im[k] = v
    return s, n, empty


def sources(maps, d):
    for j, s in enumerate(maps):
        p16.sources(s, d, j)


def make(ctx, maps, cfg, via, split, decoys=()):
    d = ctx.fresh()
    sources(maps, d)
    extra = []
    if split and len(maps) > 1:
        with open(os.path.join(d, 'in2.marc'), 'w') as f:
            f.write(spec.render(*maps[1:]))
        extra = ['in2.marc']
        text = spec.render(maps[0])
    else:
        text = spec.render(*maps)
    r = run.marc(ctx.fast, text, d, config=cfg, timeout=60, extra=extra, via=via,
                 decoys=decoys)
    if r.timeout or r.crashed:
        raise Violation('marc crashed or did not terminate: %s' % r.tail())
    return r, [p16.canon(os.path.join(d, s['file'])) for s in maps]


def check(case, ctx):
    c = {} if case['none'] else case['config']
    text = None if case['none'] else render_config(c)
    # files that are not the configuration: ~/.marc, and ~/.config/marc if the variable is set
    decoys = {}
    if case['decoy'] & 1:
        decoys['.marc'] = 'GRID_INTERVAL: 60\nDATA_MIN: 0.1\nNIBBLE: 3\n'
    if case['decoy'] & 2 and (case['none'] or case['via'] == 'xdg'):
        decoys['.config/marc'] = 'GRID_INTERVAL: 36\nDATA_MIN: 0.2\nNIBBLE: 2\n'
    out = [written_out(s, c) for s in case['maps']]
    if any(e for _, _, e in out):
        return None
    ra, a = make(ctx, [s for s, _, _ in out], None, 'xdg', case['split'])
    rb, b = make(ctx, case['maps'], text, case['via'], case['split'], decoys)
    if (ra.rc == 0) != (rb.rc == 0):
        raise Violation('status %d with the configuration, %d with its values written out: %s'
                        % (rb.rc, ra.rc, (rb if rb.rc else ra).tail()))
    if ra.rc != 0:
        return None
    for s, x, y in zip(case['maps'], a, b):
        if x is None or y is None:
            raise Violation('status 0 but %s has not been made' % s['file'])
        e = p16.differ(x, y)
        if e:
            raise Violation('%s made with the configuration differs from the map with its values '
                            'written out: %s' % (s['file'], e))
    if not sum(n for _, n, _ in out):
        return None
    return ('g' if any(k.startswith('grid') for k in c) else '-') + \
        ('r' if 'data_min' in c or 'data_max' in c else '-') + \
        ('n' if any(k in c for k in ('nibble', 'nl', 'nr', 'nt', 'nb')) else '-') + \
        ('+' + ''.join(sorted(decoys)) if decoys else '')


# --------------------------------------------------------------- malformed

BAD = ['FOO: 3', 'GRID_INTERVAL: 0', 'GRID_INTERVAL: -5', 'GRID_INTERVAL:', 'GRID_INTERVAL: x',
       'LAT_GRID_INTERVAL: -1', 'LON_GRID_INTERVAL: 0', 'DATA_MIN: 5\nDATA_MAX: 2',
       'DATA_MAX: 2\nDATA_MIN: 5', 'DATA_MIN:', 'DATA_MAX: a b', 'NIBBLE: -1', 'NIBBLE: 1.5',
       'NIBBLE: x', 'NIBBLE:', 'NIBBLE_LEFT: -2', 'NIBBLE_TOP: -1', 'NIBBLE_RIGHT: -1',
       'NIBBLE_BOTTOM: -3', 'NIBBLE_MIDDLE: 3', 'NIBBLE: 1\nGRID_INTERVAL: 5',
       'NIBBLE: 1\nDATA_MIN: 5', 'DATA_MIN: 5\nGRID_INTERVAL: 5', 'INTERPOLATE: YES',
       'GRID: YES', 'TYPE: ORTHO', 'DATA_TYPE: BYTE', 'GRID_INTERVAL 5', 'GRID_INTERVAL: 5 5',
       'GRID_INTERVAL: 1 / 0', 'DATA_MIN: ln(0)', 'NIBBLE: 1\nNIBBLE: 1', '(', ':', 'DATA_MIN',
       'GRID_INTERVAL: (5', 'GRID_INTERVAL: 5)', 'NIBBLE: 99999999999999999999']


@st.composite
def bad_cases(draw):
    return {'config': draw(config()), 'bad': draw(st.sampled_from(BAD)),
            'where': draw(st.sampled_from(['alone', 'before', 'after'])),
            'via': draw(st.sampled_from(['xdg', 'home'])), 'spec': draw(p15.valid(('virtual',)))}


def check_bad(case, ctx):
    bad, good = case['bad'] + '\n', render_config(case['config'])
    text = {'alone': bad, 'before': bad + good, 'after': good + bad}[case['where']]
    d = ctx.fresh()
    r = run.marc(ctx.fast, spec.render(case['spec']), d, config=text, timeout=60,
                 via=case['via'])
    if r.timeout or r.crashed:
        raise Violation('marc crashed or did not terminate: %s' % r.tail())
    if r.rc == 0:
        raise Violation('status 0 with the configuration %r' % text)
    if not p15.message(r):
        raise Violation('status %d without any message for the configuration %r' % (r.rc, text))
    if os.path.exists(os.path.join(d, case['spec']['file'])):
        raise Violation('a map was made in spite of the configuration %r' % text)
    return case['bad']


ARMS = [Arm('defaults', cases(), check, n=2500, thorough=60000),
        Arm('malformed', bad_cases(), check_bad, n=600, thorough=4000)]
