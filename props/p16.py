import copy, os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, img, spec, fits, run
from vlib.common import *
from props import p15

ID = 'P16'
RULE = ('history: 2-4 generated maps (all projections, options set or left out, virtual planes, '
        'photos, mosaics, grids, limits, nibbling, data types) are made one by one in fresh '
        'processes and directories and then together: in one input file, in several input files, '
        'in a generated order, some files existing before with other content, and once more over '
        'the results; every file must have the same cards (but DATE and CHECKSUM) and data. '
        'planes: a map with 2-4 planes against one map per plane with the same entries. '
        'Non-trivial: at least two maps (planes) that could be made alone and have plotted '
        'pixels; classes by the sequence of projections')


@st.composite
def one(draw, j):
    s = draw(p15.valid())
    s['file'] = 'm%d.fits' % j
    s['body']['name'] = draw(st.sampled_from(['Jupiter', 'Saturn', 'Io']))
    if draw(st.integers(0, 2)) == 0:
        s['origin'] = 'here %d' % j
    if draw(st.integers(0, 2)) == 0:
        s['xcomments'] = ['grid %d' % j]
    for p in s['planes']:
        for i, im in enumerate(p.get('images', ())):
            im['file'] = 'p%d.fits' % j
            if im.get('flat'):
                im['flat'] = 'f%d.fits' % j
            if im.get('nibble') is None and draw(st.integers(0, 3)) == 0:
                im['nl'] = draw(st.integers(0, 1))
                im['nt'] = draw(st.integers(0, 1))
    s['photo']['base'] = 1 + 50 * j
    if draw(st.integers(0, 3)) == 0:
        s['data_type'] = None if all(p['kind'] == 'IMAGE' for p in s['planes']) \
            else s['data_type']
        if s['data_type'] is None:
            s.pop('blank', None)
    return s


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    maps = [draw(one(j)) for j in range(n)]
    order = draw(st.permutations(list(range(n))))
    cuts = sorted(set(draw(st.lists(st.integers(1, n - 1), max_size=2))))
    return {'maps': maps, 'order': list(order), 'cuts': cuts,
            'stale': draw(st.lists(st.integers(0, n - 1), max_size=2))}


def sources(s, d, j):
    img.writer(s['photo'])(os.path.join(d, 'p%d.fits' % j))
    img.writer(dict(s['photo'], base=0, mul=1))(os.path.join(d, 'f%d.fits' % j))


SKIP = ('DATE', 'CHECKSUM')


def canon(path):
    try:
        h = fits.read(path)
    except FileNotFoundError:
        return None
    except fits.FitsError as e:
        raise Violation('%s is not a valid FITS file: %s' % (os.path.basename(path), e))
    return h


def differ(a, b):
    """Describe the first difference of two files, or None."""
    if len(a) != len(b):
        return '%d instead of %d image extensions' % (len(b) - 1, len(a) - 1)
    for k, (x, y) in enumerate(zip(a, b)):
        cx = [c for c in x.cards if c[0] not in SKIP]
        cy = [c for c in y.cards if c[0] not in SKIP]
        if x.raw_data != y.raw_data:
            if x.data is not None and y.data is not None and x.data.shape == y.data.shape:
                ne = ~((x.data == y.data) | ((x.data != x.data) & (y.data != y.data)))
                if ne.any():
                    i = tuple(np.argwhere(ne)[0])
                    return 'HDU %d, pixel %s: %r instead of %r' % (
                        k, tuple(int(q) for q in i[::-1]), y.data[i], x.data[i])
            return 'HDU %d: different data' % k
        if cx != cy:
            for p, q in zip(cx, cy):
                if p != q:
                    return 'HDU %d: card %r instead of %r' % (k, q, p)
            return 'HDU %d: %d instead of %d cards' % (k, len(cy), len(cx))
    return None


def plotted(h):
    if h is None or h[0].data is None:
        return False
    d = h[0].data
    if d.dtype.kind == 'f':
        return bool((~np.isnan(d)).any())
    return bool((d != h[0].h.get('BLANK', 0)).any())


def check(case, ctx):
    maps = case['maps']
    solo, good = {}, []
    for j, s in enumerate(maps):
        d = ctx.fresh()
        sources(s, d, j)
        r = run.marc(ctx.fast, spec.render(s), d, timeout=60)
        if r.rc == 0:
            solo[j] = canon(os.path.join(d, s['file']))
            if solo[j] is None:
                raise Violation('exit status 0 but no map file')
            good.append(j)
    if len(good) < 2:
        return None
    order = [j for j in case['order'] if j in good]
    d = ctx.fresh()
    for j in good:
        sources(maps[j], d, j)
    for j in case['stale']:
        if j in good:
            k = [x for x in good if x != j][0]
            # a previous map of the same name, longer than the new one
            fits.write(os.path.join(d, maps[j]['file']), np.arange(5000.).reshape(50, 100))
    parts, last = [], 0
    for c in [c for c in case['cuts'] if c < len(order)] + [len(order)]:
        if c > last:
            parts.append(order[last:c])
            last = c
    names = []
    for i, p in enumerate(parts[1:]):
        names.append('in%d.marc' % i)
        with open(os.path.join(d, names[-1]), 'w') as f:
            f.write(spec.render(*[maps[j] for j in p]))
    how = 'maps in order %s, input files %s' % ([maps[j]['file'] for j in order],
                                                [len(p) for p in parts])
    for rep in range(2):
        r = run.marc(ctx.fast, spec.render(*[maps[j] for j in parts[0]]), d, timeout=60,
                     extra=names)
        if r.rc != 0:
            raise Violation('%s: status %d although every map can be made alone: %s'
                            % (how, r.rc, r.tail()))
        for j in good:
            h = canon(os.path.join(d, maps[j]['file']))
            if h is None:
                raise Violation('%s: %s has not been made' % (how, maps[j]['file']))
            e = differ(solo[j], h)
            if e:
                raise Violation('%s%s: %s differs from the map made alone: %s' % (
                    how, ', made again' if rep else '', maps[j]['file'], e))
    if sum(plotted(solo[j]) for j in good) < 2:
        return None
    return '>'.join(maps[j]['proj']['type'][:2] for j in order)


# ------------------------------------------------------------------ planes

@st.composite
def plane_cases(draw):
    s = draw(p15.valid())
    s['file'] = 'm.fits'
    a = s['body']['a']
    ns, nl = s['photo']['ns'], s['photo']['nl']
    n = draw(st.integers(2, 4))
    s['planes'] = []
    for j in range(n):
        if draw(st.integers(0, 1)):
            p = draw(gen.virtual(a))
        else:
            ims = []
            for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
                im = draw(gen.image(s['body'], ns, nl, name='p%d.fits' % draw(
                    st.integers(0, 1))))
                for key, v in (('interpolate', True), ('remove_sky', True), ('terminator', True),
                               ('emi', 70.), ('nibble', 1), ('invert', 'BOTH'),
                               ('flat', 'f0.fits')):
                    if draw(st.integers(0, 4)) == 0:
                        im[key] = v
                ims.append(im)
            p = {'kind': 'IMAGE', 'images': ims}
        if draw(st.integers(0, 2)) == 0:
            lo, hi = draw(gen.fl(-3, 3)), draw(gen.fl(4, 60))
            p['data_min'] = lo
            if draw(st.booleans()):
                p['data_max'] = hi
        s['planes'].append(p)
    if s['data_type'] is None:
        s['data_type'] = 'DOUBLE'
    s['planes_kw'] = draw(st.booleans())
    return s


def check_planes(s, ctx):
    n = len(s['planes'])

    def make(t):
        d = ctx.fresh()
        for j in range(2):
            sources(dict(s, photo=dict(s['photo'], base=1 + 20 * j)), d, j)
        r = run.marc(ctx.fast, spec.render(t), d, timeout=60)
        return r, (canon(os.path.join(d, 'm.fits')) if r.rc == 0 else None)
    single = []
    for p in s['planes']:
        r, h = make(dict(s, planes=[p]))
        if r.rc != 0:
            return None
        single.append(h)
    r, h = make(s)
    if r.rc != 0:
        raise Violation('status %d although every plane can be mapped alone: %s'
                        % (r.rc, r.tail()))
    got = planes_of(h[0], n)
    for j in range(n):
        a, b = planes_of(single[j][0], 1)[0], got[j]
        ne = ~((a == b) | ((a != a) & (b != b)))
        if ne.any():
            k, i = where(ne)
            raise Violation('plane %d (%s) of %d, (sample %d, line %d): %r, but %r if the plane '
                            'is mapped alone' % (j + 1, s['planes'][j]['kind'], n, i, k,
                                                 b[k, i], a[k, i]))
    if sum(plotted(x) for x in single) < 2:
        return None
    return '>'.join(p['kind'][:3] for p in s['planes'])


ARMS = [Arm('history', cases(), check, n=1500, thorough=40000),
        Arm('planes', plane_cases(), check_planes, n=1500, thorough=30000)]
