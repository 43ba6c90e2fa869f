"""Laws of the numerical building blocks (library interface)."""
import math
from fractions import Fraction as Fr
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen
from vlib.probe import ProbeError

ID = 'P22'
RULE = ('algebra: generated vectors and matrices (components 0, small, large, equal) through every '
        'operator, compared with numpy and with the laws of rotations. lens: image and object '
        'space corrections against the published law and inverse to each other. root: bracketed '
        'monotonic functions of eight families, either bracket order, scales 1e-6 to 1e6; the '
        'function must cross the ordinate within a few ulps of the result. quad: coefficients of '
        'any sign and magnitude against exact rational discriminants. extrema: histories of '
        'updates, merges, resets and copies for six data types against a list. compare: '
        'almost_equal/almost_zero/signum against exact arithmetic. scale: scale and offset for '
        'six data types: largest power of ten that fits. invert: image inversion against numpy. '
        'distort: scale distortion of Mercator maps against its definition, of polar stereographic '
        'maps against the law of the sphere, and one at the pole and growing away from it. '
        'Non-trivial: every case')

mag = st.one_of(gen.fl(-10, 10), st.sampled_from([0., 1., -1., 1e-9, 1e6, -1e6, 0.5]))
V = st.lists(mag, min_size=3, max_size=3)
M = st.lists(mag, min_size=9, max_size=9)
ang = st.one_of(gen.fl(-7, 7), st.sampled_from([0., math.pi / 2, math.pi, -math.pi / 2, 1e-9]))


def bad(what, got, want, case=''):
    raise Violation('%s: %r, should be %r %s' % (what, got, want, case))


def near(what, got, want, tol):
    got, want = np.asarray(got, float).ravel(), np.asarray(want, float).ravel()
    if got.shape != want.shape or not (np.abs(got - want) <= tol).all():
        bad(what, got.tolist(), want.tolist())


# ---------------------------------------------------------------- algebra

algebra = st.fixed_dictionaries({
    'a': M, 'b': M, 'v': V, 'w': V, 'x': mag, 'r': st.lists(mag, min_size=12, max_size=12),
    'angle': ang, 'axis': st.sampled_from('XYZ'), 'n': st.integers(1, 5)})


def check_algebra(case, ctx):
    p = ctx.probe()
    a, b = np.array(case['a']).reshape(3, 3), np.array(case['b']).reshape(3, 3)
    v, w, x = np.array(case['v']), np.array(case['w']), case['x']
    big = 1e-14 * (1 + np.abs(a).max()) * (1 + np.abs(b).max()) * 10
    near('vector sum', p.ask('vadd', v, w), v + w, 0)
    near('vector difference', p.ask('vsub', v, w), v - w, 0)
    near('scaled vector', p.ask('vscale', x, v), [x * v, v * x], 0)
    tol = 1e-14 * (1 + np.abs(v).max()) * (1 + np.abs(w).max()) * 10
    near('dot product', p.ask('dot', v, w), v @ w, tol)
    near('vector equality', p.ask('veq', v, w), [(v == w).all(), (v != w).any()], 0)
    near('vector equality', p.ask('veq', v, v), [1, 0], 0)
    m = case['r'][:case['n']]
    near('magnitude', p.ask('mag%d' % case['n'], m), math.hypot(*m), 1e-13 * (1 + math.hypot(*m)))
    if np.linalg.norm(v) > 0:
        near('unit vector', p.ask('unit', v), v / np.linalg.norm(v), 1e-14)
    near('matrix sum', p.ask('madd', a.ravel(), b.ravel()), a + b, 0)
    near('matrix difference', p.ask('msub', a.ravel(), b.ravel()), a - b, 0)
    near('scaled matrix', p.ask('mscale', x, a.ravel()), [x * a, a * x], 0)
    near('transpose', p.ask('mt', a.ravel()), a.T, 0)
    near('matrix product', p.ask('mm', a.ravel(), b.ravel()), a @ b, big)
    near('matrix equality', p.ask('meq', a.ravel(), b.ravel()), [(a == b).all(), (a != b).any()], 0)
    near('matrix equality', p.ask('meq', a.ravel(), a.ravel()), [1, 0], 0)
    tv = 1e-14 * (1 + np.abs(a).max()) * (1 + np.abs(v).max()) * 10
    near('matrix times vector', p.ask('mv', a.ravel(), v), a @ v, tv)
    c, d = a[:2], np.array(case['r']).reshape(3, 4)
    t = 1e-13 * (1 + np.abs(c).max()) * (1 + np.abs(d).max())
    g = p.ask('mn', c.ravel(), d.ravel(), v)
    near('2x3 times 3x4', g[:8], c @ d, t)
    near('transpose of 2x3', g[8:14], c.T, 0)
    near('2x3 times vector', g[14:], c @ v, tv)
    # rotations of the coordinate system
    s, co = math.sin(case['angle']), math.cos(case['angle'])
    R = {'X': [[1, 0, 0], [0, co, s], [0, -s, co]], 'Y': [[co, 0, -s], [0, 1, 0], [s, 0, co]],
         'Z': [[co, s, 0], [-s, co, 0], [0, 0, 1]]}[case['axis']]
    R = np.array(R)
    g = p.ask('rot', case['axis'], case['angle'], v)
    near('rotated vector', g[:3], R @ v, 1e-14 * (1 + np.abs(v).max()) * 4)
    near('rotation matrix', g[3:], R, 1e-15)
    return case['axis']


# ---------------------------------------------------------------- lens

lens = st.fixed_dictionaries({
    'samples': st.sampled_from([2, 100, 399, 400, 401, 800, 1000]),
    'line': st.one_of(gen.fl(-100, 900), st.sampled_from([200., 400., 0., 800.])),
    'sample': st.one_of(gen.fl(-100, 900), st.sampled_from([200., 400., 0., 800.]))})


def check_lens(case, ctx):
    p = ctx.probe()
    f = 2. if case['samples'] <= 400 else 1.
    l, s = case['line'], case['sample']
    dl, ds = l * f - 400, s * f - 400
    k = 1 + 6.58e-9 * (dl * dl + ds * ds)
    want = [(dl * k + 400) / f, (ds * k + 400) / f]
    g = p.ask('o2i', case['samples'], l, s)
    near('object to image space', g, want, 1e-10)
    near('inverse lens correction', p.ask('i2o', case['samples'], *g), [l, s], 1e-8)
    h = p.ask('i2o', case['samples'], l, s)
    near('lens correction of the inverse', p.ask('o2i', case['samples'], *h), [l, s], 1e-8)
    return 'summation' if f == 2 else 'full'


# ---------------------------------------------------------------- roots

@st.composite
def roots(draw):
    kind = draw(st.integers(0, 7))
    p = draw(st.sampled_from([0.3, 1., 2.5, 0.01]))
    if kind == 6:
        p = draw(st.sampled_from([0., 0.1, 0.35, 0.8]))
        lo, hi = draw(gen.fl(-1.57, 0)), draw(gen.fl(0.001, 1.57))
    else:
        sc = draw(st.sampled_from([1., 1., 10., 1e3, 1e6] if kind not in (1, 3, 7) else [1., 5.]))
        lo = draw(gen.fl(-1, 1)) * sc
        hi = lo + draw(gen.fl(0.001, 1)) * sc
    return {'kind': kind, 'sign': draw(st.sampled_from([1., -1.])), 'p': p,
            'q': draw(st.sampled_from([0., 0., 1., -3.7])), 'lo': lo, 'hi': hi,
            't': draw(st.one_of(gen.fl(0, 1), st.sampled_from([0., 1., 0.5]))),
            'swap': draw(st.booleans())}


def check_root(case, ctx):
    p = ctx.probe()
    k = (case['kind'], case['sign'], case['p'], case['q'])

    def f(x):
        return p.ask('fun', *k, x)[0]
    lo, hi = case['lo'], case['hi']
    yl, yh = f(lo), f(hi)
    if yl == yh:
        return None
    # an ordinate that is taken between the brackets
    y = f(lo + case['t'] * (hi - lo))
    y = min(max(y, min(yl, yh)), max(yl, yh))
    br = (hi, lo) if case['swap'] else (lo, hi)
    try:
        x = p.ask('root', *k, y, *br)[0]
    except ProbeError as e:
        raise Violation('root finding failed: %s' % e)
    if not lo - 1e-12 * (1 + abs(lo)) <= x <= hi + 1e-12 * (1 + abs(hi)):
        raise Violation('root %r is not between %r and %r' % (x, lo, hi))
    d = 8e-15 * max(1, abs(x))
    fx = f(x)
    slack = 1e-15 * (abs(y) + abs(case['q']) + 1)
    a, b = sorted((f(x - d), f(x + d))) if case['kind'] != 6 or abs(x) < 1.5707 else (fx, fx)
    if not a - slack <= y <= b + slack:
        raise Violation('f(%r) = %r, should be %r (within %r .. %r)' % (x, fx, y, a, b))
    # ordinates that are not bracketed are refused
    w = abs(yh - yl) + 1e-3
    for out in (max(yl, yh) + w, min(yl, yh) - w):
        try:
            r = p.ask('root', *k, out, *br)
        except ProbeError:
            continue
        raise Violation('root %r for an ordinate outside of the brackets' % r)
    return 'kind %d' % case['kind']


# ---------------------------------------------------------------- quadratics

coeff = st.one_of(gen.fl(-10, 10), st.sampled_from([0., 1., -1., 2., -4., 1e-8, 1e8, -1e-8, 4.]),
                  st.integers(-20, 20).map(float))


@st.composite
def quads(draw):
    if draw(st.booleans()):
        # given roots
        a = draw(st.sampled_from([1., 2., -1., 0.5, -4.]))
        r, s = draw(st.integers(-1000, 1000)), draw(st.integers(-1000, 1000))
        if draw(st.integers(0, 3)) == 0:
            s = r
        return {'a': a, 'b': -a * (r + s), 'c': a * r * s}
    return {'a': draw(coeff.filter(lambda x: x != 0)), 'b': draw(coeff), 'c': draw(coeff)}


def check_quad(case, ctx):
    a, b, c = case['a'], case['b'], case['c']
    A, B, C = Fr(a), Fr(b), Fr(c)
    disc = B * B - 4 * A * C
    size = B * B + abs(4 * A * C)
    g = ctx.probe().ask('quad', a, b, c)
    if not g[0]:
        if disc >= 0 and not (disc <= size * Fr(1, 10 ** 15) and disc != 0 or disc == 0
                              and not exact(b * b) == B * B):
            raise Violation('no roots of %r x^2 + %r x + %r' % (a, b, c))
        return 'none'
    if disc < 0 and -disc > size * Fr(1, 10 ** 15):
        raise Violation('real roots %r of %r x^2 + %r x + %r' % (g[1:], a, b, c))
    if not all(map(math.isfinite, g[1:])):
        raise Violation('roots %r of %r x^2 + %r x + %r' % (g[1:], a, b, c))
    r, s = Fr(g[1]), Fr(g[2])
    # both sum and product of the roots (Vieta)
    if abs(r * s * A - C) > (abs(A * r * s) + abs(C)) * Fr(1, 10 ** 13):
        raise Violation('product of roots %r of %r x^2 + %r x + %r' % (g[1:], a, b, c))
    t = (abs(A * r) + abs(A * s) + abs(B)) * Fr(1, 10 ** 13)
    if disc < size * Fr(1, 10 ** 6):
        t = t * 10 ** 6         # double root: half of the digits
    if abs((r + s) * A + B) > t:
        raise Violation('sum of roots %r of %r x^2 + %r x + %r' % (g[1:], a, b, c))
    return 'double' if r == s else 'two'


def exact(x):
    return Fr(x)


# ---------------------------------------------------------------- extrema

RANGE = {'d': (-1e300, 1e300), 'f': (-1e30, 1e30), 'i': (-2 ** 31, 2 ** 31 - 1), 'b': (0, 255),
         's': (-2 ** 15, 2 ** 15 - 1), 'l': (-2 ** 52, 2 ** 52)}


@st.composite
def histories(draw):
    t = draw(st.sampled_from(list(RANGE)))
    lo, hi = RANGE[t]
    if t in 'df':
        v = st.one_of(gen.fl(-100, 100), st.sampled_from([0., lo, hi, -1., 1.]))
    else:
        v = st.one_of(st.integers(max(lo, -50), 50), st.sampled_from([lo, hi, 0])).map(float)
    if t == 'f':
        v = v.map(lambda x: float(np.float32(x)))
    op = st.one_of(v.map(lambda x: ['u', x]), v.map(lambda x: ['u', x]),
                   st.tuples(v, v).map(lambda p: ['m', min(p), max(p)]), st.just(['e']),
                   st.just(['c']), st.just(['r']))
    return {'type': t, 'ops': draw(st.lists(op, max_size=12)), 'query': draw(v)}


def check_history(case, ctx):
    p = ctx.probe()
    seen = []
    for o in case['ops']:
        if o[0] == 'u':
            seen.append(o[1])
        elif o[0] == 'm':
            seen += o[1:]
        elif o[0] == 'r':
            seen = []
    flat = [x for o in case['ops'] for x in o]
    g = p.ask('ext', case['type'], flat)
    want = [1., min(seen), max(seen)] if seen else [0., None, None]
    if g != want:
        bad('extrema', g, want, case['ops'])
    if seen:
        q = case['query']
        r = p.raw('ext', case['type'], flat, 'q', q)
        if (r == '1') != (min(seen) <= q <= max(seen)):
            bad('in_range(%r)' % q, r, seen)
    return case['type']


# ---------------------------------------------------------------- comparison

@st.composite
def pairs(draw):
    x = draw(st.one_of(gen.fl(-1e6, 1e6), gen.fl(-1, 1), st.sampled_from(
        [0., 1e-300, 1e300, -1., 1e-16, 5e-324, 2.5e-16, 3e-7])))
    k = draw(st.integers(-12, 12))
    y = x
    for _ in range(abs(k)):
        y = math.nextafter(y, math.inf if k > 0 else -math.inf)
    if draw(st.integers(0, 4)) == 0:
        y = draw(st.sampled_from([-x, x * 2, 0., x + 1e-9 * abs(x)]))
    return {'x': x, 'y': y, 'ulp': draw(st.integers(1, 10))}


def check_pair(case, ctx):
    p = ctx.probe()
    x, y, u = case['x'], case['y'], case['ulp']
    g, h = p.ask('aeq', x, y, u), p.ask('aeq', y, x, u)
    if g[:2] != h[:2]:
        raise Violation('almost_equal(%r, %r, %d) is not symmetric' % (x, y, u))
    g2 = p.ask('aeq', x, y, u + 1)
    if g[0] > g2[0] or g[1] > g2[1] or g[2] > g2[2] or g[3] > g2[3]:
        raise Violation('a less strict comparison of %r and %r fails' % (x, y))
    # exact: |x - y| < eps |x + y| ulp, or subnormal
    eps = Fr(2) ** -52
    d, lim = abs(Fr(x) - Fr(y)), eps * abs(Fr(x) + Fr(y)) * u
    if abs(d - lim) > lim * Fr(1, 10 ** 9):
        want = d < lim or d < Fr(2) ** -1022
        if bool(g[0]) != want:
            raise Violation('almost_equal(%r, %r, %d) is %s' % (x, y, u, bool(g[0])))
    want = abs(Fr(x)) < eps * u
    if bool(g[2]) != want:
        raise Violation('almost_zero(%r, %d) is %s' % (x, u, bool(g[2])))
    if g[4] != (x > 0) - (x < 0) or g[5] != (1 if x >= 0 else -1):
        raise Violation('sign of %r: %r' % (x, g[4:]))
    return 'equal' if g[0] else 'different'


# ---------------------------------------------------------------- scale and offset

BITS = {'b': (0, 255), 's': (-2 ** 15, 2 ** 15 - 1), 'i': (-2 ** 31, 2 ** 31 - 1),
        'l': (-2 ** 63, 2 ** 63 - 1)}


@st.composite
def spans(draw):
    lo = draw(st.one_of(gen.fl(-400, 400), st.sampled_from([0., -1., -90., -180., 1e4, -1e5, 1e9])))
    w = draw(st.one_of(gen.fl(0.001, 400), st.sampled_from(
        [0., 1., 2., 9., 10., 180., 360., 0.05, 255., 256., 4e4, 65535., 7e4, 1e9, 5e9, 1e19, 1e20])))
    return {'type': draw(st.sampled_from(list('bsilfd'))), 'lo': lo, 'hi': lo + w}


def check_span(case, ctx):
    t, lo, hi = case['type'], case['lo'], case['hi']
    g = ctx.probe().ask('so', t, lo, hi)
    if t in 'fd':
        if g != [1., 1., 0.]:
            bad('scale and offset of floating point data', g, [1, 1, 0])
        return 'float'
    a, b = BITS[t]
    fits = Fr(hi) - Fr(lo) <= b - a
    if bool(g[0]) != fits:
        if abs(Fr(hi) - Fr(lo) - (b - a)) < (b - a) * Fr(1, 10 ** 12):
            return None
        raise Violation('[%r, %r] %s fit type %s' % (lo, hi, 'does' if fits else 'does not', t))
    if not fits:
        return 'none'
    s, o = g[1], g[2]
    e = round(math.log10(s))
    if abs(s / 10. ** e - 1) > 1e-12 or e < 0:
        raise Violation('scale %r is not a power of ten' % s)
    slack = 0.5 + (b - a) * 1e-12 + s * max(abs(lo), abs(hi)) * 1e-12
    if lo * s + o < a - slack or hi * s + o > b + slack:
        raise Violation('[%r, %r] * %r + %r does not fit type %s' % (lo, hi, s, o, t))
    # scaled ranges of 20 digits exceed what a double can resolve by far, and are not required
    if hi > lo and (Fr(hi) - Fr(lo)) * Fr(10) ** (e + 1) < min(b - a, 10 ** 19 - 1) * Fr(999999, 1000000):
        raise Violation('scale %r of [%r, %r] for type %s could be larger' % (s, lo, hi, t))
    return t


# ---------------------------------------------------------------- inversion

@st.composite
def inversions(draw):
    ns, nl = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return {'ns': ns, 'nl': nl, 'how': draw(st.sampled_from('hvb'))}


def check_inv(case, ctx):
    ns, nl = case['ns'], case['nl']
    a = np.arange(ns * nl, dtype=float).reshape(nl, ns)
    w = {'h': a[:, ::-1], 'v': a[::-1], 'b': a[::-1, ::-1]}[case['how']]
    near('inverted image', ctx.probe().ask('inv', case['how'], ns, nl, a.ravel()), w, 0)
    return case['how']


N = ('fast:probe',)
# ---------------------------------------------------------------- distortion

distortions = st.fixed_dictionaries({
    'north': st.booleans(), 'a': st.one_of(gen.fl(1, 1e5), st.sampled_from([1., 71492.])),
    'f': st.one_of(st.just(0.), gen.fl(0, 0.4)),
    'lat': st.one_of(gen.fl(-89.9, 89.9), st.sampled_from([0., 45., -45., 89., -89.])),
    'd': gen.fl(0.01, 60)})


def check_distort(case, ctx):
    p = ctx.probe()
    a, c = case['a'], case['a'] * (1 - case['f'])
    lat = math.radians(case['lat'])
    north = int(case['north'])
    m, s = p.ask('distort', north, a, c, lat)
    e2 = 1 - (c / a) ** 2
    want = math.sqrt(1 - e2 * math.sin(lat) ** 2) / math.cos(lat)
    near('Mercator scale distortion', m, want, 1e-11 * want)
    x = lat if north else -lat
    if c == a:
        want = 2 / (1 + math.sin(x))
        near('polar stereographic scale distortion', s, want, 1e-9 * want)
    if case['d'] < math.degrees(x) + 90 - 0.1:
        y = x - math.radians(case['d'])
        t = p.ask('distort', north, a, c, y if north else -y)[1]
        if not 1 - 1e-12 <= s < t:
            raise Violation('polar stereographic distortion at %r degrees from the pole: %r, at %r: '
                            '%r' % (90 - math.degrees(x), s, 90 - math.degrees(y), t))
    return 'sphere' if c == a else 'oblate'


ARMS = [Arm('algebra', algebra, check_algebra, n=3000, thorough=60000, needs=N),
        Arm('lens', lens, check_lens, n=3000, thorough=60000, needs=N),
        Arm('root', roots(), check_root, n=8000, thorough=300000, needs=N),
        Arm('quad', quads(), check_quad, n=8000, thorough=300000, needs=N),
        Arm('extrema', histories(), check_history, n=6000, thorough=200000, needs=N),
        Arm('compare', pairs(), check_pair, n=6000, thorough=200000, needs=N),
        Arm('scale', spans(), check_span, n=4000, thorough=60000, needs=N),
        Arm('invert', inversions(), check_inv, n=400, thorough=1000, needs=N),
        Arm('distort', distortions, check_distort, n=3000, thorough=100000, needs=N)]
