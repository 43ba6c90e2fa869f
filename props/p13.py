import math
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, model, img, spec
from vlib.common import *
from props import virt

ID = 'P13'
RULE = ('one case = one generated arithmetic expression (binary operators, unary minus, nested '
        'parentheses, functions, number formats, spacing and trailing comments), evaluated by an '
        'independent double precision evaluator and placed in a numeric slot of a map: its value '
        'is read back from the map (latitude of a one-line window, DATA_MIN threshold bracketing, '
        'longitude window, KM_PER_PIXEL) and must also be indistinguishable from the literal '
        'value; the magnitudes arm applies one function or operator to operands between 1e-30 '
        'and 1e30, and one without a finite value must be rejected. Non-trivial: the expression has at least one operator or function; classes by '
        'slot and depth. The reject arm writes damaged expressions, which must be rejected')

FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
      'atan': math.atan, 'ln': math.log, 'exp': math.exp, 'sqrt': math.sqrt}

nums = st.one_of(
    st.integers(0, 1000).map(str),
    st.tuples(st.integers(0, 999), st.integers(0, 9999)).map(lambda t: '%d.%d' % t),
    st.integers(0, 99).map(lambda i: '%d.' % i),
    st.integers(0, 99).map(lambda i: '.%02d' % i),
    st.integers(0, 99).map(lambda i: '00%d' % i),
    st.tuples(st.integers(1, 99), st.sampled_from(['e', 'E']), st.sampled_from(['', '+', '-']),
              st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(4, 40)))
    .map(lambda t: '%d%s%s%d' % t),
    st.tuples(st.integers(1, 9), st.integers(0, 99), st.sampled_from(['e-2', 'E1', 'e02']))
    .map(lambda t: '%d.%d%s' % t))


def trees(depth=4):
    leaf = nums.map(lambda s: ['num', s])
    return st.recursive(leaf, lambda c: st.one_of(
        st.tuples(st.sampled_from('+-*/^'), c, c).map(list),
        st.tuples(st.just('neg'), c).map(list),
        st.tuples(st.just('neg'), c).map(list),
        st.tuples(st.sampled_from(sorted(FN)), c).map(list),
        st.tuples(st.just('par'), c).map(list),
        st.tuples(st.just('pos'), c).map(list)), max_leaves=7)


class Undefined(Exception):
    pass


def value(t):
    k = t[0]
    try:
        if k == 'num':
            return float(t[1])
        if k == 'neg':
            return -value(t[1])
        if k in ('par', 'pos'):
            return value(t[1])
        if k in FN:
            return FN[k](value(t[1]))
        a, b = value(t[1]), value(t[2])
        if k == '+':
            return a + b
        if k == '-':
            return a - b
        if k == '*':
            return a * b
        if k == '/':
            return a / b
        r = math.pow(a, b)
        return r
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Undefined
    raise AssertionError(k)


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, 'neg': 3, 'pos': 3, '^': 4}


def write(t, sp, right=False):
    """Minimal parentheses by the usual precedence rules; `sp` yields blanks."""
    k = t[0]
    if k == 'num':
        return t[1]
    if k == 'par':
        return '(' + sp() + write(t[1], sp) + sp() + ')'
    if k in FN:
        return k + sp() + '(' + sp() + write(t[1], sp) + sp() + ')'
    if k in ('neg', 'pos'):
        c = t[1]
        s = write(c, sp)
        if c[0] in PREC and PREC[c[0]] < 3:
            s = '(' + s + ')'
        return ('-' if k == 'neg' else '+') + sp() + s
    p = PREC[k]

    def side(c, is_right):
        s = write(c, sp)
        q = PREC.get(c[0], 9)
        if c[0] in ('neg', 'pos'):
            # As a left operand of ^ it needs parentheses (-2^2 is -4); as any right operand
            # the sign is unambiguous.
            par = k == '^' and not is_right
        elif k == '^':
            par = q <= p if not is_right else q < p
        else:
            par = q < p or (q == p and is_right)
        return '(' + s + ')' if par else s
    return side(t[1], False) + sp() + k + sp() + side(t[2], True)


def depth(t):
    return 0 if t[0] == 'num' else 1 + max(depth(c) for c in t[1:] if isinstance(c, list))


@st.composite
def cases(draw):
    t = draw(trees())
    bl = draw(st.lists(st.sampled_from(['', '', ' ', '  ', '\t']), min_size=12, max_size=12))
    return {'tree': t, 'blanks': bl,
            'tail': draw(st.sampled_from(['', '', ' ', ' # 1 + 1', '#x', '\t#-'])),
            'slot': draw(st.sampled_from(['latitude', 'longitude', 'radius', 'limit', 'angle',
                                          'range', 'relative']))}


@st.composite
def magnitudes(draw):
    """One operation on operands of any magnitude, read back relative to its value."""
    def num():
        x = draw(st.one_of(gen.fl(-30, 30).map(lambda e: 10 ** e), gen.fl(-3, 3).map(abs),
                           gen.fl(-9, -1).map(lambda e: 1 - 10 ** e),
                           st.sampled_from([1., 2., .5, 1e-5, 1e3])))
        t = ['num', '%.*g' % (draw(st.sampled_from([2, 5, 17])), x)]
        return ['neg', t] if draw(st.integers(0, 3)) == 0 else t
    k = draw(st.sampled_from(sorted(FN) + list('+-*/^')))
    t = [k, num()] if k in FN else [k, num(), num()]
    return {'tree': t, 'blanks': [''] * 12, 'tail': '', 'slot': 'relative'}


def text(case):
    it = iter(case['blanks'] * 100)
    return write(case['tree'], lambda: next(it))


BASE = {'file': 'm.fits', 'data_type': 'DOUBLE', 'planes_kw': False,
        'body': {'name': 'B', 'a': 7., 'c': 6., 'prograde': True, 'radii': 'ac'}}


def lat_map(lo, hi):
    return dict(BASE, proj={'type': 'SIMPLE_C', 'lo_lat': lo, 'hi_lat': hi}, samples=1, lines=1,
                planes=[{'kind': 'LATITUDE'}])


def check(case, ctx):
    try:
        v = value(case['tree'])
    except Undefined:
        return None
    if not math.isfinite(v) or abs(v) > 1e280 or 0 < abs(v) < 1e-280:
        return None
    e = text(case)
    lit = repr(v)
    tail = case['tail']

    def run(s):
        return planes_of(run_maps(ctx, s)[s['file']][0], len(s['planes']))
    slot = case['slot']
    if slot == 'latitude':
        # one pixel at the mean of (expression, 90)
        if not -90 <= v < 89:
            slot = 'limit'
        else:
            got = run(lat_map(e + tail, 90.))[0][0, 0]
            want = (v + 90) / 2
            if abs(got - want) > 1e-9:
                raise Violation('LO_LAT: %s gives a latitude of %r, expected %r' % (e, got, want))
    if slot == 'longitude':
        if abs(v) > 360:
            slot = 'limit'
        else:
            s = dict(BASE, proj={'type': 'SIMPLE_C', 'lo_lon': e + tail, 'hi_lon': e},
                     samples=1, lines=1, planes=[{'kind': 'LONGITUDE'}])
            got = run(s)[0][0, 0]
            want = (v + 180) % 360
            if angdiff(got, want) > 1e-9:
                raise Violation('longitude window at %s is centred at %r, expected %r' % (
                    e, got, want))
    if slot == 'radius':
        # POL_RAD: tan(graphic) = (a/c)^2 tan(centric)
        if not 1e-3 < v < 1e6:
            slot = 'limit'
        else:
            b = {'name': 'B', 'a': v * 1.25, 'c': e + tail, 'prograde': True, 'radii': 'ac'}
            s = dict(lat_map(0., 60.), body=b)
            s['planes'] = [{'kind': 'LATITUDE', 'lat_type': 'GRAPHIC'}]
            got = run(s)[0][0, 0]
            want = math.degrees(math.atan(1.25 ** 2 * math.tan(math.radians(30))))
            if abs(got - want) > 1e-7:
                raise Violation('POL_RAD: %s (EQ_RAD: %r) gives a graphic latitude of %r, '
                                'expected %r' % (e, v * 1.25, got, want))
    if slot == 'angle':
        if not 0 <= abs(v) <= 360:
            slot = 'limit'
        else:
            q = {'type': 'ORTHO', 'sub_lat': 20., 'sub_lon': 30., 'kmpp': 2.}
            ss = [dict(BASE, file=f, proj=dict(q, pa=x), samples=5, lines=5,
                       planes=[{'kind': 'LATITUDE'}, {'kind': 'LONGITUDE'}])
                  for f, x in (('m.fits', e + tail), ('n.fits', lit))]
            r = run_maps(ctx, *ss)
            a, b = r['m.fits'][0].data, r['n.fits'][0].data
            if not np.allclose(a, b, rtol=0, atol=1e-6, equal_nan=True):
                raise Violation('POSITION_ANGLE: %s differs from %s' % (e, lit))
    if slot == 'range':
        if not 8 < v < 1e12:
            slot = 'limit'
        else:
            s = dict(BASE, proj={'type': 'SIMPLE_C'}, samples=4, lines=4,
                     planes=[{'kind': 'MU', 'sub_lat': 10., 'sub_lon': 20., 'range': e + tail}])
            got = run(s)[0]
            body = model.body_of(s)
            lat, lon, on = model.project(s)
            want = body.mu(10 * D, 20 * D, lat, lon, v)
            if np.abs(got - want).max() > 1e-9:
                raise Violation('RANGE: %s does not act as a range of %r' % (e, v))
    if slot in ('limit', 'relative'):
        # A photo-free way to read any value back: limits just below and above
        w = max(abs(v) * 1e-12, 1e-12)
        pl = []
        x = 0.
        if abs(v) <= 80 and (slot == 'limit' or v == 0):
            # one pixel at latitude 0 + shift: use the difference of two limits
            s = lat_map(v - 5, v + 5)
            s['planes'] = [{'kind': 'LATITUDE', 'data_min': '(%s) - 1e-9%s' % (e, tail)},
                           {'kind': 'LATITUDE', 'data_min': '(%s) + 1e-9%s' % (e, tail)},
                           {'kind': 'LATITUDE', 'data_max': '(%s) + 1e-9%s' % (e, tail)},
                           {'kind': 'LATITUDE', 'data_max': '(%s) - 1e-9%s' % (e, tail)}]
        else:
            k = v / 40.
            s = lat_map(35., 45.)
            ex = '(%s) / %s' % (e, repr(k))
            s['planes'] = [{'kind': 'LATITUDE', 'data_min': ex + ' - 1e-9' + tail},
                           {'kind': 'LATITUDE', 'data_min': ex + ' + 1e-9' + tail},
                           {'kind': 'LATITUDE', 'data_max': ex + ' + 1e-9' + tail},
                           {'kind': 'LATITUDE', 'data_max': ex + ' - 1e-9' + tail}]
        p = run(s)
        plotted = [not np.isnan(p[j][0, 0]) for j in range(4)]
        if plotted != [True, False, True, False]:
            raise Violation('DATA_MIN/DATA_MAX with %s do not act as %r (plotted: %s)' % (
                e, v, plotted))
    d = depth(case['tree'])
    return '%s/%d' % (slot, d) if d else None


def check_magnitudes(case, ctx):
    try:
        value(case['tree'])
    except Undefined:
        check_broken({'expr': text(case), 'bad': ''}, ctx)
        return 'undefined/' + case['tree'][0]
    return check(case, ctx)


# ---- damaged expressions

@st.composite
def broken(draw):
    t = draw(trees())
    e = write(t, lambda: ' ')
    bad = draw(st.sampled_from([')', '(', '*', '/', '^', '+ *', '1 2', 'foo', 'foo(1)', '$', '=',
                                '1 / 0', '2 / (1 - 1)', 'sin', 'sin()', '()', 'sin 1', '..',
                                '!', 'x', '"1"', '1,5']))
    k = draw(st.integers(0, 3))
    if bad in ('1 / 0', '2 / (1 - 1)'):
        e = bad if k < 2 else e + ' * (' + bad + ')'
    elif bad in ('foo', 'sin', 'x') or k == 0:
        e = bad
    elif k == 1:
        e = e + ' ' + bad
    elif k == 2:
        e = bad + ' ' + e if bad not in ('(',) else e + ' ('
    else:
        e = '(' + e + ' ' + bad + ')' if bad not in (')', '(') else e + ' ' + bad
    return {'expr': e, 'bad': bad}


def check_broken(case, ctx):
    e = case['expr']
    import os
    d = ctx.fresh()
    s = lat_map('35', '45')
    s['planes'] = [{'kind': 'LATITUDE', 'data_min': e}]
    from vlib import run
    r = run.marc(ctx.fast, spec.render(s), d)
    if r.crashed or r.timeout:
        raise Violation('marc crashed or hung on DATA_MIN: %s: %s' % (e, r.tail()))
    if r.rc == 0 or os.path.exists(os.path.join(d, 'm.fits')):
        raise Violation('malformed expression "DATA_MIN: %s" was accepted (exit status %d)' % (
            e, r.rc))
    if b'error' not in (r.out + r.err).lower():
        raise Violation('malformed expression "DATA_MIN: %s" was rejected without a message' % e)
    return case['bad']


ARMS = [Arm('magnitudes', magnitudes(), check_magnitudes, n=3500, thorough=40000),
        Arm('value', cases(), check, n=9000, thorough=200000),
        Arm('reject', broken(), check_broken, n=2000, thorough=30000)]
