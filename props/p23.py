"""Progress reports: complete, in order, monotonic."""
import os, re
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, img, spec, run
from vlib.common import *
from props import p15, p16

ID = 'P23'
RULE = ('console: 1-3 generated maps of 1-12 planes (all projections, photos, sizes of one pixel to '
        'strips of thousands of pixels); the standard output must name every map in order, announce '
        'every plane once with its number and total, follow it by exactly one complete progress '
        'bar (a dot per two percent, a number per twenty, 100% at the end), and report each map as '
        'created after its last plane. huge: maps of 22 and 44 million pixels. notify: generated histories of plot and completion '
        'notifications with 0-4 observers against a counting model. Non-trivial: console: '
        'more than one plane; notify: at least one completion followed by another plot')

BAR = ''.join('100%\n' if p == 100 else str(p) if p % 20 == 0 else '.' for p in range(2, 101, 2))
OTHER = r'(?:(?!Plane +\d+ / |Creating map: |Created map: )[^\n]*\n)*?'
LOG = re.compile(r'\[marc\]\[(?:trace|debug|info|warn|warning|error|critical)\][^\n]*\n')


@st.composite
def cases(draw):
    maps = []
    for j in range(draw(st.integers(1, 3))):
        s = draw(p16.one(j))
        k = draw(st.integers(0, 5))
        if k == 0:
            s['samples'], s['lines'] = draw(st.sampled_from([(1, 1), (1, 2), (3, 1), (7, 7)]))
        elif k == 1:
            s['samples'] = draw(st.integers(100, 3000))
            s['lines'] = draw(st.integers(1, 3))
        if s['proj']['type'] == 'MERCATOR':
            s['lines'] = min(s['lines'], 6 * s['samples'])
        if draw(st.integers(0, 3)) == 0:        # many planes: aligned numbers
            n = draw(st.integers(2, 12))
            s['planes'] = (s['planes'] * n)[:n]
        maps.append(s)
    return {'maps': maps}


@st.composite
def huge(draw):
    """One map of tens of millions of pixels."""
    n = draw(st.sampled_from([44, 22])) * 1000003
    w = draw(st.integers(1500, 30000))
    return {'maps': [{'file': 'm.fits', 'data_type': 'BYTE', 'samples': w, 'lines': n // w,
                      'body': {'name': 'B', 'a': 7000., 'c': 6500., 'prograde': True},
                      'proj': {'type': 'SIMPLE_C'}, 'planes': [{'kind': 'LATITUDE'}],
                      'planes_kw': True}]}


def check_huge(case, ctx):
    check(case, ctx)
    s = case['maps'][0]
    return '%d million pixels' % (s['samples'] * s['lines'] // 1000000)


def check(case, ctx):
    maps = case['maps']
    d = ctx.fresh()
    for j, s in enumerate(maps):
        if s.get('photo'):
            p16.sources(s, d, j)
    r = run.marc(ctx.fast, spec.render(*maps), d, timeout=120)
    if r.rc != 0:
        return None
    out = LOG.sub('', r.out.decode(errors='replace'))
    at, planes = 0, 0

    def expect(what, rx, flags=0):
        nonlocal at
        m = re.compile(rx, flags).match(out, at)
        if not m:
            raise Violation('%s expected in the output; found %r' % (what, out[at:at + 120]))
        at = m.end()
        return m
    for s in maps:
        expect('creation of ' + s['file'], OTHER + r'Creating map: %s\n' % re.escape(s['file']))
        n = len(s['planes'])
        for k in range(n):
            m = expect('plane %d of %d' % (k + 1, n), OTHER + r'Plane +(\d+) / (\d+): ')
            if (int(m.group(1)), int(m.group(2))) != (k + 1, n):
                raise Violation('plane %s / %s announced instead of %d / %d' % (
                    m.group(1), m.group(2), k + 1, n))
            bar = out[at:at + len(BAR)]
            if bar != BAR:
                raise Violation('progress of plane %d of %d (%d x %d pixels) is shown as %r '
                                'instead of %r' % (k + 1, n, s['samples'], s['lines'],
                                                   out[at:at + 200].split('\n')[0], BAR))
            at += len(BAR)
            planes += 1
        m = expect('end of ' + s['file'], OTHER + r'Created map: (\S+)\n')
        if m.group(1) != s['file']:
            raise Violation('%s reported as created instead of %s' % (m.group(1), s['file']))
    return '%d maps' % len(maps) if planes > 1 else None


# ------------------------------------------------------------------ notifier

@st.composite
def notify_cases(draw):
    n = draw(st.integers(0, 4))
    h = []
    for _ in range(draw(st.integers(1, 4))):    # planes
        size = draw(st.one_of(st.integers(1, 4), st.integers(1, 400)))
        h.append([size, draw(st.one_of(st.just(size), st.integers(0, size)))])
    return {'observers': n, 'late': draw(st.integers(0, 2)), 'history': h}


def check_notify(case, ctx):
    a = ctx.probe().ask('notify', case['observers'], case['late'], len(case['history']),
                        *[x for h in case['history'] for x in h])
    want = []
    for k in range(case['observers'] + case['late']):
        w = []
        for j, (size, m) in enumerate(case['history']):
            if k >= case['observers'] and j == 0:
                continue        # subscribed after the first plane
            # a complete plane need not be reported as complete twice
            w += [(size, c) for c in range(1, m + (m < size))] + [(size, size), 'reset']
        want.append(w)
    got, cur = [], []
    it = iter(a)
    for v in it:
        if v == -2:
            got.append(cur)
            cur = []
        elif v == -1:
            cur.append('reset')
        else:
            e = (int(v), int(next(it)))
            if not (cur and cur[-1] == e and e[0] == e[1]):
                cur.append(e)
    if got != want:
        for k, (g, w) in enumerate(zip(got, want)):
            if g != w:
                i = [x != y for x, y in zip(g, w)].index(True) if g[:len(w)] != w[:len(g)] \
                    else min(len(g), len(w))
                raise Violation('observer %d got ... %s instead of ... %s (size, count)'
                                % (k, g[max(0, i - 2):i + 3], w[max(0, i - 2):i + 3]))
        raise Violation('%d instead of %d observers notified' % (len(got), len(want)))
    return '%d observers' % case['observers'] if len(case['history']) > 1 else None


ARMS = [Arm('console', cases(), check, n=3000, thorough=60000),
        Arm('huge', huge(), check_huge, n=24, thorough=80),
        Arm('notify', notify_cases(), check_notify, n=3000, thorough=60000,
            needs=('fast:probe',))]
