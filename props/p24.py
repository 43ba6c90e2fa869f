"""Whole runs: nothing is made from malformed input, failures are reported."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, img, spec, fits, run
from vlib.common import *
from props import p15, p16

ID = 'P24'
RULE = ('parse: 1-4 generated maps in 1-3 input files; one file (or the user configuration) is '
        'damaged (unknown keyword, invalid value, cut off, missing, empty, a directory) at a '
        'generated place: nonzero status, and no map file is created, and map files that '
        'exist already are not touched. make: all input is well formed but one map cannot be '
        'made (its photo is missing, truncated or no image, or its file cannot be created): nonzero '
        'status, and all maps before it are those made alone (or, where a source image is at '
        'fault, not made at all). Without the fault the same '
        'run succeeds. args: generated argument lists of options and files. Non-trivial: parse: '
        'at least two maps; make: at least one map before the one that fails; args: any option')


@st.composite
def batch(draw, lo=1):
    n = draw(st.integers(lo, 4))
    maps = [draw(p16.one(j)) for j in range(n)]
    cuts = sorted(set(draw(st.lists(st.integers(1, n - 1), max_size=2)))) if n > 1 else []
    return {'maps': maps, 'cuts': cuts}


@st.composite
def parse_cases(draw):
    c = draw(batch())
    c['where'] = draw(st.integers(0, len(c['cuts']) + 1))     # the last: configuration
    c['how'] = draw(st.sampled_from(['keyword', 'keyword', 'value', 'value', 'cut', 'missing',
                                     'empty', 'dir']))
    c['line'] = draw(st.integers(0, 60))
    c['stale'] = sorted(set(draw(st.lists(st.integers(0, len(c['maps']) - 1), max_size=3))))
    return c


def parts_of(case, maps):
    r, last = [], 0
    for c in case['cuts'] + [len(maps)]:
        r.append(maps[last:c])
        last = c
    return r


VALUES = {'SAMPLES': '0', 'LINES': '-3', 'TYPE': 'NOWHERE', 'ROTATION': 'SIDEWAYS',
          'EQ_RAD': '-1', 'POL_RAD': '0', 'DATA_TYPE': 'HUGE', 'LO_LAT': '-91', 'RANGE': 'far',
          'SUB_OBSERV_LAT': '100'}


def damage(text, how, line):
    l = text.split('\n')
    if how == 'keyword':
        k = line % len(l)
        return '\n'.join(l[:k] + ['NO_SUCH_KEYWORD: 1'] + l[k:])
    if how == 'value':
        ks = [i for i, x in enumerate(l) if x.split(':')[0].strip() in VALUES and ':' in x]
        if not ks:
            return None
        i = ks[line % len(ks)]
        k = l[i].split(':')[0].strip()
        l[i] = '%s: %s' % (k, VALUES[k])
        return '\n'.join(l)
    if how == 'cut':            # within the last map, which then has no planes
        i = max(i for i, x in enumerate(l) if x.startswith('SAMPLES'))
        return '\n'.join(l[:i]) + '\n'
    return ''


def check_parse(case, ctx):
    maps = case['maps']
    parts = parts_of(case, maps)
    d = ctx.fresh()
    for j, s in enumerate(maps):
        p16.sources(s, d, j)
    texts = [spec.render(*p) for p in parts]
    names = ['in.marc'] + ['in%d.marc' % i for i in range(1, len(texts))]

    def go(texts, config=None):
        for n, t in list(zip(names, texts))[1:]:
            p = os.path.join(d, n)
            if t is not None:
                with open(p, 'w') as f:
                    f.write(t)
            elif os.path.exists(p):
                os.unlink(p)
        return run.marc(ctx.fast, texts[0] or '', d, timeout=60, extra=names[1:], config=config)
    r = go(texts)
    if r.rc != 0:
        return None
    for s in maps:
        if not os.path.exists(os.path.join(d, s['file'])):
            raise Violation('status 0 but %s does not exist' % s['file'])
        os.unlink(os.path.join(d, s['file']))
    old = {}
    for j in case['stale']:
        p = os.path.join(d, maps[j]['file'])
        fits.write(p, np.arange(12.).reshape(3, 4) + j)
        old[maps[j]['file']] = open(p, 'rb').read()
    how, config, w = case['how'], None, case['where']
    if w == len(parts):
        how = 'configuration'
        config = 'LAT_GRID_INTERVAL: 10\nNO_SUCH_KEYWORD: 1\n'
        texts2 = texts
    else:
        texts2 = list(texts)
        if how in ('missing', 'dir') and w == 0:
            how = 'empty'
        if how in ('missing', 'dir'):
            texts2[w] = None
        else:
            texts2[w] = damage(texts[w], how, case['line'])
            if texts2[w] is None:
                return None
        if how == 'dir':
            if os.path.exists(os.path.join(d, names[w])):
                os.unlink(os.path.join(d, names[w]))
            names[w] = 'a-directory'
            os.mkdir(os.path.join(d, names[w]))
            for n, t in list(zip(names, texts2))[1:]:
                if n != 'a-directory':
                    with open(os.path.join(d, n), 'w') as f:
                        f.write(t)
            r = run.marc(ctx.fast, texts2[0], d, timeout=60, extra=names[1:])
    if how != 'dir':
        r = go(texts2, config)
    if r.timeout or r.crashed:
        raise Violation('the program %s' % ('hangs' if r.timeout else 'crashes'))
    where_ = 'configuration' if w == len(parts) else 'input file %d of %d (%s)' % (
        w + 1, len(parts), how)
    if r.rc == 0:
        raise Violation('status 0 although the %s is malformed' % where_)
    for s in maps:
        p = os.path.join(d, s['file'])
        now = open(p, 'rb').read() if os.path.exists(p) else None
        if now != old.get(s['file']):
            raise Violation('%s has been %s although the %s is malformed' % (
                s['file'], 'removed' if now is None else 'overwritten' if s['file'] in old
                else 'created', where_))
    return '%s/%d files' % (how, len(parts)) if len(maps) > 1 else None


# ------------------------------------------------------------------ failures

@st.composite
def make_cases(draw):
    c = draw(batch(2))
    c['bad'] = draw(st.integers(0, len(c['maps']) - 1))
    c['how'] = draw(st.sampled_from(['missing', 'truncated', 'text', 'nodir', 'isdir', 'flat']))
    return c


def check_make(case, ctx):
    maps = case['maps']
    bad, how = case['bad'], case['how']
    has = [p for p in maps[bad]['planes'] if p['kind'] == 'IMAGE']
    if how in ('missing', 'truncated', 'text') and not has:
        return None
    if how == 'flat' and not any(im.get('flat') for p in has for im in p['images']):
        return None
    solo = {}
    for j, s in enumerate(maps):
        d = ctx.fresh()
        p16.sources(s, d, j)
        r = run.marc(ctx.fast, spec.render(s), d, timeout=60)
        if r.rc != 0:
            return None
        solo[j] = p16.canon(os.path.join(d, s['file']))
    d = ctx.fresh()
    for j, s in enumerate(maps):
        p16.sources(s, d, j)
    specs = list(maps)
    src = os.path.join(d, ('f%d.fits' if how == 'flat' else 'p%d.fits') % bad)
    if how in ('missing', 'flat'):
        os.unlink(src)
    elif how == 'truncated':
        b = open(src, 'rb').read()
        open(src, 'wb').write(b[:2890])
    elif how == 'text':
        open(src, 'w').write('no image\n' * 400)
    elif how == 'nodir':
        specs[bad] = dict(maps[bad], file='nowhere/m.fits')
    else:
        os.mkdir(os.path.join(d, maps[bad]['file']))
    parts = parts_of(case, specs)
    names = ['in%d.marc' % i for i in range(1, len(parts))]
    for n, p in zip(names, parts[1:]):
        with open(os.path.join(d, n), 'w') as f:
            f.write(spec.render(*p))
    r = run.marc(ctx.fast, spec.render(*parts[0]), d, timeout=60, extra=names)
    if r.timeout or r.crashed:
        raise Violation('the program %s' % ('hangs' if r.timeout else 'crashes'))
    if r.rc == 0:
        raise Violation('status 0 although map %d of %d cannot be made (%s)' % (
            bad + 1, len(maps), how))
    if not (r.err + r.out).strip():
        raise Violation('no message although map %d cannot be made' % (bad + 1))
    for j in range(bad):
        h = p16.canon(os.path.join(d, maps[j]['file']))
        if h is None and how not in ('nodir', 'isdir'):
            continue                    # source images may be looked at before any map is made
        if h is None:
            raise Violation('%s has not been made although only a later map fails (%s)' % (
                maps[j]['file'], how))
        e = p16.differ(solo[j], h)
        if e:
            raise Violation('%s, made before a map that fails (%s), is not that made alone: %s' % (
                maps[j]['file'], how, e))
    return '%s/%d before' % (how, bad) if bad else None


# ------------------------------------------------------------------ arguments

FILES = ['in.marc', 'b.marc', '-', 'none.marc', '-b.marc', '']
OPTS = ['--help', '--usage', '--version', '-V', '-?', '--bogus', '-x', '--']


@st.composite
def arg_cases(draw):
    return {'args': draw(st.lists(st.one_of(st.sampled_from(FILES), st.sampled_from(FILES[:2]),
                                            st.sampled_from(OPTS)), max_size=5))}


def expected(args):
    """(kind, files): the first option decides; files are used if there is none."""
    files, rest = [], False
    for a in args:
        if rest or not a.startswith('-') or a == '-':
            files.append(a)
        elif a == '--':
            rest = True
        elif a in ('--help', '--usage', '--version', '-V', '-?'):
            return 'info', []
        else:
            return 'bad', []
    return ('run' if files else 'bad'), files


MAP = '''MAP: %s
BODY: B
EQ_RAD: 7000
POL_RAD: 6500
ROTATION: PROGRADE
DATA_TYPE: FLOAT
TYPE: SIMPLE_C
SAMPLES: 4
LINES: 3
PLANE:
LATITUDE:
'''


def check_args(case, ctx):
    d = ctx.fresh()
    ok = {'in.marc': 'a.fits', 'b.marc': 'b.fits', '-b.marc': 'c.fits'}
    for n, m in ok.items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(MAP % m)
    r = run._run(ctx.fast, case['args'], d, None, 60)
    if r.timeout or r.crashed:
        raise Violation('the program %s' % ('hangs' if r.timeout else 'crashes'))
    kind, files = expected(case['args'])
    made = sorted(f for f in os.listdir(d) if f.endswith('.fits'))
    if kind == 'run' and all(f in ok for f in files):
        want, zero = sorted(set(ok[f] for f in files)), True
    else:
        want, zero = [], kind == 'info'
    if made != want or (r.rc == 0) != zero:
        raise Violation('arguments %s: status %d and maps %s instead of status %s and maps %s' % (
            case['args'], r.rc, made, 'zero' if zero else 'nonzero', want))
    if kind == 'info' and not r.out.strip():
        raise Violation('arguments %s: nothing printed' % case['args'])
    if not zero and not (r.err + r.out).strip():
        raise Violation('arguments %s: status %d without a message' % (case['args'], r.rc))
    return kind if any(a.startswith('-') for a in case['args']) else None


ARMS = [Arm('parse', parse_cases(), check_parse, n=3000, thorough=60000),
        Arm('make', make_cases(), check_make, n=2000, thorough=40000),
        Arm('args', arg_cases(), check_args, n=1500, thorough=8000)]
