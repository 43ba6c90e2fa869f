"""Source image files of any content: read correctly or rejected cleanly."""
import os, re
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Arm, Violation
from vlib import gen, spec, fits, run
from vlib.common import *
from props import p15

ID = 'P20'
RULE = ('damage: a generated FITS image (any BITPIX, 2-4 axes, image in an extension, scaling, '
        'BLANK, checksums) after 0-5 header card, byte and length mutations, or a file of another '
        'kind, used as photo, as one photo of a mosaic or as flat field under ASan/UBSan with '
        'assertions (images claiming more than 4 million pixels: plain build, limited memory). '
        'No signal, report or hang; a nonzero status comes with a message; status zero means '
        'a valid map, and, if an independent reader can decode the damaged file, every '
        'plotted value is one of the values of its first image plane. cut: a file without all of '
        'the pixels of the first plane must be rejected. sum: a wrong checksum is reported, '
        'a right one is not. flat: a flat field is accepted iff its dimensions are those of the '
        'photo. Non-trivial: every case; classes by outcome')

CARDS = ['SIMPLE', 'BITPIX', 'NAXIS', 'NAXIS1', 'NAXIS2', 'NAXIS3', 'BSCALE', 'BZERO', 'BLANK',
         'DATAMIN', 'DATAMAX', 'END', 'XTENSION', 'PCOUNT', 'GCOUNT', 'EXTEND', 'AUTHOR',
         'OBJECT', 'ORIGIN', 'EQUINOX', 'BUNIT', 'CHECKSUM', 'DATASUM', 'ZIMAGE', 'GROUPS',
         'CONTINUE', 'TELESCOP', 'INSTRUME', 'REFERENC']
VALUES = ['0', '1', '2', '3', '4', '-1', '8', '16', '32', '64', '-32', '-64', '7', '65', '999',
          '1000', '2147483647', '2147483648', '4294967296', '9223372036854775807',
          '99999999999999999999', '-2147483649', '1E308', '-1E308', '1E-308', '1E999', 'NaN',
          'INF', '0.0', '-0.0', '1.5', "'text'", "'unterminated", "''", 'T', 'F', '', '   ',
          "'" + 'x' * 68 + "'", '1 / comment', '(1,2)', '0.1D0', '12 34']


@st.composite
def image(draw):
    ns, nl = draw(st.integers(2, 14)), draw(st.integers(2, 14))
    bp = draw(st.sampled_from([8, 16, 32, 64, -32, -64]))
    d = {'ns': ns, 'nl': nl, 'bitpix': bp, 'base': draw(st.integers(0, 20)),
         'axes': draw(st.sampled_from([[], [], [], [1], [2], [3, 2], [1, 1]])),
         'ext': draw(st.integers(0, 5)) == 0, 'sum': draw(st.integers(0, 2)) == 0, 'cards': []}
    if draw(st.integers(0, 2)) == 0:
        d['cards'].append(['BSCALE', draw(st.sampled_from([2., 0.5, -1., 1.]))])
        d['cards'].append(['BZERO', draw(st.sampled_from([0., 10., -3.5]))])
    if bp > 0 and draw(st.integers(0, 2)) == 0:
        d['cards'].append(['BLANK', draw(st.integers(0, 40))])
    if draw(st.integers(0, 4)) == 0:
        d['cards'].append(['DATAMIN', draw(st.sampled_from([0., 5., 1e3, -1.]))])
    if draw(st.integers(0, 4)) == 0:
        d['cards'].append(['DATAMAX', draw(st.sampled_from([100., 5., 1e3, -1.]))])
    if bp < 0 and draw(st.integers(0, 2)) == 0:
        d['special'] = draw(st.lists(st.tuples(st.integers(0, ns * nl - 1), st.sampled_from(
            ['nan', 'inf', '-inf', '1e300', '-1e300', '1e-300'])).map(list), max_size=5))
    return d


def encode(d):
    shape = [d['ns'], d['nl']] + d['axes']
    n = int(np.prod(shape))
    a = d['base'] + np.arange(n) % 200
    if d['bitpix'] < 0:
        a = a + 0.25
        for i, v in d.get('special', ()):
            a[i] = float(v)
    with np.errstate(all='ignore'):
        data = fits.pad(a.astype(fits.DTYPES[d['bitpix']]).tobytes(), b'\0')
    out = b''
    c = fits.card
    if d['ext']:
        cards = [c('SIMPLE', True), c('BITPIX', 8), c('NAXIS', 0), c('EXTEND', True)]
        out = fits.pad(''.join(cards + ['END'.ljust(80)]).encode(), b' ')
        cards = [c('XTENSION', 'IMAGE')]
    else:
        cards = [c('SIMPLE', True)]
    cards += [c('BITPIX', d['bitpix']), c('NAXIS', len(shape))]
    cards += [c('NAXIS%d' % (i + 1), m) for i, m in enumerate(shape)]
    if d['ext']:
        cards += [c('PCOUNT', 0), c('GCOUNT', 1)]
    cards += [c(k, v) for k, v in d['cards']]
    if d['sum']:
        if d['sum'] != 'head':
            cards += [c('DATASUM', str(fits.checksum32(data)))]
        if d['sum'] != 'data':
            cards += [c('CHECKSUM', '0' * 16)]
    hdr = fits.pad(''.join(cards + ['END'.ljust(80)]).encode(), b' ')
    if d['sum']:
        s = fits.checksum32(data, fits.checksum32(hdr))
        hdr = hdr.replace(b"CHECKSUM= '" + b'0' * 16, b"CHECKSUM= '" + encode_sum(
            0xffffffff - s).encode())
    return out + hdr, data


def encode_sum(v):
    """ASCII encoding of the complemented checksum (FITS standard, appendix J)."""
    asc = [[0] * 4 for _ in range(4)]
    for i in range(4):
        byte = (v >> (24 - 8 * i)) & 255
        q = byte // 4 + 48
        ch = [q] * 4
        ch[0] += byte % 4
        bad = list(range(0x3a, 0x41)) + list(range(0x5b, 0x61))
        again = True
        while again:
            again = False
            for j in (0, 2):
                if ch[j] in bad or ch[j + 1] in bad:
                    ch[j] += 1
                    ch[j + 1] -= 1
                    again = True
        for j in range(4):
            asc[j][i] = ch[j]
    s = ''.join(chr(asc[j][i]) for j in range(4) for i in range(4))
    return s[-1] + s[:-1]


mutation = st.one_of(
    st.tuples(st.just('set'), st.sampled_from(CARDS), st.sampled_from(VALUES)),
    st.tuples(st.just('set'), st.sampled_from(CARDS[:11]), st.sampled_from(VALUES)),
    st.tuples(st.just('add'), st.sampled_from(CARDS), st.sampled_from(VALUES), st.integers(0, 40)),
    st.tuples(st.just('del'), st.integers(0, 20)),
    st.tuples(st.just('dup'), st.integers(0, 20), st.integers(0, 20)),
    st.tuples(st.just('swap'), st.integers(0, 20), st.integers(0, 20)),
    st.tuples(st.just('byte'), st.floats(0, 1), st.integers(0, 255)),
    st.tuples(st.just('hbyte'), st.integers(0, 1500), st.integers(0, 255)),
    st.tuples(st.just('cut'), st.floats(0, 1)),
    st.tuples(st.just('grow'), st.integers(1, 4000), st.integers(0, 255)),
).map(list)


def mutate(head, data, muts):
    tail = b''
    for m in muts:
        cards = [head[i:i + 80] for i in range(0, len(head), 80)]
        if m[0] == 'set':
            for i, c in enumerate(cards):
                if c[:8].rstrip() == m[1].encode():
                    cards[i] = ('%-8s= %20s' % (m[1], m[2]))[:80].ljust(80).encode()
        elif m[0] == 'add':
            i = min(m[3], len(cards))
            cards.insert(i, ('%-8s= %20s' % (m[1], m[2]))[:80].ljust(80).encode())
        elif m[0] == 'del' and len(cards) > m[1]:
            del cards[m[1]]
        elif m[0] == 'dup' and len(cards) > m[1]:
            cards.insert(m[2], cards[m[1]])
        elif m[0] == 'swap' and len(cards) > max(m[1:]):
            cards[m[1]], cards[m[2]] = cards[m[2]], cards[m[1]]
        if m[0] in ('add', 'del', 'dup'):
            h = b''.join(cards)
            head = fits.pad(h.rstrip(b' ') if m[0] != 'del' else h, b' ')
        elif m[0] in ('set', 'swap'):
            head = b''.join(cards)
        b = bytearray(head + data + tail)
        if m[0] == 'byte' and b:
            b[int(m[1] * (len(b) - 1))] = m[2]
        elif m[0] == 'hbyte' and len(b) > m[1]:
            b[m[1]] = m[2]
        elif m[0] == 'cut':
            b = b[:int(m[1] * len(b))]
        elif m[0] == 'grow':
            b += bytes([m[2]]) * m[1]
        n, k = len(head), len(data)
        head, data, tail = bytes(b[:n]), bytes(b[n:n + k]), bytes(b[n + k:])
    return head + data + tail


@st.composite
def camera(draw):
    """A photo showing the whole near side in a few pixels; map of that side."""
    a = 1000.
    return {'samples': draw(st.integers(4, 16)), 'lines': draw(st.integers(4, 12)),
            'sub': draw(st.sampled_from([0., 120., 359.])),
            'type': draw(st.sampled_from(['DOUBLE', 'DOUBLE', 'FLOAT', 'SHORT', 'BYTE', 'LONGLONG',
                                          None])),
            'interpolate': draw(st.integers(0, 4)) == 0, 'sky': draw(st.integers(0, 4)) == 0,
            'invert': draw(st.sampled_from([None, None, 'BOTH'])),
            'fit': draw(st.sampled_from([1., 1.6, 3.]))}


@st.composite
def cases(draw):
    d = draw(image())
    kind = draw(st.sampled_from(['fits'] * 12 + ['bytes', 'empty', 'dir', 'missing', 'text',
                                                 'gzip']))
    c = {'img': d, 'kind': kind, 'cam': draw(camera()),
         'role': draw(st.sampled_from(['photo', 'photo', 'photo', 'flat', 'mosaic']))}
    if kind == 'fits':
        c['muts'] = draw(st.lists(mutation, max_size=draw(st.sampled_from([0, 1, 1, 2, 3, 5]))))
    elif kind in ('bytes', 'gzip'):
        c['bytes'] = draw(st.binary(max_size=60)).decode('latin-1')
        c['rep'] = draw(st.sampled_from([1, 50, 100]))
    return c


def make_spec(cam, ns, nl, role):
    a = 1000.
    im = {'file': 'p.fits', 'sample_center': ns / 2., 'line_center': nl / 2., 'sub_lat': 10.,
          'sub_lon': cam['sub'], 'pa': 0., 'sun_lat': 0., 'sun_lon': cam['sub'], 'range': 1e6,
          'kmpp': 2 * a * cam['fit'] / min(ns, nl), 'interpolate': cam['interpolate'],
          'remove_sky': cam['sky']}
    if cam['invert']:
        im['invert'] = cam['invert']
    ims = [im]
    if role == 'flat':
        im['flat'] = 'x.fits'
    elif role == 'mosaic':
        ims = [im, dict(im, file='x.fits')]
    else:
        im['file'] = 'x.fits'
    return {'file': 'm.fits', 'body': {'a': a, 'c': 900., 'prograde': True},
            'data_type': cam['type'], 'proj': {'type': 'SIMPLE_C'}, 'samples': cam['samples'],
            'lines': cam['lines'], 'planes': [{'kind': 'IMAGE', 'images': ims}],
            'averaging': 'NONE' if role == 'mosaic' else None}


def decode(b):
    """Values of the first plane of the first image, or None if undecodable."""
    off, first = 0, True
    while off < len(b):
        try:
            u, off = fits._read_hdu(b, off, first)
        except (fits.FitsError, KeyError, TypeError, ValueError, IndexError, OverflowError,
                MemoryError):
            return None
        if u.data is not None and u.data.size:
            break
        first = False
    else:
        return None
    h = u.h
    if not first and h.get('XTENSION') != 'IMAGE':
        return None
    if u.data.ndim < 2 or h.get('GROUPS') or h.get('ZIMAGE') or h.get('PCOUNT', 0) not in (0,) \
            or h.get('GCOUNT', 1) != 1:
        return None
    for k in ('BSCALE', 'BZERO', 'BLANK'):
        if k in h and (isinstance(h[k], (bool, str)) or h[k] is None):
            return None
    p = u.data[(0,) * (u.data.ndim - 2)]
    with np.errstate(all='ignore'):
        v = p.astype(float) * float(h.get('BSCALE', 1)) + float(h.get('BZERO', 0))
    if p.dtype.kind != 'f' and 'BLANK' in h:
        v = np.where(p == h['BLANK'], np.nan, v)
    return v


def claimed_pixels(b):
    n = 1
    for m in re.finditer(rb'NAXIS[1-9]\s*=\s*([0-9.+E-]+)', b[:20000]):
        try:
            n *= max(1, abs(float(m.group(1))))
        except ValueError:
            pass
    return n


def check(case, ctx):
    d = ctx.fresh()
    im, cam = case['img'], case['cam']
    kind = case['kind']
    path = os.path.join(d, 'x.fits')
    good = {'ns': im['ns'], 'nl': im['nl'], 'bitpix': -64, 'base': 1, 'axes': [], 'ext': False,
            'sum': False, 'cards': []}
    with open(os.path.join(d, 'p.fits'), 'wb') as f:
        f.write(b''.join(encode(good)))
    b = None
    if kind == 'fits':
        b = mutate(*encode(im), case['muts'])
    elif kind == 'bytes':
        b = case['bytes'].encode('latin-1') * case['rep']
    elif kind == 'gzip':
        b = b'\x1f\x8b\x08\x00' + case['bytes'].encode('latin-1') * case['rep']
    elif kind == 'empty':
        b = b''
    elif kind == 'text':
        b = b'MAP: m.fits\n' * 300
    elif kind == 'dir':
        os.mkdir(path)
    if b is not None:
        with open(path, 'wb') as f:
            f.write(b)
    s = make_spec(cam, im['ns'], im['nl'], case['role'])
    huge = b is not None and claimed_pixels(b) > 4e6
    if huge and claimed_pixels(b) > 1e9 and (b'DATASUM' in b or b'CHECKSUM' in b):
        return None             # CFITSIO sums over the claimed size: minutes to hours
    r = run.marc(ctx.fast if huge else ctx.san, spec.render(s), d, timeout=60,
                 mem=(3 << 30) if huge else None)
    what = p15.outcome(r, d)
    if r.rc != 0:
        if os.path.exists(os.path.join(d, 'm.fits')) and b'Created map: m.fits' in r.out:
            raise Violation('status %d although the map is reported as created' % r.rc)
        if kind == 'fits' and not case['muts'] and not (case['role'] == 'flat' and False):
            v = decode(b)
            if v is not None and not rejectable(im, case):
                raise Violation('status %d for a valid image: %s' % (r.rc, r.tail()))
        return kind + ':rejected'
    if kind in ('bytes', 'empty', 'text', 'dir', 'missing', 'gzip'):
        raise Violation('status 0 although the source image is %s' % kind)
    v = decode(b)
    if v is None:
        return 'fits:undecodable'
    m = planes_of(fits.read(os.path.join(d, 'm.fits'))[0], 1)[0]
    h = fits.read(os.path.join(d, 'm.fits'))[0].h
    if m.dtype.kind == 'f':
        got = m[~np.isnan(m)].astype(float)
        if np.isinf(got).any():
            raise Violation('infinite value plotted')
    else:
        got = m[m != h.get('BLANK', 0)].astype(float)
    if case['role'] == 'flat' or len(got) == 0:
        if case['role'] == 'flat' and v.shape != (im['nl'], im['ns']):
            raise Violation('flat field image of %s applied to a photo of %s' % (
                v.shape, (im['nl'], im['ns'])))
        return 'fits:' + case['role']
    ok = v[np.isfinite(v)]
    if case['role'] == 'mosaic':
        ok = np.concatenate([ok, 1.25 + np.arange(im['ns'] * im['nl']) % 200])
    if cam['interpolate']:
        if len(ok) == 0:
            raise Violation('%r plotted from an image without valid pixels' % got[0])
        lo, hi = ok.min(), ok.max()
        e = 1e-6 * max(abs(lo), abs(hi), 1)
        bad = ~((got >= lo - e) & (got <= hi + e)) if m.dtype.kind == 'f' else \
            ~((got >= np.trunc(lo) - 1) & (got <= np.trunc(hi) + 1))
    else:
        if m.dtype.kind == 'f':
            with np.errstate(all='ignore'):
                ok = ok.astype(m.dtype).astype(float)
            t = 1e-6 if m.dtype.itemsize == 4 else 1e-12
            near = np.abs(got[:, None] - ok[None, :]) <= t * np.maximum(
                np.abs(got)[:, None], 1e-300) if len(ok) else np.zeros((len(got), 1), bool)
        else:
            near = np.abs(got[:, None] - np.trunc(ok)[None, :]) <= 1e-9 * np.abs(
                got)[:, None] if len(ok) else np.zeros((len(got), 1), bool)
        bad = ~near.any(axis=1)
    if bad.any():
        raise Violation('the map holds %r, which is not a value of the image' % got[bad][0])
    return 'fits:values'


def rejectable(im, case):
    """Reasons for which a well formed image may be rejected."""
    for k, v in im['cards']:
        if k in ('DATAMIN', 'DATAMAX'):
            return True         # the recorded range may be empty
        if k == 'BLANK' and case['cam']['type'] == 'BYTE':
            return True
    return False


# -------------------------------------------------------------- truncation

@st.composite
def cut_cases(draw):
    d = draw(image())
    return {'img': d, 'cam': draw(camera()), 'frac': draw(st.floats(0, 0.9999)),
            'role': draw(st.sampled_from(['photo', 'photo', 'flat', 'mosaic']))}


def check_cut(case, ctx):
    im = case['img']
    head, data = encode(im)
    need = len(head) + im['ns'] * im['nl'] * abs(im['bitpix']) // 8
    b = (head + data)[:int(case['frac'] * need)]
    d = ctx.fresh()
    good = dict(im, bitpix=-64, axes=[], ext=False, sum=False, cards=[], special=[])
    with open(os.path.join(d, 'p.fits'), 'wb') as f:
        f.write(b''.join(encode(good)))
    with open(os.path.join(d, 'x.fits'), 'wb') as f:
        f.write(b)
    r = run.marc(ctx.san, spec.render(make_spec(case['cam'], im['ns'], im['nl'], case['role'])), d,
                 timeout=60)
    p15.outcome(r, d)
    if r.rc == 0:
        raise Violation('status 0 although the %s image ends after %d of %d bytes' % (
            case['role'], len(b), need))
    return '%s/%d' % (case['role'], im['bitpix'])


# --------------------------------------------------------------- checksums

@st.composite
def sum_cases(draw):
    d = draw(image())
    d['sum'] = draw(st.sampled_from([True, True, 'data', 'head', False]))
    d['cards'] = [('XNOTE', 'a note')] + [c for c in d['cards'] if c[0] not in ('DATAMIN', 'DATAMAX', 'BLANK')]
    d.pop('special', None)
    return {'img': d, 'cam': dict(draw(camera()), type='DOUBLE'),
            'hit': draw(st.one_of(st.none(), st.floats(0, 1),
                                                             st.just('header'))), 'xor': draw(st.integers(1, 255)),
            'role': draw(st.sampled_from(['photo', 'flat']))}


def check_sum(case, ctx):
    im = case['img']
    head, data = encode(im)
    wrong = bool(im['sum']) and case['hit'] is not None
    if case['hit'] == 'header':
        head = head.replace(b"'a note", b"'a nose")
        wrong = im['sum'] in (True, 'head')
    elif case['hit'] is not None:
        n = int(np.prod([im['ns'], im['nl']] + im['axes'])) * abs(im['bitpix']) // 8
        i = int(case['hit'] * (n - 1))
        data = data[:i] + bytes([data[i] ^ case['xor']]) + data[i + 1:]
    d = ctx.fresh()
    good = dict(im, bitpix=-64, axes=[], ext=False, sum=False, cards=[])
    with open(os.path.join(d, 'p.fits'), 'wb') as f:
        f.write(b''.join(encode(good)))
    with open(os.path.join(d, 'x.fits'), 'wb') as f:
        f.write(head + data)
    r = run.marc(ctx.fast, spec.render(make_spec(case['cam'], im['ns'], im['nl'], case['role'])), d,
                 timeout=60)
    p15.outcome(r, d)
    said = b'checksum' in (r.out + r.err).lower()
    if said != wrong:
        raise Violation('checksum of the %s image is %s but the program %s it' % (
            case['role'], 'wrong' if wrong else 'right or absent',
            'complains about' if said else 'does not mention'))
    return '%s/%s' % (im['sum'], 'none' if case['hit'] is None else 'header'
                      if case['hit'] == 'header' else 'data')


# ------------------------------------------------- dimensions of flat fields

@st.composite
def flat_cases(draw):
    ns, nl = draw(st.integers(2, 24)), draw(st.integers(2, 24))
    n = ns * nl
    k = draw(st.integers(0, 4))
    if k == 0:
        fs, fl = ns, nl
    elif k == 1:
        fs, fl = nl, ns
    elif k == 2:        # the same number of pixels
        fs = draw(st.sampled_from([i for i in range(1, n + 1) if n % i == 0]))
        fl = n // fs
    elif k == 3:
        fs, fl = max(1, ns + draw(st.integers(-2, 2))), max(1, nl + draw(st.integers(-2, 2)))
    else:
        fs, fl = draw(st.sampled_from([(ns, 2 * nl), (2 * ns, nl), (ns, 1), (1, nl)]))
    return {'ns': ns, 'nl': nl, 'fs': fs, 'fl': fl, 'axes': draw(st.sampled_from([[], [], [1], [2]])),
            'bitpix': draw(st.sampled_from([16, 32, -32, -64])), 'second': draw(st.booleans()),
            'cam': dict(draw(camera()), type='DOUBLE', interpolate=False)}


def check_flat(case, ctx):
    d = ctx.fresh()
    good = {'ns': case['ns'], 'nl': case['nl'], 'bitpix': -64, 'base': 1000, 'axes': [],
            'ext': False, 'sum': False, 'cards': []}
    flat = dict(good, ns=case['fs'], nl=case['fl'], axes=case['axes'], bitpix=case['bitpix'],
                base=5)
    for n, x in ('p.fits', good), ('x.fits', flat):
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b''.join(encode(x)))
    s = make_spec(case['cam'], case['ns'], case['nl'], 'flat')
    if case['second']:          # the flat field is that of the second photo of a mosaic
        im = s['planes'][0]['images'][0]
        s['planes'][0]['images'] = [{k: v for k, v in im.items() if k != 'flat'}, im]
    r = run.marc(ctx.san, spec.render(s), d, timeout=60)
    p15.outcome(r, d)
    same = (case['ns'], case['nl']) == (case['fs'], case['fl'])
    if not same and r.rc == 0:
        raise Violation('flat field image of %d x %d pixels accepted for a photo of %d x %d' % (
            case['fs'], case['fl'], case['ns'], case['nl']))
    if same and r.rc != 0:
        raise Violation('status %d for a flat field image of the right size: %s' % (
            r.rc, r.tail()))
    return 'same' if same else ('same pixels' if case['fs'] * case['fl'] ==
                                case['ns'] * case['nl'] else 'other')


ARMS = [Arm('damage', cases(), check, n=4000, thorough=120000, needs=('san', 'fast')),
        Arm('cut', cut_cases(), check_cut, n=800, thorough=20000, needs=('san',)),
        Arm('sum', sum_cases(), check_sum, n=900, thorough=10000),
        Arm('flat', flat_cases(), check_flat, n=500, thorough=10000, needs=('san',))]
