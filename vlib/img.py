"""Source image arrays from compact JSON-able descriptions."""
import gzip
import numpy as np
from vlib import fits

CONTAINERS = ('gzip', 'extension', 'after table', 'after images', 'tiles', 'tiles gzip')


def _hdu(cards, data):
    cards = [fits.card(k, v) for k, v in cards] + ['END'.ljust(80)]
    return fits.pad(''.join(cards).encode('ascii'), b' ') + fits.pad(data, b'\0')


EMPTY = _hdu([('SIMPLE', True), ('BITPIX', 8), ('NAXIS', 0), ('EXTEND', True)], b'')


def contain(a, bitpix, extra, how, tile):
    """Bytes of a file that holds the image in the given way."""
    a = np.asarray(a)
    nl, ns = a.shape
    t = fits.DTYPES[bitpix]
    raw = a.astype(t)
    dims = [('BITPIX', bitpix), ('NAXIS', 2), ('NAXIS1', ns), ('NAXIS2', nl)]
    ext = _hdu([('XTENSION', 'IMAGE')] + dims + [('PCOUNT', 0), ('GCOUNT', 1)] + list(extra),
               raw.tobytes())
    if how == 'gzip':
        return gzip.compress(_hdu([('SIMPLE', True)] + dims + list(extra), raw.tobytes()),
                             mtime=0)
    if how == 'extension':
        return EMPTY + ext
    if how == 'after table':
        tab = _hdu([('XTENSION', 'BINTABLE'), ('BITPIX', 8), ('NAXIS', 2), ('NAXIS1', 8),
                    ('NAXIS2', 3), ('PCOUNT', 0), ('GCOUNT', 1), ('TFIELDS', 1),
                    ('TTYPE1', 'X'), ('TFORM1', '1D')], np.arange(3.).astype('>f8').tobytes())
        return EMPTY + tab + ext
    if how == 'after images':
        # only the first image counts
        return (_hdu([('SIMPLE', True)] + dims + list(extra), raw.tobytes()) +
                _hdu([('XTENSION', 'IMAGE')] + dims + [('PCOUNT', 0), ('GCOUNT', 1)],
                     raw[::-1, ::-1].tobytes()))
    # tiled image compression convention
    rows, heap = [], b''
    tl, ts = tile
    for y in range(0, nl, tl):
        for x in range(0, ns, ts):
            c = gzip.compress(raw[y:y + tl, x:x + ts].tobytes(), mtime=0)
            rows += [len(c), len(heap)]
            heap += c
    n = len(rows) // 2
    tab = _hdu([('XTENSION', 'BINTABLE'), ('BITPIX', 8), ('NAXIS', 2), ('NAXIS1', 8),
                ('NAXIS2', n), ('PCOUNT', len(heap)), ('GCOUNT', 1), ('TFIELDS', 1),
                ('TTYPE1', 'COMPRESSED_DATA'), ('TFORM1', '1PB(%d)' % max(rows[::2])),
                ('ZIMAGE', True), ('ZTILE1', ts), ('ZTILE2', tl), ('ZCMPTYPE', 'GZIP_1'),
                ('ZBITPIX', bitpix), ('ZNAXIS', 2), ('ZNAXIS1', ns),
                ('ZNAXIS2', nl)] + ([('ZQUANTIZ', 'NONE')] if bitpix < 0 else []) + list(extra), np.array(rows, '>i4').tobytes() + heap)
    b = EMPTY + tab
    return gzip.compress(b, mtime=0) if how == 'tiles gzip' else b


def array(d):
    n = d['ns'] * d['nl']
    k = np.arange(n)
    if d.get('mod'):
        k = (k * 37) % d['mod']
    a = (d['base'] + d['mul'] * k).astype(float)
    for i in d.get('nan', ()):
        if i < n:
            a[i] = np.nan
    return a.reshape(d['nl'], d['ns'])


def writer(d, bitpix=-64, extra=()):
    a = array(d)
    return lambda path: fits.write(path, a, bitpix, extra)


def contained(d, how, tile, bitpix=-64, extra=()):
    b = contain(array(d), bitpix, extra, how, tile)

    def w(path):
        with open(path, 'wb') as f:
            f.write(b)
    return w
