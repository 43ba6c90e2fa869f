"""A small, strict, independent FITS reader/writer (no CFITSIO involved)."""
import numpy as np

BLOCK = 2880
DTYPES = {8: '>u1', 16: '>i2', 32: '>i4', 64: '>i8', -32: '>f4', -64: '>f8'}


class FitsError(Exception):
    pass


def card(key, value, comment=''):
    if value is None:
        body = key.ljust(8) + ' ' + comment
        return body[:80].ljust(80)
    if isinstance(value, bool):
        v = ('T' if value else 'F').rjust(20)
    elif isinstance(value, (int, np.integer)):
        v = str(int(value)).rjust(20)
    elif isinstance(value, float):
        v = ('%.16G' % value)
        if '.' not in v and 'E' not in v and 'N' not in v:
            v += '.'
        elif 'E' in v and '.' not in v:
            v = v.replace('E', '.E')
        v = v.rjust(20)
    else:
        s = "'" + str(value).replace("'", "''").ljust(8) + "'"
        v = s.ljust(20)
    c = key.ljust(8) + '= ' + v
    if comment:
        c += ' / ' + comment
    if len(c) > 80:
        c = c[:80]
    return c.ljust(80)


def pad(b, ch):
    r = len(b) % BLOCK
    return b + ch * (BLOCK - r) if r else b


def write(path, data, bitpix=-64, extra=(), naxis_extra=None):
    """Write an N-d array (last axis fastest) with the given BITPIX."""
    data = np.asarray(data)
    shape = data.shape[::-1]
    cards = [card('SIMPLE', True), card('BITPIX', bitpix),
             card('NAXIS', len(shape))]
    for i, n in enumerate(shape):
        cards.append(card('NAXIS%d' % (i + 1), n))
    for k, v in extra:
        cards.append(card(k, v))
    cards.append('END'.ljust(80))
    hdr = pad(''.join(cards).encode('ascii'), b' ')
    body = pad(data.astype(DTYPES[bitpix]).tobytes(), b'\0')
    with open(path, 'wb') as f:
        f.write(hdr + body)


def parse_value(txt):
    """Parse the value field of a card; returns (value, kind)."""
    t = txt
    s = t.lstrip()
    if s.startswith("'"):
        out, i = [], 1
        while True:
            if i >= len(s):
                raise FitsError('unterminated string value: %r' % txt)
            if s[i] == "'":
                if i + 1 < len(s) and s[i + 1] == "'":
                    out.append("'")
                    i += 2
                    continue
                break
            out.append(s[i])
            i += 1
        rest = s[i + 1:].strip()
        if rest and not rest.startswith('/'):
            raise FitsError('junk after string value: %r' % txt)
        return ''.join(out).rstrip(), 'str'
    v = s.split('/')[0].strip()
    if v == '':
        return None, 'undef'
    if v in ('T', 'F'):
        return v == 'T', 'bool'
    try:
        return int(v), 'int'
    except ValueError:
        pass
    try:
        return float(v.replace('D', 'E')), 'float'
    except ValueError:
        raise FitsError('bad value field: %r' % txt)


class HDU:
    def __init__(self):
        self.cards = []      # (key, value or text)
        self.h = {}
        self.raw_header = b''
        self.raw_data = b''
        self.data = None

    def texts(self, key):
        """COMMENT / HISTORY texts."""
        return [v for k, v in self.cards if k == key]


def _read_hdu(b, off, primary):
    u = HDU()
    pos = off
    done = False
    while not done:
        blk = b[pos:pos + BLOCK]
        if len(blk) != BLOCK:
            raise FitsError('truncated header')
        for i in range(0, BLOCK, 80):
            c = blk[i:i + 80]
            if any(ch < 0x20 or ch > 0x7e for ch in c):
                raise FitsError('non printable ASCII in header card %r' % c)
            s = c.decode('ascii')
            if done:
                if s.strip():
                    raise FitsError('data after END card: %r' % s)
                continue
            key = s[:8].rstrip()
            if key == 'END':
                if s.strip() != 'END':
                    raise FitsError('bad END card')
                done = True
                continue
            if key in ('COMMENT', 'HISTORY', ''):
                u.cards.append((key, s[8:]))
            elif s[8:10] == '= ':
                v, kind = parse_value(s[10:])
                u.cards.append((key, v))
                if key in u.h and key not in ('CONTINUE',):
                    raise FitsError('duplicate keyword %s' % key)
                u.h[key] = v
            else:
                u.cards.append((key, s[8:]))
        pos += BLOCK
    u.raw_header = b[off:pos]
    order = [k for k, _ in u.cards]
    first = 'SIMPLE' if primary else 'XTENSION'
    if order[:3] != [first, 'BITPIX', 'NAXIS']:
        raise FitsError('mandatory keywords out of order: %r' % order[:4])
    bp = u.h['BITPIX']
    if bp not in DTYPES:
        raise FitsError('bad BITPIX %r' % bp)
    n = u.h['NAXIS']
    shape = []
    for i in range(n):
        if order[3 + i] != 'NAXIS%d' % (i + 1):
            raise FitsError('NAXISn keywords out of order')
        shape.append(u.h['NAXIS%d' % (i + 1)])
    cnt = 1
    for s in shape:
        cnt *= s
    if n == 0:
        cnt = 0
    size = cnt * abs(bp) // 8
    padded = (size + BLOCK - 1) // BLOCK * BLOCK
    raw = b[pos:pos + padded]
    if len(raw) != padded:
        raise FitsError('truncated data unit (%d of %d bytes)' % (len(raw), padded))
    u.raw_data = raw
    if n:
        u.data = np.frombuffer(raw[:size], dtype=DTYPES[bp]).reshape(shape[::-1])
        u.data = u.data.astype(u.data.dtype.newbyteorder('='))
    if any(raw[size:]):
        raise FitsError('non zero padding after data')
    return u, pos + padded


def read_bytes(b):
    if not b:
        raise FitsError('empty file')
    if len(b) % BLOCK:
        raise FitsError('file size %d is not a multiple of 2880' % len(b))
    out, off = [], 0
    while off < len(b):
        u, off = _read_hdu(b, off, not out)
        out.append(u)
    return out


def read(path):
    with open(path, 'rb') as f:
        return read_bytes(f.read())


def checksum32(b, s=0):
    a = np.frombuffer(b, dtype='>u4').astype(np.uint64)
    t = int(a.sum()) + s
    while t >> 32:
        t = (t & 0xffffffff) + (t >> 32)
    return t


def verify_checksums(u):
    """None if fine or absent, else a description."""
    ds = u.h.get('DATASUM')
    if ds is None or 'CHECKSUM' not in u.h:
        return 'DATASUM/CHECKSUM keyword missing'
    if int(ds) != checksum32(u.raw_data):
        return 'DATASUM %s does not match the data (%d)' % (
            ds, checksum32(u.raw_data))
    t = checksum32(u.raw_data, checksum32(u.raw_header))
    if t not in (0, 0xffffffff):
        return 'CHECKSUM: HDU does not sum to all ones (%08x)' % t
    return None
