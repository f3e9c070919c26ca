'''C07: integer, varint, varbytes, list and header codecs: exact, self-delimiting, and loud when the
data is short or the value out of range.'''

import hashlib
import struct
from io import BytesIO

from . import ref
from .common import eq, true, raises, Mismatch

LEVEL = 'exploration'
RULE = ('Every 16-bit value and, for wider integers, every value within 2 of a power of two or of a '
        'range limit and every value with one non-zero byte; every varint below 70000 and around '
        'each width limit; every varbytes length to 600 and around each limit; every list length to '
        '300 and around each limit; each read back from a stream with other data before and after, '
        'and from a stream cut at every byte.  Non-trivial: all but the out-of-range values.')
TRIVIAL = ('refused',)
EXPECT = ('int', 'refused', 'varint', 'varbytes', 'list', 'cut', 'header', 'digest')

INTS = {'le_int32': (4, 'little', True), 'le_int64': (8, 'little', True),
        'le_uint16': (2, 'little', False), 'le_uint32': (4, 'little', False),
        'le_uint64': (8, 'little', False), 'be_uint16': (2, 'big', False),
        'be_uint32': (4, 'big', False), 'be_uint64': (8, 'big', False)}


def tasks(tier):
    top = 70_000 if tier == 'quick' else 1_200_000
    out = [('int', name) for name in INTS]
    out += [('varint', lo, min(lo + 10_000, top)) for lo in range(0, top, 10_000)]
    out += [('varint wide',), ('varbytes', 0), ('varbytes', 1), ('list',), ('header',), ('misc',),
            ('digest',)]
    if tier == 'thorough':
        out += [('int32', name, lo) for name in ('le_uint32', 'be_uint32', 'le_int32')
                for lo in range(0, 1 << 32, 1 << 27)]
    return out


def wide(bits):
    out = set()
    for k in range(bits + 2):
        for d in (-2, -1, 0, 1, 2):
            out.update(((1 << k) + d, -(1 << k) + d))
    for k in range(0, bits, 8):
        out.update(v << k for v in range(256))
    out.update(sum(v << k for k in range(0, bits, 8)) for v in range(256))
    return sorted(out)


def run(task, res):
    kind = task[0]
    if kind == 'int':
        name = task[1]
        size = INTS[name][0]
        for v in (range(-3, 0x10003) if size == 2 else wide(size * 8)):
            res.case(integer, name, v)
    elif kind == 'int32':
        res.case(int_span, task[1], task[2], seconds=3000)
    elif kind == 'varint':
        for n in range(task[1], task[2]):
            res.case(varint, n)
    elif kind == 'varint wide':
        for n in wide(64):
            res.case(varint, n)
        for first in (253, 254, 255):
            for v in wide(16):
                if 0 <= v < 1 << (8 * {253: 2, 254: 4, 255: 8}[first]):
                    res.case(long_form, first, v)
    elif kind == 'varbytes':
        lengths = range(600) if task[1] == 0 else [*range(65_530, 65_542), 1 << 20]
        for n in lengths:
            res.case(varbytes, n)
    elif kind == 'list':
        for n in [*range(300), 65_534, 65_535, 65_536, 65_537]:
            res.case(items, n)
    elif kind == 'header':
        for i in range(80):
            for v in (0, 1, 0x7f, 0x80, 0xff):
                res.case(header, i, v)
        for n in (0, 1, 79, 81, 160):
            res.case(header_size, n)
    elif kind == 'misc':
        for v in [v for v in wide(64) if v >= 0] + list(range(1 << 12)):
            res.case(misc_int, v)
        for v in range(256):
            res.case(one_byte, v)
        for v in (-1, 256, 1000):
            res.case(one_byte, v)
    else:
        for n in [*range(300), 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537, 1 << 20]:
            res.case(digest, n)
        for n in [*range(200), 255, 256, 257, 1000, 65_537]:
            for m in (0, 1, 3, 100):
                res.case(mac, n, m)


def integer(name, v):
    import bitcoinx
    size, order, signed = INTS[name]
    pack = getattr(bitcoinx, 'pack_' + name)
    unpack = getattr(bitcoinx, 'unpack_' + name)
    unpack_from = getattr(bitcoinx, f'unpack_{name}_from')
    read = getattr(bitcoinx, 'read_' + name)
    try:
        want = v.to_bytes(size, order, signed=signed)
    except OverflowError:
        raises(struct.error, pack, v, what=f'pack_{name}({v})')
        return 'refused'
    got = pack(v)
    eq(got, want, f'pack_{name}({v})')
    eq(unpack(want), (v,), f'unpack_{name}')
    eq(unpack_from(b'abc' + want + b'de', 3), (v,), f'unpack_{name}_from')
    stream = BytesIO(want + b'tail')
    eq(read(stream.read), v, f'read_{name}')
    eq(stream.tell(), size, f'bytes read by read_{name}')
    if v in (0, 1, 255):
        for cut in range(size):
            raises(struct.error, read, BytesIO(want[:cut]).read, what=f'read_{name} cut short')
            raises(struct.error, unpack, want[:cut], what=f'unpack_{name} cut short')
        raises(struct.error, unpack, want + b'\0', what=f'unpack_{name} too long')
    return 'int'


def int_span(name, lo):
    import bitcoinx
    size, order, signed = INTS[name]
    pack, unpack = getattr(bitcoinx, 'pack_' + name), getattr(bitcoinx, 'unpack_' + name)
    base = -(1 << 31) if signed else 0
    for v in range(base + lo, base + lo + (1 << 27), 7):
        data = pack(v)
        if data != v.to_bytes(size, order, signed=signed) or unpack(data)[0] != v:
            raise Mismatch(f'{name} {v}')
    return {'evals': (1 << 27) // 7, 'int': (1 << 27) // 7}


def cut_short(read_one, data, what):
    '''Every proper prefix is refused.'''
    n = len(data)
    cuts = range(n) if n < 200 else [*range(60), n // 2, *range(n - 20, n)]
    for cut in cuts:
        raises(Exception, read_one, BytesIO(data[:cut]).read, what=f'{what} cut at {cut}')


def varint(n):
    from bitcoinx import pack_varint, read_varint, varint_len
    if not 0 <= n < 1 << 64:
        raises((ValueError, struct.error), varint_len, n, what=f'varint_len({n})')
        raises((ValueError, struct.error), pack_varint, n, what=f'pack_varint({n})')
        return 'refused'
    want = ref.varint(n)
    eq(pack_varint(n), want, f'pack_varint({n})')
    eq(varint_len(n), len(want), f'varint_len({n})')
    stream = BytesIO(want + b'\xff\xff')
    eq(read_varint(stream.read), n, f'read_varint of {n}')
    eq(stream.tell(), len(want), 'bytes read by read_varint')
    if n % 50 == 3 or n > 60_000:
        cut_short(read_varint, want, 'varint')
    return 'varint'


def long_form(first, v):
    '''Values that would fit a shorter form are read all the same.'''
    from bitcoinx import read_varint
    size = {253: 2, 254: 4, 255: 8}[first]
    data = bytes([first]) + v.to_bytes(size, 'little')
    stream = BytesIO(data + b'z')
    eq(read_varint(stream.read), v, 'varint in long form')
    eq(stream.tell(), 1 + size, 'bytes read')
    cut_short(read_varint, data, 'varint in long form')
    return 'varint'


def varbytes(n):
    from bitcoinx import pack_varbytes, read_varbytes
    data = bytes(i * 7 % 251 for i in range(min(n, 997))) * (n // 997 + 1)
    data = data[:n]
    want = ref.varint(n) + data
    eq(pack_varbytes(data), want, f'pack_varbytes of {n}')
    stream = BytesIO(b'ab' + want + b'tail')
    stream.read(2)
    eq(read_varbytes(stream.read), data, f'read_varbytes of {n}')
    eq(stream.tell(), 2 + len(want), 'bytes read by read_varbytes')
    cut_short(read_varbytes, want, 'varbytes')
    return {'varbytes': 1, 'cut': 1}


def items(n):
    from bitcoinx import (pack_list, read_list, pack_le_uint16, read_le_uint16, pack_varbytes,
                          read_varbytes)
    data = [i % 60_000 for i in range(n)]
    want = ref.varint(n) + b''.join(v.to_bytes(2, 'little') for v in data)
    eq(pack_list(data, pack_le_uint16), want, f'pack_list of {n}')
    stream = BytesIO(want + b'tail')
    eq(list(read_list(stream.read, read_le_uint16)), data, f'read_list of {n}')
    eq(stream.tell(), len(want), 'bytes read by read_list')
    if n < 300:
        cut_short(lambda read: read_list(read, read_le_uint16), want, 'list')
        data = [bytes([i % 256]) * (i % 5) for i in range(n)]
        want = ref.varint(n) + b''.join(ref.varbytes(d) for d in data)
        eq(pack_list(data, pack_varbytes), want, 'pack_list of varbytes')
        eq(pack_list(tuple(data), pack_varbytes), want, 'pack_list of a tuple')
        eq(list(read_list(BytesIO(want + b'x').read, read_varbytes)), data,
           'read_list of varbytes')
        cut_short(lambda read: read_list(read, read_varbytes), want, 'list of varbytes')
    return 'list'


def header(i, v):
    import bitcoinx
    for fill in (0, 0x5a, 0xff):
        raw = bytearray([fill] * 80)
        raw[i] = v
        raw = bytes(raw)
        want = (int.from_bytes(raw[:4], 'little', signed=True), raw[4:36], raw[36:68],
                int.from_bytes(raw[68:72], 'little'), int.from_bytes(raw[72:76], 'little'),
                int.from_bytes(raw[76:], 'little'))
        eq(bitcoinx.unpack_header(raw), want, 'unpack_header')
        coin = bitcoinx.Bitcoin
        h = coin.deserialized_header(raw, 77)
        eq((h.version, h.prev_hash, h.merkle_root, h.timestamp, h.bits, h.nonce), want,
           'header fields')
        eq((h.hash, h.raw, h.height), (ref.sha256d(raw), raw, 77), 'header metadata')
        eq(h.hex_str(), ref.sha256d(raw)[::-1].hex(), 'displayed hash')
        eq((coin.header_hash(raw), coin.header_prev_hash(raw), coin.header_timestamp(raw),
            coin.header_bits(raw)), (ref.sha256d(raw), want[1], want[3], want[4]),
           'header accessors')
    return 'header'


def header_size(n):
    import bitcoinx
    raises(struct.error, bitcoinx.unpack_header, bytes(n), what=f'header of {n} bytes')
    return 'refused'


def misc_int(v):
    import bitcoinx
    size = max((v.bit_length() + 7) // 8, 0)
    be, le = v.to_bytes(size, 'big'), v.to_bytes(size, 'little')
    eq(bitcoinx.int_to_be_bytes(v), be, 'int_to_be_bytes')
    eq(bitcoinx.int_to_le_bytes(v), le, 'int_to_le_bytes')
    eq(bitcoinx.int_to_be_bytes(v, size + 3), bytes(3) + be, 'int_to_be_bytes with a size')
    eq(bitcoinx.int_to_le_bytes(v, size + 3), le + bytes(3), 'int_to_le_bytes with a size')
    eq(bitcoinx.be_bytes_to_int(bytes(2) + be), v, 'be_bytes_to_int')
    eq(bitcoinx.le_bytes_to_int(le + bytes(2)), v, 'le_bytes_to_int')
    if size:
        raises(OverflowError, bitcoinx.int_to_be_bytes, v, size - 1, what='too small a size')
        raises(OverflowError, bitcoinx.int_to_le_bytes, v, size - 1, what='too small a size')
    return 'int'


def one_byte(v):
    import bitcoinx
    if not 0 <= v < 256:
        raises(struct.error, bitcoinx.pack_byte, v, what=f'pack_byte({v})')
        return 'refused'
    eq(bitcoinx.pack_byte(v), bytes([v]), 'pack_byte')
    eq(bitcoinx.unpack_byte(bytes([v])), (v,), 'unpack_byte')
    eq(bitcoinx.pack_port(v * 257), (v * 257).to_bytes(2, 'big'), 'pack_port')
    eq(bitcoinx.unpack_port((v * 257).to_bytes(2, 'big')), (v * 257,), 'unpack_port')
    return 'int'


def digest(n):
    import bitcoinx
    data = bytes(i * 5 % 256 for i in range(n))
    h = hashlib.sha256(data).digest()
    eq(bitcoinx.sha256(data), h, 'sha256')
    eq(bitcoinx.sha1(data), hashlib.sha1(data).digest(), 'sha1')
    eq(bitcoinx.sha512(data), hashlib.sha512(data).digest(), 'sha512')
    eq(bitcoinx.double_sha256(data), hashlib.sha256(h).digest(), 'double_sha256')
    r = hashlib.new('ripemd160', data).digest()
    eq(bitcoinx.ripemd160(data), r, 'ripemd160')
    eq(bitcoinx.hash160(data), hashlib.new('ripemd160', h).digest(), 'hash160')
    text = bitcoinx.hash_to_hex_str(h)
    eq(text, h[::-1].hex(), 'hash_to_hex_str')
    for t in (text, text.upper(), text.title(), text[:32].upper() + text[32:], text[:32] + text[32:].upper()):
        eq(bitcoinx.hex_str_to_hash(t), h, 'hex_str_to_hash')
    eq(bitcoinx.hash_to_value(h), int.from_bytes(h, 'little'), 'hash_to_value')
    return 'digest'


def mac(n, m):
    import bitcoinx
    key, msg = bytes(i * 3 % 256 for i in range(n)), bytes(range(m))
    want = ref.hmac512(key, msg)
    eq(bitcoinx.hmac_sha512(key, msg), want, 'hmac_sha512')
    eq(tuple(bitcoinx.hmac_sha512_halves(key, msg)), (want[:32], want[32:]), 'hmac_sha512_halves')
    eq(bitcoinx.hmac_digest(key, msg, hashlib.sha256), ref.hmac256(key, msg), 'hmac_digest')
    return 'digest'
