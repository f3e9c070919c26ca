'''C06: compact difficulty bits, targets and work are related exactly as consensus defines.'''

from . import ref
from .common import eq, true, raises, Mismatch

LEVEL = 'exploration'
RULE = ('Every exponent with every mantissa of a boundary set (thorough: every mantissa there is) is '
        'decoded, encoded back, and turned into work, against a reference written from the '
        'definition; every value outside the valid range boundary must be refused; every target '
        'below 2**17 and every target within 3 of k * 2**n for a set of k is encoded and must be '
        'the largest representable value not above it.  Non-trivial: a valid value.')
TRIVIAL = ('refused',)
EXPECT = ('valid bits', 'refused', 'target rounded', 'target exact')


def tasks(tier):
    out = []
    if tier == 'thorough':
        out += [('all', size, lo) for size in range(0x22) for lo in range(0x8000, 0x800000, 1 << 19)]
        out += [('words', size, 61) for size in range(0x24)]
    else:
        out += [('words', size, 4099) for size in range(0x24)]
    out += [('small', lo) for lo in range(0, 1 << 17, 1 << 14)]
    out += [('shift', lo) for lo in range(0, 258, 8)]
    out += [('edges',), ('headers',)]
    return out


def words(stride):
    out = set(range(0, 0x1000000, stride))
    for a in (0, 0x8000, 0x7fff, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff,
              0x400000, 0x008080, 0x00ff00):
        out.update(range(max(a - 130, 0), min(a + 130, 0x1000000)))
    out.update(1 << i for i in range(24))
    out.update((1 << i) - 1 for i in range(25))
    out.update((1 << i) + 1 for i in range(23))
    out.update(i << 8 for i in range(0, 0x10000, 17))
    return sorted(out)


def run(task, res):
    kind = task[0]
    if kind == 'all':
        _, size, lo = task
        for start in range(lo, min(lo + (1 << 19), 0x800000), 1 << 14):
            res.case(span, size, start, min(start + (1 << 14), 0x800000), seconds=300)
    elif kind == 'words':
        _, size, stride = task
        for word in words(stride):
            res.case(bits, size << 24 | word)
    elif kind == 'small':
        for t in range(task[1], task[1] + (1 << 14)):
            res.case(target, t)
    elif kind == 'shift':
        for shift in range(task[1], min(task[1] + 8, 258)):
            for k in (1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffff, 0x800000,
                      0x800001, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff):
                for d in range(-3, 4):
                    res.case(target, (k << shift) + d)
    elif kind == 'edges':
        for v in (-1, -2, -0x1d00ffff, 0x2100ffff + 1, 0x21010000, 0x2200ffff, 0xffffffff, 1 << 32,
                  0x100000000 + 0x1d00ffff, 1 << 64):
            res.case(bits, v)
        for t in (-1, -2, -(1 << 255), (1 << 256) - 1, (1 << 256) - (1 << 232),
                  (1 << 256) - (1 << 240) - 1, (1 << 256) - (1 << 240), 1 << 256, (1 << 256) + 1,
                  1 << 300):
            res.case(target, t)
    else:
        for size in range(0x22):
            for word in (0x8000, 0x8001, 0xffff, 0x10000, 0x123456, 0x7fffff, 0x400000):
                res.case(header, size << 24 | word)


def one(b):
    from bitcoinx import bits_to_target, target_to_bits, bits_to_work
    want = ref.compact_decode(b) if 0 <= b < 1 << 32 else None
    if want is None:
        raises(ValueError, bits_to_target, b, what=f'bits 0x{b:x}')
        raises(ValueError, bits_to_work, b, what=f'work of bits 0x{b:x}')
        return False
    got = bits_to_target(b)
    if got != want or type(got) is not int:
        raise Mismatch(f'bits 0x{b:08x}: target {got:x}, expected {want:x}')
    if b:
        if target_to_bits(got) != b:
            raise Mismatch(f'bits 0x{b:08x} become 0x{target_to_bits(got):08x}')
    work = (1 << 256) // (want + 1)
    if bits_to_work(b) != work:
        raise Mismatch(f'bits 0x{b:08x}: work {bits_to_work(b)}, expected {work}')
    return True


def bits(b):
    return 'valid bits' if one(b) else 'refused'


def span(size, lo, hi):
    good = 0
    for word in range(lo, hi):
        good += one(size << 24 | word)
    return {'evals': hi - lo, 'valid bits': good, 'refused': hi - lo - good}


def target(t):
    from bitcoinx import bits_to_target, target_to_bits
    if not 0 <= t < 1 << 256:
        raises(ValueError, target_to_bits, t, what=f'target {t:x}')
        return 'refused'
    b = target_to_bits(t)
    want = ref.compact_encode(t)
    if b != want or type(b) is not int:
        raise Mismatch(f'target {t:x}: bits 0x{b:08x}, expected 0x{want:08x}')
    back = bits_to_target(b)
    true(back <= t, f'target {t:x} is rounded up')
    if back != t:
        # the next representable value is above
        word, size = b & 0xffffff, b >> 24
        following = (word + 1) << 8 * (size - 3) if size >= 3 else back + 1
        true(following > t, f'target {t:x} is rounded down too far')
        return 'target rounded'
    return 'target exact'


def header(b):
    '''The same through a header.'''
    import bitcoinx
    from .chainmodel import pack_header
    raw = pack_header(1, bytes(32), bytes(32), 5, b, 6)
    want = ref.compact_decode(b)
    if want is None:
        raises(ValueError, bitcoinx.Bitcoin.header_work, raw, what='work of a header')
        return 'refused'
    for coin in (bitcoinx.Bitcoin, bitcoinx.BitcoinTestnet):
        h = coin.deserialized_header(raw, 3)
        eq(h.target(), want, 'target of a header')
        eq(h.work(), (1 << 256) // (want + 1), 'work of a header')
        eq(coin.header_work(raw), (1 << 256) // (want + 1), 'work of a raw header')
        eq(coin.header_bits(raw), b, 'bits of a raw header')
        eq(h.hash_value(), int.from_bytes(ref.sha256d(raw), 'little'), 'hash value')
        if want:
            eq(h.difficulty(), (0xffff << 208) / want, 'difficulty')
            eq(coin.bits_to_difficulty(b), (0xffff << 208) / want, 'difficulty')
    return 'valid bits'
