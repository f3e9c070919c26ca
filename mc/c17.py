'''C17: private keys are imported and exported exactly, on the right network, or refused.'''

import functools
import itertools

from . import ref
from .common import eq, true, outcome, entropy, Mismatch

LEVEL = 'exploration'
RULE = ('A set of boundary secrets (range limits, leading zeros, single bits) goes through every '
        'form: bytes, integer, hexadecimal, WIF for each network and compression, and text; every '
        'WIF payload length, prefix byte and suffix byte, every one-character edit of WIF, '
        'hexadecimal and minikey text, and every sequence of up to 4 answers of the random source is '
        'offered and compared with a reference.  Non-trivial: all.')
EXPECT = ('key', 'refused', 'WIF', 'text', 'minikey', 'random', 'reduced')

N = ref.N
COINS = (('Bitcoin', 0x80), ('BitcoinTestnet', 0xef), ('BitcoinScalingTestnet', 0xef),
         ('BitcoinRegtest', 0xef))

SECRETS = sorted({1, 2, 3, 0xff, 0x100, N - 1, N - 2, N // 2, N // 2 + 1, (1 << 255) - 1, 1 << 255,
                  (1 << 128) + 5, int('01' * 32, 16), int('7f' * 32, 16), int('80' * 32, 16),
                  int('53' * 32, 16), 0x1234567890abcdef << 100}
                 | {1 << 8 * k for k in range(32)})
OUTSIDE = (0, N, N + 1, N + 2, (1 << 256) - 1, (1 << 256) - 2)


@functools.lru_cache(None)
def minikeys():
    '''Valid minikeys of both lengths, and strings that fail only the hash check.'''
    good, bad = [], []
    for size in (22, 30):
        hits, misses = hashed(size, 'S', 3)
        good += hits
        bad += misses
    return good, bad


def hashed(size, first, count):
    '''Base58 texts of a size and first character: some pass the minikey's hash check, some not.'''
    found = [], []
    k = 0
    while min(map(len, found)) < count:
        h = ref.sha256(b'%d %d' % (size, k))
        t = (first + ref.b58_encode(h + ref.sha256(h)))[:size]
        k += 1
        ok = ref.sha256(t.encode() + b'?')[0] == 0
        if len(found[not ok]) < count and t not in found[not ok]:
            found[not ok].append(t)
    return found


def hashed_but(size, i, c):
    '''A text that passes the hash check, all base 58 but for one place.'''
    for k in itertools.count():
        t = ('S' + ref.b58_encode(ref.sha256(b'%d %d %d' % (size, i, k))))[:size]
        t = t[:i] + c + t[i + 1:]
        if ref.sha256(t.encode() + b'?')[0] == 0:
            return t


def is_minikey(t):
    return (len(t) in (22, 30) and t[0] == 'S' and all(c in ref.B58 for c in t)
            and ref.sha256(t.encode() + b'?')[0] == 0)


def tasks(tier):
    out = [('secrets', k) for k in range(0, len(SECRETS), 4)] + [('outside',), ('payloads',)]
    out += [('typos', k, c) for k in range(2) for c in (0, 1)]
    out += [('hex',), *(('sizes', k) for k in range(5)), ('mini', 0), ('mini', 3), ('random', 4 if tier == 'quick' else 6),
            ('arbitrary',), ('types',)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'secrets':
        for s in SECRETS[task[1]:task[1] + 4]:
            for compressed in (True, False):
                for c in range(4):
                    res.case(key, s, compressed, c)
    elif kind == 'outside':
        for s in OUTSIDE:
            res.case(outside, s)
        for v in (-1, -(1 << 255), 1 << 256, (1 << 256) + 1, 1 << 300):
            res.case(big_int, v)
    elif kind == 'payloads':
        for s in (SECRETS[0], SECRETS[-1]):
            b = s.to_bytes(32, 'big')
            for v in range(256):
                res.case(text, ref.b58c_encode(bytes([v]) + b))
                res.case(text, ref.b58c_encode(bytes([v]) + b + b'\1'))
                for vb in (0x80, 0xef):
                    res.case(text, ref.b58c_encode(bytes([vb]) + b + bytes([v])))
            for n in range(0, 40):
                for vb in (0x80, 0xef):
                    res.case(text, ref.b58c_encode(bytes([vb]) + b'\1' * n))
                    res.case(text, ref.b58c_encode(bytes([vb]) + bytes(n)))
        for s in OUTSIDE:
            b = s.to_bytes(32, 'big')
            for vb in (0x80, 0xef, 0x00):
                for tail in (b'', b'\1', b'\2'):
                    res.case(text, ref.b58c_encode(bytes([vb]) + b + tail))
    elif kind == 'typos':
        _, k, c = task
        b = (SECRETS[20], N - 2)[k].to_bytes(32, 'big')
        t = ref.b58c_encode(bytes([(0x80, 0xef)[c]]) + b + b'\1' * c)
        for e in edits(t, ref.B58 + '0OIl '):
            res.case(text, e)
    elif kind == 'hex':
        for s in (1, N - 1, N, 0x53 << 240):
            t = f'{s:064x}'
            for e in edits(t, '09afAFgG xX-+_S1 \n\u0661\uff11'):
                res.case(text, e)
            for e in (t, t.upper(), '0x' + t, '0x' + t[2:], ' ' + t[1:], t[:32] + ' ' + t[32:],
                      t[:62], t + '00', 'S' * 64, '1' * 64, 'f' * 64, '0' * 64):
                res.case(text, e)
    elif kind == 'sizes':
        # The hash check alone makes no minikey: not of another size, nor one without its S
        for length in range(4 + task[1], 66, 5):
            for first in 'S' if length not in (22, 30) else 'STs15KL':
                for t in sum(hashed(length, first, 2), []):
                    res.case(minikey, t)
                    res.case(text, t)
    elif kind == 'mini':
        good, bad = minikeys()
        for t in good + bad:
            res.case(minikey, t)
            res.case(text, t)
        for t in good[task[1]:task[1] + 2]:
            for e in edits(t, ref.B58 + '0OIl?\xe9'):
                res.case(minikey, e)
        # Not base 58 in one place alone
        for span, c in itertools.product((22, 30), '0OIl +\xe9'[task[1]::2]):
            for i in range(1, span):
                res.case(minikey, hashed_but(span, i, c))
        if task[1] == 0:
            for e in edits(good[0], 'Ss1z'):
                res.case(text, e)
            for t in ('', 'S', 'S' * 22, 'S' * 30, '1' * 22, 's' * 22, 'S' * 26, '\0' * 22,
                      'S' + '0' * 21, 'S' + '\u0661' * 21, 'S' + '\ud800' * 21):
                res.case(minikey, t)
                res.case(text, t)
    elif kind == 'random':
        answers = (0, N, (1 << 256) - 1, 1, N - 1, 5 << 200)
        for n in range(1, task[1] + 1):
            for seq in itertools.product(range(len(answers)), repeat=n):
                if answers[seq[-1]] % N == 0 or answers[seq[-1]] > N:
                    continue
                res.case(random, [answers[k] for k in seq])
    elif kind == 'arbitrary':
        values = {0, 1, 2, N - 1, N, N + 1, 2 * N - 1, 2 * N, 2 * N + 1, (1 << 256) - 1, 1 << 256,
                  3 * N, 1000 * N, N * N, N * N + 7, N << 256, (N << 256) + 1, 255, 256}
        for v in values:
            for zeros in (0, 1, 40):
                res.case(arbitrary, v, zeros)
        res.case(arbitrary, 0, 0)
        for n in [*range(0, 100), 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4095, 4096, 4097, 65_536]:
            for fill in (0, 1, 0x80, 0xff):
                res.case(arbitrary, int.from_bytes(bytes([fill]) * n, 'big'),
                         n if fill == 0 else 0)
    else:
        for n in list(range(40)) + [64, 65]:
            res.case(size, n)
        res.case(wrong_types)


def edits(t, alphabet):
    out = set()
    for i in range(len(t) + 1):
        for a in alphabet:
            out.add(t[:i] + a + t[i:])
            out.add(t[:i] + a + t[i + 1:])
        out.add(t[:i] + t[i + 1:])
        out.add(t[:i] + t[i:i + 2][::-1] + t[i + 2:])
    return sorted(out)


def same(k, secret, compressed, coin_name, what):
    import bitcoinx
    b = secret.to_bytes(32, 'big')
    eq(k.to_bytes(), b, f'{what}: bytes')
    eq(k.to_int(), secret, f'{what}: integer')
    eq(k.to_hex(), b.hex(), f'{what}: hexadecimal')
    true(bool(k.is_compressed()) is compressed, f'{what}: compression')
    if coin_name:
        true(k.coin() is getattr(bitcoinx, coin_name),
             f'{what}: network {k.coin().name}, expected {coin_name}')
    pub = ref.ser_point(point(secret), compressed)
    eq(k.public_key.to_bytes(), pub, f'{what}: public key')
    true(k.public_key.is_compressed() == k.is_compressed(), f'{what}: public key compression')
    true(k.public_key.coin() is k.coin(), f'{what}: public key network')


@functools.lru_cache(None)
def point(secret):
    return ref.ec_mul(secret)


def key(s, compressed, c):
    import bitcoinx
    from bitcoinx import PrivateKey
    name, wif = COINS[c]
    coin = getattr(bitcoinx, name)
    b = s.to_bytes(32, 'big')
    k = PrivateKey(b, compressed, coin)
    same(k, s, compressed, name, 'constructed')
    for other in (PrivateKey(b), PrivateKey.from_int(s), PrivateKey.from_hex(b.hex()),
                  PrivateKey.from_hex(b.hex().upper()), PrivateKey.from_text(b.hex())):
        same(other, s, True, 'Bitcoin', 'from another form')
        true(other == k and hash(other) == hash(k), 'equal')
    true(PrivateKey.from_int(s % (N - 1) + 1) != k, 'not equal')
    true(b.hex() not in str(k), 'str does not show the secret')
    # WIF, with each override
    for comp in (None, True, False):
        for cc in (None, 0, 1):
            want_comp = compressed if comp is None else comp
            want_byte = wif if cc is None else COINS[cc][1]
            want = ref.b58c_encode(bytes([want_byte]) + b + b'\1' * want_comp)
            override = None if cc is None else getattr(bitcoinx, COINS[cc][0])
            got = k.to_WIF(compressed=comp, coin=override)
            eq(got, want, f'WIF of {b.hex()}')
            network = 'Bitcoin' if want_byte == 0x80 else 'BitcoinTestnet'
            for reader in (PrivateKey.from_WIF, PrivateKey.from_text):
                same(reader(got), s, want_comp, network, 'from WIF')
                eq(reader(got).to_WIF(), got, 'WIF again')
    same(k, s, compressed, name, 'after exporting')
    return 'key'


def outside(s):
    from bitcoinx import PrivateKey
    b = s.to_bytes(32, 'big')
    for fn, arg in ((PrivateKey, b), (PrivateKey.from_int, s), (PrivateKey.from_hex, b.hex()),
                    (PrivateKey.from_text, b.hex())):
        eq(outcome(fn, arg), ('exc', 'ValueError'), f'secret {b.hex()}')
    return 'refused'


def big_int(v):
    from bitcoinx import PrivateKey
    true(outcome(PrivateKey.from_int, v)[0] == 'exc', f'integer {v}')
    return 'refused'


def size(n):
    from bitcoinx import PrivateKey
    b = b'\1' * n
    for fn, arg in ((PrivateKey, b), (PrivateKey.from_hex, b.hex())):
        got = outcome(fn, arg)
        true((got[0] == 'ok') if n == 32 else got == ('exc', 'ValueError'), f'{n} bytes: {got}')
    return 'key' if n == 32 else 'refused'


def reference(t):
    '''(secret, compressed, coin name) or None'''
    if len(t) == 64:
        try:
            b = bytes.fromhex(t)
        except ValueError:
            return None
        got = b, True, 'Bitcoin'
    elif is_minikey(t):
        got = ref.sha256(t.encode()), False, 'Bitcoin'
    else:
        return wif(t)
    return valid(got)


def valid(got):
    b, compressed, coin = got
    s = int.from_bytes(b, 'big')
    return (s, compressed, coin) if len(b) == 32 and 0 < s < N else None


def wif(t):
    raw = ref.b58c_decode(t)
    if raw is None or raw[:1] not in (b'\x80', b'\xef'):
        return None
    if not (len(raw) == 33 or len(raw) == 34 and raw[33] == 1):
        return None
    return valid((raw[1:33], len(raw) == 34, 'Bitcoin' if raw[0] == 0x80 else 'BitcoinTestnet'))


def text(t):
    '''As text, and as WIF.'''
    from bitcoinx import PrivateKey
    label = 'refused'
    for reader, want in ((PrivateKey.from_text, reference(t)), (PrivateKey.from_WIF, wif(t))):
        try:
            got = reader(t)
        except ValueError:
            got = None
        if (got is None) != (want is None):
            raise Mismatch(f'{reader.__name__} of {t!r}: {"refused" if want else "accepted"}')
        if want:
            same(got, *want, f'{reader.__name__} of {t!r}')
            label = 'WIF' if wif(t) else 'text'
    return label


def minikey(t):
    from bitcoinx import PrivateKey
    import bitcoinx
    want = is_minikey(t)
    true(bool(bitcoinx.is_minikey(t)) == want, f'is_minikey of {t!r}')
    got = outcome(PrivateKey.from_minikey, t)
    if not want:
        eq(got, ('exc', 'ValueError'), f'minikey {t!r}')
        return 'refused'
    same(got[1], int.from_bytes(ref.sha256(t.encode()), 'big'), False, 'Bitcoin', f'minikey {t}')
    return 'minikey'


def random(answers):
    '''The key is the first answer in range, and nothing else is drawn.'''
    from bitcoinx import PrivateKey
    want = next(a for a in answers if 0 < a < N)
    used = answers.index(want) + 1
    sizes = []

    def source(n):
        sizes.append(n)
        return answers[len(sizes) - 1].to_bytes(32, 'big')

    k = PrivateKey.from_random(source=source)
    same(k, want, True, 'Bitcoin', 'from a random source')
    eq(sizes, [32] * used, 'draws of the random source')
    del sizes[:]
    entropy.reset(source)
    try:
        k = PrivateKey.from_random()
    finally:
        entropy.reset()
    same(k, want, True, 'Bitcoin', "from the system's random source")
    eq(sizes, [32] * used, "draws of the system's random source")
    return 'random'


def arbitrary(v, zeros):
    from bitcoinx import PrivateKey
    b = bytes(zeros) + v.to_bytes((v.bit_length() + 7) // 8, 'big')
    got = outcome(PrivateKey.from_arbitrary_bytes, b)
    if v % N == 0:
        eq(got, ('exc', 'ValueError'), f'arbitrary bytes {b.hex()}')
        return 'refused'
    same(got[1], v % N, True, 'Bitcoin', f'arbitrary bytes {b.hex()}')
    return 'reduced'


def wrong_types():
    from bitcoinx import PrivateKey
    for bad in (None, 1, 'a' * 32, bytearray(32), [1] * 32, 1.5):
        eq(outcome(PrivateKey, bad), ('exc', 'TypeError'), f'secret {bad!r}')
    for bad in (None, 1, b'5' * 51):
        eq(outcome(PrivateKey.from_WIF, bad), ('exc', 'TypeError'), f'WIF {bad!r}')
    return 'refused'
