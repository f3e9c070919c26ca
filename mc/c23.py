'''C23: extended key strings and chain strings are read and written exactly, or refused.'''

import functools
import itertools

from . import ref
from .c22 import b32, check, pubkey, SECRETS, VER
from .common import eq, true, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Every combination of boundary depth, index, fingerprint, chain code, key and network is '
        'written and read, privately and publicly; every one-character edit of the text, every '
        'one-byte change of the payload under a good checksum, every payload length and key prefix '
        'is offered; every chain string of up to n characters of an alphabet, and every sequence of '
        'up to n boundary indices, goes both ways; all against a reference.  Non-trivial: all.')
EXPECT = ('round trip', 'accepted', 'refused', 'chain', 'bad chain', 'built', 'bad derivation')

N = ref.N
H = 1 << 31
INDICES = (0, 1, 0xff, 0x100, H - 1, H, H + 1, 2 * H - 1)
CODES = (bytes(32), b'\xff' * 32, bytes(range(32)))
PRINTS = (bytes(4), b'\xff' * 4, b'\0\1\2\3')
ALPHABET = "m/0129'hHM -+_"


def tasks(tier):
    out = [('fields', k, p) for k in range(len(SECRETS)) for p in (0, 1)]
    out += [('typos', p, lo) for p in (0, 1) for lo in range(8)]
    out += [('bytes', p, lo) for p in (0, 1) for lo in range(4)]
    out += [('lengths',), ('types',)]
    n = 5 if tier == 'quick' else 6
    out += [('chain', k, n) for k in range(len(ALPHABET))]
    out += [('numbers',), ('build',)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'fields':
        for depth in (0, 1, 0x7f, 0x80, 0xff):
            for n in INDICES:
                for c in range(3):
                    for f in range(3):
                        res.case(round_trip, SECRETS[task[1]], bool(task[2]), depth, n, c, f)
    elif kind == 'typos':
        _, private, lo = task
        t = ref.b58c_encode(payload(SECRETS[6], bool(private)))
        for i in range(lo, len(t) + 1, 8):
            for a in ref.B58 + '0OIl \n':
                res.case(text, t[:i] + a + t[i:])
                res.case(text, t[:i] + a + t[i + 1:])
            res.case(text, t[:i] + t[i + 1:])
            res.case(text, t[:i] + t[i:i + 2][::-1] + t[i + 2:])
            res.case(text, t[:i])
            res.case(text, t[i:])
    elif kind == 'bytes':
        _, private, lo = task
        p = payload(SECRETS[6], bool(private))
        for i in range(lo, 78, 4):
            values = range(256) if i < 14 or i in (45, 46, 77) else (0, 1, 0x7f, 0x80, 0xff)
            for v in values:
                res.case(text, ref.b58c_encode(p[:i] + bytes([v]) + p[i + 1:]))
        if lo == 0:
            for s in (0, 1, N - 1, N, N + 1, (1 << 256) - 1):
                for ver in ('0488ade4', '0488b21e', '04358394', '043587cf', '00000000'):
                    for prefix in range(256) if s in (1, N) else (0, 1, 2, 3, 4):
                        res.case(text, ref.b58c_encode(bytes.fromhex(ver) + p[4:45]
                                                       + bytes([prefix]) + b32(s)))
            x = next(x for x in range(1, 100) if ref.lift_x(x, 0) is None)
            for xx in (0, x, ref.P, ref.P + 1, ref.G[0]):
                for prefix in range(8):
                    res.case(text, ref.b58c_encode(bytes.fromhex('0488b21e') + p[4:45]
                                                   + bytes([prefix]) + b32(xx)))
    elif kind == 'lengths':
        for private in (True, False):
            p = payload(SECRETS[6], private)
            for n in [*range(0, 120), 127, 128, 155, 156, 157, 200, 234, 255, 256, 257, 312, 500, 1000, 4096]:
                res.case(text, ref.b58c_encode((p * (n // 78 + 1))[:n]))
        for t in ('', ' ', 'xpub', 'xprv', '1' * 111, '1' * 78, 'z' * 111, '1' * 1000, 'z' * 1000):
            res.case(text, t)
    elif kind == 'chain':
        for k in range(task[2]):
            for rest in itertools.product(ALPHABET, repeat=k):
                res.case(chain, ALPHABET[task[1]] + ''.join(rest))
    elif kind == 'numbers':
        for v in (0, 1, 9, 10, 0xff, H - 1, H, H + 1, 2 * H - 1, 2 * H, 1 << 32, 1 << 63, 1 << 64,
                  10 ** 100, 10 ** 4299):
            for zeros in (0, 1, 30):
                for tail in ('', "'", "''", 'h', '\n', "'\n", ' ', '\0', '\u2019', '/', '/0', "/'"):
                    for head in ('m/', 'm//', '/', '', 'M/', 'm', 'm/0/', "m/1'/", ' m/', 'm /',
                                 '\nm/', 'mm/', 'm/m/'):
                        res.case(chain, head + '0' * zeros + str(v) + tail)
        for t in ('m', 'm/', '/', '', 'm\n', 'm/-1', 'm/+1', 'm/1_0', 'm/0x1', 'm/1.0', 'm/1e1',
                  'm/\u0661', "m/\u0661'", 'm/\uff11', 'm/\xb2', 'm/\u00bd', 'm/0/\u09e7',
                  "m/'", "m/0'/'", "m/0 '", "m/ 0", 'm\\0', 'm/0\\1', 'm' + '/0' * 300,
                  "m" + "/2147483647'" * 255):
            res.case(chain, t)
    elif kind == 'build':
        values = (0, 1, 10, H - 1, H, H + 1, 2 * H - 1)
        for k in range(5):
            for seq in itertools.product(values, repeat=k):
                res.case(build, seq)
        for bad in (-1, -H, 2 * H, 1 << 40):
            for good in ((), (0,), (H,), (0, 1)):
                for seq in ((bad,) + good, good + (bad,), good + (bad,) + good):
                    res.case(bad_build, list(seq), 'ValueError')
        for bad in (None, '1', 1.0, b'1', [1], "0'"):
            for good in ([], [0], [0, H]):
                res.case(bad_build, good + [bad], 'TypeError')
                res.case(bad_build, [bad] + good, 'TypeError')
    else:
        res.case(types)


def payload(secret, private, depth=3, n=9, code=CODES[2], fp=b'\1\2\3\4', coin='Bitcoin'):
    return (bytes.fromhex(VER[coin][not private]) + bytes([depth]) + fp + n.to_bytes(4, 'big')
            + code + (b'\0' + b32(secret) if private else pubkey(secret)))


def round_trip(s, private, depth, n, c, f):
    import bitcoinx
    from bitcoinx import BIP32PrivateKey, BIP32Derivation, bip32_key_from_string
    for coin in ('Bitcoin', 'BitcoinTestnet'):
        t = ref.b58c_encode(payload(s, private, depth, n, CODES[c], PRINTS[f], coin))
        made = BIP32PrivateKey(b32(s), BIP32Derivation(CODES[c], n, depth, PRINTS[f]),
                               getattr(bitcoinx, coin))
        made = made if private else made.public_key
        read = bip32_key_from_string(t)
        for key in (made, read):
            check(key, private, s, CODES[c], depth, n, PRINTS[f], coin, f'extended key {t}')
            eq(key.to_extended_key_string(), t, 'written')
            if private:
                true(t not in str(key) and b32(s).hex() not in str(key) and t not in repr(key),
                     'str and repr do not show the secret')
            else:
                eq(str(key), t, 'str')
        true(type(read) is type(made) and read == made and hash(read) == hash(made), 'equal')
    return 'round trip'


@functools.lru_cache(100)
def secret_point(data):
    return ref.parse_point(data)


def text(t):
    '''Accepted exactly when well formed; then everything is as written.'''
    import bitcoinx
    from bitcoinx import bip32_key_from_string, BIP32PrivateKey, BIP32PublicKey
    raw = ref.b58c_decode(t)
    want = None
    if raw is not None and len(raw) == 78:
        for coin, (prv, pub) in VER.items():
            if raw[:4].hex() == prv and raw[45] == 0 and \
                    0 < int.from_bytes(raw[46:], 'big') < N:
                want = coin, BIP32PrivateKey
            if raw[:4].hex() == pub and ref.parse_point(raw[45:]):
                want = coin, BIP32PublicKey
    got = outcome(bip32_key_from_string, t)
    if want is None:
        true(got[0] == 'exc' and got[1] in ('ValueError', 'Base58Error'), f'extended key {t}: {got}')
        return 'refused'
    coin, cls = want
    true(got[0] == 'ok', f'extended key {t}: {got}')
    key = got[1]
    true(type(key) is cls and key.coin() is getattr(bitcoinx, coin), f'extended key {t}')
    d = key.derivation()
    eq((bytes([d.depth]), d.parent_fingerprint, d.n, d.chain_code),
       (raw[4:5], raw[5:9], int.from_bytes(raw[9:13], 'big'), raw[13:45]), f'extended key {t}')
    eq(key.to_bytes(), raw[46:] if cls is BIP32PrivateKey else raw[45:], f'extended key {t}')
    eq(key.to_extended_key_string(), t, 'written again')
    return 'accepted'


def read_chain(t):
    '''The indices of a chain string, or None.'''
    head, *parts = t.split('/')
    if head != 'm':
        return None
    out = []
    for p in parts:
        hard = p.endswith("'")
        digits = p[:-1] if hard else p
        if not digits or any(c not in '0123456789' for c in digits):
            return None
        digits = digits.lstrip('0') or '0'
        if len(digits) > 10 or int(digits) >= H:
            return None
        out.append(int(digits) + H * hard)
    return out


def chain(t):
    from bitcoinx import (bip32_decompose_chain_string, bip32_is_valid_chain_string,
                          bip32_build_chain_string)
    want = read_chain(t)
    got = outcome(bip32_decompose_chain_string, t)
    if want is None:
        eq(got, ('exc', 'ValueError'), f'chain {t[:60]!r}')
        eq(bip32_is_valid_chain_string(t), False, f'chain {t[:60]!r}')
        return 'bad chain'
    eq(got, ('ok', want), f'chain {t[:60]!r}')
    eq(bip32_is_valid_chain_string(t), True, f'chain {t[:60]!r}')
    eq(read_chain(bip32_build_chain_string(want)), want, 'built again')
    return 'chain'


def build(seq):
    from bitcoinx import (bip32_decompose_chain_string, bip32_build_chain_string,
                          bip32_validate_derivation)
    want = '/'.join(['m'] + [str(n) if n < H else f"{n - H}'" for n in seq])
    for form in (list(seq), tuple(seq), iter(seq)):
        eq(bip32_build_chain_string(form), want, f'chain of {seq}')
    eq(bip32_decompose_chain_string(want), list(seq), 'read back')
    for form in (list(seq), tuple(seq), iter(seq)):
        eq(bip32_validate_derivation(form), list(seq), f'derivation {seq}')
    return 'built'


def bad_build(seq, error):
    from bitcoinx import bip32_build_chain_string, bip32_validate_derivation
    for fn in (bip32_build_chain_string, bip32_validate_derivation):
        eq(outcome(fn, seq), ('exc', error), f'derivation {seq}')
    return 'bad derivation'


def types():
    from bitcoinx import (bip32_decompose_chain_string, bip32_key_from_string,
                          bip32_is_valid_chain_string, bip32_validate_derivation)
    for bad in (None, 1, b'm/1', ['m'], 1.5):
        eq(outcome(bip32_decompose_chain_string, bad), ('exc', 'TypeError'), f'chain {bad!r}')
        eq(outcome(bip32_is_valid_chain_string, bad), ('exc', 'TypeError'), f'chain {bad!r}')
        eq(outcome(bip32_key_from_string, bad), ('exc', 'TypeError'), f'key {bad!r}')
    for bad in (None, 1, 1.5):
        eq(outcome(bip32_validate_derivation, bad), ('exc', 'TypeError'), f'derivation {bad!r}')
    return 'refused'
