'''C21: encrypted messages: only the recipient reads them, and only as they were written.'''

import base64
import functools

from . import ref
from .c20 import strict64
from .common import eq, true, outcome, entropy, Mismatch

LEVEL = 'exploration'
RULE = ('For both AES implementations: messages of every length to n and around block multiples are '
        'encrypted with scripted ephemeral keys (among them shared secrets with leading zeros) and '
        'decrypted by a reference, and the reverse; every flipped bit, cut and extension of a '
        'ciphertext, every magic, every wrong key, and - under a valid authentication code - every '
        'final padding byte, inconsistent padding, ciphertext length and ephemeral key encoding, must '
        'be refused.  Non-trivial: all.')
EXPECT = ('encrypted', 'decrypted', 'refused', 'aes', 'bad padding', 'fresh')

N = ref.N
SECRETS = (1, 2, N - 1, int('0123456789abcdef' * 4, 16))


def tasks(tier):
    longest = 100 if tier == 'quick' else 600
    out = [('lengths', k, b, longest) for k in range(len(SECRETS)) for b in (0, 1)]
    out += [('zeros', b) for b in (0, 1)]
    out += [('damage', k, b, lo) for k in (1, 3) for b in (0, 1) for lo in range(4)]
    out += [('padding', b) for b in (0, 1)] + [('forged', b) for b in (0, 1)]
    out += [('magic', b) for b in (0, 1)] + [('text', b) for b in (0, 1)]
    out += [('aes', b, lo) for b in (0, 1) for lo in range(8)] + [('fresh',)]
    # the alternative backend is slow
    out += [('large', b, n) for b in (0, 1) for n in ((8191, 16_384, 65_535, 65_536, 65_537, 100_003) if b == 0 or tier != 'quick'
                                                      else (8191, 65_537))]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'lengths':
        _, k, b, longest = task
        for n in list(range(longest)) + [longest, 127, 128, 129, 255, 256, 257, 1000, 4096]:
            for fill in (0, 0x10, 0xff):
                res.case(round_trip, b, SECRETS[k], 7 + n, bytes([fill]) * n, b'BIE1')
        for m in ('', 'text', 'é' * 20, '\U0001f600', '\0'):
            res.case(round_trip, b, SECRETS[k], 99, m, b'BIE1')
        for c in ('\ud800', '\udbff', '\udc00', '\udc80', '\udfff', '\ude00\ud83d'):
            for m in (c, 'a' + c, c + 'b', 'a' + c + 'b'):
                res.case(unencodable, b, m)
    elif kind == 'zeros':
        for e in zero_secrets():
            for n in (0, 1, 15, 16, 17, 33):
                res.case(round_trip, task[1], SECRETS[3], e, b'x' * n, b'BIE1')
    elif kind == 'damage':
        _, k, b, lo = task
        for m in (b'', b'attack at dawn, with 3 blocks of it...'):
            good = build(ref.ec_mul(SECRETS[k]), 12345, m)
            for i in range(lo, len(good), 4):
                for bit in range(8):
                    e = bytearray(good)
                    e[i] ^= 1 << bit
                    res.case(decrypt, b, SECRETS[k], bytes(e), b'BIE1')
                res.case(decrypt, b, SECRETS[k], good[:i], b'BIE1')
                res.case(decrypt, b, SECRETS[k], good[i:], b'BIE1')
                res.case(decrypt, b, SECRETS[k], good[:i] + good[i + 1:], b'BIE1')
                res.case(decrypt, b, SECRETS[k], good[:i] + b'\0' + good[i:], b'BIE1')
                if i % 16 == 5:     # blocks removed, repeated, swapped
                    res.case(decrypt, b, SECRETS[k], good[:i] + good[i + 16:], b'BIE1')
                    res.case(decrypt, b, SECRETS[k], good[:i + 16] + good[i:], b'BIE1')
                    res.case(decrypt, b, SECRETS[k], good[:i] + good[i + 16:i + 32]
                             + good[i:i + 16] + good[i + 32:], b'BIE1')
            for extra in (b'\0', b'\0' * 16, good):
                res.case(decrypt, b, SECRETS[k], good + extra, b'BIE1')
                res.case(decrypt, b, SECRETS[k], extra + good, b'BIE1')
            for other in SECRETS:
                res.case(decrypt, b, other, good, b'BIE1')
                if lo == 0 and other != SECRETS[k]:
                    res.case(decrypt, b, N - other, good, b'BIE1')
            res.case(decrypt, b, SECRETS[k], good, b'BIE1')
    elif kind == 'padding':
        for n in (*range(17, 34), 47, 48, 63, 64, 127, 128, 240, 255):
            # consistent, but too long
            for size in {-(-n // 16) * 16, n // 16 * 16 + 16}:
                res.case(forged, task[1], bytes([7]) * (size - n) + bytes([n]) * n, 33)
        for blocks in (1, 2, 3):
            body = b'\x07' * (16 * blocks)
            for last in range(256):
                res.case(forged, task[1], body[:-1] + bytes([last]), 33)
            for n in range(1, 17):
                full = body[:-n] + bytes([n]) * n
                res.case(forged, task[1], full, 33)
                for i in range(2, n + 1):
                    for bad in (0, n ^ 1, n - 1, 0xff):
                        res.case(forged, task[1], full[:-i] + bytes([bad]) + full[len(full) - i + 1:],
                                 33)
    elif kind == 'forged':
        # authentic, but not what an honest sender makes
        for n in range(0, 70):
            res.case(odd_size, task[1], n)
        x = next(x for x in range(1, 100) if ref.lift_x(x, 0) is None)
        good = ref.ser_point(ref.ec_mul(33))
        for prefix in range(256):
            res.case(bad_key, task[1], bytes([prefix]) + good[1:])
        for bad in (bytes(33), b'\2' + x.to_bytes(32, 'big'), b'\3' + ref.P.to_bytes(32, 'big'),
                    b'\xff' * 33, b'\2' + bytes(32)):
            res.case(bad_key, task[1], bad)
    elif kind == 'magic':
        magics = (b'BIE1', b'BIE2', b'', b'B', b'BIE1BIE1', b'BIE', b'\0' * 40, b'bie1')
        for a in magics:
            res.case(round_trip, task[1], SECRETS[3], 5, b'magic', a)
            for m in (b'', b'16 bytes exactly'):
                good = build(ref.ec_mul(SECRETS[3]), 5, m, a)
                for b in magics:
                    res.case(decrypt, task[1], SECRETS[3], good, b)
    elif kind == 'text':
        good = base64.b64encode(build(ref.ec_mul(SECRETS[3]), 8, b'as text')).decode()
        for i in range(len(good) + 1):
            for a in 'Aa0+/= \n-_é\uff21\0':
                res.case(text, task[1], good[:i] + a + good[i:])
                res.case(text, task[1], good[:i] + a + good[i + 1:])
            res.case(text, task[1], good[:i])
            res.case(text, task[1], good[i:])
        for size in (100, 300, 1000, 4000):
            good = base64.b64encode(build(ref.ec_mul(SECRETS[3]), 8, bytes(size))).decode()
            for i in (0, 1, 76, len(good) // 2, len(good) - 5, len(good)):
                for a in 'A=\n -_':
                    res.case(text, task[1], good[:i] + a + good[i:], bytes(size))
            res.case(text, task[1], good)
    elif kind == 'aes':
        _, b, lo = task
        for n in range(lo, 130, 8):
            for fill in (0, 1, 15, 16, 255):
                for key in range(len(AES_KEYS)):
                    res.case(aes, b, n, fill, key)
    elif kind == 'large':
        _, b, n = task
        res.case(round_trip, b, SECRETS[3], 7 + n, bytes(i * 7 & 255 for i in range(n)), b'BIE1', seconds=200)
        res.case(aes, b, n, 5, n % 4, seconds=200)
    else:
        res.case(fresh)


@functools.lru_cache(None)
def zero_secrets():
    '''Ephemeral secrets whose shared point with SECRETS[3] has leading zeros in x, or whose public
    key does.'''
    out = []
    pt, step = ref.ec_mul(SECRETS[3]), ref.ec_mul(SECRETS[3])
    own = ref.G
    need = {'shared', 'shared odd', 'own'}
    k = 1
    while need:
        name = 'shared' + (' odd' if pt[1] & 1 else '')
        if pt[0] >> 248 == 0 and name in need:
            need.discard(name)
            out.append(k)
        if own[0] >> 248 == 0 and 'own' in need:
            need.discard('own')
            out.append(k)
        pt, own = ref.ec_add(pt, step), ref.ec_add(own, ref.G)
        k += 1
    return out


def keys(secret, pt):
    s = ref.ser_point(ref.ec_mul(secret, pt))
    k = __import__('hashlib').sha512(s).digest()
    return k[:16], k[16:32], k[32:]


def build(recipient, ephemeral, message, magic=b'BIE1', raw=False, point=None):
    iv, ke, km = keys(ephemeral, recipient)
    body = ref.aes_cbc_encrypt(ke, iv, message if raw else ref.pkcs7(message))
    data = magic + (point or ref.ser_point(ref.ec_mul(ephemeral))) + body
    return data + ref.hmac256(km, data)


def open_(secret, data, magic):
    '''The message, or None.'''
    m = len(magic)
    if len(data) < m + 33 + 16 + 32 or data[:m] != magic:
        return None
    pt = ref.parse_point(data[m:m + 33])
    if pt is None:
        return None
    iv, ke, km = keys(secret, pt)
    if ref.hmac256(km, data[:-32]) != data[-32:]:
        return None
    body = data[m + 33:-32]
    if len(body) % 16:
        return None
    return ref.unpkcs7(ref.aes_cbc_decrypt(ke, iv, body))


class Backend:
    '''Selects one of the AES implementations the package supports.'''

    def __init__(self, which):
        self.which = which

    def __enter__(self):
        from bitcoinx import aes as module
        from Cryptodome.Cipher import AES
        self.prior = module.AES
        module.AES = AES if self.which else None

    def __exit__(self, *_args):
        from bitcoinx import aes as module
        module.AES = self.prior


def private(secret, compressed=True):
    from bitcoinx import PrivateKey
    return PrivateKey(secret.to_bytes(32, 'big'), compressed)


def round_trip(backend, secret, ephemeral, message, magic):
    want = message.encode('utf-8') if isinstance(message, str) else message
    with Backend(backend):
        for compressed in (True, False):
            k = private(secret, compressed)
            entropy.reset(lambda n: ephemeral.to_bytes(n, 'big'))
            try:
                data = k.public_key.encrypt_message(message, magic)
                b64 = k.public_key.encrypt_message_to_base64(message, magic)
            finally:
                entropy.reset()
            true(isinstance(data, bytes), 'ciphertext is bytes')
            eq(len(data), len(magic) + 33 + len(ref.pkcs7(want)) + 32, 'ciphertext length')
            eq(open_(secret, data, magic), want, 'read by the reference')
            eq(open_(secret, base64.b64decode(b64, validate=True), magic), want, 'base 64')
            sent = build(ref.ec_mul(secret), ephemeral, want, magic)
            for form in (data, b64, sent, base64.b64encode(sent).decode()):
                eq(k.decrypt_message(form, magic), want, f'{len(want)} bytes read back')
            if magic == b'BIE1':
                eq(k.decrypt_message(k.public_key.encrypt_message(message)), want, 'default magic')
    return 'encrypted'


def unencodable(backend, m):
    '''A text that has no bytes cannot be encrypted as written.'''
    with Backend(backend):
        pub = private(SECRETS[3]).public_key
        for op in (pub.encrypt_message, pub.encrypt_message_to_base64):
            eq(outcome(op, m), ('exc', 'UnicodeEncodeError'), f'encrypting {m!r}')
    return 'refused'


def compare(backend, secret, form, want, magic):
    with Backend(backend):
        got = outcome(private(secret).decrypt_message, form, magic)
    eq(got, ('exc', 'DecryptionError') if want is None else ('ok', want),
       f'decrypting {form if isinstance(form, str) else form.hex()}')
    return 'refused' if want is None else 'decrypted'


def decrypt(backend, secret, data, magic):
    return compare(backend, secret, data, open_(secret, data, magic), magic)


def text(backend, t, sealed=b'as text'):
    data = strict64(t)
    if data == '?':
        with Backend(backend):
            got = outcome(private(SECRETS[3]).decrypt_message, t)
        true(got in (('exc', 'DecryptionError'), ('ok', sealed)), f'decrypting {t!r}: {got}')
        return 'refused'
    want = None if data is None else open_(SECRETS[3], data, b'BIE1')
    return compare(backend, SECRETS[3], t, want, b'BIE1')


def forged(backend, plain, ephemeral):
    '''An authentic message whose plaintext blocks are as given, padding included.'''
    secret = SECRETS[3]
    data = build(ref.ec_mul(secret), ephemeral, plain, raw=True)
    want = ref.unpkcs7(plain)
    compare(backend, secret, data, want, b'BIE1')
    from bitcoinx.aes import aes_decrypt_with_iv
    with Backend(backend):
        got = outcome(aes_decrypt_with_iv, b'k' * 16, b'i' * 16,
                      ref.aes_cbc_encrypt(b'k' * 16, b'i' * 16, plain))
    eq(got, ('exc', 'BadPaddingError') if want is None else ('ok', want), f'padding {plain.hex()}')
    return 'bad padding' if want is None else 'decrypted'


def odd_size(backend, n):
    '''An authentic message of any number of bytes.'''
    secret, e = SECRETS[3], 44
    iv, ke, km = keys(e, ref.ec_mul(secret))
    body = (ref.aes_cbc_encrypt(ke, iv, ref.pkcs7(b'a' * 47)) + bytes(64))[:n]
    data = b'BIE1' + ref.ser_point(ref.ec_mul(e)) + body
    data += ref.hmac256(km, data)
    return decrypt(backend, secret, data, b'BIE1')


def bad_key(backend, point):
    secret, e = SECRETS[3], 33
    data = build(ref.ec_mul(secret), e, b'message', point=point)
    return decrypt(backend, secret, data, b'BIE1')


AES_KEYS = ((bytes(range(16)), bytes(16)), (b'\xff' * 16, bytes(range(100, 116))), (bytes(range(24)), bytes(range(100, 116))),
            (bytes(range(100, 132)), b'\xff' * 16), (b'k' * 16 + bytes(16), b'i' * 16))


def aes(backend, n, fill, which):
    from bitcoinx.aes import aes_encrypt_with_iv, aes_decrypt_with_iv
    key, iv = AES_KEYS[which]
    data = bytes([fill]) * n
    want = ref.aes_cbc_encrypt(key, iv, ref.pkcs7(data))
    with Backend(backend):
        eq(aes_encrypt_with_iv(key, iv, data), want, f'AES of {n} bytes')
        eq(aes_decrypt_with_iv(key, iv, want), data, f'AES of {n} bytes, back')
        for cut in {0, 1, 15, len(want) - 1} - {len(want)}:
            true(outcome(aes_decrypt_with_iv, key, iv, want[:cut])[0] == 'exc',
                 f'ciphertext cut to {cut} of {len(want)} bytes')
    return 'aes'


def fresh():
    '''Every encryption draws its own ephemeral key.'''
    pub = private(SECRETS[3]).public_key
    entropy.reset(seed=5)
    seen = set()
    for k in range(20):
        drawn = len(entropy.drawn)
        data = pub.encrypt_message(b'same')
        true(sum(map(len, entropy.drawn[drawn:])) >= 32, 'no entropy drawn')
        seen.add(data[4:37])
    entropy.reset()
    eq(len(seen), 20, 'different ephemeral keys')
    return 'fresh'
