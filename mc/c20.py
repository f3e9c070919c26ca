'''C20: signed messages prove who signed what, and nothing else.'''

import base64
import functools
import itertools

from . import ref
from .common import eq, true, raises, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Messages of every length around each limit of the length prefix, as bytes and as text, are '
        'signed by boundary keys in both serializations and verified by key, by address and by '
        'recovery, against a reference; every header byte, every flipped bit of a signature, every '
        'length, every one-character edit of its base 64 form, and every pairing of messages, keys '
        'and addresses is offered to every verifier.  Non-trivial: all.')
EXPECT = ('signed', 'verified', 'not verified', 'malformed', 'refused')

N = ref.N
SECRETS = (1, 2, N - 1, N // 2, int('0123456789abcdef' * 4, 16))
PREFIX = b'\x18Bitcoin Signed Message:\n'
TEXTS = ('', 'a', 'BitcoinSV', 'é', '\u4e2d\u6587', '\U0001f600', ' a', 'a ', 'a\n', 'e\u0301', 'A',
         '\0', 'a\0')
# Texts that programs like to take for the same: (group by group, all within a group are paired)
ALIKE = (('a\nb', 'a\r\nb', 'a\rb', 'a b', 'a  b', 'a\tb', 'a\x0bb', 'a\x0cb', 'a\x85b', 'a\u2028b',
          'a\u2029b', 'a\xa0b', 'a\u3000b', 'a\u200bb', 'ab', 'ab\n', 'ab\r\n', '\nab', '\ufeffab',
          'ab\u200d', 'a\0b', 'ab\0', '\tab'),
         ('é', 'e\u0301', 'É', 'e', '\xe9\u200d'), ('ﬁ', 'fi', 'FI'), ('Å', 'Å', 'A\u030a'),
         ('ß', 'ss', 'ẞ'), ('σ', 'ς', 'Σ'), ('가', '\u1100\u1161'), ('²', '2', '２'),
         ('I', 'i', 'ı', 'İ'), ('"', '\u201c', "''"), ('\u00ad', '', '\u200b'), ('-', '\u2010', '\u2212'),
         ('\\n', '\n', '\\\n'), ('%41', 'A', '&#65;', '\\x41', '\\u0041'))


def tasks(tier):
    out = [('sign', k, c) for k in range(len(SECRETS)) for c in (True, False)]
    out += [('cross', k) for k in range(len(SECRETS))]
    out += [('hashers',), ('sizes',), ('types',), ('not addresses',)]
    out += [('alike', k) for k in range(len(ALIKE))]
    out += [('header', lo) for lo in range(0, 256, 32)]
    out += [('flip', lo) for lo in range(0, 520, 40)]
    out += [('base64', lo) for lo in range(8)] + [('unencodable',)]
    if tier == 'thorough':
        out += [('flip two', lo) for lo in range(0, 520, 8)]
    return out


# Texts with no UTF-8 form
UNENCODABLE = tuple(form for c in ('\ud800', '\udbff', '\udc00', '\udc80', '\udcff', '\udfff', '\ude00\ud83d')
                    for form in (c, 'pay ' + c, c + 'me', 'pay ' + c + 'me'))


def run(task, res):
    kind = task[0]
    if kind == 'sign':
        _, k, c = task
        lengths = list(range(0, 20)) + [74, 75, 76, 77, 251, 252, 253, 254, 255, 256, 257, 65534,
                                        65535, 65536, 65537]
        for n in lengths:
            for fill in (0, 0x61, 0xff):
                res.case(sign, SECRETS[k], c, bytes([fill]) * n)
        for t in TEXTS + ('x' * 252, 'x' * 253, 'é' * 126, 'é' * 127):
            res.case(sign, SECRETS[k], c, t)
    elif kind == 'cross':
        for b in range(len(SECRETS)):
            for m, m2 in itertools.product(TEXTS, repeat=2):
                res.case(cross, SECRETS[task[1]], SECRETS[b], m, m2)
    elif kind == 'alike':
        for m, m2 in itertools.product(ALIKE[task[1]], repeat=2):
            res.case(cross, SECRETS[4], SECRETS[4], m, m2)
        for m in ALIKE[task[1]]:
            res.case(sign, SECRETS[4], True, m)
    elif kind == 'not addresses':
        for secret in (SECRETS[0], SECRETS[4]):
            for c in (True, False):
                res.case(not_addresses, secret, c)
    elif kind == 'header':
        for v in range(task[1], task[1] + 32):
            for c in (True, False):
                for m in (b'abc', 'text', b''):
                    res.case(header, v, c, m)
    elif kind == 'flip':
        for bit in range(task[1], min(task[1] + 40, 520)):
            for k in (1, 4):
                res.case(damaged, SECRETS[k], (bit,))
    elif kind == 'flip two':
        for bit in range(task[1], min(task[1] + 8, 520)):
            for other in range(bit + 1, 520, 7):
                res.case(damaged, SECRETS[4], (bit, other))
    elif kind == 'sizes':
        for n in list(range(0, 140)):
            res.case(size, n)
    elif kind == 'base64':
        good = base64.b64encode(bytes([31]) + signature(SECRETS[4], PREFIX + b'\3abc')).decode()
        for i in range(task[1], len(good) + 1, 8):
            for a in 'ABZaz019+/=-_ \n\t\0é\u212a\uff21':
                res.case(text, good[:i] + a + good[i:])
                res.case(text, good[:i] + a + good[i + 1:])
            res.case(text, good[:i])
            res.case(text, good[i:])
            res.case(text, good[:i] + good[i + 1:])
    elif kind == 'hashers':
        for m in (b'', b'abc', 'abc', bytes(32)):
            res.case(hashers, m)
    elif kind == 'unencodable':
        for t in UNENCODABLE:
            res.case(unencodable, t)
    else:
        res.case(types)


@functools.lru_cache(None)
def point(secret):
    return ref.ec_mul(secret)


def b32(v):
    return v.to_bytes(32, 'big')


def encode(m):
    return m.encode('utf-8') if isinstance(m, str) else m


def msg_hash(m):
    return ref.sha256d(PREFIX + ref.varbytes(encode(m)))


@functools.lru_cache(None)
def signature(secret, _):
    '''A reference signature of b'abc': r, s (64 bytes); its recovery id is 0.'''
    k = 1000
    while True:
        r, s, recid = ref.ecdsa_sign(secret, msg_hash(b'abc'), k)
        if recid == 0:
            return b32(r) + b32(s)
        k += 1


def addresses(secret):
    from bitcoinx import P2PKH_Address, Bitcoin, BitcoinTestnet
    out = []
    for c in (True, False):
        h = ref.hash160(ref.ser_point(point(secret), c))
        for coin, v in ((Bitcoin, 0), (BitcoinTestnet, 0x6f)):
            out += [P2PKH_Address(h, coin), ref.b58c_encode(bytes([v]) + h)]
    return out


def sign(secret, compressed, m):
    from bitcoinx import PrivateKey, PublicKey
    k = PrivateKey(b32(secret), compressed)
    pub = k.public_key
    sig = k.sign_message(m)
    eq(len(sig), 65, 'length')
    low = 27 + 4 * compressed
    true(low <= sig[0] < low + 4, f'header byte {sig[0]}')
    r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
    true(s <= N // 2, 's is low')
    true(ref.ecdsa_verify_secret(secret, msg_hash(m), r, s), f'signature of {m[:20]!r} is valid')
    if len(m) < 300:
        altered(pub, sig, m, secret, compressed)
        eq(ref.ecdsa_recover(msg_hash(m), r, s, sig[0] - low), point(secret),
           'key recovered by the reference')
    text_sig = k.sign_message_to_base64(m)
    eq(base64.b64decode(text_sig, validate=True), sig, 'base 64')
    forms = [m, encode(m)]
    try:
        forms.append(encode(m).decode())
    except UnicodeDecodeError:
        pass
    for sig_form in (sig, text_sig):
        for form in forms:
            eq(pub.verify_message(sig_form, form), True, f'verifies {m[:20]!r}')
            eq(PublicKey.from_signed_message(sig_form, form).to_point(), point(secret), 'recovered')
            for a in addresses(secret):
                eq(PublicKey.verify_message_and_address(sig_form, form, a), True,
                   f'verifies {m[:20]!r} for {a}')
        other = encode(m) + b'\0'
        eq(pub.verify_message(sig_form, other), False, 'another message')
        if len(m) < 20:
            for i in range(len(encode(m)) + 1):
                b = encode(m)
                eq(pub.verify_message(sig_form, b[:i] + b'~' + b[i:]), False, 'another message')
                if i < len(b):
                    eq(pub.verify_message(sig_form, b[:i] + b[i + 1:]), False, 'another message')
                    eq(pub.verify_message(sig_form, b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]), False,
                       'another message')
            eq(pub.verify_message(sig_form, ref.varbytes(encode(m))), False, 'another message')
    return 'signed'


def unencodable(t):
    '''A text that has no bytes is no message: nothing signs it, and no signature is of it.'''
    from bitcoinx import PrivateKey, PublicKey
    k = PrivateKey(b32(SECRETS[4]))
    pub = k.public_key
    for op in (k.sign_message, k.sign_message_to_base64):
        eq(outcome(op, t), ('exc', 'UnicodeEncodeError'), f'signing {t!r}')
    for how in ('ignore', 'replace', 'surrogatepass', 'surrogateescape', 'backslashreplace',
                'xmlcharrefreplace', 'namereplace'):
        try:
            m = t.encode(errors=how)
        except UnicodeEncodeError:
            continue
        sig = k.sign_message(m)
        for op, args in ((pub.verify_message, ()), (PublicKey.from_signed_message, ()),
                         (PublicKey.verify_message_and_address, (pub.to_address(),))):
            eq(outcome(op, sig, t, *args), ('exc', 'UnicodeEncodeError'), f'verifying {t!r}')
    return 'refused'


def altered(pub, sig, m, secret, compressed):
    '''The forms of a signature that are the same to a curve point but for a sign.'''
    from bitcoinx import PublicKey
    r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
    for v in range(27, 35):
        for r2, s2 in ((r, N - s), (N - r, s), (N - r, N - s), (s, r)):
            bad = bytes([v]) + b32(r2) + b32(s2)
            for form in (bad, base64.b64encode(bad).decode()):
                eq(pub.verify_message(form, m), False, 'altered signature')
                for a in addresses(secret):
                    eq(PublicKey.verify_message_and_address(form, m, a), False,
                       f'altered signature for {a}')


def cross(a, b, m, m2):
    '''A signature by one key of one message, offered for another.'''
    from bitcoinx import PrivateKey, PublicKey
    sig = PrivateKey(b32(a)).sign_message(m)
    want = a == b and m == m2
    eq(PrivateKey(b32(b)).public_key.verify_message(sig, m2), want,
       f'{m!r} by {a:x} for {m2!r} by {b:x}')
    for address in addresses(b):
        eq(PublicKey.verify_message_and_address(sig, m2, address), want,
           f'{m!r} by {a:x} for {m2!r} and {address}')
    return 'verified' if want else 'not verified'


def not_addresses(secret, compressed):
    '''Text that contains the right hash, but is no address of it.'''
    from bitcoinx import PrivateKey, PublicKey, Bitcoin
    sig = PrivateKey(b32(secret), compressed).sign_message(b'm')
    n = 0
    for c in (True, False):
        ser = ref.ser_point(point(secret), c)
        h = ref.hash160(ser)
        payloads = [h, b'', b'\0', b'\0' * 21, b'\0' + h[:-1], b'\0' + h[1:], b'\0' + h[::-1],
                    h + b'\0', b'\0' + ser, b'\0' + ref.sha256(ser), b'\0' + h + h]
        for pad in (b'\0', b'\1', b'\x80', b'\xff', b'\x00\x00', bytes(11), bytes(12), bytes(20)):
            payloads += [b'\0' + h + pad, b'\0' + pad + h, pad + b'\0' + h]
        payloads += [b'\0' + h[:k] for k in range(20)]
        payloads += [b'\0' + h[:k // 8] + bytes([h[k // 8] ^ 1 << k % 8]) + h[k // 8 + 1:]
                     for k in range(160)]
        # An address of a script with that hash, on each network
        payloads += [b'\x05' + h, b'\xc4' + h]
        texts = [ref.b58c_encode(p) for p in payloads if p[1:] != h or p[0] in (5, 0xc4)]
        good = ref.b58c_encode(b'\0' + h)
        eq(PublicKey.verify_message_and_address(sig, b'm', good), True, 'its address')
        texts += [good[:k] + ('2' if good[k] != '2' else '3') + good[k + 1:] for k in range(len(good))]
        texts += [good[:k] for k in range(len(good))] + [good[k:] for k in range(1, len(good))]
        texts += [good + c for c in '1z 0O\n'] + [c + good for c in '1z 0O\n']
        texts += [ref.b58_encode(p) for p in (h, b'\0' + h, b'\0' + h + bytes(4))]
        texts += [h.hex(), ser.hex(), good.lower(), good.swapcase(), 'é' + good[1:]]
        for t in texts:
            for form in (sig, base64.b64encode(sig).decode()):
                got = outcome(PublicKey.verify_message_and_address, form, b'm', t)
                true(got[0] == 'exc' or got[1] is False, f'verified for {t!r}')
                n += 1
    for a in addresses(secret):
        eq(PublicKey.verify_message_and_address(sig, b'm', a), True, 'its address')
    return {'evals': n - 1, 'not verified': n}


def header(v, compressed, m):
    from bitcoinx import PrivateKey, PublicKey
    secret = SECRETS[4]
    k = PrivateKey(b32(secret), compressed)
    sig = k.sign_message(m)
    edited = bytes([v]) + sig[1:]
    r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
    for form in (edited, base64.b64encode(edited).decode()):
        recovered = outcome(PublicKey.from_signed_message, form, m)
        verified = outcome(k.public_key.verify_message, form, m)
        by_address = [outcome(PublicKey.verify_message_and_address, form, m, a)
                      for a in addresses(secret)]
        if not 27 <= v < 35:
            eq(recovered, ('exc', 'InvalidSignatureError'), f'header {v}')
            eq(verified, ('exc', 'InvalidSignatureError'), f'header {v}')
            eq(by_address, [('ok', False)] * 8, f'header {v}')
            continue
        want = ref.ecdsa_recover(msg_hash(m), r, s, (v - 27) & 3)
        # The signature itself is good; the header says which key recovers from it
        eq(verified, ('ok', True), f'header {v}')
        if want is None:
            eq(recovered, ('exc', 'InvalidSignatureError'), f'header {v}')
        else:
            eq(recovered[1].to_point(), want, f'header {v}')
        eq(by_address, [('ok', want == point(secret))] * 8, f'header {v}')
    return 'malformed' if not 27 <= v < 35 else 'verified' if want == point(secret) \
        else 'not verified'


def judge(sig, secret, m):
    '''What the verifiers should say of 65 bytes: (by key, by address, recovered point)'''
    if len(sig) != 65 or not 27 <= sig[0] < 35:
        return None, False, None
    r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
    if r >= N or s >= N:
        return None, False, None
    h = msg_hash(m)
    good = s <= N // 2 and ref.ecdsa_verify_secret(secret, h, r, s)
    pt = ref.ecdsa_recover(h, r, s, (sig[0] - 27) & 3)
    return good, good and pt == point(secret), pt


def compare(form, sig, secret, m):
    from bitcoinx import PrivateKey, PublicKey
    by_key, by_address, pt = judge(sig, secret, m) if sig is not None else (None, False, None)
    pub = PrivateKey(b32(secret)).public_key
    got = outcome(pub.verify_message, form, m)
    eq(got, ('exc', 'InvalidSignatureError') if by_key is None else ('ok', by_key),
       f'signature {form!r} verified by key')
    for a in addresses(secret):
        eq(PublicKey.verify_message_and_address(form, m, a), by_address,
           f'signature {form!r} verified for {a}')
    got = outcome(PublicKey.from_signed_message, form, m)
    if pt is None:
        eq(got, ('exc', 'InvalidSignatureError'), f'key recovered from {form!r}')
    else:
        eq(got[1].to_point(), pt, f'key recovered from {form!r}')
        # Whoever it is, the recovered key did sign it, and no other address did
        if got[0] == 'ok':
            eq(got[1].verify_message(form, m), int.from_bytes(sig[33:], 'big') <= N // 2,
               'recovered key verifies')
    return 'malformed' if by_key is None else 'verified' if by_address else 'not verified'


def damaged(secret, bits):
    sig = bytearray(bytes([31]) + signature(secret, PREFIX))
    for bit in bits:
        sig[bit // 8] ^= 1 << bit % 8
    compare(bytes(sig), bytes(sig), secret, b'abc')
    return compare(base64.b64encode(sig).decode(), bytes(sig), secret, 'abc')


def size(n):
    good = bytes([31]) + signature(SECRETS[4], PREFIX)
    for sig in ((good * 3)[:n], good[:1] + bytes(max(n - 1, 0)), good[:1] + b'\xff' * max(n - 1, 0)):
        compare(sig, sig, SECRETS[4], b'abc')
        compare(base64.b64encode(sig).decode(), sig, SECRETS[4], b'abc')
    return 'refused'


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def strict64(t):
    '''The bytes of canonical base 64 text; None if malformed; '?' where decoders differ.'''
    body = t.rstrip('=')
    pads = len(t) - len(body)
    if any(c not in B64 for c in body):
        return None
    if len(t) % 4 or pads > 2 or len(body) % 4 == 1:
        return '?' if len(body) % 4 != 1 and pads > -len(body) % 4 else None
    n = 0
    for c in body:
        n = n << 6 | B64.index(c)
    spare = len(body) * 6 % 8
    data = (n >> spare).to_bytes(len(body) * 6 // 8, 'big')
    return data


def text(t):
    sig = strict64(t)
    if sig == '?':
        from bitcoinx import PrivateKey, InvalidSignatureError
        try:
            PrivateKey(b32(SECRETS[4])).public_key.verify_message(t, b'abc')
        except InvalidSignatureError:
            pass
        return 'malformed'
    return compare(t, sig, SECRETS[4], b'abc')


def hashers(m):
    from bitcoinx import PrivateKey, PublicKey, sha256, double_sha256
    k = PrivateKey(b32(SECRETS[4]))
    plain = k.sign_message(m)
    eq(k.sign_message(m, double_sha256), plain, 'default hasher')
    sig = k.sign_message(m, sha256)
    h = ref.sha256(PREFIX + ref.varbytes(encode(m)))
    r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
    true(ref.ecdsa_verify_secret(SECRETS[4], h, r, s), 'signature with another hasher')
    eq(k.public_key.verify_message(sig, m, sha256), True, 'same hasher')
    eq(k.public_key.verify_message(sig, m), False, 'other hasher')
    eq(PublicKey.from_signed_message(sig, m, sha256), k.public_key, 'same hasher')
    for a in addresses(SECRETS[4]):
        eq(PublicKey.verify_message_and_address(sig, m, a, hasher=sha256), True, 'same hasher')
        eq(PublicKey.verify_message_and_address(sig, m, a), False, 'other hasher')
    for fn, args in ((k.sign_message, (m, None)), (k.sign_message_to_base64, (m, None)),
                     (k.public_key.verify_message, (sig, m, None)),
                     (PublicKey.from_signed_message, (sig, m, None))):
        eq(outcome(fn, *args), ('exc', 'ValueError'), 'no hasher')
    for n in (0, 1, 16, 31, 33, 64):
        def short(data, n=n):
            return (ref.sha256d(data) * 2)[:n]
        for fn, args in ((k.sign_message, (m, short)), (k.sign_message_to_base64, (m, short)),
                         (k.public_key.verify_message, (plain, m, short)),
                         (PublicKey.from_signed_message, (plain, m, short))):
            eq(outcome(fn, *args), ('exc', 'ValueError'), f'hash of {n} bytes')
    return 'signed'


def types():
    from bitcoinx import PrivateKey, PublicKey
    k = PrivateKey(b32(5))
    sig = k.sign_message(b'a')
    for bad in (None, 5, [1], 1.5):
        raises(Exception, k.sign_message, bad, what=f'message {bad!r}')
        eq(outcome(k.public_key.verify_message, bad, b'a'), ('exc', 'InvalidSignatureError'),
           f'signature {bad!r}')
        eq(outcome(PublicKey.verify_message_and_address, sig, b'a', bad), ('exc', 'TypeError'),
           f'address {bad!r}')
    return 'refused'
