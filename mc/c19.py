'''C19: ECDSA signatures: made correctly, verified exactly, converted without loss.'''

import functools
import itertools

from . import ref
from .common import eq, true, raises, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Every pair of boundary secrets and message hashes is signed every way and verified against '
        'a reference; every pair of boundary r and s values goes through every encoding; every '
        'one-byte replacement, deletion, insertion and cut of encoded signatures, every recovery '
        'byte and length, every change of message, key, r or s is offered to every reader and '
        'verifier.  Non-trivial: all.')
EXPECT = ('signed', 'converted', 'refused', 'strict DER', 'not strict DER', 'verified',
          'not verified', 'recovered', 'not recovered', 'signature object')

N, P = ref.N, ref.P
SECRETS = (1, 2, 0xff, 1 << 248, N // 2, N - 1, N - 2, int('0123456789abcdef' * 4, 16))
HASHES = (0, 1, N - 1, N, N + 1, (1 << 256) - 1, 1 << 255, int('fedcba9876543210' * 4, 16), 0xff)
VALUES = (0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 1 << 127, (1 << 248) - 1, 1 << 248,
          1 << 247, (1 << 255) - 1, 1 << 255, N // 2, N // 2 + 1, N - 1)
LENGTHS = tuple(range(150)) + (252, 253, 254, 255, 256, 257, 1000, 65535, 65536)
OVER = (N, N + 1, P - 1, P, (1 << 256) - 1)


def tasks(tier):
    out = [('sign', k) for k in range(len(SECRETS))]
    out += [('convert',), ('sizes',), ('object',), ('types',)]
    out += [('der', k, lo, 8) for k in range(len(ders())) for lo in range(8)]
    out += [('verify', k) for k in range(len(SECRETS))]
    out += [('recover', k) for k in range(0, len(rs()), 2)] + [('recid',)]
    if tier == 'thorough':
        out += [('der two', k, lo) for k in range(3) for lo in range(8)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'sign':
        for h in HASHES:
            res.case(sign, SECRETS[task[1]], h)
        for n in LENGTHS[task[1]::len(SECRETS)]:
            res.case(sign_message, SECRETS[task[1]], bytes(range(256)) * (n // 256) + bytes(range(n % 256)))
        for m in (b'', b'a', bytes(32), bytes(range(32)), b'\xff' * 1000):
            res.case(sign_message, SECRETS[task[1]], m)
    elif kind == 'convert':
        for r, s in itertools.product(VALUES + OVER, repeat=2):
            res.case(convert, r, s)
        for a, b in itertools.product(range(0, 257, 7), repeat=2):
            res.case(convert, (1 << a) - 1, (1 << b) % N)
    elif kind == 'sizes':
        for n in list(range(80)) + [128, 200]:
            res.case(compact_size, n)
            res.case(recoverable_size, n)
            for first in (0x30, 0x31, 0):
                res.case(der, bytes([first]) + bytes([n & 255]) * n)
                res.case(der, bytes([first, n]) + bytes(n))
    elif kind == 'der':
        _, k, lo, step = task
        sig = ders()[k]
        for i in range(lo, len(sig) + 1, step):
            for b in range(256):
                res.case(der, sig[:i] + bytes([b]) + sig[i + 1:])
                res.case(der, sig[:i] + bytes([b]) + sig[i:])
            res.case(der, sig[:i])
            res.case(der, sig[i:])
            res.case(der, sig[:i] + sig[i + 1:])
            # with the lengths made good again
            for b in (0, 1, 0x7f, 0x80, 0xff):
                body = sig[2:i] + bytes([b]) + sig[i:]
                res.case(der, b'\x30' + bytes([len(body) & 255]) + body)
        if lo == 0:
            for pads in itertools.product(range(3), repeat=2):
                for fill in (0, 0xff):
                    res.case(padded, k, pads, fill)
    elif kind == 'der two':
        sig = ders()[task[1]]
        for i in range(task[2], len(sig), 8):
            for j in range(i + 1, len(sig)):
                for a, b in itertools.product((0, 1, 2, 3, 0x1f, 0x20, 0x21, 0x30, 0x7f, 0x80, 0x81,
                                               0xff), repeat=2):
                    s = bytearray(sig)
                    s[i], s[j] = a, b
                    res.case(der, bytes(s))
    elif kind == 'verify':
        secret = SECRETS[task[1]]
        for h in (HASHES[7], 0, N):
            for which in range(len(CHANGES)):
                for other in range(len(SECRETS)):
                    res.case(verify, secret, h, which, SECRETS[other])
    elif kind == 'recover':
        for r in rs()[task[1]:task[1] + 2]:
            for s in (0, 1, 2, N // 2, N // 2 + 1, N - 1, N):
                for recid in range(6):
                    for h in (0, 1, HASHES[7], N, N - 1):
                        res.case(recover, r, s, recid, h)
    elif kind == 'recid':
        for v in range(256):
            res.case(recover, rs()[-1], 5, v, HASHES[7])
    elif kind == 'object':
        for k in range(len(ders())):
            for s in range(256):
                res.case(signature_object, k, s)
        res.case(missing)
        for data in [b'', b'\0', b'\0\0', b'\1', b'\x30', bytes(9), bytes(72), ders()[0][:-1]] + \
                [ders()[0][:i] for i in range(1, len(ders()[0]))]:
            res.case(not_signature, data)
    else:
        res.case(types)


@functools.lru_cache(None)
def ders():
    out = [ref.der_encode(*ref.ecdsa_sign(SECRETS[7], b32(HASHES[7]), 12345)[:2])]
    out += [ref.der_encode(r, s) for r, s in ((1, 1), (0x80, 0xff), (1 << 255, N // 2), (0, 0),
                                              (1 << 247, 1), (N - 1, 1 << 254))]
    return out


@functools.lru_cache(None)
def rs():
    '''r values that are and are not an x coordinate, some of which wrap past the order.'''
    out = []
    for start in (1, N - 20, P - N - 20):
        found = {}
        for r in range(start, start + 400):
            if not 0 < r < N:
                continue
            key = (ref.lift_x(r, 0) is not None,
                   r + N < P and ref.lift_x(r + N, 0) is not None)
            if found.setdefault(key, 0) < 2:
                found[key] += 1
                out.append(r)
    return out + [0, N, ref.G[0]]


@functools.lru_cache(None)
def point(secret):
    return ref.ec_mul(secret)


def b32(v):
    return v.to_bytes(32, 'big')


def sign(secret, h):
    from bitcoinx import PrivateKey, PublicKey
    k, msg = PrivateKey(b32(secret)), b32(h)
    sig = k.sign(msg, None)
    rs_ = ref.der_parse_strict(sig)
    true(rs_ is not None, f'signature is strict DER: {sig.hex()}')
    r, s = rs_
    true(s <= N // 2, 's is low')
    true(ref.ecdsa_verify(point(secret), msg, r, s), f'signature by {secret:x} of {h:x} is valid')
    eq(k.sign(msg, None), sig, 'the same signature again')
    rec = k.sign_recoverable(msg, None)
    eq(len(rec), 65, 'recoverable signature length')
    eq(rec[:64], b32(r) + b32(s), 'recoverable signature of the same values')
    eq(ref.ecdsa_recover(msg, r, s, rec[64]), point(secret), 'key recovered by the reference')
    eq(PublicKey.from_recoverable_signature(rec, msg, None).to_point(), point(secret), 'recovered')
    pub = k.public_key
    eq(pub.verify_der_signature(sig, msg, None), True, 'verifies')
    eq(pub.verify_recoverable_signature(rec, msg, None), True, 'verifies')
    # No nonce is used twice
    for other in HASHES:
        if other % N != h % N:
            true(k.sign(b32(other), None)[4:4 + sig[3]] != sig[4:4 + sig[3]], 'nonce reused')
    return 'signed'


def sign_message(secret, m):
    from bitcoinx import PrivateKey, PublicKey, sha256, double_sha256
    k = PrivateKey(b32(secret))
    pub = k.public_key
    for hasher, h in ((None, None), (sha256, ref.sha256(m)), (double_sha256, ref.sha256d(m)),
                      (lambda b: ref.sha256(b + b'x'), ref.sha256(m + b'x'))):
        args = (m,) if hasher is None else (m, hasher)
        h = h or ref.sha256(m)
        want, rec = k.sign(h, None), k.sign_recoverable(h, None)
        eq(k.sign(*args), want, 'signature of a hashed message')
        eq(k.sign_recoverable(*args), rec, 'recoverable signature of a hashed message')
        true(pub.verify_der_signature(want, *args), 'verifies')
        true(pub.verify_recoverable_signature(rec, *args), 'verifies')
        eq(PublicKey.from_recoverable_signature(rec, *args), pub, 'recovers')
        args = (m + b'.',) + args[1:]
        true(not pub.verify_der_signature(want, *args), 'another message')
        true(not pub.verify_recoverable_signature(rec, *args), 'another message')
        true(PublicKey.from_recoverable_signature(rec, *args) != pub, 'another message')
    if len(m) != 32:
        for fn, a in ((k.sign, (m, None)), (k.sign_recoverable, (m, None)),
                      (pub.verify_der_signature, (want, m, None)),
                      (pub.verify_recoverable_signature, (rec, m, None)),
                      (PublicKey.from_recoverable_signature, (rec, m, None)),
                      (k.sign, (m, lambda b: b'short'))):
            eq(outcome(fn, *a), ('exc', 'ValueError'), 'hash of another size')
    return 'signed'


def convert(r, s):
    from bitcoinx import compact_signature_to_der, der_signature_to_compact
    compact = b32(r) + b32(s)
    got = outcome(compact_signature_to_der, compact)
    if r >= N or s >= N:
        eq(got, ('exc', 'InvalidSignatureError'), f'compact signature {compact.hex()}')
        return 'refused'
    want = ref.der_encode(r, s)
    eq(got, ('ok', want), f'compact signature {compact.hex()}')
    eq(der_signature_to_compact(want), compact, f'DER signature {want.hex()}')
    return 'converted'


def compact_size(n):
    from bitcoinx import compact_signature_to_der
    if n == 64:
        return 'converted'
    for fill in (0, 1):
        eq(outcome(compact_signature_to_der, bytes([fill]) * n), ('exc', 'InvalidSignatureError'),
           f'compact signature of {n} bytes')
    return 'refused'


def recoverable_size(n):
    from bitcoinx import PublicKey, PrivateKey
    if n == 65:
        return 'converted'
    pub = PrivateKey(b32(5)).public_key
    for fill in (0, 1):
        for fn in (PublicKey.from_recoverable_signature, pub.verify_recoverable_signature):
            eq(outcome(fn, bytes([fill]) * n, bytes(32), None), ('exc', 'InvalidSignatureError'),
               f'recoverable signature of {n} bytes')
    return 'refused'


def der(sig):
    '''Accepted exactly if strict DER; values that are no field element verify nothing.'''
    from bitcoinx import der_signature_to_compact, Signature, PrivateKey
    want = ref.der_parse_strict(sig)
    got = outcome(der_signature_to_compact, sig)
    sigobj = outcome(Signature, sig + b'\x41')
    pub = PrivateKey(b32(SECRETS[7])).public_key
    check = outcome(pub.verify_der_signature, sig, b32(HASHES[7]), None)
    if want is None:
        eq(got, ('exc', 'InvalidSignatureError'), f'DER signature {sig.hex()}')
        eq(check, ('exc', 'InvalidSignatureError'), f'verifying {sig.hex()}')
        eq(sigobj, ('exc', 'InvalidSignatureError'), f'signature object of {sig.hex()}')
        return 'not strict DER'
    r, s = want
    if 0 <= r < N and 0 <= s < N:
        eq(got, ('ok', b32(r) + b32(s)), f'DER signature {sig.hex()}')
    eq(sigobj[0], 'ok', f'signature object of {sig.hex()}')
    good = 0 < r < N and 0 < s <= N // 2 and ref.ecdsa_verify_secret(SECRETS[7], b32(HASHES[7]), r, s)
    eq(check, ('ok', good), f'verifying {sig.hex()}')
    return 'strict DER'


def padded(k, pads, fill):
    '''Longer integers of the same value, with all lengths adjusted.'''
    r, s = ref.der_parse_strict(ders()[k])
    body = b''
    for v, pad in zip((r, s), pads):
        raw = ref.der_int(v)[2:]
        raw = bytes([fill]) * pad + raw
        body += b'\2' + bytes([len(raw)]) + raw
    return der(b'\x30' + bytes([len(body)]) + body)


# What is changed about a good signature (r, s), hash h and key
CHANGES = (lambda r, s, h: (r, s, h), lambda r, s, h: (r, N - s, h), lambda r, s, h: (s, r, h),
           lambda r, s, h: (r, s, h ^ 1), lambda r, s, h: (r, s, h ^ 1 << 255),
           lambda r, s, h: (r ^ 1, s, h), lambda r, s, h: (r, s ^ 1, h),
           lambda r, s, h: (r, 0, h), lambda r, s, h: (0, s, h), lambda r, s, h: (N - r, s, h),
           lambda r, s, h: (r, s, h - N if h >= N else h + N if h + N < 1 << 256 else h),
           lambda r, s, h: (1, 1, h), lambda r, s, h: (r, 1, h), lambda r, s, h: (0, 0, h))


def verify(secret, h, which, other):
    from bitcoinx import PrivateKey
    pub = PrivateKey(b32(other)).public_key
    r, s, _ = ref.ecdsa_sign(secret, b32(h), 0xabcdef + secret % 1000)
    r, s, h = CHANGES[which](r, s, h)
    msg = b32(h)
    # High s is refused, as the network does
    want = 0 < r < N and 0 < s <= N // 2 and ref.ecdsa_verify(point(other), msg, r, s)
    eq(pub.verify_der_signature(ref.der_encode(r, s), msg, None), want,
       f'DER signature by {secret:x} changed {which} for {other:x}')
    for recid in range(4):
        rec = b32(r) + b32(s) + bytes([recid])
        eq(pub.verify_recoverable_signature(rec, msg, None), want,
           f'recoverable signature by {secret:x} changed {which} for {other:x}')
    eq(pub.complement().verify_der_signature(ref.der_encode(r, s), msg, None), want, 'complement')
    return 'verified' if want else 'not verified'


def recover(r, s, recid, h):
    from bitcoinx import PublicKey
    msg = b32(h)
    want = ref.ecdsa_recover(msg, r, s, recid) if recid < 4 else None
    got = outcome(PublicKey.from_recoverable_signature, b32(r) + b32(s) + bytes([recid]), msg, None)
    if want is None:
        eq(got, ('exc', 'InvalidSignatureError'), f'recovering from {r:x} {s:x} {recid}')
        return 'not recovered'
    eq(got[0], 'ok', f'recovering from {r:x} {s:x} {recid}')
    eq(got[1].to_point(), want, f'recovering from {r:x} {s:x} {recid}')
    true(got[1].is_compressed(), 'compressed')
    return 'recovered'


def signature_object(k, sighash):
    from bitcoinx import Signature, SigHash
    der_sig = ders()[k]
    raw = der_sig + bytes([sighash])
    r, s = ref.der_parse_strict(der_sig)
    for sig in (Signature(raw), Signature.from_hex(raw.hex()), Signature.from_hex(raw.hex().upper()),
                Signature.from_der_sig(der_sig, sighash),
                Signature.from_der_sig(der_sig, SigHash(sighash))):
        eq(sig.to_bytes(), raw, 'bytes')
        eq(bytes(sig), raw, 'bytes')
        eq(sig.to_hex(), raw.hex(), 'hex')
        eq(sig.der_signature, der_sig, 'DER part')
        eq(sig.sighash, SigHash(sighash), 'sighash')
        eq(sig.sighash.base, sighash & 31, 'base')
        eq(sig.sighash.anyone_can_pay, sighash >= 128, 'anyone can pay')
        eq(sig.r_value(), r, 'r')
        eq(sig.s_value(), s, 's')
        eq(sig.to_compact(), b32(r) + b32(s), 'compact')
        true(sig.is_present(), 'present')
        true(sig == raw and sig == Signature(raw) and hash(sig) == hash(Signature(raw)), 'equality')
        true(not sig == raw + b'\0' and not sig == Signature(der_sig + bytes([sighash ^ 1])),
             'inequality')
    return 'signature object'


def missing():
    from bitcoinx import Signature
    sig = Signature.MISSING
    true(not sig.is_present() and sig == Signature(bytes(sig)), 'missing')
    for fn in (lambda: sig.der_signature, lambda: sig.sighash, sig.to_compact, sig.r_value,
               sig.s_value):
        eq(outcome(fn), ('exc', 'InvalidSignatureError'), 'missing signature')
    return 'signature object'


def not_signature(data):
    from bitcoinx import Signature
    if data == bytes(Signature.MISSING):
        return 'signature object'
    eq(outcome(Signature, data), ('exc', 'InvalidSignatureError'), f'signature {data.hex()}')
    return 'refused'


def types():
    from bitcoinx import compact_signature_to_der, PrivateKey
    for bad in (None, 'a' * 64, 5, bytearray(64), [0] * 64):
        eq(outcome(compact_signature_to_der, bad), ('exc', 'InvalidSignatureError'), f'{bad!r}')
    for bad in ('text', None, 5):
        raises(Exception, PrivateKey(b32(1)).sign, bad, what=f'signing {bad!r}')
    # What is signed or verified is a hash of 32 bytes or nothing
    k = PrivateKey(b32(5))
    h = ref.sha256(b'm')
    sig, rec = k.sign(b'm'), k.sign_recoverable(b'm')
    for n in [*range(70), 128, 255, 256, 257]:
        value = (h * 9)[:n]
        ways = [(value, None), (b'm', lambda m: value), (b'm', lambda m: bytearray(value))]
        for message, hasher in ways[:2 if n == 32 else 3]:
            for fn, args, good in ((k.sign, (), sig), (k.sign_recoverable, (), rec),
                                   (k.public_key.verify_der_signature, (sig,), True),
                                   (k.public_key.verify_recoverable_signature, (rec,), True),
                                   (type(k.public_key).from_recoverable_signature, (rec,),
                                    k.public_key)):
                got = outcome(fn, *args, message, hasher)
                if n == 32:
                    eq(got, ('ok', good), 'a hash of 32 bytes')
                else:
                    true(got[0] == 'exc' and got[1] == 'ValueError', f'hash of {n} bytes: {got}')
    return 'refused'
