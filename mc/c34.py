'''C34: what a call gives depends on its arguments only, not on the calls made before it.'''

import io
import itertools
import os
import pickle
import re
import signal
from functools import lru_cache

from . import ref, txgen
from .common import eq, true, Mismatch, show, entropy
from .c21 import build as encrypted
from .c33 import canon
from .chainmodel import Tree, open_headers, connect_ok, scratch_file, fresh

LEVEL = 'exploration'
RULE = ('An alphabet of calls is formed from every pure function and observer of the library, each with two or '
        'more values of each of its arguments (and of the object it is called on).  What a call gives as the '
        'first and only call of a fresh process is recorded; then every sequence of two calls of one function '
        '(thorough: three), and every sequence of two calls of different functions, is played, with objects '
        'kept and with objects made anew, and every result must be that recorded.  The sequences are played as de Bruijn walks, '
        'so that each one also occurs after every other in some order.  Non-trivial: the second call differs from the first.')
TRIVIAL = ('same call again',)
EXPECT = ('held', 'fresh', 'across')

N = ref.N
MAX_CALLS = 20      # of one function


# --- Objects ----------------------------------------------------------------------------------------

SECRETS = [bytes(range(7, 39)), bytes(range(8, 40)), (N - 1).to_bytes(32, 'big')]
MSGS = [b'abc', b'abd', b'', b'bbc']
SEEDS = [bytes(range(64)), bytes(range(1, 65))]
IVS = [bytes(range(16)), bytes(range(1, 17))]
H20 = [bytes(range(20)), bytes(range(1, 21))]
H32 = [bytes(range(32)), bytes(range(1, 33))]
CODES = [bytes([1]) * 32, bytes([2]) * 32]
FPS = [b'\1\2\3\4', b'\1\2\3\5']
PUBS = [ref.ser_point(ref.ec_mul(k), c) for k, c in ((5, True), (6, True), (5, False))]
DERS = [ref.der_encode(*ref.ecdsa_sign(int.from_bytes(SECRETS[0], 'big'), ref.sha256(m), 99 + i)[:2]) for i, m in enumerate(MSGS[:2])]
BASE = [(2, (txgen.an_input(1), txgen.an_input(2)), (txgen.an_output(1), txgen.an_output(2)), 9),
        (2, (txgen.an_input(1), txgen.an_input(3)), (txgen.an_output(1), txgen.an_output(3)), 500_000_007),
        (2, (txgen.an_input(1), txgen.an_input(2)), (txgen.an_output(1),), 0),
        (1, ((bytes(32), 0xffffffff, b'\x51\x52', 0xffffffff),), (txgen.an_output(1),), 11)]
TXS = [ref.ser_tx(t) for t in BASE]
SCRIPTS = [b'\x76\xa9\x14' + H20[0] + b'\x88\xac', b'\x76\xa9\x14' + H20[1] + b'\x88\xac', b'\xa9\x14' + H20[0] + b'\x87',
           b'\x21' + PUBS[0] + b'\xac', b'\x51\x21' + PUBS[0] + b'\x21' + PUBS[1] + b'\x52\xae', b'\x6a\x03abc',
           b'\x51\x52\x4c\x05abcde', bytes([len(DERS[0]) + 1]) + DERS[0] + b'\x41', b'\x05abc']
M12 = ['legal winner thank year wave sausage worth useful legal winner thank yellow',
       'letter advice cage absurd amount doctor acoustic avoid letter advice cage above',
       'legal winner thank year wave sausage worth useful legal winner thank thank']
OLD = ['acid ' * 11 + 'acid', 'like just love know never want time out there make look eye']
HEADERS = [Tree().cp.raw, Tree().make(0, 0), Tree().make(0, 1)]
COMPACTS = [bytes(range(1, 65)), bytes(range(2, 66))]


def recoverable(k, m):
    r, s, recid = ref.ecdsa_sign(int.from_bytes(SECRETS[k], 'big'), ref.sha256(MSGS[m]), 99)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid])


def message_signature(k, m, base=31):
    text = MSGS[m]
    r, s, recid = ref.ecdsa_sign(int.from_bytes(SECRETS[k], 'big'),
                                 ref.sha256d(b'\x18Bitcoin Signed Message:\n' + bytes([len(text)]) + text), 99)
    return bytes([base + recid]) + r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


RECS = [recoverable(0, 0), recoverable(0, 1), recoverable(1, 0)]
SIGS = [message_signature(0, 0), message_signature(0, 1), message_signature(1, 0), message_signature(0, 0, 27)]
SEALED = [encrypted(ref.ec_mul(int.from_bytes(SECRETS[k], 'big')), e, m)
          for k, e, m in ((0, 1234, b'hello'), (0, 1235, b'hullo'), (1, 1234, b'hello'))]
COINS = ('Bitcoin', 'BitcoinTestnet', 'BitcoinScalingTestnet', 'BitcoinRegtest')
KEYS = ((0, True, 0), (1, True, 0), (0, False, 0), (0, True, 1), (2, True, 0))
K, PK, TX, HD, XPUB, ADDR, OUT, SC, SIG, COIN, FLAGS = (
    range(5), range(5), range(4), range(3), range(3), range(6), range(5), range(len(SCRIPTS)), range(3), range(3), (0, 255, 1, 2, 4))


class Env:
    '''Gives the objects calls are made on: always the same, or new ones each time.'''

    def __init__(self, b, hold):
        self.b, self.hold, self.kept = b, hold, {}

    def get(self, what, i):
        if not self.hold and what != 'chain':
            return getattr(self, '_' + what)(i)
        if (what, i) not in self.kept:
            self.kept[what, i] = getattr(self, '_' + what)(i)
        return self.kept[what, i]

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda i: self.get(name, i)

    def _coin(self, i):
        return getattr(self.b, COINS[i])

    def _k(self, i):
        s, compressed, coin = KEYS[i]
        return self.b.PrivateKey(SECRETS[s], compressed, self._coin(coin))

    def _p(self, i):
        s, compressed, coin = KEYS[i]
        point = ref.ec_mul(int.from_bytes(SECRETS[s], 'big'))
        if coin == 0:
            return self.b.PublicKey.from_bytes(ref.ser_point(point, compressed))
        return self._k(i).public_key

    def _hd(self, i):
        return (self.b.BIP32PrivateKey.from_seed(SEEDS[i % 2], self._coin(i // 2)))

    def _xpub(self, i):
        return self._hd(i).public_key

    def _deriv(self, i):
        from bitcoinx import bip32
        return bip32.BIP32Derivation(CODES[i % 2], 5 + i // 2, 3, FPS[0])

    def _tx(self, i):
        return self.b.Tx.from_bytes(TXS[i])

    def _txin(self, i):
        return self.b.TxInput.from_bytes(ref.ser_in((txgen.an_input(1), txgen.an_input(2), (bytes(32), 0xffffffff, b'\x51', 0),
                                                  (bytes(31) + b'\1', 0, b'', 0xffffffff))[i]))

    def _txout(self, i):
        return self.b.TxOutput(7 + i % 2, self.b.Script(SCRIPTS[i]))

    def _sc(self, i):
        return self.b.Script(SCRIPTS[i])

    def _sig(self, i):
        return self.b.Signature([DERS[0] + b'\x41', DERS[1] + b'\x43', b'\xff'][i])

    def _addr(self, i):
        return (self.b.P2PKH_Address, self.b.P2SH_Address)[i % 2](H20[i // 4], self._coin(i // 2 % 2))

    def _out(self, i):
        b = self.b
        return [lambda: b.P2PK_Output(PUBS[0], b.Bitcoin), lambda: b.P2PK_Output(PUBS[0], b.BitcoinTestnet),
                lambda: b.P2MultiSig_Output(PUBS[:2], 1), lambda: b.P2MultiSig_Output(PUBS[:2], 2),
                lambda: b.P2PK_Output(PUBS[2], b.Bitcoin), lambda: b.P2MultiSig_Output(PUBS[::-1], 1)][i]()

    def _header(self, i):
        return self.b.Bitcoin.deserialized_header(HEADERS[i], i)

    def _words(self, i):
        name = ('english.txt', 'spanish.txt')[i]
        return self.b.Wordlists.bip39_wordlist(name)

    def _chain(self, i):
        '''A collection with forks.'''
        tree = Tree()
        headers = open_headers(fresh(scratch_file()), tree)
        for n, parent in enumerate(((0, 1, 2, 1, 4, 5, 3), (0, 0, 2, 3, 3, 1, 6))[i]):
            connect_ok(headers, tree, parent, tree.make(parent, n))
        return headers, tree

    def _network(self, i):
        '''Headers under a real network's rules.'''
        from .chainmodel import pack_header
        b = self.b
        coin, first, top, step = ((0, 0, 4100, 540), (0, 0, 4100, 560), (0, 503_860, 504_060, 600), (0, 503_860, 504_060, 500),
                                  (1, 0, 4100, 540))[i]
        cp = b.CheckPoint(pack_header(1, bytes(32), bytes(32), 7, 0x1d00ffff, 9), top, 0)
        headers = b.Headers.from_file(self._coin(coin), fresh(scratch_file()), cp)
        for h in range(first, top):
            bits = 0x1c0fffff if h < 2016 else (0x1c0effff if h < 4032 or i == 1 else 0x1c0dffff)
            if coin == 1 and h % 3:
                bits = 0x1d00ffff
            headers.set_one(h, pack_header(1, bytes(32), bytes(32), 1_300_000_000 + h * step, bits, h))
        return headers


def misc(b):
    import bitcoinx.misc
    return bitcoinx.misc


def aes():
    import bitcoinx.aes
    return bitcoinx.aes


def sigs():
    import bitcoinx.signature
    return bitcoinx.signature


def cash():
    import bitcoinx.cashaddr
    return bitcoinx.cashaddr


def hashers(b):
    return (b.sha256, b.double_sha256)


def reader(data):
    return io.BytesIO(data).read


@lru_cache(None)
def functions():
    '''{name: (function of b, env and arguments, domain of each argument)}'''
    out = {}

    def add(name, fn, *domains):
        true(name not in out, name)
        out[name] = (fn, domains)

    def each(prefix, names, make, *domains):
        for name in names.split():
            add(f'{prefix}.{name}', make(name), *domains)

    T = (True, False, None)
    # Plain functions
    each('b', 'sha1 sha256 sha512 ripemd160 double_sha256 hash160 pack_varbytes be_bytes_to_int le_bytes_to_int base58_encode '
         'base58_encode_check push_item push_and_drop_item', lambda n: lambda b, E, x: getattr(b, n)(x), MSGS + [b'\0abc', b'abc\0'])
    each('b', 'hash_to_hex_str hash_to_value', lambda n: lambda b, E, x: getattr(b, n)(x), H32)
    each('b', 'hmac_sha512 hmac_sha512_halves', lambda n: lambda b, E, x, y: getattr(b, n)(x, y), MSGS, MSGS)
    add('b.hex_str_to_hash', lambda b, E, x: b.hex_str_to_hash(x), [h.hex() for h in H32] + ['00'])
    add('b.int_to_be', lambda b, E, x, n: b.int_to_be_bytes(x, n), (0, 1, 256), (None, 1, 2, 4))
    add('b.int_to_le', lambda b, E, x, n: b.int_to_le_bytes(x, n), (0, 1, 256), (None, 1, 2, 4))
    add('b.chunks', lambda b, E, x, n: list(misc(b).chunks(x, n)), ((1, 2, 3, 4), (1, 2, 3, 5), (1, 2)), (1, 2, 3))
    add('b.item_to_int', lambda b, E, x: b.item_to_int(x), (b'', b'\1', b'\x81', b'\1\0', b'\0'))
    add('b.push_int', lambda b, E, x: b.push_int(x), (0, 1, -1, 17, True, False, 255))
    add('b.push_items', lambda b, E, x: b.push_and_drop_items(x), ([b'a'], [b'a', b'b'], [b'b', b'a'], []))
    each('b', 'pack_varint varint_len', lambda n: lambda b, E, x: getattr(b, n)(x), (0, 1, 252, 253, 65536, -1))
    each('b', 'pack_le_int32 pack_le_int64 pack_le_uint16 pack_le_uint32 pack_le_uint64 pack_be_uint16 pack_be_uint32 '
         'pack_be_uint64 pack_byte', lambda n: lambda b, E, x: getattr(b, n)(x), (0, 1, 200, -1, 65536))
    each('b', 'read_le_int32 read_le_int64 read_le_uint16 read_le_uint32 read_le_uint64 read_be_uint16 read_be_uint32 '
         'read_be_uint64 read_varint read_varbytes', lambda n: lambda b, E, x: (lambda f: [getattr(b, n)(f.read), f.tell()])(io.BytesIO(x)),
         (b'\1' * 9, b'\2' * 9, b'\2', bytes(9), b'\xfd\1\2abcdefg'))
    add('b.pack_list', lambda b, E, x, n: b.pack_list(x, getattr(b, n)), ([1, 2], [2, 1], []), ('pack_byte', 'pack_le_uint16'))
    add('b.read_list', lambda b, E, x, n: b.read_list(reader(x), getattr(b, n)), (b'\2abcdef', b'\1abcdef', b'\2abcdeg', b'\0'),
        ('read_le_uint16', 'read_be_uint16'))
    add('b.unpack_header', lambda b, E, x: b.unpack_header(x), HEADERS)
    add('b.base58_decode', lambda b, E, x: b.base58_decode(x), ('abc', 'abd', '1abc', 'ab0', ''))
    add('b.base58_decode_check', lambda b, E, x: b.base58_decode_check(x),
        [ref.b58c_encode(m) for m in MSGS] + [ref.b58c_encode(b'abc')[:-1] + '1'])
    add('b.is_minikey', lambda b, E, x: b.is_minikey(x), ('S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy', 'S6c56bnXQiBjk9mqSYE7ykVQ7NzrRz', 'S'))
    each('b', 'bits_to_target bits_to_work', lambda n: lambda b, E, x: getattr(b, n)(x), (0x1d00ffff, 0x1d00fffe, 0x207fffff, 0x1d00fffe1))
    add('b.target_to_bits', lambda b, E, x: b.target_to_bits(x), (0xffff << 208, 0xfffe << 208, 5, 0, -1))
    add('b.locktime', lambda b, E, x: b.tx.locktime_description(x), (0, 1, 499999999, 500000000, 1500000000))
    # AES, signatures, cash addresses
    add('aes.encrypt', lambda b, E, k, iv, x: aes().aes_encrypt_with_iv(k, iv, x), IVS, IVS, MSGS[:2] + [b'x' * 16])
    boxes = [ref.aes_cbc_encrypt(IVS[0], IVS[0], ref.pkcs7(m)) for m in (b'hello', b'hullo')]
    add('aes.decrypt', lambda b, E, k, iv, x: aes().aes_decrypt_with_iv(k, iv, x), IVS, IVS, boxes)
    add('sig.der_to_compact', lambda b, E, x: b.der_signature_to_compact(x), DERS + [b'\x30'])
    add('sig.compact_to_der', lambda b, E, x: b.compact_signature_to_der(x), COMPACTS + [b'\x30'])
    add('sig.sign_der', lambda b, E, h, s: sigs().sign_der(h, s), H32, SECRETS[:2])
    add('sig.sign_rec', lambda b, E, h, s: sigs().sign_recoverable(h, s), H32, SECRETS[:2])
    add('sig.verify', lambda b, E, x, m, p: sigs().verify_der_signature(x, ref.sha256(m), E.p(p)._public_key), DERS, MSGS[:2], (0, 1))
    add('sig.to_recoverable', lambda b, E, x: sigs().to_recoverable_signature(x), SIGS)
    add('sig.to_message', lambda b, E, x, c: sigs().to_message_signature(x, c), RECS, (True, False))
    cashes = [ref.cash_encode(p, k, h) for p in ('bitcoincash', 'bchtest') for k in (0, 1) for h in H20]
    add('cash.decode', lambda b, E, x: cash().decode(x), cashes + [
        cashes[0].replace('bitcoincash', 'bitcoincasi'), cashes[0].upper(), cashes[0][:-1] + ('p' if cashes[0][-1] == 'q' else 'q'), cashes[0][12:],
        cashes[4].replace('bchtest', 'bchtesu')])
    # Signatures as objects
    each('Signature', 'to_compact r_value s_value to_string to_bytes to_hex is_present __bytes__ __hash__', lambda n: lambda b, E, i:
         getattr(E.sig(i), n)(), SIG)
    each('Signature', 'der_signature sighash', lambda n: lambda b, E, i: getattr(E.sig(i), n), SIG)
    add('Signature.from_der', lambda b, E, x, h: b.Signature.from_der_sig(x, h), DERS, (0x41, 1))
    add('Signature.from_hex', lambda b, E, x, h: b.Signature.from_hex(x.hex() + h), DERS, ('41', '01'))
    add('SigHash', lambda b, E, x: [(lambda s: [s.to_string(), s.base, s.anyone_can_pay])(b.SigHash(x))], (1, 0x41, 0xc1, 0x43, 0x81, 3))
    # Private keys
    each('PrivateKey', 'to_int to_bytes to_hex coin is_compressed __str__ __hash__', lambda n: lambda b, E, i: getattr(E.k(i), n)(), K)
    add('PrivateKey.public_key', lambda b, E, i: (lambda p: [p, p.coin(), p.is_compressed()])(E.k(i).public_key), K)
    add('PrivateKey.eq', lambda b, E, i, j: E.k(i) == E.k(j), range(3), range(3))
    add('PrivateKey.to_WIF', lambda b, E, i, c, n: E.k(i).to_WIF(compressed=c, coin=None if n is None else E.coin(n)), (0, 3), T, (None, 1, 3))
    for n in ('add', 'multiply'):
        add('PrivateKey.' + n, lambda b, E, i, x, n=n: (lambda k: [k, k.to_bytes(), k.coin(), k.is_compressed()])(getattr(E.k(i), n)(x)),
            (0, 1, 2, 3), SECRETS[:2] + [bytes(32)])
        add('PublicKey.' + n, lambda b, E, i, x, n=n: (lambda k: [k, k.coin(), k.is_compressed()])(getattr(E.p(i), n)(x)),
            (0, 1, 2, 3), SECRETS[:2] + [bytes(32)])
    for n in ('sign', 'sign_recoverable', 'sign_message', 'sign_message_to_base64'):
        add('PrivateKey.' + n, lambda b, E, i, m, h, n=n: getattr(E.k(i), n)(MSGS[m], hashers(b)[h]), (0, 1, 2), (0, 1), (0, 1))
        add('PrivateKey.' + n + '.plain', lambda b, E, i, m, n=n: getattr(E.k(i), n)(MSGS[m]), (0, 1, 2), (0, 1, 2))
    add('PrivateKey.sign_text', lambda b, E, i, m: E.k(i).sign_message(m), (0, 1), ('abc', 'abd', b'abc'))
    add('PrivateKey.shared_secret', lambda b, E, i, j, m, h: E.k(i).shared_secret(E.p(j), MSGS[m], hashers(b)[h]), (0, 1), (0, 1), (0, 1), (0, 1))
    add('PrivateKey.ecdh', lambda b, E, i, j: E.k(i).ecdh_shared_secret(E.p(j)), (0, 1, 4), (0, 1, 4))
    add('PrivateKey.decrypt', lambda b, E, i, x, g: E.k(i).decrypt_message(x, g), (0, 1), SEALED, (b'BIE1', b'BIE2'))
    add('PrivateKey.from_int', lambda b, E, x: b.PrivateKey.from_int(x).to_bytes(), (1, 2, 0))
    add('PrivateKey.from_bytes', lambda b, E, x, c, n: (lambda k: [k.to_bytes(), k.is_compressed(), k.coin()])(b.PrivateKey(x, c, E.coin(n))),
        SECRETS[:2] + [bytes(32)], (True, False), (0, 1))
    add('PrivateKey.from_arbitrary', lambda b, E, x: b.PrivateKey.from_arbitrary_bytes(x).to_bytes(), MSGS)
    texts = [ref.b58c_encode(b'\x80' + s + t) for s in SECRETS[:2] for t in (b'\1', b'')] + [
        ref.b58c_encode(b'\xef' + SECRETS[0] + b'\1'), SECRETS[0].hex(), SECRETS[1].hex(), 'S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy']
    for n in ('from_WIF', 'from_text', 'from_hex', 'from_minikey'):
        add('PrivateKey.' + n, lambda b, E, x, n=n: (lambda k: [k.to_bytes(), k.is_compressed(), k.coin()])(getattr(b.PrivateKey, n)(x)), texts)
    add('PrivateKey.from_random', lambda b, E, seed: b.PrivateKey.from_random(source=lambda n: bytes([seed]) * n).to_bytes(), (1, 2, 3))
    add('PrivateKey.from_random.os', lambda b, E: b.PrivateKey.from_random().to_bytes())
    # Public keys
    each('PublicKey', 'to_point coin is_compressed __str__ __hash__ complement P2PK_script P2PKH_script', lambda n: lambda b, E, i:
         getattr(E.p(i), n)(), PK)
    each('PublicKey', 'to_bytes to_hex hash160', lambda n: lambda b, E, i, c: getattr(E.p(i), n)(compressed=c), (0, 1, 2, 3), T)
    add('PublicKey.to_address', lambda b, E, i, c, n: (lambda a: [a, a.to_string(), a.coin()])(
        E.p(i).to_address(compressed=c, coin=None if n is None else E.coin(n))), (0, 1, 2, 3), T, (None, 0, 1))
    add('PublicKey.eq', lambda b, E, i, j: E.p(i) == E.p(j), range(4), range(4))
    add('PublicKey.from_bytes', lambda b, E, x: (lambda k: [k, k.is_compressed()])(b.PublicKey.from_bytes(x)), PUBS + [b'\2' + bytes(32)])
    add('PublicKey.from_hex', lambda b, E, x: (lambda k: [k, k.is_compressed()])(b.PublicKey.from_hex(x.hex())), PUBS + [b'\2' + bytes(32)])
    points = [ref.ec_mul(k) for k in (5, 6, N - 5)]
    add('PublicKey.from_point', lambda b, E, x, y: b.PublicKey.from_point(x, y), [points[0][0], points[1][0]], [p[1] for p in points])
    add('PublicKey.from_recoverable', lambda b, E, x, m, h: b.PublicKey.from_recoverable_signature(x, MSGS[m], hashers(b)[h]), RECS, (0, 1), (0, 1))
    add('PublicKey.from_signed', lambda b, E, x, m, h: (lambda k: [k, k.is_compressed()])(
        b.PublicKey.from_signed_message(x, MSGS[m], hashers(b)[h])), SIGS, (0, 1), (1, 0))
    add('PublicKey.verify_message', lambda b, E, i, x, m, h: E.p(i).verify_message(x, MSGS[m], hashers(b)[h]), (0, 1), SIGS[:3], (0, 1), (1,))
    add('PublicKey.verify_message_hasher', lambda b, E, i, x, h: E.p(i).verify_message(x, MSGS[0], hashers(b)[h]), (0, 2), SIGS[::3], (0, 1))
    add('PublicKey.verify_address', lambda b, E, x, m, a: b.PublicKey.verify_message_and_address(x, MSGS[m], E.k(a).public_key.to_address()),
        SIGS[:3], (0, 1), (0, 1, 2))
    add('PublicKey.verify_der', lambda b, E, i, x, m: E.p(i).verify_der_signature(x, MSGS[m]), (0, 1), DERS, (0, 1))
    add('PublicKey.verify_rec', lambda b, E, i, x, m: E.p(i).verify_recoverable_signature(x, MSGS[m]), (0, 1), RECS, (0, 1))
    add('PublicKey.combine', lambda b, E, x: (lambda k: [k, k.is_compressed(), k.coin()])(b.PublicKey.combine_keys([E.p(i) for i in x])),
        ([0, 1], [1, 0], [2, 1], [0, 0], [0, 1, 4], [0], []))
    add('PublicKey.encrypt', lambda b, E, i, m, g: E.p(i).encrypt_message(MSGS[m], g), (0, 1, 2), (0, 1), (b'BIE1', b'BIE2'))
    add('PublicKey.encrypt_base64', lambda b, E, i, m: E.p(i).encrypt_message_to_base64(MSGS[m]), (0, 1), (0, 1))
    # Hierarchical keys
    for kind, domain in (('hd', HD), ('xpub', XPUB)):
        each(kind, 'identifier fingerprint to_extended_key_string derivation __repr__ __str__ __hash__ coin', lambda n, kind=kind: lambda b, E, i:
             getattr(getattr(E, kind)(i), n)(), domain)
        for n in ('child', 'child_safe'):
            add(f'{kind}.{n}', lambda b, E, i, x, n=n, kind=kind: [(lambda c: [c.to_extended_key_string(), c.coin()])(getattr(getattr(E, kind)(i), n)(x))],
                domain, (0, 1, 1 << 31, (1 << 31) + 1, -1))
    add('hd.public_key', lambda b, E, i: E.hd(i).public_key.to_extended_key_string(), HD)
    add('hd.from_seed', lambda b, E, s, c: b.BIP32PrivateKey.from_seed(s, E.coin(c)).to_extended_key_string(), SEEDS + [b''], COIN)
    add('hd.from_random', lambda b, E, seed: b.BIP32PrivateKey.from_random(source=lambda n: bytes([seed]) * n).to_extended_key_string(), (1, 2))
    add('hd.from_random.os', lambda b, E: b.BIP32PrivateKey.from_random().to_extended_key_string())
    add('derivation.child', lambda b, E, i, c, n, f: repr(E.deriv(i).child(c, n, f)), (0, 1, 2), CODES, (5, 6), FPS)
    add('derivation.extended_key', lambda b, E, i, c, x: E.deriv(i).extended_key(E.coin(c), x), (0, 1, 2), (0, 1), [PUBS[0], SECRETS[0], SECRETS[1]])
    strings = [ref_string(i) for i in range(4)]
    add('b.bip32_key_from_string', lambda b, E, i: (lambda k: [k, k.coin(), repr(k.derivation()), k.to_bytes()])(
        b.bip32_key_from_string(strings[i])), range(4))
    chains = ("m/1/2'", 'm/1/2', "m/2'/1", 'm', 'm/', '1/2', "m/1'/2")
    each('b', 'bip32_decompose_chain_string bip32_is_valid_chain_string', lambda n: lambda b, E, x: getattr(b, n)(x), chains)
    each('b', 'bip32_validate_derivation bip32_build_chain_string', lambda n: lambda b, E, x: getattr(b, n)(x),
         ([1, 2], [2, 1], [1 | 1 << 31], [], [1 << 32], (1, 2), [True]))
    # Addresses and outputs
    each('Address', 'to_string hash160 to_script to_script_bytes coin __str__ __hash__', lambda n: lambda b, E, i: getattr(E.addr(i), n)(), ADDR)
    add('Address.eq', lambda b, E, i, j: E.addr(i) == E.addr(j), range(4), range(4))
    destinations = [ref.b58c_encode(bytes([v]) + h) for v in (0, 5, 111) for h in H20] + cashes[:4]
    add('Address.from_string', lambda b, E, x, c: (lambda a: [a, type(a).__name__, a.coin()])(b.Address.from_string(x, E.coin(c))), destinations[:4] + cashes[:2], COIN)
    add('Address.from_string.more', lambda b, E, x, c: (lambda a: [a, type(a).__name__, a.coin()])(b.Address.from_string(x, E.coin(c))),
        destinations[4:], (0, 1))
    each('Output', 'to_script to_script_bytes hash160 __hash__', lambda n: lambda b, E, i: getattr(E.out(i), n)(), OUT)
    add('Output.to_address', lambda b, E, i: (lambda a: [a, a.coin()])(E.out(i).to_address()), (0, 1, 4))
    add('Output.count', lambda b, E, i: E.out(i).public_key_count(), (2, 3, 5))
    add('Output.eq', lambda b, E, i, j: E.out(i) == E.out(j), OUT, range(4))
    add('b.classify', lambda b, E, i, c: (lambda o: [o, type(o).__name__, getattr(o, 'coin', lambda: 0)() if callable(getattr(o, 'coin', 0)) else 0])(
        b.classify_output_script(E.sc(i), E.coin(c))), SC, (0, 1))
    # Scripts
    each('Script', 'ops to_bytes to_hex to_template __len__ __bytes__ __str__ __hash__', lambda n: lambda b, E, i:
         (lambda r: list(r) if n == 'ops' else r)(getattr(E.sc(i), n)()), SC)
    add('Script.to_asm', lambda b, E, i, d: E.sc(i).to_asm(d), SC, (True, False))
    add('Script.to_json', lambda b, E, i, f, s: E.sc(i).to_json(b.JSONFlags(f), s, b.Bitcoin), (0, 2, 3, 4, 7), (0, 255), (True, False))
    add('Script.to_json.coin', lambda b, E, i, c: E.sc(i).to_json(b.JSONFlags(255), False, E.coin(c)), (0, 2, 3, 4), COIN)
    add('Script.shift', lambda b, E, i, x: E.sc(i) << x, (0, 1, 8), (b'ab', b'ac', 5, 1, True, b'', b'\1'))
    add('Script.push_many', lambda b, E, i, x: E.sc(i).push_many(x), (0, 1), ([b'ab', 5], [5, b'ab'], [], [b'\5'], [1], [b'\1'], [True]))
    add('Script.eq', lambda b, E, i, j: E.sc(i) == E.sc(j), range(4), range(4))
    add('Script.word_of', lambda b, E, x, d: b.Script.op_to_asm_word(x, d), (b'abc', b'abd', DERS[0] + b'\x41', DERS[0] + b'\1', 0, 1, 172), (True, False))
    add('Script.word_to', lambda b, E, x: b.Script.asm_word_to_bytes(x), ('OP_1', 'OP_2', '1', '01', '-1', '10', 'ab', 'OP_X'))
    add('Script.from_asm', lambda b, E, x: b.Script.from_asm(x), ('OP_1 01', 'OP_1 1', '01 OP_1', '', 'OP_X'))
    add('Script.from_hex', lambda b, E, x: b.Script.from_hex(x), ('51', '52', '5151', '', '5'))
    # Transactions
    each('Tx', 'is_coinbase to_bytes to_hex hash hex_hash size total_output_value are_inputs_final', lambda n: lambda b, E, i: getattr(E.tx(i), n)(), TX)
    add('Tx.is_final', lambda b, E, i, h, t: E.tx(i).is_final_for_block(h, t), (0, 1), (8, 10), (499_999_999, 600_000_000))
    add('Tx.is_final.height', lambda b, E, h, t: E.tx(0).is_final_for_block(h, t), (8, 9, 10, 11), (5, 6))
    for i, ins in enumerate(('tx', 'index', 'value', 'script', 'sighash')):
        domains = [(0,), (0,), (5,), (SCRIPTS[0],), (0x41,)]
        domains[i] = [(0, 1, 2), (0, 1, 2, -1), (5, 6, 0, -1), SCRIPTS[:3], (0x41, 0x42, 0x43, 0xc1, 0xc3, 1, None)][i]
        for j in range(i + 1, 5):
            more = list(domains)
            more[j] = [None, (0, 1), (5, 6), SCRIPTS[:2], (0x41, 0xc3)][j]
            add(f'Tx.signature_hash.{i}{j}', lambda b, E, t, n, v, s, f: E.tx(t).signature_hash(
                n, v, b.Script(s), sighash=None if f is None else b.SigHash(f)), *more)
    add('Tx.to_json', lambda b, E, i, f, c: E.tx(i).to_json(b.JSONFlags(f), E.coin(c)), TX, (0, 255), (0, 1))
    add('Tx.from_bytes', lambda b, E, x: b.Tx.from_bytes(x), TXS + [TXS[0][:-1]])
    add('Tx.from_hex', lambda b, E, x: b.Tx.from_hex(x.hex()), TXS)
    add('Tx.read', lambda b, E, x: (lambda f: [b.Tx.read(f.read), f.tell()])(io.BytesIO(x + TXS[0])), TXS)
    add('Tx.repr', lambda b, E, i: repr(E.tx(i)), TX)
    add('Tx.eq', lambda b, E, i, j: E.tx(i) == E.tx(j), TX, TX)
    add('Tx.size_io', lambda b, E, i, j: b.Tx.size_io(E.tx(i).inputs, E.tx(j).outputs), TX, TX)
    each('TxInput', 'is_coinbase prevout_bytes to_bytes to_hex size is_final __repr__', lambda n: lambda b, E, i: getattr(E.txin(i), n)(), range(4))
    add('TxInput.for_signature', lambda b, E, i, v, s: E.txin(i).to_bytes_for_signature(v, b.Script(s)), (0, 1), (5, 6), SCRIPTS[:2])
    add('TxInput.to_json', lambda b, E, i, f, n: E.txin(i).to_json(b.JSONFlags(f), n), range(4), (0, 255), (None, 1))
    each('TxInput', 'from_bytes', lambda n: lambda b, E, x: b.TxInput.from_bytes(x), [ref.ser_in(txgen.an_input(i)) for i in (1, 2, 3)])
    each('TxOutput', 'to_bytes to_hex size __repr__', lambda n: lambda b, E, i: getattr(E.txout(i), n)(), range(4))
    add('TxOutput.to_json', lambda b, E, i, f, c, n: E.txout(i).to_json(b.JSONFlags(f), E.coin(c), n), (0, 2), (0, 255), (0, 1), (None, 1))
    each('TxOutput', 'from_bytes', lambda n: lambda b, E, x: b.TxOutput.from_bytes(x), [ref.ser_out(txgen.an_output(i)) for i in (1, 2, 3)])
    # Headers and coins
    each('Header', 'work target hash_value hex_str difficulty __str__', lambda n: lambda b, E, i: getattr(E.header(i), n)(), range(3))
    each('Coin', 'header_hash header_prev_hash header_timestamp header_bits header_work', lambda n: lambda b, E, c, x:
         getattr(E.coin(c), n)(x), (0, 1), HEADERS)
    add('Coin.deserialized_header', lambda b, E, c, x, h: (lambda r: [r, r.height, r.hash])(E.coin(c).deserialized_header(x, h)), (0, 1), HEADERS, (0, 1))
    add('Coin.difficulty', lambda b, E, c, x: E.coin(c).bits_to_difficulty(x), (0, 1, 3), (0x1d00ffff, 0x1c00ffff))
    add('Coin.from_WIF_byte', lambda b, E, x: b.Coin.from_WIF_byte(x), (0x80, 0xef, 1))
    add('Coin.lookup_xver', lambda b, E, x: list(b.Coin.lookup_xver_bytes(bytes.fromhex(x))), ('0488b21e', '0488ade4', '043587cf', '04358394', '00000000'))
    # Mnemonics
    add('BIP39.normalize', lambda b, E, m: b.BIP39Mnemonic.normalize(m), M12[:2] + ['  A  b ', 'a b'])
    add('BIP39.is_valid', lambda b, E, m, w: b.BIP39Mnemonic.is_valid(m, E.words(w)), M12 + ['abandon abandon', 'x ' * 12], (0, 1))
    add('BIP39.to_seed', lambda b, E, m, p: b.BIP39Mnemonic.to_seed(m, p), M12[:2], ('', 'x'))
    add('BIP39.generate', lambda b, E, w, n: b.BIP39Mnemonic.generate(E.words(w), n), (0, 1), (128, 160, 127))
    add('BIP39.words', lambda b, E, w: [E.words(w)[i] for i in (0, 1, 1000, 2047)], (0, 1))
    add('Electrum.is_new', lambda b, E, m, p: b.ElectrumMnemonic.is_valid_new(m, p), M12[:2], ('01', '100', ''))
    add('Electrum.generate', lambda b, E, p, n, s: b.ElectrumMnemonic.generate_new(E.words(0), prefix=p, bits=n, skip_old=s), ('1', '2'), (132, 121), (True, False))
    each('Electrum', 'normalize_new normalize_old is_valid_old old_to_hex_seed', lambda n: lambda b, E, m: getattr(b.ElectrumMnemonic, n)(m),
         OLD + [M12[0], 'ab' * 16, 'ac' * 16, ' Like  just'])
    add('Electrum.hex_to_old', lambda b, E, m: b.ElectrumMnemonic.hex_seed_to_old(m), ('ab' * 16, 'ac' * 16, 'ab' * 32, 'ab'))
    add('Electrum.generate_old', lambda b, E, n: b.ElectrumMnemonic.generate_old_seed(word_count=n), (12, 24))
    add('Wordlists.original', lambda b, E: list(b.Wordlists.original_electrum_wordlist())[:3])
    # Collections
    heights = range(0, 4)
    which = [(i, n) for i in (0, 1) for n in (0, 1, 2)]

    def chain_of(E, i):
        headers, tree = E.chain(i[0])
        return headers, headers.chains()[i[1]]
    for n in ('header_at_height', 'raw_header_at_height', 'chainwork_to_height', 'median_time_past'):
        add('Headers.' + n, lambda b, E, i, h, n=n: (lambda hs, c: getattr(hs, n)(c, h))(*chain_of(E, i)), which[:5], heights)
        add('Headers.' + n + '.more', lambda b, E, i, h, n=n: (lambda hs, c: getattr(hs, n)(c, h))(*chain_of(E, i)), which, (1, 2, 9))
    add('Headers.required_bits', lambda b, E, i, h, t: (lambda hs, c: hs.required_bits(c, h, t))(*chain_of(E, i)), which[:3], (2, 3), (5, 6, 7))
    add('Headers.required_bits.more', lambda b, E, i, h, t: (lambda hs, c: hs.required_bits(c, h, t))(*chain_of(E, i)), which[1:5], (3,), (5, 6, 7))
    add('Headers.chainwork_range', lambda b, E, i, s, e: (lambda hs, c: hs.chainwork_range(c, s, e))(*chain_of(E, i)), which[:3], (1, 2), (2, 3))
    add('Headers.chainwork_range.more', lambda b, E, i, s, e: (lambda hs, c: hs.chainwork_range(c, s, e))(*chain_of(E, i)), which[3:], (0, 1), (2, 3))
    add('Headers.lookup', lambda b, E, i, n: list((lambda r: [r[0], E.chain(i)[0].chains().index(r[1])])(E.chain(i)[0].lookup(E.chain(0)[1].nodes[n].hash))),
        (0, 1), range(6))
    each('Headers', '__len__ chain_count', lambda n: lambda b, E, i: getattr(E.chain(i)[0], n)(), (0, 1))
    add('Headers.longest', lambda b, E, i: E.chain(i)[0].longest_chain(), (0, 1))
    add('Headers.reconnect', lambda b, E, i, n: E.chain(i)[0].connect(E.chain(i)[1].nodes[n].raw)[0], (0, 1), (1, 2, 3))
    add('Headers.refuse', lambda b, E, i, n: E.chain(i)[0].connect(HEADERS[1][:4] + bytes([n]) * 32 + HEADERS[1][36:]), (0, 1), (1, 2))
    for n in ('log2_work', 'desc'):
        add('Chain.' + n, lambda b, E, i, n=n: getattr(chain_of(E, i)[1], n)(), which)
    add('Chain.header_index', lambda b, E, i, h: chain_of(E, i)[1].header_index(h), which[:5], range(4))
    add('Chain.parents', lambda b, E, i: sorted([c.height, c.first_height, h] for c, h in chain_of(E, i)[1].parent_heights().items()), which)
    add('Chain.common', lambda b, E, i, j: (lambda r: [r[0] and r[0].first_height, r[1]])(chain_of(E, i)[1].common_chain_and_height(chain_of(E, (i[0], j))[1])),
        which, range(3))
    def required(b, E, i, h, t):
        headers = E.network(i)
        return headers.required_bits(headers.longest_chain(), h, 1_300_000_000 + (h - 1) * 540 + t)
    add('Network.required', required, (0, 1, 4), (2016, 2017, 4032, 4033), (600, 2000))
    add('Network.required.daa', required, (2, 3), (504_032, 504_033, 504_050), (600, 2000))
    add('Network.median', lambda b, E, i, h: (lambda hs: hs.median_time_past(hs.longest_chain(), h))(E.network(i)), (0, 1), (20, 21, 2020))
    return out


def ref_string(i):
    '''Extended key strings: private and public, of two seeds.'''
    data = ref.hmac512(b'Bitcoin seed', SEEDS[i // 2])
    k, c = int.from_bytes(data[:32], 'big'), data[32:]
    if i % 2:
        return ref.b58c_encode(bytes.fromhex('0488b21e') + bytes(9) + c + ref.ser_point(ref.ec_mul(k), True))
    return ref.b58c_encode(bytes.fromhex('0488ade4') + bytes(9) + c + b'\0' + k.to_bytes(32, 'big'))


def calls_of(name, limit=MAX_CALLS):
    '''The calls of a function: all combinations if few, else the first values and every other of one or two arguments.'''
    _fn, domains = functions()[name]
    every = list(itertools.product(*(range(len(d)) for d in domains)))
    if len(every) > limit:
        every.sort(key=lambda c: (sum(x > 0 for x in c), sum(c)))
        every = every[:limit]
    return [(name, c) for c in every]


# --- Playing ----------------------------------------------------------------------------------------

def in_child(fn):
    '''What fn returns in a fresh copy of this process.'''
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        pid = None
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    true(status == 0 and data, 'the calls could be made')
    return pickle.loads(data)


def perform(b, env, table, call):
    name, which = call
    fn, domains = table[name]
    args = [d[i] for d, i in zip(domains, which)]
    entropy.reset()
    try:
        return canon(fn(b, env, *args))
    except Exception as e:
        return ('raised', type(e).__name__, re.sub('0x[0-9a-f]{9,}', '0x', str(e)))


def play(calls, hold):
    '''The results of a sequence of calls in a fresh process.'''
    def body():
        import bitcoinx as b
        env, table = Env(b, hold), functions()
        return [perform(b, env, table, call) for call in calls]
    return in_child(body)


ALONE = {}


def alone(call):
    '''What a call gives when nothing was called before.'''
    if call not in ALONE:
        ALONE[call] = play([call], True)[0]
    return ALONE[call]


def history(calls, hold):
    calls = [(name, tuple(which)) for name, which in calls]
    got = play(calls, hold)
    for n, (call, one) in enumerate(zip(calls, got)):
        want = alone(call)
        if one != want:
            # The shortest history that shows it
            for short in [calls[n:n + 1], *([c, call] for c in dict.fromkeys(reversed(calls[:n])))]:
                if play(short, hold)[-1] != want:
                    raise Mismatch(f'{short[-1]} after {short[:-1]}: got {show(one)}, alone it gives {show(want)}')
            raise Mismatch(f'{call} after {n} calls: got {show(one)}, alone it gives {show(want)}')
    return {'held' if hold else 'fresh': len(calls), 'states': len(calls), 'transitions': len(calls) - 1, 'traces': 1}


def across(calls, hold):
    label = history(calls, hold)
    label['across'] = label.pop('held' if hold else 'fresh')
    return label


def de_bruijn(k, n):
    '''A cyclic sequence over range(k) with every n-tuple.'''
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    if k == 1:
        return [0] * (n + 1)
    db(1, 1)
    return out + out[:n - 1]


CROSS_PARTS = 16
CHUNK = 400
SLOW = ('BIP39.to_seed', 'Electrum.is_new', 'Electrum.generate', 'BIP39.generate', 'Network.required', 'Network.required.daa', 'Network.median')


def spread(calls, n):
    '''The first, the last and others between.'''
    if len(calls) <= n:
        return calls
    return [calls[i * (len(calls) - 1) // (n - 1)] for i in range(n)] if n > 1 else calls[:1]


def slow(name):
    return name in SLOW or name.startswith(('hd.', 'xpub.'))


def group(name):
    return name.split('.')[0]


def alphabet(which, hold, deep):
    '''The calls of a walk across functions: of all of them, or of one group.'''
    if which == 'all':
        many = (3 if hold else 2) if deep else (2 if hold else 1)
        chosen = [spread(calls_of(name, 3 if name in SLOW else MAX_CALLS), min(many, 2) if slow(name) else many) for name in functions()]
    else:
        many = 12 if deep else 6
        chosen = [spread(calls_of(name), (3 if deep else 2) if slow(name) else many) for name in functions() if group(name) == which]
    return [c for cs in chosen for c in cs]


def tasks(tier):
    deep = tier != 'quick'
    names = list(functions())
    out = [('cross', 'all', k, CROSS_PARTS, hold, deep) for k in range(CROSS_PARTS) for hold in (True, False)]
    for which in dict.fromkeys(map(group, names)):
        parts = max(1, len(alphabet(which, True, deep)) // 25)
        out += [('cross', which, k, parts, hold, deep) for k in range(parts) for hold in (True, False)]
    # Those with slow calls first
    names.sort(key=lambda n: not n.startswith(('BIP39', 'Electrum', 'Network', 'PrivateKey', 'PublicKey', 'hd', 'xpub')))
    return out + [('within', names[k::48], deep) for k in range(48)]


def run(task, res):
    if task[0] == 'within':
        for name in task[1]:
            calls = calls_of(name, 12 if slow(name) and not name.startswith('Network') else MAX_CALLS)
            for hold in (True, False):
                res.case(history, [calls[i] for i in de_bruijn(len(calls), 2)], hold, seconds=120)
            if task[2]:
                calls = calls[:6 if slow(name) else 10]
                for hold in (True, False):
                    res.case(history, [calls[i] for i in de_bruijn(len(calls), 3)], hold, seconds=300)
    else:
        _, which, k, parts, hold, deep = task
        calls = alphabet(which, hold, deep)
        walk = de_bruijn(len(calls), 2)
        size = -(-len(walk) // parts)
        part = walk[k * size:(k + 1) * size + 1]
        for n in range(0, len(part), CHUNK):
            res.case(across, [calls[i] for i in part[n:n + CHUNK + 1]], hold, seconds=120)
