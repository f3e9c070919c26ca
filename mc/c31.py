'''C31: a private key shows its secret only when asked to.'''

import base64
import io
import itertools
import logging
import pprint
import reprlib
import sys
import traceback
import warnings

from . import ref
from .common import true, Mismatch, hmac_seam, entropy

LEVEL = 'exploration'
RULE = ('Every sequence of up to two (thorough: three) operations on a key, for private keys and '
        'extended private keys of boundary secrets; then every way Python turns the key, the keys '
        'made from it and containers of them into text, the text of every error its operations '
        'raise (and of the errors behind it), what was printed, logged or warned of, and every public '
        'value made from it, is searched for the secret in each notation: hexadecimal of either '
        'order, decimal, bytes, base 58, base 64, WIF of each network, extended key, and any twelve '
        'consecutive digits.  Non-trivial: all.')
EXPECT = ('rendered', 'error', 'public', 'constructor')
N = ref.N


def b32(n):
    return n.to_bytes(32, 'big')


RICH = [int.from_bytes(ref.sha256(b'secret %d' % i), 'big') for i in range(4)]
SECRETS = (RICH[0], RICH[1] >> 17, N - RICH[2] % (1 << 200), 1, N - 1, 2, RICH[3] & ~0xffffff)
KINDS = ('plain', 'uncompressed', 'testnet', 'wif', 'hd', 'hd child', 'hd master', 'hd last')


def tasks(tier):
    deep = 0 if tier == 'quick' else 1
    out = [('use', kind, s, (2 if s in (0, 2, 3) else 1) + deep) for kind in KINDS for s in range(len(SECRETS))]
    out += [('fail', kind, s) for kind in KINDS for s in range(len(SECRETS))]
    return out + [('make', k) for k in range(4)]


def run(task, res):
    if task[0] == 'use':
        for n in range(task[3] + 1):
            for ops in itertools.product(range(len(OPS)), repeat=n):
                res.case(use, task[1], task[2], ops)
    elif task[0] == 'fail':
        for i in range(len(FAILURES)):
            for before in ((), (0,), (3,), (8,)):
                res.case(fail, task[1], task[2], before, i)
    else:
        for i in range(len(MAKERS)):
            for j in range(task[1], len(OUT_OF_RANGE), 4):
                res.case(make, i, j)


# --- Keys and what gives them away -------------------------------------------------------------

def coins():
    import bitcoinx
    return bitcoinx.all_coins


def key_of(kind, which):
    from bitcoinx import PrivateKey, BitcoinTestnet, Bitcoin, bip32_key_from_string
    secret = b32(SECRETS[which])
    if kind == 'plain':
        return PrivateKey(secret)
    if kind == 'uncompressed':
        return PrivateKey(secret, False, Bitcoin)
    if kind == 'testnet':
        return PrivateKey(secret, True, BitcoinTestnet)
    if kind == 'wif':
        return PrivateKey.from_WIF(ref.b58c_encode(b'\xef' + secret + b'\1'))
    place = {'hd master': bytes(9), 'hd last': b'\xff' + b'abcd' + bytes([0, 0, 0, 7])}
    raw = (Bitcoin.xprv_verbytes + place.get(kind, bytes([3]) + b'abcd' + bytes([0x80, 0, 0, 7]))
           + ref.sha256(b'chain code') + b'\0' + secret)
    key = bip32_key_from_string(ref.b58c_encode(raw))
    return key.child(1 << 31) if kind == 'hd child' else key


def tokens(secret):
    '''What gives the secret away, in lower case where letters have no case.'''
    v = int.from_bytes(secret, 'big')
    exact = {repr(secret)[2:-1], ', '.join(map(str, secret)),
             base64.b64encode(secret).decode().rstrip('='), base64.b64encode(secret[:30]).decode(),
             base64.urlsafe_b64encode(secret).decode().rstrip('='), ref.b58_encode(secret)}
    for coin in coins():
        for tail in (b'', b'\1'):
            exact.add(ref.b58c_encode(bytes([coin.WIF_byte]) + secret + tail))
    folded = {secret.hex(), secret[::-1].hex()}
    if v >> 64:
        folded |= {str(v), f'{v:x}', f'{v:o}', f'{v:b}', str(v)[:15], str(v)[-15:]}
    digits = secret.hex()
    for i in range(len(digits) - 11):
        part = digits[i: i + 12]
        if len(set(part)) > 4:
            folded.add(part)
    return exact, folded


class Watch:
    '''Looks for the secrets of some keys in text and bytes.'''

    def __init__(self, *keys):
        self.secrets = []
        self.exact, self.folded = set(), set()
        for key in keys:
            self.add(key)

    def add(self, key):
        secret = key.to_bytes()
        self.secrets.append(secret)
        exact, folded = tokens(secret)
        self.exact |= exact
        self.folded |= folded
        if hasattr(key, 'to_extended_key_string'):
            self.exact.add(key.to_extended_key_string())

    def text(self, text, what):
        low = text.lower()
        for t in self.exact:
            if t in text:
                raise Mismatch(f'{what} gives the secret away: {text[:200]}')
        for t in self.folded:
            if t in low:
                raise Mismatch(f'{what} gives the secret away: {text[:200]}')

    def value(self, value, what):
        if isinstance(value, str):
            self.text(value, what)
        elif isinstance(value, (bytes, bytearray)):
            for s in self.secrets:
                true(s not in value and s[::-1] not in value, f'{what} contains the secret')
            self.text(value.hex(), what)

    def error(self, e, what):
        seen = set()
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            self.text(str(e), f'{what}: error text')
            self.text(repr(e), f'{what}: error repr')
            for arg in e.args:
                self.value(arg, f'{what}: error argument')
                self.text(repr(arg), f'{what}: error argument')
            self.text(''.join(traceback.format_exception_only(type(e), e)), f'{what}: error')
            e = e.__cause__ or e.__context__


RENDER = (
    ('str', str), ('repr', repr), ('ascii', ascii), ('format', format), ('f-string', lambda k: f'{k}'),
    ('f-string repr', lambda k: f'{k!r}'), ('% str', lambda k: '%s' % (k,)), ('% repr', lambda k: '%r' % (k,)),
    ('str.format', '{}'.format), ('format map', lambda k: '{k}'.format_map({'k': k})),
    ('list', lambda k: str([k])), ('tuple', lambda k: str((k, 1))), ('dict', lambda k: str({1: k})),
    ('dict key', lambda k: repr({k: 1})), ('set', lambda k: repr({k})), ('pprint', pprint.pformat),
    ('reprlib', reprlib.repr), ('print', lambda k: print(k)), ('print error', lambda k: print([k], file=sys.stderr)),
    ('log', lambda k: logging.getLogger('x').info('key %s %r', k, k)),
    ('warn', lambda k: warnings.warn(f'{k}')),
    ('error', lambda k: repr(ValueError(k)) + str(ValueError(k)) + str(KeyError(k))),
)


def no_format(k):
    return format(k, '>80')


class Captured:
    '''What is printed, logged and warned of meanwhile.'''

    def __enter__(self):
        self.io = io.StringIO()
        self.old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.io
        self.handler = logging.StreamHandler(self.io)
        self.root = logging.getLogger()
        self.level = self.root.level
        self.root.setLevel(1)
        self.root.addHandler(self.handler)
        self.show = warnings.showwarning
        warnings.showwarning = lambda message, *args, **kw: self.io.write(f'{message!r} {message}')
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self.old
        self.root.removeHandler(self.handler)
        self.root.setLevel(self.level)
        warnings.showwarning = self.show

    def text(self):
        return self.io.getvalue()


# --- Operations --------------------------------------------------------------------------------

def other():
    from bitcoinx import PrivateKey
    return PrivateKey(b32(RICH[3] >> 3))


def decrypted(k):
    k.decrypt_message(k.public_key.encrypt_message(b'hello'))


def children(k):
    # A child past depth 255 has no text (C22 covers those)
    if hasattr(k, 'child') and k.derivation().depth < 255:
        return [k.child(5), k.child((1 << 31) + 5)]
    return None


OPS = (
    ('public_key', lambda k: k.public_key), ('to_hex', lambda k: k.to_hex() and None),
    ('to_WIF', lambda k: k.to_WIF() and None), ('str', lambda k: str(k)), ('repr', repr),
    ('to_int', lambda k: k.to_int() and None), ('to_bytes', lambda k: k.to_bytes() and None),
    ('hash', lambda k: hash(k) and None), ('sign', lambda k: k.sign(b'message')),
    ('sign_message', lambda k: k.sign_message_to_base64('message')),
    ('recoverable', lambda k: k.sign_recoverable(b'message')), ('decrypt', decrypted),
    ('shared', lambda k: k.ecdh_shared_secret(other().public_key)),
    ('add', lambda k: k.add(b32(1 << 77))), ('multiply', lambda k: k.multiply(b32(77))),
    ('equal', lambda k: k == other()), ('address', lambda k: k.public_key.to_address()),
    ('children', children), ('xprv', lambda k: getattr(k, 'to_extended_key_string', str)() and None),
    ('fingerprint', lambda k: getattr(k, 'fingerprint', str)()),
    ('derivation', lambda k: getattr(k, 'derivation', str)()),
)


def publics(k):
    pub = k.public_key
    yield 'public key', pub
    yield 'public key bytes', pub.to_bytes()
    yield 'uncompressed', pub.to_bytes(compressed=False)
    yield 'address', pub.to_address().to_string()
    yield 'P2PK', pub.P2PK_script().to_bytes()
    yield 'signature', k.sign(b'abc')
    yield 'recoverable signature', k.sign_recoverable(b'abc')
    yield 'message signature', k.sign_message(b'abc')
    yield 'message signature', k.sign_message_to_base64(b'abc')
    yield 'encrypted', pub.encrypt_message(b'abc')
    if hasattr(pub, 'to_extended_key_string'):
        yield 'extended public key', pub.to_extended_key_string()
        yield 'derivation', k.derivation()
        yield 'fingerprint', k.fingerprint()
        if k.derivation().depth < 255:
            yield 'public child', pub.child(3)


def look(watch, value, what):
    from bitcoinx import PrivateKey
    if isinstance(value, PrivateKey):
        watch.add(value)
    if isinstance(value, (list, tuple)):
        for v in value:
            look(watch, v, what)
    elif isinstance(value, (str, bytes, bytearray)):
        watch.value(value, what)
    elif value is not None:
        for name, render in RENDER:
            watch.value(render(value), f'{name} of {what}')
        try:
            watch.text(no_format(value), f'format of {what}')
        except TypeError:
            pass


def use(kind, which, ops):
    counts = {'rendered': 0, 'public': 0}
    entropy.reset(seed=which)
    key = key_of(kind, which)
    watch = Watch(key)
    with Captured() as captured, warnings.catch_warnings():
        warnings.simplefilter('always')
        for i in ops:
            name, op = OPS[i]
            look(watch, op(key), name)
        look(watch, key, 'the key')
        counts['rendered'] += len(RENDER)
        if len(ops) < 2:
            for name, value in publics(key):
                look(watch, value, name)
                counts['public'] += 1
    watch.text(captured.text(), 'what is printed, logged or warned of')
    return counts


# --- Errors ------------------------------------------------------------------------------------

def invalid_child(k, n=5):
    '''An HMAC whose left half is out of range or cancels the secret.'''
    for left in (N, (1 << 256) - 1, N - k.to_int()):
        hmac_seam.script = lambda key, msg, left=left: b32(left) + bytes(32)
        try:
            k.child(n)
        finally:
            hmac_seam.script = None


FAILURES = (
    lambda k: k.add(b32(N - k.to_int())), lambda k: k.add(b32(N)), lambda k: k.add(b''), lambda k: k.add(None),
    lambda k: k.add(k.to_bytes() + b'1'), lambda k: k.multiply(b32(0)), lambda k: k.multiply(b32(N)),
    lambda k: k.multiply(k.to_hex()), lambda k: k.sign(b'short', None), lambda k: k.sign(5),
    lambda k: k.sign(b'', lambda m: b'1'), lambda k: k.sign_message(b'a', None), lambda k: k.sign_message(5),
    lambda k: k.sign_recoverable(b'short', None), lambda k: k.decrypt_message(b''),
    lambda k: k.decrypt_message('?'), lambda k: k.decrypt_message(b'BIE1' + bytes(100)),
    lambda k: k.decrypt_message(b'BIE1' + k.public_key.to_bytes() + bytes(64)),
    lambda k: k.decrypt_message(k.public_key.encrypt_message(b'abc')[:-1] + b'\xee'),
    lambda k: k.shared_secret(other().public_key, b32(N - k.to_int()), None),
    lambda k: k.shared_secret(other().public_key, b'1', None), lambda k: k.ecdh_shared_secret(None),
    lambda k: k.ecdh_shared_secret(k), lambda k: k.to_WIF(coin=5), lambda k: k.to_WIF(1), lambda k: k < k,
    lambda k: k + k, lambda k: k + 1, lambda k: int(k), lambda k: float(k), lambda k: bytes(k), lambda k: len(k),
    lambda k: list(k), lambda k: k[0], lambda k: k(), lambda k: '%d' % k, lambda k: format(k, '032x'),
    lambda k: k.nothing, lambda k: {}[k], lambda k: [].index(k), lambda k: [].remove(k), lambda k: int(str(k)),
    lambda k: k.child(-1), lambda k: k.child(1 << 32), lambda k: k.child('0'), lambda k: k.child_safe(1 << 32),
    invalid_child, lambda k: invalid_child(k, 1 << 31), lambda k: type(k)(k.to_hex()), lambda k: type(k)(k.to_int()),
    lambda k: type(k)(k), lambda k: k.public_key.add(b32(N - k.to_int())), lambda k: k.public_key.multiply(b32(0)),
    lambda k: k.public_key.verify_message(b'', b''), lambda k: k.from_bytes(b''),
    lambda k: setattr(k, 'public_key', 5) or k.public_key.to_bytes(), lambda k: ''.join([k]), lambda k: sum([k]),
    lambda k: sorted([k, k]), lambda k: max(k, k), lambda k: k.public_key.combine_keys([k]),
    lambda k: k.public_key.encrypt_message(k), lambda k: k.public_key.verify_der_signature(k, b'abc'),
)


def fail(kind, which, before, i):
    key = key_of(kind, which)
    watch = Watch(key)
    with Captured() as captured, warnings.catch_warnings():
        warnings.simplefilter('always')
        for j in before:
            OPS[j][1](key)
        try:
            FAILURES[i](key)
        except Exception as e:
            watch.error(e, f'failure {i}')
        look(watch, key, 'the key after a failure')
    watch.text(captured.text(), 'what is printed, logged or warned of')
    return 'error'


# --- Constructors given what is not a secret, but nearly ----------------------------------------

OUT_OF_RANGE = (N + RICH[0] % (1 << 120), (1 << 256) - 1 - RICH[1] % (1 << 100), (1 << 256) + RICH[2],
                -RICH[0], RICH[0] << 8, N + RICH[3] % (1 << 90), (1 << 264) - RICH[1], -N)


def near(v):
    return abs(v).to_bytes(40, 'big').lstrip(b'\0')


MAKERS = (
    lambda b, v: b.PrivateKey(near(v)), lambda b, v: b.PrivateKey(bytearray(near(v))),
    lambda b, v: b.PrivateKey(near(v).hex()), lambda b, v: b.PrivateKey(v), lambda b, v: b.PrivateKey(list(near(v))),
    lambda b, v: b.PrivateKey.from_int(v), lambda b, v: b.PrivateKey.from_hex(near(v).hex()),
    lambda b, v: b.PrivateKey.from_hex(near(v).hex()[:-1]), lambda b, v: b.PrivateKey.from_hex(near(v).hex()[:-1] + 'g'),
    lambda b, v: b.PrivateKey.from_text(near(v).hex().rjust(64, 'g')[-64:]),
    lambda b, v: b.PrivateKey.from_WIF(ref.b58c_encode(b'\x80' + near(v))),
    lambda b, v: b.PrivateKey.from_WIF(ref.b58c_encode(b'\x80' + near(v) + b'\2')),
    lambda b, v: b.PrivateKey.from_minikey('S' + ref.b58_encode(near(v))[:29]),
    lambda b, v: b.BIP32PrivateKey(near(v), None, b.Bitcoin),
    lambda b, v: b.bip32_key_from_string(ref.b58c_encode(b.Bitcoin.xprv_verbytes + bytes(41) + b'\0' + near(v))),
    lambda b, v: b.bip32_key_from_string(ref.b58c_encode(b.Bitcoin.xprv_verbytes + bytes(41) + b'\0' + near(v)[:32].rjust(32, b'\xff'))),
)


def make(i, j):
    import bitcoinx
    v = OUT_OF_RANGE[j]
    watch = Watch()
    raw = near(v)
    for secret in {raw, raw.rjust(32, b'\0'), raw[-32:]}:
        exact, folded = tokens(secret)
        watch.secrets.append(secret)
        watch.exact |= exact
        watch.folded |= folded
    with Captured() as captured:
        try:
            key = MAKERS[i](bitcoinx, v)
            look(watch, key, 'the key made')
        except Exception as e:
            watch.error(e, f'maker {i}')
    watch.text(captured.text(), 'what is printed, logged or warned of')
    return 'constructor'
