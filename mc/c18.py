'''C18: key arithmetic is the group arithmetic of secp256k1, and never changes its operands.'''

import functools
import itertools

from . import ref
from .common import eq, true, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Every pair of a boundary set of secrets (range limits, single bytes, keys whose x or y has '
        'leading zeros, sums to zero and to one) is added and multiplied as private keys and as '
        'points, in both serializations; every multiset of up to n points and their negatives is '
        'combined; every encoding of boundary coordinates with every prefix and length is parsed; '
        'shared secrets are computed from both sides; all against a reference implementation, with '
        'the operands looked at again afterwards.  Every sequence of up to 4 operations on one key '
        'is compared with the same on integers.  Non-trivial: all.')
EXPECT = ('sum', 'product', 'no result', 'combined', 'parsed', 'refused', 'shared', 'sequence')

N = ref.N


@functools.lru_cache(None)
def point(secret):
    return ref.ec_mul(secret % N)


@functools.lru_cache(None)
def special():
    '''Small secrets whose public key has leading zeros in x, in y, and both parities.'''
    out, want = [], {'x', 'y'}
    k, pt = 1, ref.G
    while want:
        for name, c in (('x', pt[0]), ('y', pt[1])):
            if name in want and c < 1 << 248:
                want.discard(name)
                out.append(k)
        k += 1
        pt = ref.ec_add(pt, ref.G)
    return out


@functools.lru_cache(None)
def secrets():
    return [1, 2, 3, 0xff, 1 << 128, 1 << 248, 1 << 255, N // 2, N // 2 + 1, N - 3, N - 2, N - 1,
            int('0123456789abcdef' * 4, 16)] + special()


OUTSIDE = (0, N, N + 1, (1 << 256) - 1)


@functools.lru_cache(None)
def small_coordinates():
    '''Points with an x or a y so small that adding the field size to it fits 32 bytes.'''
    P = ref.P
    out = []
    for x in range(12):
        for odd in (0, 1):
            pt = ref.lift_x(x, odd)
            if pt is not None:
                out.append(pt)
    # x**3 = y**2 - 7: of three cube roots, one is a power, the others are it times a root of unity
    for y in range(1, 40):
        c = (y * y - 7) % P
        if pow(c, (P - 1) // 3, P) == 1:
            x = cube_root(c)
            out.append((x, y))
    return out


def cube_root(c):
    '''A cube root modulo the field size P, which is 7 modulo 9.'''
    P = ref.P
    x = pow(c, (P + 2) // 9, P)
    assert pow(x, 3, P) == c
    return x


def tasks(tier):
    n = len(secrets())
    out = [('pairs', k) for k in range(n)]
    out += [('many', k) for k in range(4)]
    out += [('crowd', n) for n in (41, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000)]
    out += [('message', k) for k in range(4)]
    out += [('combine', 3 if tier == 'quick' else 4, k) for k in range(len(POOL))]
    out += [('parse', k) for k in range(12)] + [('lengths',), ('types',), ('coords',)]
    out += [('shared', k) for k in range(0, n, 2)]
    out += [('sequence', k, 3 if tier == 'quick' else 4) for k in range(len(MOVES))]
    return out


POOL = (1, N - 1, 2, N - 2, 3, N - 3, 0)     # 0 stands for the special one


def run(task, res):
    kind = task[0]
    if kind == 'pairs':
        a = secrets()[task[1]]
        for b in secrets() + list(OUTSIDE) + [N - a, N - a + 1, pow(a, -1, N), N - pow(a, -1, N)]:
            for compressed in (True, False):
                res.case(arithmetic, a, b, compressed)
    elif kind == 'many':
        for n in range(1, 41):
            res.case(combine, tuple(i % len(POOL) for i in range(task[1], task[1] + n)))
            res.case(combine, (task[1],) * n)
    elif kind == 'crowd':
        n = task[1]
        res.case(combine, tuple(i * i % len(POOL) for i in range(n)))
        res.case(combine, tuple(i % 2 for i in range(n)))
    elif kind == 'message':
        for n in range(task[1], 300, 4):
            res.case(message, n)
        for n in (1000, 4096, 65_536, 65_537):
            res.case(message, n + task[1])
    elif kind == 'combine':
        for n in range(task[1]):
            for rest in itertools.product(range(len(POOL)), repeat=n):
                res.case(combine, (task[2],) + rest)
    elif kind == 'parse':
        for k in range(task[1], len(xs()), 12):
            for prefix in range(256):
                res.case(parse, bytes([prefix]) + xs()[k].to_bytes(32, 'big'))
    elif kind == 'coords':
        for s in secrets():
            x, y = point(s)
            for prefix in range(0, 10):
                for yy in (y, ref.P - y, y ^ 1, 0, ref.P, (y + ref.P) % (1 << 256)):
                    res.case(parse, bytes([prefix]) + x.to_bytes(32, 'big') + yy.to_bytes(32, 'big'))
            for yy in (y, ref.P - y, y ^ 1, y + 1, 0, ref.P, x):
                res.case(from_point, x, yy)
            res.case(from_point, x ^ 1, y)
            res.case(from_point, y, x)
            for k in range(0, 256, 8):
                res.case(from_point, x ^ 1 << k, y)
        for x, y in small_coordinates():
            for dx, dy in itertools.product((0, ref.P), repeat=2):
                res.case(from_point, x + dx, y + dy)
                if x + dx < 1 << 256 and y + dy < 1 << 256:
                    for prefix in (4, 6, 7):
                        res.case(parse, bytes([prefix]) + b32(x + dx) + b32(y + dy))
        for x, y in ((0, 0), (0, 1), (1, 1), (ref.P, 0), (ref.P + 1, 5), (1 << 256, 1), (1, 1 << 256),
                     (-1, 1), (1, -1)):
            res.case(from_point, x, y)
    elif kind == 'lengths':
        good = ref.ser_point(point(3), False)
        for n in range(0, 100):
            for prefix in (2, 3, 4, 6, 7):
                res.case(parse, (bytes([prefix]) + good[1:] + good)[:n])
        # Damaged encodings of points: bytes left out, repeated or put in at every place, other
        # orders of their parts
        for s, compressed in itertools.product((3, N - 7), (True, False)):
            data = ref.ser_point(point(s), compressed)
            for i in range(len(data)):
                for more in (b'', data[i:i + 1] * 2, b'\0' + data[i:i + 1]):
                    res.case(parse, data[:i] + more + data[i + 1:])
                res.case(parse, data[:i])
                res.case(parse, data[i:])
            x, y = data[1:33], data[33:]
            for parts in itertools.product((b'', data[:1], x, y, b'\2', b'\4', b'\0'), repeat=3):
                res.case(parse, b''.join(parts))
    elif kind == 'shared':
        for a in secrets()[task[1]:task[1] + 2]:
            for b in secrets():
                res.case(ecdh, a, b)
            for b in secrets()[::3]:
                for d in (1, 2, N - 1, N - a, N - b, 0, N, 1 << 255):
                    res.case(shared, a, b, d)
    elif kind == 'sequence':
        for n in range(task[2]):
            for rest in itertools.product(range(len(MOVES)), repeat=n):
                res.case(sequence, (task[1],) + rest)
    else:
        res.case(types)


def b32(v):
    return v.to_bytes(32, 'big')


def check_private(k, want, compressed, coin, what):
    if want == 0:
        eq(k, ('exc', 'ValueError'), what)
        return
    true(k[0] == 'ok', f'{what}: {k}')
    k = k[1]
    eq(k.to_int(), want, what)
    true(k.is_compressed() is compressed and k.coin() is coin, f'{what}: attributes')
    eq(k.public_key.to_bytes(), ref.ser_point(point(want), compressed), f'{what}: public key')


def check_public(k, want, compressed, coin, what):
    if want == 0:
        eq(k, ('exc', 'ValueError'), what)
        return
    true(k[0] == 'ok', f'{what}: {k}')
    k, pt = k[1], point(want)
    eq(k.to_bytes(), ref.ser_point(pt, compressed), what)
    eq(k.to_bytes(compressed=True), ref.ser_point(pt), what)
    eq(k.to_bytes(compressed=False), ref.ser_point(pt, False), what)
    eq(k.to_point(), pt, f'{what}: point')
    true(k.is_compressed() is compressed and k.coin() is coin, f'{what}: attributes')


def arithmetic(a, b, compressed):
    from bitcoinx import PrivateKey, BitcoinTestnet as coin
    priv = PrivateKey(b32(a), compressed, coin)
    pub = priv.public_key
    inside = 0 < b < N
    total = (a + b) % N if b < N else 0
    product = a * b % N if inside else 0
    where = f'{a:x} and {b:x}'
    check_private(outcome(priv.add, b32(b)), total, compressed, coin, f'private sum of {where}')
    check_public(outcome(pub.add, b32(b)), total, compressed, coin, f'public sum of {where}')
    check_private(outcome(priv.multiply, b32(b)), product, compressed, coin,
                  f'private product of {where}')
    check_public(outcome(pub.multiply, b32(b)), product, compressed, coin,
                 f'public product of {where}')
    # The operands are as they were
    check_private(('ok', priv), a, compressed, coin, 'private operand')
    check_public(('ok', pub), a, compressed, coin, 'public operand')
    other = pub.complement()
    check_public(('ok', other), a, not compressed, coin, 'complement')
    check_public(('ok', other.complement()), a, compressed, coin, 'complement twice')
    true(other == pub and hash(other) == hash(pub), 'equal to its complement')
    true(pub.hash160() == ref.hash160(pub.to_bytes()), 'hash160')
    for c in (True, False):
        eq(pub.hash160(compressed=c), ref.hash160(ref.ser_point(point(a), c)), 'hash160')
        eq(pub.to_address(compressed=c).hash160(), ref.hash160(ref.ser_point(point(a), c)),
           'address')
    true(pub.to_address().coin() is coin, 'network of the address')
    true((pub == PrivateKey(b32(b)).public_key) == (a == b) if inside else True, 'equality')
    return 'sum' if total else 'product' if product else 'no result'


def combine(which):
    from bitcoinx import PrivateKey, PublicKey, BitcoinTestnet, Bitcoin
    values = [POOL[k] or special()[0] for k in which]
    keys = []
    for i, v in enumerate(values):
        k = PrivateKey(b32(v), i % 2 == len(values) % 2,
                       (BitcoinTestnet, Bitcoin)[(i + len(values)) % 2])
        keys.append(k.public_key)
    first = keys[0]
    want = sum(values) % N
    args = list(keys)
    got = outcome(PublicKey.combine_keys, args)
    check_public(got, want, first.is_compressed(), first.coin(), f'combination of {values}')
    true(len(args) == len(keys) and all(a is b for a, b in zip(args, keys)), 'the list given')
    for k, v in zip(keys, values):
        check_public(('ok', k), v, k.is_compressed(), k.coin(), 'operand of combine')
    return 'combined' if want else 'no result'


@functools.lru_cache(None)
def xs():
    near = [0, 1, 2, 3, 5, 6, ref.P - 1, ref.P - 2, ref.P - 3, ref.P, ref.P + 1, ref.P + 2, N,
            (1 << 256) - 1, 1 << 255]
    return near + [point(s)[0] for s in secrets()]


def parse(data):
    from bitcoinx import PublicKey
    want = ref.parse_point(data)
    label = 'parsed'
    for fn, arg in ((PublicKey.from_bytes, data), (PublicKey.from_hex, data.hex()),
                    (PublicKey.from_hex, data.hex().upper())):
        got = outcome(fn, arg)
        if want is None:
            eq(got, ('exc', 'ValueError'), f'key {data.hex()}')
            label = 'refused'
            continue
        true(got[0] == 'ok', f'key {data.hex()} refused')
        k = got[1]
        eq(k.to_point(), want, f'key {data.hex()}')
        true(k.is_compressed() == (len(data) == 33), f'compression of {data.hex()}')
        eq(k.to_bytes(), ref.ser_point(want, len(data) == 33), 'bytes again')
        eq(k.to_hex(), k.to_bytes().hex(), 'hex')
        for form in (True, False, None):
            eq(k.to_hex(compressed=form), k.to_bytes(compressed=form).hex(), 'hex of a form')
            eq(bytes.fromhex(k.to_hex(compressed=form)), ref.ser_point(want, len(data) == 33 if form is None else form), 'hex of a form')
        eq(str(k), k.to_hex(), 'str')
    return label


def from_point(x, y):
    from bitcoinx import PublicKey
    good = 0 <= x < 1 << 256 and 0 <= y < 1 << 256 and ref.on_curve((x, y))
    got = outcome(PublicKey.from_point, x, y)
    if not good:
        true(got in (('exc', 'ValueError'), ('exc', 'OverflowError')), f'point {x:x} {y:x}: {got}')
        return 'refused'
    eq(got[1].to_point(), (x, y), 'point')
    return 'parsed'


def ecdh(a, b):
    from bitcoinx import PrivateKey
    want = point(a * b % N)
    for ka, kb in parties(a, b):
        for one, two in ((ka, kb), (kb, ka)):
            for _ in range(2):
                eq(one.ecdh_shared_secret(two.public_key).to_point(), want,
                   f'ECDH of {a:x} and {b:x}')
        as_were(ka, kb, a, b)
    return 'shared'


def parties(a, b):
    '''Both keys in each pair of serializations; with their networks.'''
    from bitcoinx import PrivateKey, Bitcoin, BitcoinTestnet
    for ca, cb in itertools.product((True, False), repeat=2):
        yield PrivateKey(b32(a), ca, BitcoinTestnet), PrivateKey(b32(b), cb, Bitcoin)


def as_were(ka, kb, a, b):
    from bitcoinx import Bitcoin, BitcoinTestnet
    for k, v, coin in ((ka, a, BitcoinTestnet), (kb, b, Bitcoin)):
        c = k.is_compressed()
        check_private(('ok', k), v, c, coin, 'private key afterwards')
        check_public(('ok', k.public_key), v, c, coin, 'public key afterwards')


def shared(a, b, d):
    '''Both parties reach the same secret; the message hash is the deterministic key.'''
    from bitcoinx import sha256
    want = (a + d) * (b + d) % N if d < N else 0
    m = b32(d)
    h = int.from_bytes(ref.sha256(m), 'big')
    hashed = point((a + h) * (b + h) % N)
    for ka, kb in parties(a, b):
        for one, two in ((ka, kb), (kb, ka)) * 2:
            got = outcome(one.shared_secret, two.public_key, m, None)
            if want == 0:
                eq(got, ('exc', 'ValueError'), f'shared secret of {a:x}, {b:x}, {d:x}')
            else:
                eq(got[1].to_point(), point(want), f'shared secret of {a:x}, {b:x}, {d:x}')
        eq(ka.shared_secret(kb.public_key, m).to_point(), hashed, 'shared secret of a message')
        eq(kb.shared_secret(ka.public_key, m, sha256).to_point(), hashed,
           'shared secret of a message')
        as_were(ka, kb, a, b)
    return 'shared' if want else 'no result'


def message(n):
    '''A message of any length; hashed with the default, or with another function.'''
    from bitcoinx import PrivateKey, sha512
    a, b = secrets()[3], secrets()[-1]
    ka, kb = PrivateKey(b32(a)), PrivateKey(b32(b), False)
    m = bytes((7 * i + n) & 255 for i in range(n))
    h = int.from_bytes(ref.sha256(m), 'big')
    for one, two in ((ka, kb), (kb, ka)):
        eq(one.shared_secret(two.public_key, m).to_point(), point((a + h) * (b + h) % N),
           f'shared secret of {n} bytes')
        h2 = int.from_bytes(m[-32:].rjust(32, b'\1')[1:], 'big')
        eq(one.shared_secret(two.public_key, m, lambda x: b'\0' + x[-32:].rjust(32, b'\1')[1:]).to_point(),
           point((a + h2) * (b + h2) % N), f'shared secret of {n} bytes, another hash')
    return 'shared'


MOVES = ('add 1', 'add n-1', 'add own', 'mul 2', 'mul n-1', 'mul own', 'combine self',
         'combine G', 'complement', 'reread', 'add -own', 'mul 0', 'peek complement', 'peek all')


def sequence(moves):
    '''A private key, its public key and an integer go through the same operations; intermediate
    results must stay as they were.'''
    from bitcoinx import PrivateKey, PublicKey, Bitcoin, BitcoinTestnet
    value = special()[0]
    coin, pcoin, compressed = BitcoinTestnet, BitcoinTestnet, False
    priv = PrivateKey(b32(value), compressed, coin)
    pub, shape = priv.public_key, compressed
    history = [(priv, pub, value, coin, compressed, pcoin, shape)]
    for m in moves:
        m = MOVES[m]
        op, _, arg = m.partition(' ')
        if op in ('add', 'mul'):
            v = {'1': 1, '2': 2, 'n-1': N - 1, 'own': value, '-own': N - value, '0': 0}[arg]
            name = 'add' if op == 'add' else 'multiply'
            new = (value + v if op == 'add' else value * v) % N
            p, q = outcome(getattr(priv, name), b32(v)), outcome(getattr(pub, name), b32(v))
            if new == 0:
                eq((p, q), (('exc', 'ValueError'),) * 2, m)
            else:
                priv, pub, value = p[1], q[1], new
        elif m == 'combine self':
            new = 2 * value % N
            priv, pub, value = priv.multiply(b32(2)), PublicKey.combine_keys([pub, pub]), new
        elif m == 'combine G':
            if value != N - 1:
                one = PrivateKey(b32(1)).public_key
                priv, pub, value = priv.add(b32(1)), PublicKey.combine_keys([pub, one]), value + 1
            else:
                continue
        elif m == 'complement':
            pub, shape = pub.complement(), not shape
        elif m == 'peek complement':
            # Another key is made of this one, which goes on
            pub.complement()
            priv.public_key.complement()
        elif m == 'peek all':
            peek(priv, pub)
        else:
            priv, coin, compressed = PrivateKey(priv.to_bytes()), Bitcoin, True
            pub, pcoin = PublicKey.from_bytes(pub.to_bytes()), Bitcoin
        history.append((priv, pub, value, coin, compressed, pcoin, shape))
    for p, q, v, c1, s1, c2, s2 in history:
        check_private(('ok', p), v, s1, c1, f'private key after {moves}')
        check_public(('ok', q), v, s2, c2, f'public key after {moves}')
        check_public(('ok', p.public_key), v, s1, c1,
                     f'public key of the private key after {moves}')
    return 'sequence'


def peek(priv, pub):
    '''Everything that can be asked of the keys, its answer thrown away.'''
    from bitcoinx import PublicKey
    one = b32(1)
    for k in (priv, pub, priv.public_key):
        outcome(k.add, one)
        outcome(k.multiply, one)
        hash(k), str(k), k == pub
        for c in (True, False):
            if k is priv:
                k.to_WIF(compressed=c)
            else:
                k.to_bytes(compressed=c), k.to_address(compressed=c), k.hash160(compressed=c)
    outcome(PublicKey.combine_keys, [priv.public_key, pub])
    priv.ecdh_shared_secret(pub), priv.shared_secret(pub, b'peek')
    pub.P2PK_script(), pub.P2PKH_script(), pub.to_point(), priv.to_hex(), priv.to_int()
    sig = priv.sign_message(b'peek')
    pub.verify_message(sig, b'peek')
    PublicKey.from_signed_message(sig, b'peek')


def types():
    from bitcoinx import PrivateKey, PublicKey
    k = PrivateKey(b32(5))
    for bad in (None, 1, '1' * 32, bytearray(32), [1] * 32):
        for fn in (k.add, k.multiply, k.public_key.add, k.public_key.multiply):
            eq(outcome(fn, bad), ('exc', 'TypeError'), f'operand {bad!r}')
    for n in (0, 1, 31, 33, 64):
        for fn in (k.add, k.multiply, k.public_key.add, k.public_key.multiply):
            eq(outcome(fn, b'\1' * n), ('exc', 'ValueError'), f'operand of {n} bytes')
    eq(outcome(PublicKey.combine_keys, []), ('exc', 'ValueError'), 'combination of nothing')
    for bad in (None, 1, b'\2' * 33, 'x'):
        eq(outcome(PublicKey, bad, True), ('exc', 'TypeError'), f'public key {bad!r}')
    return 'refused'
