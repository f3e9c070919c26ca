'''C22: BIP32 derivation follows the standard, privately and publicly alike.'''

import functools
import itertools

from . import ref
from .common import eq, true, outcome, entropy, hmac_seam, Mismatch

LEVEL = 'exploration'
RULE = ('Boundary parents (secrets, chain codes, depths, networks) times boundary indices, and every '
        'path of up to n steps over boundary indices, are derived privately and publicly and '
        'compared field by field with a reference; seeds of every length to 130 and chosen ones to 65536; and, with the HMAC '
        'scripted, every pattern of up to n consecutive invalid derivations (too large, cancelling '
        'the parent) at every boundary index, for single and safe derivation.  Non-trivial: all.')
EXPECT = ('child', 'path', 'refused', 'seed', 'skipped', 'none left', 'random')
ASSUMES = ('invalid derivations, of which none is known, are forced by scripting hmac.digest',)

N = ref.N
H = 1 << 31
SECRETS = (1, 2, N - 1, N // 2, (1 << 248) - 1, 1 << 8, int('0123456789abcdef' * 4, 16))
CODES = (bytes(32), b'\xff' * 32, bytes(range(32)))
INDICES = (0, 1, 2, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, H - 2, H - 1, H, H + 1, H + 0xff,
           H + 0x10000, 2 * H - 2, 2 * H - 1)
COINS = ('Bitcoin', 'BitcoinTestnet')


def tasks(tier):
    out = [('children', k) for k in range(len(SECRETS))]
    out += [('paths', k, 3 if tier == 'quick' else 4) for k in range(len(STEPS))]
    out += [('seeds', lo) for lo in range(8)] + [('invalid', k) for k in range(len(KINDS))]
    out += [('random',), ('order',)]
    out += [('safe', k, 3 if tier == 'quick' else 5) for k in range(len(STARTS))]
    return out


STEPS = (0, 1, H - 1, H, H + 1, 2 * H - 1)


def run(task, res):
    kind = task[0]
    if kind == 'children':
        s = SECRETS[task[1]]
        for c in range(len(CODES)):
            for depth in (0, 1, 127, 254):
                for n in INDICES:
                    res.case(child, s, c, depth, n)
            for n in INDICES:
                for depth in (255, 256):
                    res.case(too_deep, s, c, depth, n)
        for n in (-1, -H, 2 * H, 2 * H + 1, 1 << 40):
            res.case(bad_index, s, n)
    elif kind == 'paths':
        for k in range(task[2]):
            for rest in itertools.product(STEPS, repeat=k):
                res.case(path, (STEPS[task[1]],) + rest)
    elif kind == 'seeds':
        for n in [*range(task[1], 131, 8), 200 + task[1], 248 + task[1], 256 + task[1], 504 + task[1], 512 + task[1],
                  1000 + task[1], 1024 + task[1], 65_536 + task[1]]:
            for fill in (0, 0xff, None):
                data = bytes(i & 255 for i in range(n)) if fill is None else bytes([fill]) * n
                for coin in COINS:
                    res.case(seed, data, coin)
    elif kind == 'invalid':
        for n in INDICES:
            for s in SECRETS:
                res.case(invalid, s, n, task[1])
        for s in SECRETS[:2]:
            res.case(bad_seed, task[1])
    elif kind == 'safe':
        for k in range(task[2] + 1):
            for pattern in itertools.product(range(len(KINDS)), repeat=k):
                for private in (True, False):
                    res.case(safe, STARTS[task[1]], pattern, private)
    elif kind == 'order':
        # deriving does not depend on what was derived before
        for which in itertools.permutations(range(4)):
            res.case(order, which)
    else:
        answers = (0, N, (1 << 256) - 1, 1, N - 1)
        for k in range(1, 4):
            for seq in itertools.product(range(len(answers)), repeat=k):
                if 0 < answers[seq[-1]] < N:
                    res.case(random, [answers[j] for j in seq])


def b32(v):
    return v.to_bytes(32, 'big')


@functools.lru_cache(None)
def pubkey(secret):
    return ref.ser_point(ref.ec_mul(secret))


@functools.lru_cache(100000)
def ckd(secret, code, n):
    '''(child secret, child chain code); secret None if there is no such child.'''
    data = b'\0' + b32(secret) if n >= H else pubkey(secret)
    i = ref.hmac512(code, data + n.to_bytes(4, 'big'))
    left = int.from_bytes(i[:32], 'big')
    out = (left + secret) % N
    return (None if left >= N or out == 0 else out), i[32:]


def make(secret, code, depth, coin, n=7, fingerprint=b'fing'):
    import bitcoinx
    from bitcoinx import BIP32PrivateKey, BIP32Derivation
    return BIP32PrivateKey(b32(secret), BIP32Derivation(code, n, depth, fingerprint),
                           getattr(bitcoinx, coin))


VER = {'Bitcoin': ('0488ade4', '0488b21e'), 'BitcoinTestnet': ('04358394', '043587cf')}


def check(key, private, secret, code, depth, n, fingerprint, coin, what):
    '''Every observable of an extended key.'''
    import bitcoinx
    if private:
        eq(key.to_int(), secret, f'{what}: secret')
        check(key.public_key, False, secret, code, depth, n, fingerprint, coin,
              f'{what}: public key')
    else:
        eq(key.to_bytes(), pubkey(secret), f'{what}: key')
    d = key.derivation()
    eq((d.chain_code, d.n, d.depth, d.parent_fingerprint), (code, n, depth, fingerprint),
       f'{what}: derivation')
    true(key.coin() is getattr(bitcoinx, coin), f'{what}: network')
    true(key.is_compressed() is True, f'{what}: compressed')
    eq(key.identifier(), ref.hash160(pubkey(secret)), f'{what}: identifier')
    eq(key.fingerprint(), ref.hash160(pubkey(secret))[:4], f'{what}: fingerprint')
    raw = (bytes.fromhex(VER[coin][not private]) + bytes([depth]) + fingerprint
           + n.to_bytes(4, 'big') + code + (b'\0' + b32(secret) if private else pubkey(secret)))
    eq(key.to_extended_key_string(), ref.b58c_encode(raw), f'{what}: string')


def child(s, c, depth, n):
    coin = COINS[(s + n) % 2]
    code = CODES[c]
    key = make(s, code, depth, coin)
    pub = key.public_key
    cs, cc = ckd(s, code, n)
    fp = ref.hash160(pubkey(s))[:4]
    args = (cs, cc, depth + 1, n, fp, coin)
    where = f'child {n:#x} of {s:x}'
    check(key.child(n), True, *args, where)
    check(key.child_safe(n), True, *args, where)
    if n < H:
        check(pub.child(n), False, *args, f'public {where}')
        check(pub.child_safe(n), False, *args, f'public {where}')
        true(pub.child(n) == key.child(n).public_key, 'public and private derivation agree')
    else:
        eq(outcome(pub.child, n), ('exc', 'ValueError'), f'public hardened {where}')
        eq(outcome(pub.child_safe, n), ('exc', 'ValueError'), f'public hardened {where}')
    check(key, True, s, code, depth, 7, b'fing', coin, 'the parent afterwards')
    check(pub, False, s, code, depth, 7, b'fing', coin, 'the public parent afterwards')
    return 'child'


def too_deep(s, c, depth, n):
    '''The depth is a byte: past it there is no extended key.'''
    key = make(s, CODES[c], depth, 'Bitcoin')
    if depth == 255:
        check(key, True, s, CODES[c], depth, 7, b'fing', 'Bitcoin', 'depth 255')
    for k in (key, key.public_key):
        if k is not key and n >= H:
            continue
        for fn in (k.child, k.child_safe):
            try:
                one = fn(n)
                eq(one.derivation().depth, depth + 1, 'depth')
                text = one.to_extended_key_string()
            except Mismatch:
                raise
            except Exception:
                continue
            raise Mismatch(f'child {n:#x} of a key of depth {depth} is {text}')
    return 'refused'


def bad_index(s, n):
    key = make(s, CODES[2], 3, 'Bitcoin')
    for k in (key, key.public_key):
        for fn in (k.child, k.child_safe):
            eq(outcome(fn, n), ('exc', 'ValueError'), f'child {n}')
    return 'refused'


def path(steps):
    '''Private all the way, and public from every point at which no hardened step is left.'''
    s, code, depth, n, fp = SECRETS[6], CODES[2], 0, 0, bytes(4)
    key = make(s, code, depth, 'Bitcoin', n, fp)
    todo = list(steps)
    publics = []
    states = [(key, (s, code, depth, n, fp))]
    for i, step in enumerate(todo):
        publics = [p.child(step) for p in publics] if step < H else []
        cs, cc = ckd(s, code, step)
        fp = ref.hash160(pubkey(s))[:4]
        if step < H:
            publics.append(key.public_key.child(step))
        key = key.child(step)
        s, code, depth, n = cs, cc, depth + 1, step
        states.append((key, (s, code, depth, n, fp)))
        for p in publics:
            check(p, False, s, code, depth, n, fp, 'Bitcoin', f'public path {steps[:i + 1]}')
    for key, state in states:
        check(key, True, *state, 'Bitcoin', f'path {steps}')
    return 'path'


def order(which):
    key = make(SECRETS[6], CODES[1], 5, 'BitcoinTestnet')
    moves = ((False, 3), (True, 3), (True, H + 3), (False, 4))
    for k in which + which:
        public, n = moves[k][0] is False, moves[k][1]
        cs, cc = ckd(SECRETS[6], CODES[1], n)
        got = (key.public_key if public else key).child(n)
        check(got, not public, cs, cc, 6, n, ref.hash160(pubkey(SECRETS[6]))[:4],
              'BitcoinTestnet', f'order {which}')
    return 'child'


def seed(data, coin):
    import bitcoinx
    from bitcoinx import BIP32PrivateKey
    i = ref.hmac512(b'Bitcoin seed', data)
    s = int.from_bytes(i[:32], 'big')
    key = BIP32PrivateKey.from_seed(data, getattr(bitcoinx, coin))
    check(key, True, s, i[32:], 0, 0, bytes(4), coin, f'seed of {len(data)} bytes')
    return 'seed'


def random(answers):
    from bitcoinx import BIP32PrivateKey
    want = next(a for a in answers if 0 < a < N)
    asked = []

    def source(n):
        asked.append(n)
        return b32(answers[len(asked) - 1]) + bytes([len(asked)]) * 32

    for how in (0, 1):
        del asked[:]
        if how:
            key = BIP32PrivateKey.from_random(source=source)
        else:
            entropy.reset(source)
            try:
                key = BIP32PrivateKey.from_random()
            finally:
                entropy.reset()
        used = answers.index(want) + 1
        eq(asked, [64] * used, 'draws')
        check(key, True, want, bytes([used]) * 32, 0, 0, bytes(4), 'Bitcoin', 'random key')
    return 'random'


# What the left half of the HMAC is made to be for an invalid derivation of a parent secret
KINDS = (lambda s: N, lambda s: (1 << 256) - 1, lambda s: N - s)


class Scripted:
    '''Makes some derivations invalid.'''

    def __init__(self, secret, kinds):
        self.secret, self.kinds = secret, kinds     # kinds: {index: kind}

    def __enter__(self):
        hmac_seam.used = 0
        hmac_seam.script = self.script

    def script(self, key, msg):
        if len(msg) != 37:
            return None
        kind = self.kinds.get(int.from_bytes(msg[33:], 'big'))
        return None if kind is None else b32(KINDS[kind](self.secret)) + bytes(32)

    def __exit__(self, *args):
        hmac_seam.script = None


def invalid(s, n, kind):
    key = make(s, CODES[2], 3, 'Bitcoin')
    pub = key.public_key
    with Scripted(s, {n: kind}):
        got = outcome(key.child, n)
        used = hmac_seam.used
        pgot = outcome(pub.child, n) if n < H else got
    if not used:
        return 'seam not used'
    eq(got, ('exc', 'ValueError'), f'child {n:#x} when the derivation is invalid')
    eq(pgot, ('exc', 'ValueError'), f'public child {n:#x} when the derivation is invalid')
    cs, cc = ckd(s, CODES[2], n)
    check(key.child(n), True, cs, cc, 4, n, ref.hash160(pubkey(s))[:4], 'Bitcoin', 'later')
    return 'refused'


def bad_seed(kind):
    from bitcoinx import BIP32PrivateKey, Bitcoin
    hmac_seam.used = 0
    hmac_seam.script = lambda key, msg: b32((0, N, (1 << 256) - 1)[kind]) + bytes(32) \
        if msg == b'x' * 16 else None
    try:
        got = outcome(BIP32PrivateKey.from_seed, b'x' * 16, Bitcoin)
    finally:
        hmac_seam.script = None
    if not hmac_seam.used:
        return 'seam not used'
    eq(got, ('exc', 'ValueError'), 'seed of an invalid key')
    return 'refused'


STARTS = (0, 5, 0xff, H - 4, H - 3, H - 2, H - 1, H, H + 9, 2 * H - 4, 2 * H - 3, 2 * H - 2,
          2 * H - 1)


def safe(start, pattern, private):
    '''The first valid child at or after the index, without changing from normal to hardened.'''
    s = SECRETS[6]
    key = make(s, CODES[2], 3, 'Bitcoin')
    if not private:
        if start >= H:
            return 'refused'
        key = key.public_key
    kinds = {start + i: kind for i, kind in enumerate(pattern)}
    with Scripted(s, kinds):
        got = outcome(key.child_safe, start)
        used = hmac_seam.used
    if pattern and not used:
        return 'seam not used'
    n = start + len(pattern)
    if start < H <= n or n >= 2 * H:
        eq(got, ('exc', 'ValueError'), f'no safe child from {start:#x} {pattern}')
        return 'none left'
    true(got[0] == 'ok', f'safe child from {start:#x} {pattern}: {got}')
    cs, cc = ckd(s, CODES[2], n)
    check(got[1], private, cs, cc, 4, n, ref.hash160(pubkey(s))[:4], 'Bitcoin',
          f'safe child from {start:#x} {pattern}')
    return 'skipped'
