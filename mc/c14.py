'''C14: output scripts are recognised as exactly what they are, on the coin asked about.'''

import functools
import itertools

from . import ref
from .c12 import strip
from .common import eq, true, raises, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Every sequence of up to n tokens of standard outputs (opcodes, hashes, keys good and bad, '
        'no-ops, drops), every one-byte replacement, insertion, deletion and cut of each standard '
        'script, and every multisig threshold and count for up to 20 keys, and chosen ones for up '
        'to 300, is classified and compared with a reference; every standard output object is turned into its script and '
        'back, for coins in every order of use.  Non-trivial: not unknown.')
TRIVIAL = ('unknown',)
EXPECT = ('pubkeyhash', 'scripthash', 'pubkey', 'multisig', 'op_return', 'unknown', 'object',
          'refused')

MANY = (*range(21, 35), 63, 64, 65, 100, 126, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 300)
H20 = bytes(range(1, 21))


@functools.lru_cache(None)
def keys():
    pts = [ref.ec_mul(k) for k in range(1, 21)]
    return [ref.ser_point(p, i % 4 != 3) for i, p in enumerate(pts)]


@functools.lru_cache(None)
def many_keys():
    pts = [ref.ec_mul(k) for k in range(1, max(MANY) + 1)]
    return [ref.ser_point(p, i % 4 != 3) for i, p in enumerate(pts)]


@functools.lru_cache(None)
def bad_keys():
    good = ref.ser_point(ref.ec_mul(5))
    full = ref.ser_point(ref.ec_mul(5), False)
    x = next(x for x in range(1, 100) if ref.lift_x(x, 0) is None)
    return [b'', good[:-1], good + b'\0', b'\x05' + good[1:], b'\x04' + good[1:],
            b'\x02' + x.to_bytes(32, 'big'), b'\x02' + ref.P.to_bytes(32, 'big'), b'\xff' * 33,
            b'\x02' + full[1:], full[:-1], full[:-1] + bytes([full[-1] ^ 1]), bytes(33), H20,
            b'\x00' + good[1:], bytes(65)]


@functools.lru_cache(None)
def tokens():
    k = keys()
    return [b'\x76', b'\xa9', b'\x88', b'\xac', b'\x87', b'\x6a', b'\xae', b'\x00', b'\x51',
            b'\x52', b'\x53', b'\x14' + H20, b'\x15' + H20 + b'!', ref.push(k[0]), ref.push(k[3]),
            ref.push(bad_keys()[5]), b'\x61', b'\x75', b'\x6d', b'\x05abc', b'\x01\x02',
            b'\x4c\x14' + H20]


@functools.lru_cache(None)
def standard():
    k = [ref.push(x) for x in keys()]
    return [b'\x76\xa9\x14' + H20 + b'\x88\xac', b'\xa9\x14' + H20 + b'\x87',
            k[0] + b'\xac', k[3] + b'\xac', b'\x6a', b'\x00\x6a\x04data', b'\x6a\x02hi\x51',
            b'\x51' + k[0] + b'\x51\xae', b'\x52' + k[0] + k[3] + k[2] + b'\x53\xae']


def tasks(tier):
    n = 5 if tier == 'thorough' else 4
    out = [('tokens', t, n) for t in range(len(tokens()))]
    out += [('edit', k, lo) for k in range(len(standard())) for lo in range(0, 4)]
    out += [('multisig', n) for n in range(0, 21)] + [('many', n) for n in MANY]
    out += [('objects',), ('coins',), ('refused',), ('pad',)]
    if tier == 'thorough':
        out += [('edit two', k, lo) for k in (0, 1, 7) for lo in range(0, 4)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'tokens':
        _, first, n = task
        toks = tokens()
        for k in range(n):
            pool = toks if k < 4 else toks[:18]
            for rest in itertools.product(pool, repeat=k):
                res.case(classify, toks[first] + b''.join(rest))
    elif kind == 'edit':
        _, k, lo = task
        script = standard()[k]
        for i in range(lo, len(script) + 1, 4):
            for b in range(256):
                res.case(classify, script[:i] + bytes([b]) + script[i + 1:])
                res.case(classify, script[:i] + bytes([b]) + script[i:])
            res.case(classify, script[:i] + script[i + 1:])
            res.case(classify, script[:i])
            res.case(classify, script[i:])
    elif kind == 'edit two':
        _, k, lo = task
        script = standard()[k]
        for i in range(lo, len(script), 4):
            for j in range(i + 1, len(script)):
                for a, b in itertools.product((0, 1, 2, 0x14, 0x4c, 0x61, 0x76, 0xac, 0xae, 0xff),
                                              repeat=2):
                    s = bytearray(script)
                    s[i], s[j] = a, b
                    res.case(classify, bytes(s))
    elif kind == 'multisig':
        n = task[1]
        parts = [ref.push(x) for x in keys()[:n]]
        for m in range(-1, n + 3):
            for count in {n - 1, n, n + 1, 0, -n, 16, 17}:
                for style in range(5):
                    res.case(classify, number(m, style) + b''.join(parts) + number(count, style)
                             + b'\xae')
            for bad in range(len(bad_keys())):
                for at in {0, n // 2, n - 1}:
                    if 0 <= at < n:
                        p = list(parts)
                        p[at] = ref.push(bad_keys()[bad])
                        res.case(classify, number(m, 0) + b''.join(p) + number(n, 0) + b'\xae')
            # the same key twice, and a reversed list
            p = parts[:1] * n
            res.case(classify, number(m, 0) + b''.join(p) + number(n, 0) + b'\xae')
            p = parts[::-1]
            res.case(classify, number(m, 0) + b''.join(p) + number(n, 0) + b'\xae')
            res.case(classify, number(m, 0) + b''.join(p) + number(n, 0) + b'\xae\xac')
            res.case(multisig, m, n)
    elif kind == 'many':
        n = task[1]
        parts = b''.join(ref.push(x) for x in many_keys()[:n])
        for m in {0, 1, 2, 16, 17, 20, n // 2, n - 1, n, n + 1}:
            for count in (n, n - 1, n + 1, n & 0xff, n % 20):
                for style in range(5):
                    res.case(classify, number(m, style) + parts + number(count, style) + b'\xae')
            res.case(multisig, m, n)
    elif kind == 'pad':
        # no-ops, and data dropped, do not change what an output is
        pads = (b'\x61', b'\x51\x75', b'\x02ab\x75', b'\x00\x51\x6d', b'\x61\x61', b'\x51\x61\x75',
                b'\x75', b'\x51\x6d', b'\x50\x75')
        for script in standard():
            ops, _ = ref.parse_script(script)
            cuts = [0]
            pos = 0
            for op in ops:
                pos += 1 if not isinstance(op, bytes) or script[pos] in range(0x4f, 0x61) or \
                    script[pos] == 0 else 1 + script[pos]
                cuts.append(pos)
            for a, b in itertools.combinations_with_replacement(cuts, 2):
                for p, q in itertools.product(pads, (b'',) + pads[:5]):
                    res.case(classify, script[:a] + p + script[a:b] + q + script[b:])
    elif kind == 'objects':
        for k in range(len(keys())):
            for which in range(4):
                res.case(objects, k, which)
    elif kind == 'coins':
        for order in itertools.permutations(range(4)):
            res.case(coins, order)
        for pair in itertools.product(range(4), repeat=5):
            res.case(coins, pair)
    else:
        for size in (0, 1, 19, 21, 32, 33):
            res.case(bad_hash, bytes(size), 'ValueError')
        for bad in (None, 'a' * 20, 5, [1] * 20):
            res.case(bad_hash, bad, 'TypeError')
        for k in range(len(bad_keys())):
            res.case(bad_key, k)


def number(v, style):
    '''Ways to push a number.'''
    data = ref.num_encode(v)
    if style == 0:
        return ref.push(data)
    if style == 1:
        return bytes([len(data)]) + data
    if style == 2:
        return b'\x4c' + bytes([len(data)]) + data
    if style == 3:
        pad = (data[:-1] + bytes([data[-1] & 0x7f, data[-1] & 0x80])) if data else b'\0'
        return bytes([len(pad)]) + pad
    return ref.push(data) + b'\x61'


def reference(script):
    '''(kind, detail)'''
    ops, cut = ref.parse_script(script)
    ops = strip(ops) + ([0] if cut else [])
    shape = [None if isinstance(o, bytes) else o for o in ops]
    if shape == [0x76, 0xa9, None, 0x88, 0xac] and len(ops[2]) == 20:
        return 'pubkeyhash', ops[2]
    if shape == [0xa9, None, 0x87] and len(ops[1]) == 20:
        return 'scripthash', ops[1]
    if shape == [None, 0xac] and ref.parse_point(ops[0]):
        return 'pubkey', ops[0]
    k = 0
    while k < len(shape) and shape[k] is None:
        k += 1
    if k < len(shape) and shape[k] == 0x6a:
        return 'op_return', None
    if k >= 3 and shape[k:] == [0xae]:
        m, n = ref.num_decode(ops[0]), ref.num_decode(ops[k - 1])
        pubs = ops[1:k - 1]
        if n == len(pubs) and 1 <= m <= n and all(ref.parse_point(p) for p in pubs):
            return 'multisig', (m, tuple(pubs))
    return 'unknown', None


VERBYTES = (('Bitcoin', 0, 5), ('BitcoinTestnet', 0x6f, 0xc4),
            ('BitcoinScalingTestnet', 0x6f, 0xc4), ('BitcoinRegtest', 0x6f, 0xc4))


def normal(pub):
    '''The usual encoding of a key (hybrid ones are written uncompressed).'''
    pt = ref.parse_point(pub)
    return ref.ser_point(pt, len(pub) == 33)


def compare(got, want, coin, p2pkh, p2sh, where):
    kind, detail = want
    if got.KIND != kind:
        raise Mismatch(f'{where}: classified {got.KIND}, expected {kind}')
    if kind in ('pubkeyhash', 'scripthash'):
        eq(got.hash160(), detail, f'{where}: hash')
        true(got.coin() is coin, f'{where}: coin')
        verbyte = p2pkh if kind == 'pubkeyhash' else p2sh
        eq(got.to_string(), ref.b58c_encode(bytes([verbyte]) + detail), f'{where}: address')
        eq(str(got), got.to_string(), 'str')
        canon = (b'\x76\xa9\x14' + detail + b'\x88\xac' if kind == 'pubkeyhash'
                 else b'\xa9\x14' + detail + b'\x87')
    elif kind == 'pubkey':
        pub = normal(detail)
        eq(got.public_key.to_bytes(), pub, f'{where}: public key')
        eq(got.hash160(), ref.hash160(pub), f'{where}: hash')
        eq(got.to_address().to_string(), ref.b58c_encode(bytes([p2pkh]) + ref.hash160(pub)),
           f'{where}: address')
        true(got.to_address().coin() is coin, f'{where}: coin')
        canon = ref.push(pub) + b'\xac'
    elif kind == 'multisig':
        m, pubs = detail
        eq(got.threshold, m, f'{where}: threshold')
        pubs = tuple(map(normal, pubs))
        eq(tuple(p.to_bytes() for p in got.public_keys), pubs, f'{where}: keys')
        eq(got.public_key_count(), len(pubs), f'{where}: count')
        canon = (ref.push(ref.num_encode(m)) + b''.join(map(ref.push, pubs))
                 + ref.push(ref.num_encode(len(pubs))) + b'\xae')
        eq(got.hash160(), ref.hash160(canon), f'{where}: hash')
    elif kind == 'op_return':
        canon = b'\x6a'
    else:
        raises(RuntimeError, got.to_script, what='script of an unknown output')
        return
    eq(got.to_script_bytes(), canon, f'{where}: script')
    eq(bytes(got.to_script()), canon, f'{where}: script')


def classify(script):
    import bitcoinx
    from bitcoinx import Script, classify_output_script
    want = reference(script)
    for name, p2pkh, p2sh in VERBYTES[:2]:
        coin = getattr(bitcoinx, name)
        compare(classify_output_script(Script(script), coin), want, coin, p2pkh, p2sh,
                f'script {script[:100].hex()} on {name}')
    return want[0]


def fresh(k):
    '''A coin of its own.'''
    from bitcoinx import Coin, Bitcoin
    return Coin(f'coin {k}', Bitcoin.genesis_header.hex(), Bitcoin.required_bits, 10 + k, 20 + k,
                30 + k, bytes(4), bytes([1] * 4), 'x')


def coins(order):
    '''Coins take turns; each always gets its own addresses.'''
    from bitcoinx import Script, classify_output_script
    mine = [fresh(k) for k in range(4)]
    for k in order:
        for script in standard()[:4]:
            compare(classify_output_script(Script(script), mine[k]), reference(script), mine[k],
                    10 + k, 20 + k, f'coin {k} of {order}')
    return 'object'


def objects(k, which):
    import bitcoinx
    from bitcoinx import (P2PKH_Address, P2SH_Address, P2PK_Output, PublicKey, OP_RETURN_Output,
                          classify_output_script, Unknown_Output)
    name, p2pkh, p2sh = VERBYTES[which]
    coin = getattr(bitcoinx, name)
    pub = keys()[k]
    h = ref.hash160(pub)
    hashes = [h, bytes(20), b'\xff' * 20, bytes(19) + b'\1', b'\x14' * 20]
    for one in hashes:
        for cls, kind in ((P2PKH_Address, 'pubkeyhash'), (P2SH_Address, 'scripthash')):
            obj = cls(one, coin)
            compare(obj, (kind, one), coin, p2pkh, p2sh, kind)
            again = classify_output_script(obj.to_script(), coin)
            true(again == obj and obj == again and hash(again) == hash(obj), f'{kind} again')
            other = classify_output_script(cls(bytes([1]) * 20, coin).to_script(), coin)
            true(other != obj, f'{kind} of another hash')
    a, b = P2PKH_Address(h, coin), P2SH_Address(h, coin)
    true(a != b and classify_output_script(a.to_script(), coin) != b, 'hash kinds are distinct')
    for given in (PublicKey.from_bytes(pub), pub, pub.hex()):
        obj = P2PK_Output(given, coin)
        compare(obj, ('pubkey', pub), coin, p2pkh, p2sh, 'pubkey')
        again = classify_output_script(obj.to_script(), coin)
        true(again == obj and hash(again) == hash(obj), 'pubkey again')
    key = PublicKey.from_bytes(pub)
    eq(bytes(key.P2PK_script()), ref.push(pub) + b'\xac', 'P2PK script of a key')
    eq(bytes(key.P2PKH_script()), b'\x76\xa9\x14' + h + b'\x88\xac', 'P2PKH script of a key')
    eq(key.hash160(), h, 'hash160 of a key')
    true(OP_RETURN_Output() == classify_output_script(OP_RETURN_Output().to_script(), coin),
         'op_return again')
    return 'object'


def multisig(m, n):
    from bitcoinx import P2MultiSig_Output, PublicKey, classify_output_script, Bitcoin
    pubs = (keys() if n <= 20 else many_keys())[:n]
    for given in (pubs, [p.hex() for p in pubs], map(PublicKey.from_bytes, pubs)):
        got = outcome(P2MultiSig_Output, given, m)
        if not 1 <= m <= n:
            eq(got, ('exc', 'ValueError'), f'{m} of {n}')
            continue
        compare(got[1], ('multisig', (m, tuple(pubs))), Bitcoin, 0, 5, f'{m} of {n}')
        again = classify_output_script(got[1].to_script(), Bitcoin)
        true(again == got[1] and hash(again) == hash(got[1]), f'{m} of {n} again')
        if n > 1:
            other = P2MultiSig_Output(pubs, m - 1 or n)
            true(other != got[1], f'{m} of {n}: another threshold')
            other = P2MultiSig_Output(pubs[::-1], m)
            true(other != got[1], f'{m} of {n}: another order')
    return 'object' if 1 <= m <= n else 'refused'


def bad_hash(data, error):
    from bitcoinx import P2PKH_Address, P2SH_Address, Bitcoin
    for cls in (P2PKH_Address, P2SH_Address):
        eq(outcome(cls, data, Bitcoin), ('exc', error), f'hash {data!r}')
    return 'refused'


def bad_key(k):
    from bitcoinx import P2PK_Output, P2MultiSig_Output, PublicKey, Bitcoin
    bad = bad_keys()[k]
    for given in (bad, bad.hex()):
        raises(ValueError, P2PK_Output, given, Bitcoin, what=f'key {bad.hex()}')
        raises(ValueError, P2MultiSig_Output, [keys()[0], given], 1, what=f'key {bad.hex()}')
    raises(ValueError, PublicKey.from_bytes, bad, what=f'key {bad.hex()}')
    return 'refused'
