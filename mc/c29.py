'''C29: equality and hashing of values are consistent and change nothing.'''

import functools

from . import ref, txgen
from .common import eq, true, Mismatch

LEVEL = 'exploration'
RULE = ('Every ordered pair of a menu of values (private and public keys made in every way, '
        'addresses, outputs, scripts, signatures, headers, transactions and their parts, plain '
        'buffers and foreign values) is compared, with each side fresh or after every use of it; '
        'equality, its negation and the hashes are compared with what the values stand for, and '
        'all of the menu is put in one set and one dictionary in every rotation and looked up.  '
        'Non-trivial: pairs that are equal.')
TRIVIAL = ('different',)
EXPECT = ('equal', 'different', 'looked up')

SECRETS = (1, 2, ref.N - 1, ref.N - 2, 1 << 128)
FOREIGN = ('None', '0', '1', '""', '"01"', '()', '[]', '{}', '(1, 2)', '1.5', 'object()', 'int',
           '{1}', 'NotImplemented', 'frozenset()', 'lambda: 1', '1j', 'range(3)', '...')


def bip32_derivation(n):
    from bitcoinx import bip32
    return bip32.BIP32Derivation(chain_code=bytes([n]) * 32, n=n, depth=n,
                                 parent_fingerprint=bytes([n]) * 4)


def private_menu():
    import bitcoinx as b
    for secret in SECRETS:
        raw = secret.to_bytes(32, 'big')
        tok = ('private', secret)
        yield tok, lambda raw=raw: b.PrivateKey(raw)
        yield tok, lambda raw=raw: b.PrivateKey(raw, False, b.BitcoinTestnet)
        yield tok, lambda raw=raw: b.PrivateKey.from_hex(raw.hex())
        yield tok, lambda secret=secret: b.PrivateKey.from_int(secret)
        yield tok, lambda raw=raw: b.PrivateKey.from_WIF(
            b.PrivateKey(raw, False, b.BitcoinTestnet).to_WIF())
        yield tok, lambda raw=raw: b.BIP32PrivateKey(raw, bip32_derivation(1), b.Bitcoin)
        yield tok, lambda raw=raw: b.BIP32PrivateKey(raw, bip32_derivation(2), b.BitcoinTestnet)
        yield tok, lambda raw=raw: b.bip32_key_from_string(
            b.BIP32PrivateKey(raw, bip32_derivation(1), b.Bitcoin).to_extended_key_string())
        if secret > 1:
            yield tok, lambda raw=raw, secret=secret: b.PrivateKey.from_int(secret - 1).add(
                (1).to_bytes(32, 'big'))
        yield ('public', ref.ser_point(ref.ec_mul(secret), True)), (
            lambda raw=raw: b.PrivateKey(raw).public_key)


def public_menu():
    import bitcoinx as b
    for secret in SECRETS:
        pt = ref.ec_mul(secret)
        short, full = ref.ser_point(pt, True), ref.ser_point(pt, False)
        hybrid = bytes([6 + (full[-1] & 1)]) + full[1:]
        tok = ('public', short)
        for data in (short, full, hybrid):
            yield tok, lambda data=data: b.PublicKey.from_bytes(data)
            yield tok, lambda data=data: b.PublicKey.from_hex(data.hex())
        yield tok, lambda secret=secret: b.PrivateKey.from_int(secret, ).public_key
        yield tok, lambda short=short: b.PublicKey.from_bytes(short).complement()
        yield tok, lambda raw=secret.to_bytes(32, 'big'): b.BIP32PrivateKey(
            raw, bip32_derivation(1), b.Bitcoin).public_key
        yield tok, lambda raw=secret.to_bytes(32, 'big'): b.BIP32PrivateKey(
            raw, bip32_derivation(3), b.BitcoinTestnet).public_key
        h = ref.hash160(short)
        for coin in (b.Bitcoin, b.BitcoinTestnet):
            yield ('p2pk', short), lambda short=short, coin=coin: b.P2PK_Output(short, coin)
            yield ('p2pk', short), lambda full=full, coin=coin: b.P2PK_Output(full, coin)
            yield ('p2pk', short), lambda short=short, coin=coin: b.classify_output_script(
                b.P2PK_Output(short, coin).to_script(), coin)
            for one in (h, ref.hash160(full)):
                yield ('p2pkh', one), lambda one=one, coin=coin: b.P2PKH_Address(one, coin)
                yield ('p2sh', one), lambda one=one, coin=coin: b.P2SH_Address(one, coin)
            yield ('p2pkh', h), lambda short=short, coin=coin: b.PublicKey.from_bytes(
                short).to_address(coin=coin)
            yield ('p2pkh', h), lambda short=short, coin=coin: b.P2PK_Output(
                short, coin).to_address()
            yield ('p2pkh', h), lambda h=h, coin=coin: b.Address.from_string(
                b.P2PKH_Address(h, coin).to_string(), coin)
            yield ('p2sh', h), lambda h=h, coin=coin: b.Address.from_string(
                b.P2SH_Address(h, coin).to_string(), coin)
            yield ('p2sh', h), lambda h=h, coin=coin: b.classify_output_script(
                b.P2SH_Address(h, coin).to_script(), coin)
    # Keys with the same x
    for secret in SECRETS[:2]:
        yield ('public', ref.ser_point(ref.ec_mul(ref.N - secret), True)), (
            lambda secret=secret: b.PrivateKey.from_int(ref.N - secret).public_key)


def output_menu():
    import bitcoinx as b
    pts = [ref.ec_mul(s) for s in SECRETS[:3]]
    keys = [ref.ser_point(p, True) for p in pts]
    fulls = [ref.ser_point(p, False) for p in pts]
    for order in ((0,), (1,), (0, 1), (1, 0), (0, 0), (0, 1, 2), (2, 1, 0)):
        for m in range(1, len(order) + 1):
            tok = ('multisig', m, tuple(keys[i] for i in order))
            given = [keys[i] for i in order]
            yield tok, lambda given=given, m=m: b.P2MultiSig_Output(given, m)
            yield tok, lambda given=given, m=m: b.P2MultiSig_Output(iter(given), m)
            mixed = [fulls[i] for i in order]
            yield tok, lambda mixed=mixed, m=m: b.P2MultiSig_Output(mixed, m)
            yield tok, lambda given=given, m=m: b.classify_output_script(
                b.P2MultiSig_Output(given, m).to_script(), b.Bitcoin)
    for data in (b'\x6a', b'\x00\x6a\x01a', b'\x6a\x02hi'):
        yield ('op_return',), lambda data=data: b.classify_output_script(b.Script(data), b.Bitcoin)
    yield ('op_return',), lambda: b.OP_RETURN_Output()


def buffer_menu():
    import bitcoinx as b
    der = ref.der_encode(1 << 250, 5)
    for data in (b'', b'\xff', b'\x51', b'\x51\x52', bytes(20), ref.ser_point(ref.ec_mul(1), True),
                 der + b'\x41', der + b'\x01', b'\x76\xa9\x14' + bytes(20) + b'\x88\xac', b'1',
                 (1).to_bytes(32, 'big')):
        tok = ('bytes', data)
        yield tok, lambda data=data: data
        yield tok, lambda data=data: bytearray(data)
        yield tok, lambda data=data: memoryview(data)
        yield tok, lambda data=data: b.Script(data)
        yield tok, lambda data=data: b.Script.from_hex(data.hex())
        yield tok, lambda data=data: b.Script() << b.Script(data)
        if data[:1] in (b'\x30', b'\xff'):
            yield tok, lambda data=data: b.Signature(data)
            yield tok, lambda data=data: b.Signature.from_hex(data.hex())
    yield ('bytes', der + b'\x41'), lambda: b.Signature.from_der_sig(der, 0x41)
    yield ('bytes', b'\x51'), lambda: b.Script() << 1
    yield ('bytes', b'\x51'), lambda: b.Script.from_asm('1')
    yield ('bytes', b'\x51\x52'), lambda: b.Script().push_many([1, 2])


def data_menu():
    import bitcoinx as b
    raws = [b.Bitcoin.genesis_header, b.BitcoinTestnet.genesis_header]
    raws += [raws[0][:k] + bytes([raws[0][k] ^ 1]) + raws[0][k + 1:] for k in (0, 4, 36, 68, 72, 76)]
    for raw in raws:
        for height in (0, 1, 1 << 20):
            for coin in (b.Bitcoin, b.BitcoinTestnet):
                yield ('header', raw, height), lambda raw=raw, height=height, coin=coin: (
                    coin.deserialized_header(raw, height))
    txs = [(1, (txgen.an_input(0),), (txgen.an_output(0),), 0)]
    first = txs[0]
    txs += [(2, *first[1:]), (*first[:3], 1), (1, first[1] * 2, first[2], 0),
            (1, first[1], first[2] * 2, 0), (1, (txgen.an_input(1),), first[2], 0),
            (1, first[1], (txgen.an_output(1),), 0)]
    for tx in txs:
        yield ('tx', tx), lambda tx=tx: txgen.real(tx)
        yield ('tx', tx), lambda tx=tx: b.Tx.from_bytes(ref.ser_tx(tx))
        yield ('tx', tx), lambda tx=tx: b.Tx.from_hex(ref.ser_tx(tx).hex())
    h, i, s, q = txgen.an_input(0)
    for one in ((h, i, s, q), (h, i + 1, s, q), (h, i, s + b'\x51', q), (h, i, s, q - 1),
                (txgen.H2, i, s, q)):
        yield ('txin', one), lambda one=one: txgen.real((1, [one], [], 0)).inputs[0]
        yield ('txin', one), lambda one=one: b.TxInput.from_bytes(ref.ser_in(one))
    for one in ((1, b'\x51'), (2, b'\x51'), (1, b'\x52'), (1, b'')):
        yield ('txout', one), lambda one=one: txgen.real((1, [], [one], 0)).outputs[0]
        yield ('txout', one), lambda one=one: b.TxOutput.from_bytes(ref.ser_out(one))
    for n in (0, 1, 2, 1):
        yield ('derivation', n), lambda n=n: bip32_derivation(n)


def foreign_menu():
    for k, text in enumerate(FOREIGN):
        yield ('foreign', k), lambda text=text: eval(text)   # each a constant above


@functools.lru_cache(None)
def menu():
    out = []
    for part in (private_menu, public_menu, output_menu, buffer_menu, data_menu, foreign_menu):
        out.extend(part())
    return out


UNHASHABLE = ('header', 'tx', 'txin', 'txout', 'foreign')
USES = ('to_bytes', 'to_hex', 'to_string', '__str__', '__repr__', '__hash__', '__bytes__', '__len__',
        'to_script', 'to_script_bytes', 'hash160', 'to_address', 'public_key_count', 'work', 'size',
        'target', 'hash', 'hex_hash', 'hash_value', 'hex_str', 'to_WIF', 'to_int', 'to_point',
        'is_compressed', 'to_asm', 'is_present', 'to_compact', 'coin', 'is_coinbase', 'fingerprint',
        'to_extended_key_string', 'identifier', 'chain_code', 'derivation', 'complement', 'P2PK_script',
        'P2PKH_script', 'depth', 'parent_fingerprint', 'n', 'public_key', 'KIND')


def use(value):
    '''Ask a value everything that can be asked without arguments.'''
    if type(value).__module__.split('.')[0] != 'bitcoinx':
        return
    for name in USES:
        attr = getattr(value, name, None)
        if callable(attr):
            try:
                attr()
            except Exception:
                pass
    if hasattr(value, 'sign_message'):
        value.sign_message(b'x')
    if hasattr(value, 'child') and hasattr(value, 'derivation'):
        value.child(1)
    if hasattr(value, 'ops'):
        try:
            list(value.ops())
        except Exception:
            pass


def tasks(tier):
    count = 24
    out = [('pairs', k, count) for k in range(count)]
    out += [('sets', k, 8) for k in range(8)]
    out += [('near', k, 0) for k in range(len(NEAR))]
    out += [('fresh', k, count, 2 if tier == 'thorough' else 1) for k in range(count)]
    return out


def run(task, res):
    kind, k, count = task[:3]
    if kind == 'near':
        for n in range(len(near_bases(k))):
            res.case(near, k, n)
        return
    n = len(menu())
    for a in range(k, n, count):
        if kind == 'pairs':
            for used_a in range(2):
                res.case(row, a, used_a)
        elif kind == 'sets':
            res.case(sets, a)
        else:
            for b in range(n):
                if menu()[a][0][0] == menu()[b][0][0] or task[3] == 2:
                    res.case(fresh, a, b)


def made(k, used):
    value = menu()[k][1]()
    if used:
        use(value)
    return value


_kept = {}


def kept(used):
    if used not in _kept:
        _kept[used] = [made(k, used) for k in range(len(menu()))]
    return _kept[used]


def plain_buffer(v):
    return isinstance(v, (bytes, bytearray, memoryview))


def hash_of(v):
    try:
        return hash(v)
    except TypeError:
        return None


def pair(a, b, tok_a, tok_b, where):
    if plain_buffer(a) and plain_buffer(b):
        return False
    if tok_a[0] == tok_b[0] == 'foreign':
        return False
    same = tok_a == tok_b
    for got, want, op in ((a == b, same, '=='), (b == a, same, 'reversed =='),
                          (a != b, not same, '!='), (b != a, not same, 'reversed !=')):
        if got is not want:
            raise Mismatch(f'{where}: {a!r} {op} {b!r} is {got!r}')
    if same:
        h, i = hash_of(a), hash_of(b)
        true(h is None or i is None or h == i, f'{where}: {a!r} and {b!r} are equal but have '
             'different hashes')
    for v, tok in ((a, tok_a), (b, tok_b)):
        if tok[0] not in UNHASHABLE and not isinstance(v, bytearray):
            true(hash_of(v) is not None, f'{where}: {v!r} has no hash')
            eq(hash_of(v), hash_of(v), f'{where}: hash of {v!r}')
    return same


def row(k, used):
    '''One value against every other.'''
    value = made(k, False)
    before = hash_of(value)
    if used:
        use(value)
        eq(hash_of(value), before, f'hash of {value!r} after use')
    tok = menu()[k][0]
    equal = 0
    for other_used in (False, True):
        for n, other in enumerate(kept(other_used)):
            equal += pair(value, other, tok, menu()[n][0], 'compared')
    eq(hash_of(value), before, f'hash of {value!r} after being compared')
    total = 2 * len(menu())
    return {'equal': equal, 'different': total - equal, 'evals': total - 1}


def fresh(k, n):
    '''Two values nothing was asked of, compared in both orders, used, and compared again.'''
    a, b = made(k, False), made(n, False)
    toks = menu()[k][0], menu()[n][0]
    same = pair(a, b, *toks, 'fresh')
    use(a)
    pair(a, b, *toks, 'left used')
    pair(b, a, *toks[::-1], 'left used')
    use(b)
    pair(a, b, *toks, 'both used')
    return 'equal' if same else 'different'


def der_lengths():
    '''Signatures of every length that has one.'''
    for bits_r in (1, 8, 9, 100, 248, 255, 256):
        for bits_s in (1, 8, 9, 100, 248, 255, 256):
            r, s = ((1 << bits - 1) + (0x1234567890 << bits - 40 if bits > 60 else 0) for bits in (bits_r, bits_s))
            yield ref.der_encode(r, s) + b'\x41'


def big_tx(k):
    return ref.ser_tx((1, tuple(txgen.an_input(n) for n in range(k)),
                       tuple(txgen.an_output(n) for n in range(k + 1)), 77))


def many_sig(b, raw):
    return b.P2MultiSig_Output([raw[k: k + 33] for k in range(1, len(raw), 33)], raw[0])


# Kinds of value made of bytes: a name, what makes one, and the bytes of some
NEAR = (
    ('script', lambda b, raw: b.Script(raw), lambda: [bytes(n) for n in (*range(4), 25, 75, 76, 77, 255, 256, 520, 1500)]
     + [bytes(k * 7 & 0xff for k in range(n)) for n in (8, 33, 64, 72, 73, 107, 300)]),
    ('signature', lambda b, raw: b.Signature(raw), lambda: list(der_lengths())),
    ('header', lambda b, raw: b.Bitcoin.deserialized_header(raw, 5), lambda: [bytes(range(80))]),
    ('tx', lambda b, raw: b.Tx.from_bytes(raw), lambda: [big_tx(k) for k in range(4)]),
    ('txin', lambda b, raw: b.TxInput.from_bytes(raw), lambda: [ref.ser_in(txgen.an_input(k)) for k in range(4)]),
    ('txout', lambda b, raw: b.TxOutput.from_bytes(raw), lambda: [ref.ser_out(txgen.an_output(k)) for k in range(4)]),
    ('private', lambda b, raw: b.PrivateKey(raw), lambda: [s.to_bytes(32, 'big') for s in SECRETS] + [bytes(range(32))]),
    ('public', lambda b, raw: b.PublicKey.from_bytes(raw),
     lambda: [ref.ser_point(ref.ec_mul(s), c) for s in SECRETS for c in (True, False)]),
    ('p2pkh', lambda b, raw: b.P2PKH_Address(raw, b.Bitcoin), lambda: [bytes(20), bytes(range(20)), b'\xff' * 20]),
    ('p2sh', lambda b, raw: b.P2SH_Address(raw, b.Bitcoin), lambda: [bytes(20), bytes(range(20)), b'\xff' * 20]),
    ('p2pk', lambda b, raw: b.P2PK_Output(raw, b.Bitcoin), lambda: [ref.ser_point(ref.ec_mul(s), True) for s in SECRETS]),
    ('multisig', many_sig, lambda: [bytes([m]) + b''.join(ref.ser_point(ref.ec_mul(s + 1), True) for s in range(n))
                                    for n in (1, 2, 3, 5, 16) for m in {1, n // 2 + 1, n}]),
    ('derivation', lambda b, raw: b.bip32.BIP32Derivation(
        raw[:32], int.from_bytes(raw[32:36], 'big'), raw[36], raw[37:]), lambda: [bytes(range(41))]),
)


@functools.lru_cache(None)
def near_bases(k):
    return NEAR[k][2]()


def near(k, n):
    '''A value is equal to one of the same bytes, and to none with a bit changed, or of another length.'''
    import bitcoinx
    import bitcoinx.bip32   # pylint: disable=unused-import
    name, make, _ = NEAR[k]
    raw = near_bases(k)[n]
    base, again = make(bitcoinx, raw), make(bitcoinx, bytes(raw))
    pair(base, again, (name,), (name,), 'made alike')
    changed = [raw[:i] + bytes([raw[i] ^ m]) + raw[i + 1:] for i in range(len(raw)) for m in (1, 0x80)]
    changed += [raw[:i] + raw[i + 1: i + 2] + raw[i: i + 1] + raw[i + 2:] for i in range(len(raw) - 1)
                if raw[i] != raw[i + 1]]
    changed += [raw[:i] for i in range(len(raw))] + [raw + b'\0', raw + b'\x51', b'\0' + raw]
    counts = {'evals': 0, 'different': 0, 'equal': 1}
    for other_raw in changed:
        try:
            other = make(bitcoinx, other_raw)
        except Exception:    # There is no such value
            continue
        # What follows a value that was read is not part of it, nor how its key was written
        if name in ('tx', 'txin', 'txout') and other.to_bytes() == base.to_bytes():
            continue
        if name == 'public' and other.to_point() == base.to_point():
            continue
        pair(base, other, (name, 0) if name not in UNHASHABLE else (name,), (name, 1), f'nearly alike {name}')
        counts['evals'] += 1
        counts['different'] += 1
    return counts


def sets(start):
    '''The menu from one place on goes into a set and a dictionary.'''
    n = len(menu())
    order = [(start + k) % n for k in range(n)]
    collected, table, toks = set(), {}, set()
    for k in order:
        tok, make = menu()[k]
        if tok[0] in UNHASHABLE:
            continue
        value = make()
        if isinstance(value, bytearray):
            continue
        collected.add(value)
        table.setdefault(value, tok)
        toks.add(tok)
        eq(len(collected), len(toks), f'size of a set after adding {value!r}')
    for k in order:
        tok, make = menu()[k]
        value = kept(True)[k]
        if tok in toks and hash_of(value) is not None:
            true(value in collected, f'{value!r} is not found in a set')
            eq(table.get(value), tok, f'what {value!r} finds in a dictionary')
    return 'looked up'
