'''C33: calls leave what they are given as it was, and what they give belongs to the caller.'''

import collections
import io
import itertools

from . import ref, txgen
from .common import eq, true, Mismatch, show, entropy
from .c21 import build as encrypted
from .chainmodel import Tree, open_headers, connect_ok, scratch_file, fresh, close_headers

LEVEL = 'exploration'
RULE = ('Every call of the library that takes a buffer, list, mapping or iterator, times every kind of it '
        '(bytes, bytearray, memoryview, array, bytes-like; list, tuple, deque, generator, dictionary view), each accepted or '
        'refused: the argument is as it was after the call, the result is that for plain bytes or a '
        'list, changing the argument afterwards does not change the result, and changing the result (deeply) does '
        'not change what the next call gives.  Also every ordered pair (thorough: triple) of calls sharing one argument, and '
        'every observer of a collection of headers before and after its results are changed.  Non-trivial: accepted.')
TRIVIAL = ('refused',)
EXPECT = ('accepted', 'refused', 'pair', 'observer', 'no arguments')
N = ref.N


# --- Arguments ------------------------------------------------------------------------------------

class Like:
    '''Something with a bytes representation.'''

    def __init__(self, raw):
        self.raw = bytearray(raw)

    def __bytes__(self):
        return bytes(self.raw)


def array_of(raw):
    import array
    return array.array('B', raw)


class Kept(list):
    pass


BUFFERS = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': lambda raw: memoryview(bytearray(raw)),
           'array': array_of, 'like': Like}
LISTS = {'list': list, 'tuple': tuple, 'deque': collections.deque, 'iterator': iter,
         'generator': lambda x: (i for i in x), 'values': lambda x: dict(enumerate(x)).values(), 'subclass': Kept}


def snapshot(arg):
    if isinstance(arg, Like):
        return bytes(arg)
    if isinstance(arg, (bytes, bytearray, memoryview)):
        return bytes(arg)
    if type(arg).__name__ == 'array':
        return arg.tobytes()
    if isinstance(arg, (list, tuple, collections.deque)):
        return [(id(x), canon(x)) for x in arg]
    if isinstance(arg, type({}.values())):
        return [(id(x), canon(x)) for x in arg]
    return None     # an iterator is used up


def spoil(x):
    '''Change a value in place, deeply; True if anything could be changed.'''
    if isinstance(x, Like):
        x = x.raw
    if isinstance(x, (bytearray,)) or type(x).__name__ == 'array':
        for i in range(len(x)):
            x[i] ^= 0xa5
        return len(x) > 0
    if isinstance(x, memoryview):
        if not x.readonly:
            for i in range(len(x)):
                x[i] ^= 0xa5
        return not x.readonly
    if isinstance(x, (list, collections.deque)):
        for i in x:
            spoil(i)
        x.clear()
        x.append('spoiled')
        return True
    if isinstance(x, dict):
        for i in list(x.values()):
            spoil(i)
        x.clear()
        x['spoiled'] = 1
        return True
    if isinstance(x, set):
        x.clear()
        x.add('spoiled')
        return True
    if isinstance(x, tuple):
        return any([spoil(i) for i in x])
    name = type(x).__name__
    if name == 'Header':
        for field in ('version', 'timestamp', 'bits', 'nonce', 'height'):
            setattr(x, field, 77)
        x.hash = x.prev_hash = x.merkle_root = bytes(32)
        x.raw = bytes(80)
        return True
    if name == 'Tx':
        spoil(x.inputs)
        spoil(x.outputs)
        x.version, x.locktime = 77, 78
        return True
    if name == 'TxInput':
        x.prev_hash, x.prev_idx, x.sequence = bytes(32), 77, 78
        x.script_sig = type(x.script_sig)(b'\x51')
        return True
    if name == 'TxOutput':
        x.value = 77
        x.script_pubkey = type(x.script_pubkey)(b'\x51')
        return True
    return False


def canon(x):
    '''What a value shows.'''
    if isinstance(x, (bytes, bytearray, memoryview)):
        return ('bytes', bytes(x))
    if x is None or isinstance(x, (bool, int, float, str)):
        return (type(x).__name__, x)
    if isinstance(x, (list, tuple, collections.deque)):
        return [canon(i) for i in x]
    if isinstance(x, dict):
        return sorted((str(k), canon(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    name = type(x).__name__
    if name == 'Header':
        return (name, str(x), bytes(x.raw))
    if name == 'Chain':
        return (name, x.height, x.first_height, x.work, bytes(x.tip.raw))
    if name in ('Tx', 'TxInput', 'TxOutput'):
        return (name, x.to_bytes(), repr(x))
    if hasattr(x, 'to_extended_key_string'):
        return (name, x.to_extended_key_string())
    if hasattr(x, 'to_bytes'):
        return (name, x.to_bytes())
    if hasattr(x, 'public_keys'):
        return (name, [p.to_bytes() for p in x.public_keys], x.threshold, x.to_script_bytes())
    if hasattr(x, 'to_script_bytes'):
        try:
            return (name, x.to_script_bytes())
        except RuntimeError:
            return (name,)
    if isinstance(x, bytes) or hasattr(x, '__bytes__'):
        return (name, bytes(x))
    if name == 'BIP32Derivation':
        return (name, repr(x))
    if name == 'Coin':
        return (name, x.name)
    return (name,)


# --- Calls ------------------------------------------------------------------------------------------

SECRET = bytes(range(7, 39))
POINT = ref.ser_point(ref.ec_mul(int.from_bytes(SECRET, 'big')), True)
POINTS = [ref.ser_point(ref.ec_mul(k), True) for k in (5, 6, 7)]
DER = ref.der_encode(*ref.ecdsa_sign(int.from_bytes(SECRET, 'big'), ref.sha256(b'abc'), 99)[:2])
HEADER = Tree().cp.raw
IV = bytes(range(16))


def recoverable(msg_hash):
    r, s, recid = ref.ecdsa_sign(int.from_bytes(SECRET, 'big'), msg_hash, 99)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid])


RECOVERABLE = recoverable(ref.sha256(b'abc'))
ENCRYPTED = encrypted(ref.ec_mul(int.from_bytes(SECRET, 'big')), 1234, b'hello')
MESSAGE = recoverable(ref.sha256d(b'\x18Bitcoin Signed Message:\n\3abc'))
A_TX = ref.ser_tx((2, (txgen.an_input(1), txgen.an_input(2)), (txgen.an_output(1), txgen.an_output(2)), 9))
SCRIPTS = (b'\x76\xa9\x14' + bytes(range(20)) + b'\x88\xac', b'\xa9\x14' + bytes(range(20)) + b'\x87', b'\x21' + POINT + b'\xac',
           b'\x51' + b''.join(b'\x21' + p for p in POINTS) + b'\x53\xae', b'\x6a\x03abc', b'\x51\x52\x4c\x05abcde')


def key(b):
    return b.PrivateKey(SECRET)


def tx(b):
    return b.Tx.from_bytes(A_TX)


def hd(b):
    return b.BIP32PrivateKey.from_seed(bytes(range(64)), b.Bitcoin)


def words(b):
    return b.Wordlists.bip39_wordlist('english.txt')


def reader(arg):
    return io.BytesIO(arg).read


KEEPS, ONLY_BYTES = set(), set()


def keeps(fn):
    '''A call whose result may hold what it was given (a header its raw bytes).'''
    KEEPS.add(fn.__code__)
    return fn


def only_bytes(fn):
    '''A call which treats other values than bytes as another kind of thing.'''
    ONLY_BYTES.add(fn.__code__)
    return fn


def aes():
    import bitcoinx.aes
    return bitcoinx.aes


def misc(b):
    import bitcoinx.misc
    return bitcoinx.misc


def buffers():
    out = []

    def add(value, *fns):
        out.extend((value, fn) for fn in fns)

    add(b'abc' * 30, *[lambda b, x, n=n: getattr(b, n)(x) for n in (
        'sha1', 'sha256', 'sha512', 'ripemd160', 'double_sha256', 'hash160', 'pack_varbytes', 'be_bytes_to_int',
        'le_bytes_to_int', 'base58_encode', 'base58_encode_check', 'push_item', 'push_and_drop_item')])
    add(ref.sha256(b''), *[lambda b, x, n=n: getattr(b, n)(x) for n in ('hash_to_hex_str', 'hash_to_value')])
    add(b'abc', lambda b, x: b.hmac_sha512(x, b'x'), lambda b, x: b.hmac_sha512(b'x', x),
        lambda b, x: b.hmac_sha512_halves(b'x', x), lambda b, x: b.item_to_int(x),
        lambda b, x: key(b).sign(x), lambda b, x: key(b).sign_recoverable(x), lambda b, x: key(b).sign_message(x),
        lambda b, x: key(b).sign_message_to_base64(x), lambda b, x: key(b).public_key.encrypt_message(x),
        lambda b, x: key(b).public_key.encrypt_message(b'abc', x), lambda b, x: key(b).public_key.encrypt_message_to_base64(x),
        lambda b, x: key(b).decrypt_message(key(b).public_key.encrypt_message(b'hello', b'abc'), x),
        lambda b, x: key(b).public_key.verify_der_signature(DER, x),
        lambda b, x: key(b).public_key.verify_message(key(b).sign_message(b'abc'), x),
        lambda b, x: b.PrivateKey.from_arbitrary_bytes(x),
        lambda b, x: b.PublicKey.from_signed_message(key(b).sign_message(b'abc'), x),
        keeps(lambda b, x: list(misc(b).chunks(x, 2))), lambda b, x: b.Script(x), lambda b, x: b.Script() << x,
        lambda b, x: b.Script().push_many([x, x]), lambda b, x: b.TxOutput(5, b.Script(x)))
    add(SECRET, lambda b, x: b.PrivateKey(x), lambda b, x: key(b).add(x), lambda b, x: key(b).multiply(x),
        lambda b, x: key(b).public_key.add(x), lambda b, x: key(b).public_key.multiply(x),
        lambda b, x: key(b).sign(x, None), lambda b, x: key(b).sign_recoverable(x, None),
        lambda b, x: key(b).shared_secret(key(b).public_key, x), lambda b, x: b.BIP32PrivateKey(x, hd(b).derivation(), b.Bitcoin),
        lambda b, x: b.BIP32PrivateKey.from_seed(x, b.Bitcoin), lambda b, x: hd(b).derivation().extended_key(b.Bitcoin, x),
        keeps(lambda b, x: hd(b).derivation().child(x, 5, b'abcd')), lambda b, x: b.sign_der(ref.sha256(b''), x)
        if hasattr(b, 'sign_der') else None)
    add(POINT, lambda b, x: b.PublicKey.from_bytes(x), lambda b, x: b.P2PK_Output(x, b.Bitcoin),
        lambda b, x: b.P2MultiSig_Output([x, POINTS[0]], 1), lambda b, x: b.P2MultiSig_Output.from_template(b'\1', x, b'\1'),
        lambda b, x: hd(b).derivation().extended_key(b.Bitcoin, x))
    add(bytes(range(20)), lambda b, x: b.P2PKH_Address(x, b.Bitcoin), lambda b, x: b.P2SH_Address(x, b.Bitcoin),
        lambda b, x: b.P2PKH_Address(x, b.Bitcoin).to_script(), lambda b, x: b.P2SH_Address(x, b.Bitcoin).to_string())
    add(DER, lambda b, x: b.der_signature_to_compact(x), lambda b, x: key(b).public_key.verify_der_signature(x, b'abc'),
        lambda b, x: b.Signature.from_der_sig(x, 0x41))
    add(DER + b'\x41', lambda b, x: b.Signature(x), only_bytes(lambda b, x: b.Script.op_to_asm_word(x, True)),
        lambda b, x: b.Signature(x).to_compact(), lambda b, x: b.Signature(x).der_signature)
    add(bytes(range(1, 65)), lambda b, x: b.compact_signature_to_der(x))
    add(RECOVERABLE, lambda b, x: key(b).public_key.verify_recoverable_signature(x, b'abc'),
        lambda b, x: b.PublicKey.from_recoverable_signature(x, b'abc'))
    add(bytes([31 + MESSAGE[64]]) + MESSAGE[:64], lambda b, x: b.PublicKey.from_signed_message(x, b'abc'),
        lambda b, x: key(b).public_key.verify_message(x, b'abc'),
        only_bytes(lambda b, x: b.PublicKey.verify_message_and_address(x, b'abc', key(b).public_key.to_address())))
    add(ENCRYPTED, lambda b, x: key(b).decrypt_message(x))
    add(IV, lambda b, x: aes().aes_encrypt_with_iv(x, IV, b'abc'), lambda b, x: aes().aes_encrypt_with_iv(IV, x, b'abc'),
        lambda b, x: aes().aes_encrypt_with_iv(IV, IV, x))
    add(ref.aes_cbc_encrypt(IV, IV, ref.pkcs7(b'hello')), lambda b, x: aes().aes_decrypt_with_iv(IV, IV, x))
    add(HEADER, keeps(lambda b, x: b.Bitcoin.deserialized_header(x, 5)), lambda b, x: b.Bitcoin.header_hash(x),
        keeps(lambda b, x: b.Bitcoin.header_prev_hash(x)), lambda b, x: b.Bitcoin.header_timestamp(x),
        lambda b, x: b.Bitcoin.header_bits(x), lambda b, x: b.Bitcoin.header_work(x), lambda b, x: b.unpack_header(x),
        lambda b, x: b.CheckPoint(bytes(x), 5, 6))
    add(A_TX, lambda b, x: b.Tx.from_bytes(x), lambda b, x: b.Tx.read(reader(x)))
    add(ref.ser_in(txgen.an_input(3)), lambda b, x: b.TxInput.from_bytes(x), lambda b, x: b.TxInput.read(reader(x)))
    add(ref.ser_out(txgen.an_output(3)), lambda b, x: b.TxOutput.from_bytes(x), lambda b, x: b.TxOutput.read(reader(x)))
    add(b'\3abcdef', lambda b, x: b.read_varbytes(reader(x)), lambda b, x: b.read_varint(reader(x)),
        lambda b, x: b.read_list(reader(x), b.read_le_uint16))
    add(bytes.fromhex('0488b21e'), lambda b, x: b.Coin.lookup_xver_bytes(x))
    for s in SCRIPTS:
        add(s, lambda b, x: list(b.Script(x).ops()), lambda b, x: b.classify_output_script(b.Script(x), b.Bitcoin),
            lambda b, x: b.Script(x).to_asm(False), lambda b, x: b.Script(x).to_template(),
            lambda b, x: b.Script(x).to_json(0, False, b.Bitcoin), only_bytes(lambda b, x: b.Script(SCRIPTS[0]) == x),
            lambda b, x: tx(b).signature_hash(1, 5, x, sighash=b.SigHash(0x41)),
            lambda b, x: tx(b).inputs[0].to_bytes_for_signature(5, x))
    return out


def lists():
    out = []

    def add(value, *fns):
        out.extend((value, fn) for fn in fns)

    add(lambda b: [b.PublicKey.from_bytes(p) for p in POINTS], lambda b, x: b.PublicKey.combine_keys(x),
        lambda b, x: b.P2MultiSig_Output(x, 2), lambda b, x: b.P2MultiSig_Output.from_template(b'\2', *x, b'\3'))
    add(lambda b: list(POINTS), lambda b, x: b.P2MultiSig_Output(x, 2), lambda b, x: b.Script().push_many(x),
        lambda b, x: b.push_and_drop_items(x), lambda b, x: b.pack_list(x, b.pack_varbytes))
    add(lambda b: [0, 1, 1 << 31, 7], lambda b, x: b.bip32_build_chain_string(x), lambda b, x: b.bip32_validate_derivation(x),
        lambda b, x: b.pack_list(x, b.pack_le_uint32))
    add(lambda b: [1, b'ab', b.OP_DUP, -5], lambda b, x: b.Script().push_many(x), lambda b, x: b.Script(b'\x51').push_many(x))
    add(lambda b: list(words(b)), lambda b, x: b.BIP39Mnemonic.generate(x), lambda b, x: b.ElectrumMnemonic.generate_new(x),
        lambda b, x: b.BIP39Mnemonic.is_valid(' '.join(['abandon'] * 11 + ['about']), x))
    add(lambda b: tx(b).inputs, lambda b, x: b.Tx.size_io(x, tx(b).outputs), lambda b, x: b.pack_list(x, b.TxInput.to_bytes))
    add(lambda b: tx(b).outputs, lambda b, x: b.Tx.size_io(tx(b).inputs, x), lambda b, x: b.pack_list(x, b.TxOutput.to_bytes))
    return out


def no_arguments():
    m = 'legal winner thank year wave sausage worth useful legal winner thank yellow'
    return [
        lambda b: tx(b).to_json(255, b.Bitcoin), lambda b: tx(b).inputs[0].to_json(255), lambda b: tx(b).outputs[0].to_json(255, b.Bitcoin),
        lambda b: b.Script(SCRIPTS[0]).to_json(255, False, b.Bitcoin), lambda b: b.bip32_decompose_chain_string("m/1/2'/3"),
        lambda b: b.Bitcoin.deserialized_header(HEADER, 3), lambda b: tx(b), lambda b: b.Tx.from_hex(A_TX.hex()),
        lambda b: key(b).public_key.to_point(), lambda b: list(b.Script(SCRIPTS[3]).ops()), lambda b: b.Script(SCRIPTS[3]).to_template(),
        lambda b: b.classify_output_script(b.Script(SCRIPTS[3]), b.Bitcoin), lambda b: b.BIP39Mnemonic.to_seed(m, ''),
        lambda b: b.base58_decode('abcdef'), lambda b: b.PrivateKey.from_WIF(key(b).to_WIF()), lambda b: list(misc(b).chunks([1, 2, 3], 2)),
        lambda b: b.read_list(io.BytesIO(b'\2abcd').read, b.read_le_uint16), lambda b: hd(b).derivation(), lambda b: hd(b).child(5),
        lambda b: key(b).to_bytes(), lambda b: key(b).sign(b'x'), lambda b: key(b).decrypt_message(key(b).public_key.encrypt_message(b'abc')),
        lambda b: b.ElectrumMnemonic.hex_seed_to_old('ab' * 16), lambda b: b.unpack_header(HEADER), lambda b: b.pack_varint(500),
        lambda b: b.int_to_be_bytes(500), lambda b: b.Signature(DER + b'\1').to_compact(), lambda b: tx(b).hash(),
        lambda b: b.Address.from_string(b.P2PKH_Address(bytes(20), b.Bitcoin).to_string(), b.Bitcoin),
        lambda b: b.cashaddr.decode(ref.cash_encode('bitcoincash', 0, bytes(20))) if hasattr(b, 'cashaddr') else None,
    ]


def tasks(tier):
    out = [('buffers', k) for k in range(8)] + [('lists', k) for k in range(4)] + [('none', k) for k in range(2)]
    out += [('pairs', k, tier != 'quick') for k in range(8)] + [('headers', n) for n in range(1, 4 if tier == 'quick' else 5)]
    return out


def run(task, res):
    if task[0] == 'buffers':
        for i in range(task[1], len(buffers()), 8):
            for kind in BUFFERS:
                res.case(buffer_call, i, kind)
    elif task[0] == 'lists':
        for i in range(task[1], len(lists()), 4):
            for kind in LISTS:
                res.case(list_call, i, kind)
    elif task[0] == 'none':
        for i in range(task[1], len(no_arguments()), 2):
            res.case(no_argument, i)
            for j in range(len(no_arguments())):
                if i != j:
                    res.case(no_argument_pair, i, j)
    elif task[0] == 'pairs':
        same = pairs_of()
        for n, (a, c) in enumerate(same):
            if n % 8 == task[1]:
                for kind in BUFFERS:
                    res.case(pair, a, c, kind)
                if task[2]:
                    for x in [y for (z, y) in same if z == c]:
                        for kind in ('bytes', 'bytearray', 'memoryview'):
                            res.case(pair, a, c, x, kind)
    else:
        from .chainmodel import sequences
        for seq in sequences(task[1]):
            res.case(observers, seq)


def pairs_of():
    calls = buffers()
    return [(i, j) for i, (v, _) in enumerate(calls) for j, (w, _) in enumerate(calls) if v == w]


def answer(fn, b, arg):
    entropy.reset()
    try:
        result = fn(b, arg)
    except Exception as e:
        return None, e
    return result, None


def call(fn, b, plain, make):
    '''One call with one kind of argument.'''
    wanted, error = answer(fn, b, plain())
    true(error is None, f'the call is fit for plain arguments: {error!r}')
    want = canon(wanted)
    arg = make(plain())
    before = snapshot(arg)
    result, error = answer(fn, b, arg)
    eq(snapshot(arg), before, 'the argument after the call')
    if error is not None:
        return 'refused'
    if fn.__code__ in KEEPS | ONLY_BYTES and not isinstance(arg, bytes):
        make = bytes
    else:
        eq(canon(result), want, 'the result for another kind of argument')
        spoil(arg)
        eq(canon(result), want, 'the result after the argument was changed')
    spoil(result)
    again, error = answer(fn, b, make(plain()))
    true(error is None, f'the call again: {error!r}')
    eq(canon(again), want, 'the result of the next call, after the first was changed')
    again, error = answer(fn, b, plain())
    eq(canon(again), want, 'the result of the next plain call, after the first was changed')
    return {'accepted': 1, 'states': 6, 'transitions': 6, 'traces': 1}


def buffer_call(i, kind):
    import bitcoinx
    value, fn = buffers()[i]
    return call(fn, bitcoinx, lambda: value, BUFFERS[kind])


def list_call(i, kind):
    import bitcoinx
    value, fn = lists()[i]
    return call(fn, bitcoinx, lambda: value(bitcoinx), LISTS[kind])


def no_argument(i):
    import bitcoinx
    fn = no_arguments()[i]
    first = canon(fn(bitcoinx))
    for _ in range(3):
        entropy.reset()
        result = fn(bitcoinx)
        now = canon(result)
        if _:
            eq(now, first, 'the result after an earlier one was changed')
        first = now
        spoil(result)
    return {'no arguments': 1, 'states': 6, 'transitions': 6, 'traces': 1}


def no_argument_pair(i, j):
    '''The result of one call is changed before another.'''
    import bitcoinx
    one, two = no_arguments()[i], no_arguments()[j]
    entropy.reset()
    want = canon(two(bitcoinx))
    entropy.reset()
    spoil(one(bitcoinx))
    entropy.reset()
    eq(canon(two(bitcoinx)), want, 'the result of a call after that of another was changed')
    return {'no arguments': 1, 'states': 4, 'transitions': 4, 'traces': 1}


def pair(*args):
    '''Two calls or more that share an argument.'''
    import bitcoinx
    *which, kind = args
    calls = buffers()
    value = calls[which[0]][0]
    fns = [calls[i][1] for i in which]
    if kind != 'bytes' and {fn.__code__ for fn in fns} & (KEEPS | ONLY_BYTES):
        kind = 'bytes'
    wants = []
    for fn in fns:
        result, error = answer(fn, bitcoinx, BUFFERS[kind](value))
        wants.append(error is None and canon(result))
    shared = BUFFERS[kind](value)
    results = [answer(fn, bitcoinx, shared)[0] for fn in fns]
    for want, result in zip(wants, results):
        if want:
            eq(canon(result), want, 'the result of a call that shares its argument')
    for n in range(len(fns) - 1):
        spoil(results[n])
        for want, result in zip(wants[n + 1:], results[n + 1:]):
            if want:
                eq(canon(result), want, 'a later result, after an earlier one was changed')
    return {'pair': 1, 'states': 3 * len(fns), 'transitions': 3 * len(fns) - 1, 'traces': 1}


# --- Collections --------------------------------------------------------------------------------------

def observers(seq):
    '''The results of every observer of a collection can be changed.'''
    tree = Tree()
    headers = open_headers(fresh(scratch_file()), tree)
    for parent in seq:
        connect_ok(headers, tree, parent, tree.make(parent, 0))

    def lookups():
        return [
            lambda: headers.longest_chain().parent_heights(),
            lambda: [headers.raw_header_at_height(c, h) for c in headers.chains() for h in range(c.height + 1)],
            lambda: [c.parent_heights() for c in headers.chains()],
            lambda: [c.common_chain_and_height(d) for c in headers.chains() for d in headers.chains()],
        ]
    for n in range(len(lookups())):
        first = canon_chains(lookups()[n]())
        result = lookups()[n]()
        spoil_parents(result)
        eq(canon_chains(lookups()[n]()), first, 'an observer, after its result was changed')
    eq(headers.chain_count(), len(tree.leaves()), 'the number of chains')
    # Raw bytes from a buffer which is then used for another
    buffer = bytearray(tree.make(0, 1))
    raw = bytes(buffer)
    header, chain = headers.connect(buffer)
    buffer[:] = bytes(80)
    found, _ = headers.lookup(ref.sha256d(raw))
    eq((found.raw, found.hash, header.hash), (raw, ref.sha256d(raw), ref.sha256d(raw)), 'the header, after the buffer was used again')
    eq(bytes(chain.tip.raw), raw, 'the tip')
    eq(headers.raw_header_at_height(chain, header.height), raw, 'the stored header')
    close_headers(headers)
    return {'observer': 1, 'states': len(seq) + 10, 'transitions': len(seq) + 9, 'traces': 1}


def canon_chains(x):
    if isinstance(x, dict):
        return sorted((c.height, c.first_height, bytes(c.tip.raw), h) for c, h in x.items())
    return [canon_chains(i) if isinstance(i, (list, dict)) else canon(i) for i in x]


def spoil_parents(x):
    if isinstance(x, dict):
        x.clear()
    elif isinstance(x, list):
        for i in x:
            spoil_parents(i)
        x.clear()
