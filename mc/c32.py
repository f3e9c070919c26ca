'''C32: printed forms and error texts tell the truth.'''

import ast
import io
import itertools
import re

from . import ref, txgen
from .common import eq, true, Mismatch, show
from .chainmodel import (
    config, open_headers, check_tree, connect_ok, scratch_file, fresh, sequences, close_headers,
    mine, toy_coin, pack_header, EASY, MID, HARD,
)

LEVEL = 'exploration'
RULE = ('The text of headers with every combination of boundary fields, and after every sequence of '
        'printing and changing fields up to length four (thorough: five); of every chain, and of every '
        'refusal, in every tree of up to 4 (5) headers in every arrival order; of derivations, extended '
        'keys, transactions and their parts, scripts, addresses, keys, signatures and all 256 signature '
        'hash types; and of each error that names a value.  Every field a text names is parsed back '
        'and compared with the value, and printing changes nothing.  Non-trivial: all.')
EXPECT = ('header', 'edited header', 'chain', 'derivation', 'extended key', 'transaction', 'sighash',
          'value', 'signature', 'error', 'refusal')

N = ref.N
VERSIONS = (1, 0, 2, 0x20000000, 0x7fffffff, -1, -(1 << 31))
HASHES = (ref.sha256(b'a'), bytes(32), bytes(range(32)))
TIMES = (0, 1, 1_300_000_000, (1 << 32) - 1)
BITS = (0x1d00ffff, 0x207fffff, 0, 10, 0xffffffff)
NONCES = (0, 1, (1 << 32) - 1)
HEIGHTS = (-1, 0, 1, 500_000, 1 << 31)
FIELDS = ('version', 'prev_hash', 'merkle_root', 'timestamp', 'bits', 'nonce', 'hash', 'height')


def tasks(tier):
    quick = tier == 'quick'
    out = [('headers', v) for v in range(len(VERSIONS))]
    out += [('edits', f, 4 if quick else 5) for f in range(len(EDITS))]
    for n in range(1, 5 if quick else 6):
        for cfg in ('genesis', 'cp5', 'nocache'):
            out += [('trees', cfg, n)] if n < 4 else [
                ('trees', cfg, n, list(p)) for p in sequences(3)]
    out += [('refusals',), ('notation',), ('derivations',), ('extended',), ('sighash',), ('errors',)]
    out += [('txs', k) for k in range(8)] + [('values', k) for k in range(4)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'headers':
        for rest in itertools.product(*(range(len(x)) for x in (
                HASHES, HASHES, TIMES, BITS, NONCES, HEIGHTS))):
            res.case(header, task[1], *rest)
    elif kind == 'edits':
        for rest in itertools.product(range(len(EDITS)), repeat=task[2] - 1):
            res.case(edited, (task[1],) + rest)
    elif kind == 'trees':
        for seq in sequences(task[2]):
            if len(task) < 4 or list(seq[:3]) == task[3]:
                res.case(tree_texts, task[1], seq)
    elif kind == 'refusals':
        for bits in range(0, 1 << 32, 0x01fffe13):
            res.case(refusal, bits)
        for bits in (0, 9, 10, EASY, MID, HARD, 0x1d00ffff, 486604799, (1 << 32) - 1):
            res.case(refusal, bits)
    elif kind == 'notation':
        res.case(refusal_notation)
    elif kind == 'derivations':
        for args in itertools.product(range(3), (0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1),
                                      (0, 1, 3, 255), range(3)):
            res.case(derivation, *args)
    elif kind == 'extended':
        for args in itertools.product((1, 2, N - 1, 77), range(4), (0, 1, 255), (0, 5, 1 << 31)):
            res.case(extended, *args)
    elif kind == 'sighash':
        for n in range(256):
            res.case(sighash, n)
            for first in (0, 1):
                res.case(signature, n, first)
    elif kind == 'errors':
        for i in range(len(ERRORS)):
            res.case(error, i)
    elif kind == 'txs':
        for i, args in enumerate(itertools.product(range(3), range(3), range(4), range(3), range(5))):
            if i % 8 == task[1]:
                res.case(tx_text, *args)
    else:
        for i in range(task[1], len(VALUES), 4):
            for used in (False, True):
                res.case(value_text, i, used)


# --- Headers ------------------------------------------------------------------------------------

def number(text, what):
    '''An integer, in the notation its prefix names.'''
    text = text.replace(',', '').replace('0x-', '-0x')
    try:
        return int(text, 0)
    except ValueError:
        pass
    raise Mismatch(f'{what} is not a number: {text}')


def header_fields(text):
    '''The name=value pairs of the text of a header.'''
    found = {}
    for name, value in re.findall(r'(\w+) ?[=:] ?([^\s,()]+)', text):
        if name in FIELDS:
            true(name not in found, f'{name} is shown once')
            found[name] = value
    return found


def header_text(text, h, what):
    found = header_fields(text)
    for name in FIELDS:
        true(name in found, f'{what}: {name} is shown in {text}')
        got, value = found[name], getattr(h, name)
        if isinstance(value, int):
            eq(number(got, name), value, f'{what}: {name}')
        else:
            eq(got.strip('"\'').lower(), bytes(value)[::-1].hex(), f'{what}: {name}')


def raw_of(v, p, m, t, b, n):
    return pack_header(VERSIONS[v], HASHES[p], HASHES[m], TIMES[t], BITS[b], NONCES[n])


def texts(x):
    yield 'str', str(x)
    yield 'f-string', f'{x}'
    yield '%s', '%s' % (x,)
    yield 'format', '{}'.format(x)
    out = io.StringIO()
    print(x, end='', file=out)
    yield 'print', out.getvalue()


def header(v, p, m, t, b, n, height):
    from bitcoinx import Bitcoin
    raw = raw_of(v, p, m, t, b, n)
    h = Bitcoin.deserialized_header(raw, HEIGHTS[height])
    for what, text in texts(h):
        header_text(text, h, what)
    plain = (VERSIONS[v], HASHES[p], HASHES[m], TIMES[t], BITS[b], NONCES[n], ref.sha256d(raw), raw,
             HEIGHTS[height])
    eq((h.version, h.prev_hash, h.merkle_root, h.timestamp, h.bits, h.nonce, h.hash, h.raw, h.height),
       plain, 'the header after printing')
    eq(h.hex_str(), ref.sha256d(raw)[::-1].hex(), 'hex_str')
    eq(h.hash_value(), int.from_bytes(ref.sha256d(raw), 'little'), 'hash_value')
    return 'header'


EDITS = (('version', 7), ('version', 0x20000004), ('prev_hash', HASHES[2]), ('merkle_root', HASHES[2]),
         ('timestamp', 12345), ('bits', 0x1c00ffff), ('nonce', 99), ('hash', HASHES[0]), ('height', 44),
         ('height', 45), (None, None))


def edited(edits):
    '''Printing between changes; another header with the same raw bytes is not affected.'''
    from bitcoinx import Bitcoin
    raw = raw_of(0, 0, 1, 2, 0, 1)
    h, other = Bitcoin.deserialized_header(raw, 5), Bitcoin.deserialized_header(raw, 6)
    alone = str(other)
    values = {name: getattr(h, name) for name in FIELDS}
    header_text(str(h), h, 'at first')
    for i in edits:
        name, value = EDITS[i]
        if name:
            setattr(h, name, value)
            values[name] = value
        header_text(str(h), h, f'after changing {name}')
        eq({name: getattr(h, name) for name in FIELDS}, values, 'the fields')
        eq(h.hex_str(), values['hash'][::-1].hex(), 'hex_str')
        eq(h.hash_value(), int.from_bytes(values['hash'], 'little'), 'hash_value')
    eq(str(other), alone, 'the text of another header')
    return 'edited header'


# --- Chains and refusals -------------------------------------------------------------------------

def numbers(text):
    '''The numbers of a text, in any notation, apart from those in a header's.'''
    text = re.sub(r'Header\(.*?\)', ' ', text)
    out = set()
    for word in re.findall(r'[0-9a-zA-Z_,.+-]+', text):
        word = word.strip(',.').replace(',', '').replace('0x-', '-0x')
        for base in (0, 10, 16):
            try:
                out.add(int(word, base))
            except ValueError:
                pass
    return out


def chain_text(chain, node, what):
    text = chain.desc()
    header_text(text, chain.tip, what)
    eq(chain.tip.hash, node.hash, 'the tip')
    m = re.search(r'log2_work ?[=:] ?([-+.\d]+)', text)
    true(m is not None, f'{what}: log2_work is shown in {text}')
    import math
    true(abs(float(m.group(1)) - math.log2(node.total)) < 1e-6, f'{what}: log2_work')


def all_texts(headers, tree, counts):
    '''The texts of every chain, and of the refusal of every kind of bad header at every place.'''
    from bitcoinx import IncorrectBits, InsufficientPoW, MissingHeader
    leaves = {n.hash: n for n in tree.leaves()}
    for chain in headers.chains():
        chain_text(chain, leaves[chain.tip.hash], 'desc')
        counts['chain'] += 1
        for height in (chain.height + 1, chain.height + 1000, -1):
            e = refused(MissingHeader, headers.header_at_height, chain, height)
            true(height in numbers(str(e)), f'the missing height {height} is named: {e}')
    for k, node in enumerate(tree.nodes):
        need = node.required(node.ts + 600)
        bad = next(b for b in (EASY, MID, HARD) if b != need)
        merkle = ref.sha256(b'refused %d' % k)
        raw = mine(node.hash, merkle, node.ts + 600, bad)
        e = refused(IncorrectBits, headers.connect, raw)
        refusal_text(e, raw, node.height + 1)
        eq(e.required_bits, need, 'required_bits of the error')
        shows_bits(str(e), need)
        raw = mine(node.hash, merkle, node.ts + 600, need, good=False)
        e = refused(InsufficientPoW, headers.connect, raw)
        refusal_text(e, raw, node.height + 1)
        shown = numbers(str(e))
        true(int.from_bytes(ref.sha256d(raw), 'little') in shown, f'the hash value is shown: {e}')
        true(ref.compact_decode(need) in shown, f'the target is shown: {e}')
        raw = mine(merkle, merkle, node.ts + 600, EASY)
        for fn, arg, missing in ((headers.connect, raw, merkle), (headers.lookup, merkle, merkle)):
            e = refused(MissingHeader, fn, arg)
            true(missing[::-1].hex() in str(e).lower(), f'the missing hash is named: {e}')
        counts['refusal'] += 4


def refused(exc, fn, *args):
    try:
        fn(*args)
    except exc as e:
        return e
    raise Mismatch(f'{exc.__name__} is raised')


def refusal_text(e, raw, height):
    h = e.header
    eq((h.raw, h.height, h.hash), (raw, height, ref.sha256d(raw)), 'the header of the error')
    for what, text in texts(e):
        header_text(text, h, f'error {what}')
    eq(str(type(e)(*e.args)), str(e), 'the text of an equal error')


def shows_bits(text, bits):
    '''The bits required are shown, in hexadecimal or (refusal_notation) in decimal.'''
    rest = re.sub(r'Header\(.*?\)', ' ', text)
    m = re.search(r'\b(?:0x)?([0-9a-fA-F]+)$', rest.strip().rstrip('.'))
    true(m is not None, f'the required bits are shown: {text}')
    true(m.group(1).lower().lstrip('0') in (f'{bits:x}', str(bits), '') and (bits or m.group(1).strip('0') == ''),
         f'the required bits 0x{bits:x} are shown: {text}')


def tree_texts(cfg, seq):
    tree, cache, clear = config(cfg)
    headers = open_headers(fresh(scratch_file()), tree, cache)
    counts = {'chain': 0, 'refusal': 0}
    all_texts(headers, tree, counts)
    for i, parent in enumerate(seq):
        connect_ok(headers, tree, parent, tree.make(parent, i % 3))
        if i >= len(seq) - 2:
            all_texts(headers, tree, counts)
    check_tree(headers, tree, deep=False)
    close_headers(headers)
    return counts


def refusal(bits):
    from bitcoinx import IncorrectBits, InsufficientPoW
    raw = raw_of(0, 0, 1, 2, 0, 1)
    h = toy_coin().deserialized_header(raw, 9)
    e = IncorrectBits(h, bits)
    refusal_text(e, raw, 9)
    shows_bits(str(e), bits)
    if bits not in (EASY, MID, HARD, 0x1d00ffff):
        return 'refusal'
    raw = pack_header(1, HASHES[0], HASHES[1], 5, bits, 7)
    e = InsufficientPoW(toy_coin().deserialized_header(raw, 9))
    refusal_text(e, raw, 9)
    shown = numbers(str(e))
    true(ref.compact_decode(bits) in shown and int.from_bytes(ref.sha256d(raw), 'little') in shown,
         f'hash value and target are shown: {e}')
    return 'refusal'


def refusal_notation():
    '''What follows 0x is hexadecimal.'''
    from bitcoinx import IncorrectBits
    h = toy_coin().deserialized_header(raw_of(0, 0, 1, 2, 0, 1), 9)
    for bits in (0x1d00ffff, EASY, MID, 0x1b0404cb):
        text = re.sub(r'Header\(.*?\)', ' ', str(IncorrectBits(h, bits)))
        for word in re.findall(r'\b0x([0-9a-fA-F]+)', text):
            eq(int(word, 16), bits, 'the required bits shown after 0x')


# --- Keys and derivations --------------------------------------------------------------------------

def derivation(code, n, depth, parent):
    from bitcoinx.bip32 import BIP32Derivation
    d = BIP32Derivation(HASHES[code], n, depth, HASHES[parent][:4])
    eq(eval(repr(d), {'BIP32Derivation': BIP32Derivation, 'bytes': bytes}), d, 'repr evaluates to an equal derivation')
    eq((d.chain_code, d.n, d.depth, d.parent_fingerprint), (HASHES[code], n, depth, HASHES[parent][:4]),
       'the derivation after printing')
    return 'derivation'


def extended(secret, coin, depth, n):
    import bitcoinx
    coin = bitcoinx.all_coins[coin % len(bitcoinx.all_coins)]
    raw = (coin.xpub_verbytes + bytes([depth]) + (b'abcd' if depth else bytes(4)) + n.to_bytes(4, 'big')
           + ref.sha256(b'%d' % n) + ref.ser_point(ref.ec_mul(secret), True))
    text = ref.b58c_encode(raw)
    key = bitcoinx.bip32_key_from_string(text)
    for what, shown in texts(key):
        eq(shown, text, f'{what} of an extended public key')
    cls = {'BIP32PublicKey': bitcoinx.bip32_key_from_string}
    again = eval(repr(key), cls)
    eq(again.to_extended_key_string(), text, 'repr of an extended public key')
    derived = key.derivation()
    eq((derived.chain_code, derived.n, derived.depth), (ref.sha256(b'%d' % n), n, depth), 'derivation')
    eq(key.to_hex(), ref.ser_point(ref.ec_mul(secret), True).hex(), 'to_hex after printing')
    # The text of a private one tells keys apart, and is that of the plain key
    priv = bitcoinx.bip32_key_from_string(ref.b58c_encode(
        coin.xprv_verbytes + raw[4:45] + b'\0' + secret.to_bytes(32, 'big')))
    eq(str(priv), str(bitcoinx.PrivateKey.from_int(secret)), 'the text of a private key')
    true(str(priv) != str(bitcoinx.PrivateKey.from_int(secret + 1 if secret < 99 else 99)),
         'texts of different private keys differ')
    true(str(priv) in repr(priv), 'repr of an extended private key shows its text')
    return 'extended key'


# --- Transactions ----------------------------------------------------------------------------------

SPACE = dict(Tx=lambda **kw: ('tx', kw), TxInput=lambda **kw: ('in', kw), TxOutput=lambda **kw: ('out', kw))


def parsed(text, names):
    '''The keyword arguments of a constructor-like text.'''
    try:
        ast.parse(text, mode='eval')
        kind, kw = eval(text, dict(SPACE))
    except (SyntaxError, TypeError, NameError, ValueError) as e:
        raise Mismatch(f'not constructor-like: {show(text)}: {e}') from None
    for name in names:
        true(name in kw, f'{name} is shown')
    return kind, kw


def check_in(kw, one):
    h, idx, script, seq = one
    eq((kw['prev_hash'].lower(), kw['prev_idx'], kw['script_sig'].lower(), kw['sequence']),
       (h[::-1].hex(), idx, script.hex(), seq), 'the fields of an input shown')


def check_out(kw, one):
    eq((kw['value'], kw['script_pubkey'].lower()), (one[0], one[1].hex()), 'the fields of an output shown')


def check_tx(tx, plain):
    kind, kw = parsed(repr(tx), ('version', 'inputs', 'outputs', 'locktime'))
    eq((kind, kw['version'], kw['locktime'], len(kw['inputs']), len(kw['outputs'])),
       ('tx', plain[0], plain[3], len(plain[1]), len(plain[2])), 'the fields of a transaction shown')
    for (_, shown), one, obj in zip(kw['inputs'], plain[1], tx.inputs):
        check_in(shown, one)
        check_in(parsed(repr(obj), shown)[1], one)
    for (_, shown), one, obj in zip(kw['outputs'], plain[2], tx.outputs):
        check_out(shown, one)
        check_out(parsed(repr(obj), shown)[1], one)
    eq(txgen.plain(tx), plain, 'the transaction after printing')


def tx_text(nin, nout, a, b, edit):
    from bitcoinx import Script
    ins = tuple((txgen.HASHES[(a + i) % 3], txgen.INDICES[(a + i) % 4],
                 txgen.script((0, 3, 80, 300)[(b + i) % 4], i), txgen.SEQUENCES[(a + b + i) % 5])
                for i in range(nin))
    outs = tuple((txgen.VALUES[(2 * a + b + i) % 7], txgen.script((0, 25, 255)[(a + i) % 3], i + 9))
                 for i in range(nout))
    plain = (txgen.VERSIONS[(a + b) % 6], ins, outs, txgen.LOCKTIMES[(a + 2 * b) % 5])
    tx = txgen.real(plain)
    check_tx(tx, plain)
    v, ins, outs, lock = plain[0], list(ins), list(outs), plain[3]
    if edit == 0:
        tx.version = v = 77
        tx.locktime = lock = 99
    elif edit == 1 and ins:
        tx.inputs[-1].sequence = 5
        tx.inputs[-1].prev_idx = 6
        ins[-1] = (ins[-1][0], 6, ins[-1][2], 5)
    elif edit == 2 and ins:
        tx.inputs[0].script_sig = Script(b'\x51')
        tx.inputs[0].prev_hash = bytes(range(32))
        ins[0] = (bytes(range(32)), ins[0][1], b'\x51', ins[0][3])
    elif edit == 3 and outs:
        tx.outputs[0].value = 8
        tx.outputs[-1].script_pubkey = Script(b'\x52')
        outs[0] = (8, outs[0][1])
        outs[-1] = (outs[-1][0], b'\x52')
    elif outs:
        tx.outputs.append(tx.outputs[0])
        tx.inputs.reverse()
        outs.append(outs[0])
        ins.reverse()
    check_tx(tx, (v, tuple(ins), tuple(outs), lock))
    return 'transaction'


# --- Signature hash types, signatures --------------------------------------------------------------

NAMES = {'ALL': 1, 'NONE': 2, 'SINGLE': 3, 'ANYONE_CAN_PAY': 0x80, 'FORKID': 0x40}


def shown_type(text):
    total = 0
    for part in filter(None, text.split('|')):
        n = NAMES[part] if part in NAMES else number(part, 'the rest of a signature hash type')
        true(total & n == 0, f'no part is shown twice: {text}')
        total += n
    return total


def sighash(n):
    from bitcoinx import SigHash
    s = SigHash(n)
    eq(shown_type(s.to_string()), n, 'the signature hash type shown')
    eq(int(s), n, 'the type after printing')
    return 'sighash'


def signature(n, first):
    from bitcoinx import Signature, Script
    from bitcoinx.script import push_item
    der = ref.der_encode((N - 2, 1)[first], (1, 1 << 200)[first])
    sig = Signature(der + bytes([n]))
    script = Script(push_item(der + bytes([n])))
    for text in (sig.to_string(), script.to_asm(True)):
        m = re.fullmatch(r'([0-9a-f]+)\[(.*)\]', text)
        true(m is not None, f'a signature is shown as its bytes and its type: {text}')
        eq((m.group(1), shown_type(m.group(2))), (der.hex(), n), 'the signature shown')
    eq(script.to_asm(False), (der + bytes([n])).hex(), 'a signature shown as data')
    eq(bytes(sig), der + bytes([n]), 'the signature after printing')
    return 'signature'


# --- Other values ------------------------------------------------------------------------------------

def values():
    for k in (1, 2, 3, N - 1, 1 << 200):
        pt = ref.ec_mul(k)
        for compressed in (True, False):
            raw = ref.ser_point(pt, compressed)
            yield ('public', raw), lambda b, raw=raw: b.PublicKey.from_bytes(raw), raw.hex()
    for n in (0, 1, 75, 80, 520, 65_536):
        raw = txgen.script(n)
        yield ('script', n), lambda b, raw=raw: b.Script(raw), raw.hex()
        yield ('input', n), lambda b, raw=raw: b.TxInput(HASHES[0], 1, b.Script(raw), 2).script_sig, raw.hex()
    for k in range(3):
        for i, (kh, sh) in enumerate(((0, 5), (111, 196))):
            h = ref.hash160(b'%d' % k)
            coin = lambda b, i=i: (b.Bitcoin, b.BitcoinTestnet)[i]
            prefix = ('bitcoincash', 'bchtest')[i]
            yield ('kh', i, k), lambda b, h=h, coin=coin: b.P2PKH_Address(h, coin(b)), ref.b58c_encode(bytes([kh]) + h)
            yield ('sh', i, k), lambda b, h=h, coin=coin: b.P2SH_Address(h, coin(b)), ref.b58c_encode(bytes([sh]) + h)


VALUES = list(values())
USES = ('hash', 'repr', 'to_bytes', 'to_hex', 'to_script', 'hash160', 'P2PKH_script', 'to_address', 'coin')


def value_text(i, used):
    import bitcoinx
    _, make, want = VALUES[i]
    x = make(bitcoinx)
    other = make(bitcoinx)
    if used:
        for use in USES:
            fn = {'hash': hash, 'repr': repr}.get(use)
            if fn:
                fn(x)
            elif hasattr(x, use):
                getattr(x, use)()
    for what, text in texts(x):
        eq(text, want, what)
    eq(x == other and other == x, True, 'the value after printing')
    return 'value'


# --- Errors that name a value -------------------------------------------------------------------------

def b32(n):
    return n.to_bytes(32, 'big')


def template(b, keys, threshold, count):
    return b.P2MultiSig_Output.from_template(b.push_int(threshold)[1:] or bytes([threshold]), *keys, bytes([count]))


def keys(n):
    return [ref.ser_point(ref.ec_mul(k + 1), True) for k in range(n)]


def small_headers(height):
    tree, cache, _ = config('cp5')
    return open_headers(fresh(scratch_file('e')), tree, cache).set_one(height, bytes(80))


def a_tx():
    return txgen.real((1, (txgen.an_input(0),), (txgen.an_output(0),), 0))


def sign_hash(index, value):
    from bitcoinx import Script, SigHash
    return a_tx().signature_hash(index, value, Script(b''), sighash=SigHash(0x41))


def words(n):
    from bitcoinx import BIP39Mnemonic
    return BIP39Mnemonic.generate(['w%d' % i for i in range(n)])


ERRORS = tuple(
    [(lambda b, n=n: b.bits_to_target(n), {n}) for n in (-1, 0x2100ffff + 1, 1 << 40, 0x1d000001, 0x01800001, 0x1dffffff)]
    + [(lambda b, n=n: b.target_to_bits(n), {n}) for n in (-1, 1 << 256, (1 << 257) + 5)]
    + [(lambda b, n=n: b.varint_len(n), {n}) for n in (-1, 1 << 64, -(1 << 70))]
    + [(lambda b, n=n: b.read_varbytes(io.BytesIO(b.pack_varint(n) + b'abc').read), {n}) for n in (4, 252, 253, 5000, 70_000)]
    + [(lambda b, n=n, m=m: b.P2MultiSig_Output(keys(n), m), {n, m}) for n, m in ((0, 1), (1, 0), (2, 3), (3, 17), (3, -1))]
    + [(lambda b, n=n, m=m: template(b, keys(n), 1, m), {n, m}) for n, m in ((1, 2), (3, 2), (2, 16))]
    + [(lambda b, n=n: b.bip32_key_from_string(XPUB).child(n), {n}) for n in (-1, 1 << 31, (1 << 32) + 7)]
    + [(lambda b, n=n: xprv(b, 5).child(n), {n}) for n in (-1, 1 << 32, 1 << 40)]
    + [(lambda b, n=n: xprv(b, 5, n), {n}) for n in (1, 2, 255)]
    + [(lambda b, n=n: sign_hash(n, 5), {n}) for n in (1, -1, 70)]
    + [(lambda b, n=n: sign_hash(0, n), {n}) for n in (-1, -5000)]
    + [(lambda b, n=n: b.BIP39Mnemonic.generate(WORDS, n), {n}) for n in (0, 127, 129, 512)]
    + [(lambda b, n=n: words(n), {n}) for n in (0, 2047, 2049)]
    + [(lambda b, n=n: b.ElectrumMnemonic.generate_new(WORDS, bits=n), {n}) for n in (0, 131, -1)]
    + [(lambda b, n=n: small_headers(n), {n}) for n in (-1, 6, 1000, 123_456)]
    + [(lambda b, n=n: b.Address.from_string(ref.b58c_encode(bytes([n]) + bytes(20)), b.Bitcoin), {n, 'Bitcoin mainnet'})
       for n in (1, 111, 255)]
    + [(lambda b, n=n: b.Coin.from_WIF_byte(n), {n}) for n in (0, 5, 255)]
    + [(lambda b, c=c: b.base58_decode('abc' + c + 'z'), {c}) for c in '0OIl+é']
    + [(lambda b, w=w: b.Script.from_asm('OP_DUP ' + w), {w}) for w in ('OP_WHAT', 'xyz', 'OP_', 'abg0')]
    + [(lambda b, w=w: b.bip32_decompose_chain_string(w), {w}) for w in ('m/x', 'n', 'm/1/zz', 'q/1')]
)
WORDS = ['w%d' % i for i in range(2048)]
XPUB = ref.b58c_encode(bytes.fromhex('0488b21e') + bytes([1]) + b'abcd' + bytes(4) + ref.sha256(b'')
                       + ref.ser_point(ref.ec_mul(3), True))


def xprv(b, secret, prefix=0):
    return b.bip32_key_from_string(ref.b58c_encode(
        b.Bitcoin.xprv_verbytes + bytes([1]) + b'abcd' + bytes(4) + ref.sha256(b'')
        + bytes([prefix]) + b32(secret)))


def error(i):
    '''An error whose text names values names those given.'''
    import bitcoinx
    fn, want = ERRORS[i]
    first = None
    for _ in range(2):
        try:
            fn(bitcoinx)
        except Exception as e:
            text = str(e)
        else:
            raise Mismatch('an error is raised')
        first = first or text
        eq(text, first, 'the text of the error, again')
    shown = numbers(text)
    for v in want:
        true(v in shown if isinstance(v, int) else v in text, f'{v!r} is named in: {text}')
    return 'error'
