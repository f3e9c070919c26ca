'''C27: first use of shared state from several threads is safe.'''

import functools
import itertools
import json
import os
import threading

from . import ref, txgen
from .chainmodel import config, Tree, toy_coin, toy_required_bits
from .common import eq, entropy, Mismatch
from .sched import Scheduler, Snapshot, watch

LEVEL = 'exploration'
RULE = ('Pairs of calls run in two threads under a scheduler that lets one run at a time and switches '
        'at chosen lines (or instructions) of the library, the process-wide state of the library '
        'being put back to that of a fresh process before each execution: every schedule with up to '
        'n preemptions of every pair.  Each call must give what it gives alone in a fresh process, '
        'and again afterwards.  The pairs are those sharing an object or lazily computed state (two '
        'preemptions; at instructions, one), every ordered pair of a battery of calls from every '
        'part of the library (one preemption; thorough: two), and single calls preempted, at each '
        'line, by a great many others of their kind.  A line of one function call counts as a '
        'scheduling point twice at most.  Non-trivial: at least one preemption.')
EXPECT = ('schedule',)
ASSUMES = ('a thread is only preempted between lines or instructions of the library itself',
           'the header collection is only read, not added to, by several threads')

H = 1 << 31


def hx(x):
    return bytes(x).hex()


# --- The battery --------------------------------------------------------------------------------

def secret(k):
    from bitcoinx import PrivateKey
    return PrivateKey((1234567 + 1111 * k).to_bytes(32, 'big'))


def standard(k):
    '''Standard outputs of each kind.'''
    from bitcoinx import Script
    return Script(standard_raw(k % 6))


@functools.lru_cache(None)
def standard_raw(k):
    pub = [secret(j).public_key.to_bytes() for j in range(3)]
    h = ref.hash160(pub[k % 3])
    return (b'\x76\xa9\x14' + h + b'\x88\xac', b'\xa9\x14' + h + b'\x87', b'\x21' + pub[k % 3] + b'\xac',
            b'\x52\x21' + pub[0] + b'\x21' + pub[1] + b'\x21' + pub[2] + b'\x53\xae',
            b'\x6a\x04data', b'\x51\x51')[k]


def classified(script, coin):
    from bitcoinx import classify_output_script
    out = classify_output_script(script, coin)
    return type(out).__name__, hx(out.to_script()) if out.KIND != 'unknown' else '', \
        out.coin().name if hasattr(out, 'coin') and callable(out.coin) else ''


def coins(k):
    import bitcoinx
    return (bitcoinx.Bitcoin, bitcoinx.BitcoinTestnet, bitcoinx.BitcoinScalingTestnet,
            bitcoinx.BitcoinRegtest)[k % 4]


def a_tx(k):
    n = 1 + k % 3
    return (1 + k, tuple(txgen.an_input(j + k) for j in range(n)),
            tuple((5000 + j + k, bytes(standard(j + k))) for j in range(n + 1)), 77 * k)


def op_classify(k):
    script = standard(k)
    return lambda: classified(script, coins(k // 2))


def op_tx_bytes(k):
    raw = ref.ser_tx(a_tx(k))

    def call():
        from bitcoinx import Tx
        tx = Tx.from_bytes(raw)
        return hx(tx.to_bytes()), tx.hex_hash(), tx.size(), tx.total_output_value()
    return call


def op_sighash(k):
    def call():
        from bitcoinx import SigHash
        tx = txgen.real(a_tx(k))
        return [hx(tx.signature_hash(0, 1000 + k, standard(k), sighash=SigHash(sighash)))
                for sighash in (0x41 + k % 3, 0x41, 0xc3 - k % 3)] + [hx(tx.signature_hash(0, 7 + k, standard(k)))]
    return call


def op_tx_json(k):
    def call():
        from bitcoinx import JSONFlags
        tx = txgen.real(a_tx(k))
        flags = (JSONFlags.CLASSIFY_OUTPUT_SCRIPT + JSONFlags.ENUMERATE_INPUTS,
                 JSONFlags.ENUMERATE_OUTPUTS + JSONFlags.SIZE)[k % 2]
        return [json.dumps(tx.to_json(flags, coins(k))), tx.outputs[0].to_json(flags, coins(k), (None, 3)[k % 2]),
                tx.inputs[0].to_json(flags, (4, None)[k % 2])]
    return call


def op_ops(k):
    from bitcoinx import Script
    s = Script((b'\x51\x02ab\x4c\x03abc\x76\x00', b'\x03xyz\x4d\x01\x00q\x87\x60')[k % 2])
    signed = Script(b'\x09' + bytes.fromhex(('300602010102010141', '300602010202010342')[k % 2]) + b'\x51')
    cut = Script((b'\x03ab', b'\x02ab')[k % 2])
    return lambda: ([x if isinstance(x, int) else hx(x) for x in s.ops()], signed.to_asm(k % 2 == 0),
                    hx(s.to_template()[0]), s.to_asm(k % 2 == 1), str(cut.to_template()), cut.to_asm(k % 2 == 0))


def op_compose(k):
    def call():
        from bitcoinx import Script, Ops
        s = Script() << Ops.OP_DUP << 17 + k << b'abc' * (k + 1)
        return hx(s.push_many([b'', 300 * (k + 1), Ops.OP_1, b'z' * (76 + k)]))
    return call


def op_asm(k):
    def call():
        from bitcoinx import Script
        return hx(Script.from_asm(('OP_DUP 0a0b -5 17 OP_EQUAL', '1 00ff OP_HASH160 400')[k % 2]))
    return call


def op_push(k):
    def call():
        from bitcoinx import push_item, push_int, item_to_int, push_and_drop_items
        return (hx(push_item(b'a' * (70 + 7 * k))), hx(push_int(-70000 - k)),
                item_to_int(b'\x01\x02' + bytes([k])), hx(push_and_drop_items([b'x'] * (k + 2))))
    return call


def op_address(k):
    texts = [ref.b58c_encode(bytes([(0, 196, 5, 111)[k % 4]]) + ref.hash160(b'%d' % k)),
             ref.b58c_encode(bytes([(0, 5)[k % 2]]) + ref.hash160(b'q%d' % k)), ref.b58c_encode(bytes(21 + k % 2))]

    def call():
        from bitcoinx import Address, P2PKH_Address, P2SH_Address
        out = []
        for text in texts:
            try:
                a = Address.from_string(text, coins(k % 2))
                out.append((type(a).__name__, a.to_string(), hx(a.to_script()), a.coin().name))
            except ValueError as e:
                out.append(str(e))
        return out, hx(P2PKH_Address(bytes([k]) * 20, coins(k)).to_script()), \
            P2SH_Address(bytes([3 + k]) * 20, coins(k)).to_string()
    return call


def op_cashaddr(k):
    import bitcoinx.cashaddr as cashaddr
    prefix = ('bitcoincash', 'bchtest')[k % 2]
    good = ref.cash_encode(prefix, k % 2, ref.hash160(b'%d' % k))
    bad = good[:-1] + ('q' if good[-1] != 'q' else 'p')
    long = ref.cash_payload_encode(prefix, ref.to5(bytes([2]) + bytes(20 + 8 * (k % 2))))
    texts = [(good, bad)[k % 2], (bad, good)[k % 2], good.upper(), good[len(prefix) + 1:],
             ('bchtest', 'bitcoincash')[k % 2] + good[len(prefix):], long, (good, good[:-1] + 'B')[k % 2],
             (ref.cash_encode('bchtest', 0, ref.hash160(b'z')), bad)[k % 2]]

    def call():
        from bitcoinx import Address
        out = []
        for text in texts:
            for read in (lambda t: Address.from_string(t, coins(k)), cashaddr.decode):
                try:
                    got = read(text)
                    out.append((type(got).__name__, hx(got.hash160())) if read is not cashaddr.decode else str(got))
                except ValueError as e:
                    out.append(str(e))
        return out
    return call


def op_base58(k):
    data = bytes(k) + bytes(range(5 + k, 30))
    texts = ('', 'zQ2', '11z', 'a0b')[k % 2:]

    def call():
        from bitcoinx import base58_encode, base58_decode, base58_encode_check, base58_decode_check
        out = []
        for text in texts:
            try:
                out.append(hx(base58_decode(text)))
            except ValueError as e:
                out.append(str(e))
        return (out, base58_encode(data), hx(base58_decode(base58_encode(data))),
                hx(base58_decode_check(base58_encode_check(data))))
    return call


def op_wif(k):
    def call():
        from bitcoinx import PrivateKey
        key = PrivateKey.from_WIF(ref.b58c_encode(
            bytes([(0x80, 0xef)[k % 2]]) + (99 + k).to_bytes(32, 'big') + b'\x01' * (k % 2)))
        return key.to_WIF(), key.to_WIF(compressed=k % 2 == 0, coin=coins(k)), key.coin().name, key.is_compressed(), str(key.public_key)
    return call


def op_arith(k):
    def call():
        key = secret(k)
        pub = key.public_key
        two = (2 + k).to_bytes(32, 'big')
        return (pub.to_hex(compressed=k % 2 == 0), pub.to_address(compressed=k % 2 == 0, coin=coins(k)).to_string(),
                hx(pub.hash160(compressed=k % 2 == 1)), hx(pub.to_bytes(compressed=k % 2 == 1)),
                pub.complement().to_address().to_string(), key.add(two).to_hex(), key.multiply(two).to_hex(), pub.add(two).to_hex(),
                pub.multiply(two).to_hex(), type(pub).combine_keys([pub, pub]).to_hex())
    return call


HASHERS = (ref.sha256, ref.sha256d)


def op_ecdh(k):
    def call():
        return (hx(secret(k).ecdh_shared_secret(secret(k + 1).public_key).to_bytes()),
                hx(secret(k).shared_secret(secret(k + 1).public_key, b'm%d' % k, HASHERS[k % 2]).to_bytes()))
    return call


def op_sign(k):
    def call():
        from bitcoinx import double_sha256, sha256
        key, hasher, other = secret(k), (sha256, double_sha256)[k % 2], (double_sha256, sha256)[k % 2]
        message = b'message %d' % k
        sig = key.sign(message, hasher)
        rec = key.sign_recoverable(message, other)
        pub = key.public_key
        return (hx(sig), pub.verify_der_signature(sig, message, hasher), pub.verify_der_signature(sig, message, other),
                hx(rec), pub.verify_recoverable_signature(rec, message, other),
                pub.verify_recoverable_signature(rec, message, hasher),
                type(pub).from_recoverable_signature(rec, message, other).to_hex())
    return call


def op_message(k):
    def call():
        from bitcoinx import PublicKey, PrivateKey, double_sha256, sha256
        hasher, other = (sha256, double_sha256)[k % 2], (double_sha256, sha256)[k % 2]
        key = PrivateKey(secret(k).to_bytes(), k % 2 == 0)
        sig = key.sign_message_to_base64(f'message {k}', hasher)
        address = key.public_key.to_address(coin=coins(k))
        texts = (address.to_string(), '3P14159f73E4gFr7JterCCQh9QjiTjiZrG')
        return (sig, hx(key.sign_message(b'q%d' % k, other)), key.public_key.verify_message(sig, f'message {k}', hasher),
                key.public_key.verify_message(sig, f'message {k}', other),
                PublicKey.from_signed_message(sig, f'message {k}', hasher).to_hex(),
                [PublicKey.verify_message_and_address(sig, f'message {k}', a, hasher=h)
                 for a in (address, texts[k % 2], texts[k % 2 - 1]) for h in (other, hasher)])
    return call


def op_encrypt(k):
    magic = (b'BIE1', b'magic')[k % 2]

    def call():
        import bitcoinx.aes as aes
        text = secret(k).public_key.encrypt_message_to_base64(b'secret %d' % k * (1 + k), magic)
        out = [text, hx(secret(k).decrypt_message(text, magic)),
               hx(aes.aes_encrypt_with_iv(bytes(16), bytes([k]) * 16, b'x' * (5 + 7 * k)))]
        for data in (bytes(15 + k % 2), bytes(16)):
            try:
                out.append(hx(aes.aes_decrypt_with_iv(bytes([k]) * 16, bytes(16), data)))
            except aes.BadPaddingError as e:
                out.append(str(e))
            except Exception:
                out.append('refused')
        return out
    return call


def op_aes(k):
    '''Without the optional library.'''
    key, iv, data = bytes([k]) * 16, bytes([9 - k]) * 16, b'q%d' % k * (5 + 9 * k)

    def call():
        import bitcoinx.aes as aes
        aes.AES = None
        secret_data = aes.aes_encrypt_with_iv(key, iv, data)
        return hx(secret_data), hx(aes.aes_decrypt_with_iv(key, iv, secret_data))
    return call


def op_der(k):
    der = bytes.fromhex(('3006020101020101', '3006020102020103')[k % 2])

    def call():
        from bitcoinx import der_signature_to_compact, compact_signature_to_der, Signature, SigHash
        sig = Signature.from_der_sig(der, SigHash(0x41 + 0x23 * k))
        return (hx(der_signature_to_compact(der)),
                hx(compact_signature_to_der((5 + k).to_bytes(32, 'big') * 2)), sig.to_string(),
                sig.r_value(), hx(sig.to_compact()), [SigHash(n << k).to_string() for n in (0x30, 0xd1, 0)])
    return call


@functools.lru_cache(None)
def master(k):
    from bitcoinx import BIP32PrivateKey
    return BIP32PrivateKey.from_seed(bytes(range(k, k + 32)), coins(k)).to_extended_key_string()


@functools.lru_cache(None)
def children(k):
    from bitcoinx import bip32_key_from_string
    return bip32_key_from_string(master(k)).child(5 + k).public_key.to_extended_key_string()


def op_bip32(k):
    text = master(k)

    def call():
        from bitcoinx import bip32_key_from_string
        key = bip32_key_from_string(text)
        child = key.child(H + k).child_safe(3 + k)
        return (child.to_extended_key_string(), key.public_key.child(k).to_extended_key_string(),
                hx(child.fingerprint()))
    return call


def op_chain_string(k):
    def call():
        from bitcoinx import bip32_decompose_chain_string, bip32_build_chain_string, bip32_validate_derivation
        d = bip32_decompose_chain_string(("m/0'/5", "m/44'/1/2'")[k % 2])
        out = [list(d), bip32_build_chain_string(d)]
        for derivation in ([k, 3], [3, H << k, 5], [5, ('x', 7)[k % 2]]):
            try:
                out.append(bip32_validate_derivation(derivation))
            except (ValueError, TypeError) as e:
                out.append(str(e))
        return out
    return call


WORDS = [f'w{j}' for j in range(2048)]
OTHERS = [f'v{j}' for j in range(2048)]
MORE = [f'u{j}' for j in range(3000)]


def op_bip39(k):
    words = (WORDS, OTHERS)[k % 2]

    def call():
        from bitcoinx import BIP39Mnemonic
        m = BIP39Mnemonic.generate(words, (128, 256)[k % 2])
        bad = m.split()
        bad[-1], bad[0] = bad[0], bad[-1]
        out = [m, BIP39Mnemonic.is_valid(m, words), hx(BIP39Mnemonic.to_seed(m[:9], str(k)))]
        for n, text in enumerate((' '.join(bad), m[:20], ('q%d ' % k) * 12, ' %d  X' % k)):
            try:
                out.append((BIP39Mnemonic.normalize(text), BIP39Mnemonic.is_valid(m if n % 2 == k % 2 else text, words)))
            except BIP39Mnemonic.BadWords as e:
                out.append(str(e))
        return out
    return call


def op_electrum(k):
    words = (WORDS, MORE)[k % 2]

    def call():
        from bitcoinx import ElectrumMnemonic
        m = ElectrumMnemonic.generate_new(words, prefix=('', '1')[k % 2], bits=132 + 60 * k, skip_old=k % 2 == 0)
        old = ElectrumMnemonic.hex_seed_to_old(('%08x' % (12345 + k)) * 4)
        return (m, old, ElectrumMnemonic.old_to_hex_seed(old), ElectrumMnemonic.is_valid_new(m, ('1', '0')[k % 2]),
                ElectrumMnemonic.is_valid_new(old, ('', 'x')[k % 2]), ElectrumMnemonic.is_valid_old((old, m)[k % 2]))
    return call


def op_bits(k):
    bits = (0x1d00ffff, 0x207fffff, 0x1b0404cb)[k % 3]

    def call():
        from bitcoinx import bits_to_target, target_to_bits, bits_to_work
        t = bits_to_target(bits)
        small = [bits_to_target(b) for b in (0x02123400 + 0x100 * k, 0x01120000 + 0x10000 * k)]
        return small, t, target_to_bits(t), bits_to_work(bits), coins(k).bits_to_difficulty(bits)
    return call


def op_codec(k):
    def call():
        import io
        from bitcoinx import pack_varint, pack_varbytes, read_varbytes, pack_list, read_list, \
            read_le_uint32, pack_le_uint32, hash_to_hex_str, int_to_be_bytes
        data = pack_list([3, 4, 5 + k], pack_le_uint32)
        return (hx(pack_varint(252 + k)), hx(read_varbytes(io.BytesIO(pack_varbytes(b'q' * (k + 250))).read)),
                read_list(io.BytesIO(data).read, read_le_uint32), hash_to_hex_str(bytes(range(32))),
                hx(int_to_be_bytes(70000 + k)))
    return call


def op_header(k):
    raw = bytes(coins(k).genesis_header)

    def call():
        h = coins(k).deserialized_header(raw, k)
        data = bytes([k]) * 50 + raw[50:]
        return (h.hex_str(), h.work(), h.target(), h.difficulty(), str(h), hx(h.merkle_root),
                hx(coins(k).header_prev_hash(data)))
    return call


def named(pair):
    return pair[0].name, pair[1]


def op_verbytes(k):
    def call():
        from bitcoinx import Coin
        return (Coin.from_WIF_byte((0x80, 0xef)[k % 2]).name,
                named(Coin.lookup_xver_bytes(coins(k).xpub_verbytes)),
                named(Coin.lookup_xver_bytes(coins(k).xprv_verbytes)))
    return call

SOURCES = (lambda n: bytes([3]) * n, lambda n: bytes([4]) * n)
MINIKEYS = ('S132132132132132132132', 'S5Z4Z5Z4Z5Z4Z5Z4Z5Z4Z5Z4Z5Z4Z5')


def op_forms(k):
    '''Texts and bytes of keys, signatures and scripts, read.'''
    der = bytes.fromhex(('3006020101020101', '3006020102020103')[k % 2])
    point = secret(k).public_key.to_bytes(compressed=False)
    x, y = int.from_bytes(point[1:33], 'big'), int.from_bytes(point[33:], 'big')

    def call():
        import bitcoinx as b
        return (b.PrivateKey.from_int(77 + k).to_int(), b.PrivateKey.from_arbitrary_bytes(b'%d' % k * 40).to_hex(),
                b.PrivateKey.from_hex('%064x' % (5 + k)).to_int(),
                b.PrivateKey.from_text('%064x' % (9 + k)).to_int(),
                b.PrivateKey.from_minikey(MINIKEYS[k % 2]).to_hex(), b.is_minikey(MINIKEYS[k % 2] + 'x' * k),
                str(b.PublicKey.from_hex(point.hex())), b.PublicKey.from_point(x, y).to_point() == (x, y),
                b.Signature.from_hex(der.hex() + '41').to_hex(), hx(b.Script.from_hex('51' * (1 + k))),
                b.PrivateKey.from_random().to_hex(), b.PrivateKey.from_random(source=SOURCES[k % 2]).to_hex())
    return call


def op_same(k):
    '''Equality, between values of the two threads' own.'''
    from bitcoinx import P2MultiSig_Output, P2PK_Output, P2PKH_Address, P2SH_Address, Script, Signature, Bitcoin
    pubs = [secret(j).public_key for j in (k, k + 2)]

    def makes(j):
        h, pub = ref.hash160(b'%d' % j), secret(j).public_key
        return (P2PKH_Address(h, Bitcoin), P2SH_Address(h, Bitcoin), P2PK_Output(pub, Bitcoin),
                P2MultiSig_Output([pub, *pubs], 1 + j % 2), Script(bytes([81 + j])), pub, secret(j),
                Signature(bytes.fromhex('3006020101020101') + bytes([65 + j])))
    mine, like, other = makes(k), makes(k), makes(k + 1)
    pairs = list(zip(mine, like, other))
    return lambda: ([a == (b, c)[(j + k) % 2] for j, (a, b, c) in enumerate(pairs)],
                    [a == (b, c)[(j + k + 1) % 2] for j, (a, b, c) in enumerate(pairs)],
                    [hash(a) == hash(b) for a, b, _c in pairs])


def op_bip32_more(k):
    private, public = master(k), children(k)

    def call():
        import bitcoinx as b
        key = b.BIP32PrivateKey.from_seed(bytes(range(9 + k, 41 + k)), coins(k))
        return (key.to_extended_key_string(), key.public_key.child_safe(7 + k).to_extended_key_string(),
                b.BIP32PrivateKey.from_random().to_extended_key_string(),
                b.BIP32PrivateKey.from_random(source=SOURCES[k % 2]).to_extended_key_string(),
                b.bip32_key_from_string(public if k % 2 else private).to_extended_key_string(),
                b.bip32_key_from_string(private if k % 2 else public).to_extended_key_string(),
                b.bip32_is_valid_chain_string(('m/1', 'm/x')[k % 2]),
                b.bip32_validate_derivation([k, 3]), str(key.derivation()), hx(key.identifier()))
    return call


def op_readers(k):
    data = bytes(range(17 * k + 3, 17 * k + 35))

    def call():
        import io
        import bitcoinx as b
        readers = (b.read_le_int32, b.read_le_int64, b.read_le_uint16, b.read_le_uint32, b.read_le_uint64,
                   b.read_be_uint16, b.read_be_uint32, b.read_be_uint64)
        return ([read(io.BytesIO(data).read) for read in readers],
                [b.read_varint(io.BytesIO(bytes([lead]) + data).read) for lead in (9 + k, 253, 254, 255)],
                [b.varint_len(n << 20 * k) for n in (1, 300, 70000)], hx(b.sha1(data)), hx(b.sha512(data)),
                hx(b.ripemd160(data)), b.hash_to_value(data), hx(b.hex_str_to_hash(data.hex())),
                b.be_bytes_to_int(data), hx(b.int_to_le_bytes(99999 + k)), hx(b.hmac_sha512(data, data)))
    return call


def op_parts(k):
    '''The parts of a transaction, alone.'''
    parts = txgen.real(a_tx(k))
    timed = txgen.real(a_tx(k)[:3] + (500_000_000,))
    forms = [x.to_hex() for x in (parts, parts.inputs[0], parts.outputs[0])]

    def call():
        import bitcoinx as b
        tx, one, out = (t.from_hex(f) for t, f in zip((b.Tx, b.TxInput, b.TxOutput), forms))
        return (repr(tx), repr(b.TxInput.from_bytes(one.to_bytes())), repr(b.TxOutput.from_bytes(out.to_bytes())),
                tx.is_coinbase(), tx.is_final_for_block(50 + 50 * k, 7), timed.is_final_for_block(9, 499_999_999 + 2 * k),
                b.tx.locktime_description(500_000_000 + 99 * k) if hasattr(b, 'tx') else '', tx.to_json(0, coins(k))['locktime'],
                b.Tx.size_io(tx.inputs, tx.outputs), tx.to_json(b.JSONFlags.LOCKTIME_MEANING, coins(k))['locktimeMeaning'])
    return call


def op_drops(k):
    from bitcoinx import Script
    pubs = [secret(j).public_key for j in range(k, k + 3 + k)]
    wrong = Script(bytes([82 + k, 33]) + pubs[0].to_bytes() + b'\x21' + pubs[1].to_bytes() + b'\x53\xae')

    def call():
        import bitcoinx as b
        pub, multi = pubs[0], b.P2MultiSig_Output(pubs, 1 + k)
        return (hx(b.push_and_drop_item(b'drop%d' % k)), hx(b.push_and_drop_items([b'x%d' % k] * (2 + k))),
                [b.item_to_int(b.push_int(n)[1:]) for n in (300 + k, -70000 - k)],
                hx(b.push_int(-5 - k)), hx(b.P2PKH_Address(bytes([k]) * 20, coins(k)).to_script_bytes()),
                b.P2MultiSig_Output(pubs, len(pubs)).threshold, multi.threshold, multi.public_key_count(), hx(multi.hash160()), hx(multi.to_script()),
                [hx(b.P2PK_Output(form, coins(k)).to_script()) + b.P2PK_Output(form, coins(k)).to_address().to_string()
                 for form in (pub, pub.to_hex(), pub.to_bytes(compressed=False))],
                classified(b.Script(multi.to_script_bytes()), coins(k)), classified(wrong, coins(k)))
    return call


def op_seeds(k):
    def call():
        from bitcoinx import ElectrumMnemonic as E
        seed = E.generate_old_seed(word_count=(12, 24)[k % 2])
        return seed, E.hex_seed_to_old(seed), E.normalize_new(' A  %d b' % k), E.is_valid_old(seed + 'q' * k)
    return call


def op_new_coin(k):
    raw = bytes([k]) * 72 + (0x1d00ffff + k).to_bytes(4, 'little') + bytes([k, 9, 9, 9])
    rule = (toy_coin, small_tree)[k % 2]

    def call():
        from bitcoinx import Coin
        c = Coin('coin%d' % k, raw.hex(), rule, k, 5 + k, 9 + k, b'pub%d' % k, b'prv%d' % k, 'p%d' % k)
        return ({key: value for key, value in vars(c).items() if key != 'required_bits'}, c.required_bits is rule,
                hx(c.header_hash(raw)), c.header_timestamp(raw), hx(c.header_prev_hash(raw)), c.header_work(raw))
    return call


class Past:
    '''Ancestors of a header, as far as the rules of difficulty ask for them.'''

    def __init__(self, coin, k):
        from bitcoinx import bits_to_work
        self.coin, self.k, self.work = coin, k, bits_to_work
        self.chain = object()

    def header_at_height(self, chain, height):
        return self.coin.deserialized_header(self.raw_header_at_height(chain, height), height)

    def raw_header_at_height(self, chain, height):
        eq(chain is self.chain, True, 'the chain asked about')
        bits = 0x1b0404cb + 3 * self.k if height % 5 else self.coin.genesis_bits
        time = 1_300_000_000 + 600 * height + (height * 7919 + self.k) % 977 + 40_000 * self.k * (height % 2016 > 1000)
        return bytes(68) + (time & 0xffffffff).to_bytes(4, 'little') + bits.to_bytes(4, 'little') + bytes(4)

    def chainwork_range(self, chain, start, end):
        eq(chain is self.chain, True, 'the chain asked about')
        return sum(self.work(0x1b0404cb + 3 * self.k) for _ in range(start, end))

    def median_time_past(self, chain, height):
        eq(chain is self.chain, True, 'the chain asked about')
        return 1_300_000_000 + height * (7300 + 50 * self.k) + height % 7 * 1000


HEIGHTS = (4032, 4032, 4032, 4032, 478600, 478601, 2150, 30000, 510001, 1200000, 3000, 1200001,
           478603, 30001, 2151, 30003)


def op_required(k):
    past = [Past(coins(n), k) for n in range(4)]

    def call():
        return [p.coin.required_bits(p, p.chain, h + 4 * k * (h % 2016 > 0), 1_300_000_000 + 600 * h + 3000 * (h + k & 1))
                for p, h in zip(past * 4, HEIGHTS)]
    return call


def op_test_early(k):
    asked = [(30001 + 5 * n, 1_300_000_000 + 600 * (30001 + 5 * n) + 3000 * n) for n in (k, 1 - k, k)]
    past = Past(coins(1), k)
    return lambda: [past.coin.required_bits(past, past.chain, h, time) for h, time in asked]


def op_test_late(k):
    past = [Past(coins(1 + n), k) for n in (k, 1 - k, k)]
    heights = (1_200_001, 3001)
    return lambda: [p.coin.required_bits(p, p.chain, heights[p.coin is coins(2)],
                                         1_300_000_000 + 600 * heights[p.coin is coins(2)] + 5000) for p in past]


def op_found_file(k):
    '''A file of another version is not taken for one's own.'''
    from bitcoinx import Headers
    tree = small_tree(k)
    path = os.path.join(os.environ['MC_SCRATCH'], f'found-{os.getpid()}-{k}')

    def call():
        sizes = []
        for version in (k, 1 - k, k):
            with open(path, 'wb') as f:
                f.write(bytes([8, 0, version, 0, tree.cp.height + 1 + version, 0, 0, 0]) + bytes(80 * tree.cp.height)
                        + tree.cp.raw + tree.nodes[1].raw)
            headers = Headers.from_file(toy_coin(), path, tree.checkpoint())
            sizes.append((len(headers), os.path.getsize(path), hx(headers.chains()[0].tip.hash)))
            headers._storage.close()
        os.remove(path)
        return sizes
    return call


@functools.lru_cache(None)
def small_tree(k):
    tree = (Tree, lambda: config('cp5')[0])[k % 2]()
    for parent in ((0, 1, 1, 2, 3, 1), (0, 1, 2, 2, 4, 4, 3))[k % 2]:
        tree.add(parent, tree.make(parent, k))
    return tree


def op_own_headers(k):
    '''A collection of the thread's own, made, added to, looked at, closed and opened again.'''
    from bitcoinx import Coin
    tree = small_tree(k)
    base = tree.cp.height

    def rule(headers, *args):
        eq(headers.coin is coin and headers.checkpoint.raw_header == tree.cp.raw, True, 'whose rule is asked')
        return toy_required_bits(headers, *args)
    coin = Coin(f'toy{k}', tree.cp.raw.hex(), rule, 0, 5, 0x80, bytes(4), bytes(4), 'toy')
    path = os.path.join(os.environ['MC_SCRATCH'], f'own-{os.getpid()}-{k}')

    def look(headers):
        chains = headers.chains()
        return ([(c.index, c.height, c.work, c.first_height, hx(c.tip.hash)) for c in chains], len(headers),
                [headers.lookup(n.hash)[0].height for n in tree.nodes],
                [(a.common_chain_and_height(chains[0])[1]) for a in chains],
                [headers.median_time_past(chains[0], base + h) for h in range(3)],
                hx(headers.raw_header_at_height(chains[-1], base + 1)), headers.longest_chain().index,
                headers.header_at_height(chains[-1], base + 2).height, headers.chainwork_to_height(chains[0], base + 1),
                headers.chainwork_range(chains[-1], base, base + 2), chains[-1].desc(), sorted(c.height for c in chains[-1].parent_heights()))

    def call():
        from bitcoinx import Headers, MissingHeader
        if os.path.exists(path):
            os.remove(path)
        results = []
        for _turn in range(2):
            headers = Headers.from_file(coin, path, tree.checkpoint())
            headers.max_cache_size = 1 + k
            try:
                for n in tree.nodes[1:]:
                    header, chain = headers.connect(n.raw)
                    results.append((header.height, chain.index, hx(header.hash)))
                for h in range(base):
                    headers.set_one(h, tree.nodes[1 + h].raw)
                headers.set_one(base, tree.cp.raw)
                try:
                    headers.connect(bytes([k]) * 80)
                except MissingHeader as e:
                    results.append(str(e))
                results.append(look(headers))
                headers.flush()
            finally:
                headers._storage.close()
        with open(path, 'r+b') as f:
            f.seek(2)
            f.write(bytes([k, 0]))
        headers = Headers.from_file(coin, path, tree.checkpoint())
        results.append(len(headers))
        headers._storage.close()
        os.remove(path)
        return results
    return call


OPS = {name[3:]: fn for name, fn in sorted(globals().items()) if name.startswith('op_')}
NAMES = tuple(OPS)


# --- Pairs that share an object or lazily computed state ----------------------------------------

def shared_templates(k):
    '''Output scripts of each kind on the same coin, first use.'''
    a, b = divmod(k, 6)
    a, b = standard(a), standard(b)
    return lambda: classified(a, coins(0)), lambda: classified(b, coins(0))


def shared_coins(k):
    script = standard(k)
    return lambda: classified(script, coins(0)), lambda: classified(script, coins(1))


def shared_private_key(k):
    key = secret(7)
    uses = (lambda: key.public_key.to_hex(), lambda: hx(key.sign(b'x')),
            lambda: key.to_WIF(coin=coins(0)), lambda: key.public_key.to_address(coin=coins(0)).to_string(),
            lambda: str(key), lambda: hash(key) == hash(secret(7)))
    return uses[k // len(uses)], uses[k % len(uses)]


def shared_public_key(k):
    key = secret(8).public_key
    sig = secret(8).sign(b'x')
    uses = (lambda: key.to_hex(), lambda: key.verify_der_signature(sig, b'x'),
            lambda: key.to_bytes(compressed=False).hex(), lambda: hx(key.hash160()),
            lambda: hx(key.P2PKH_script()), lambda: key.add(bytes(31) + b'\5').to_hex())
    return uses[k // len(uses)], uses[k % len(uses)]


def shared_bip32(k):
    from bitcoinx import bip32_key_from_string
    key = bip32_key_from_string(master(0))
    uses = (lambda: key.public_key.to_extended_key_string(), lambda: key.child(0).to_extended_key_string(),
            lambda: key.child(H).to_extended_key_string(), lambda: hx(key.fingerprint()),
            lambda: key.public_key.child(1).to_extended_key_string())
    return uses[k // len(uses)], uses[k % len(uses)]


def shared_wordlists(k):
    import bitcoinx.misc
    from bitcoinx import Wordlists
    uses = (Wordlists.original_electrum_wordlist, lambda: Wordlists.bip39_wordlist('english.txt'),
            lambda: Wordlists.bip39_wordlist('spanish.txt'))

    def use(f):
        return lambda: ref.sha256('\n'.join(f()).encode()).hex()
    return use(uses[k // 3]), use(uses[k % 3])


def shared_old_seed(k):
    from bitcoinx import ElectrumMnemonic
    uses = (lambda: ElectrumMnemonic.hex_seed_to_old('00112233' * 4),
            lambda: ElectrumMnemonic.is_valid_old('like ' * 12),
            lambda: ElectrumMnemonic.old_to_hex_seed('like ' * 24))
    return uses[k // 3], uses[k % 3]


def shared_bits(k):
    from bitcoinx import bits_to_target, bits_to_work
    values = (0x1d00ffff, 0x1c00ffff)
    uses = [functools.partial(f, b) for f in (bits_to_target, bits_to_work) for b in values]
    return uses[k // 4], uses[k % 4]


def shared_tx(k):
    from bitcoinx import SigHash
    tx = txgen.real(a_tx(2))
    uses = (lambda: hx(tx.to_bytes()), lambda: tx.hex_hash(), lambda: tx.total_output_value(),
            lambda: hx(tx.signature_hash(0, 5, standard(0), sighash=SigHash(0x41))),
            lambda: hx(tx.signature_hash(1, 5, standard(0), sighash=SigHash(0xc3))),
            lambda: tx.is_final_for_block(5, 5))
    return uses[k // len(uses)], uses[k % len(uses)]


def shared_script(k):
    from bitcoinx import Script
    script = Script(b'\x02ab' + bytes(standard(3)) + b'\x4c\x05hello\x51\x03xyz')
    uses = (lambda: [x if isinstance(x, int) else hx(x) for x in script.ops()],
            lambda: script.to_asm(False), lambda: hx(script << b'more'), lambda: script.to_hex(),
            lambda: hx(script.to_template()[0]))
    return uses[k // len(uses)], uses[k % len(uses)]


def shared_signature(k):
    from bitcoinx import Signature
    sig = Signature(secret(3).sign(b'x') + b'\x41')
    uses = (lambda: hx(sig.der_signature), lambda: sig.to_string(), lambda: int(sig.sighash),
            lambda: hx(sig.to_compact()), lambda: sig.r_value())
    return uses[k // len(uses)], uses[k % len(uses)]


def some_headers():
    from bitcoinx import Headers
    tree = Tree()
    for n, parent in enumerate((0, 1, 2, 1, 4, 2, 6, 6)):
        tree.add(parent, tree.make(parent, n * n * 100))
    path = os.path.join(os.environ['MC_SCRATCH'], f'sched-{os.getpid()}')
    if os.path.exists(path):
        os.remove(path)
    headers = Headers.from_file(toy_coin(), path, tree.checkpoint())
    for node in tree.nodes[1:]:
        headers.connect(node.raw)
    headers._cache.clear()
    headers.max_cache_size = 1
    return headers.chains(), headers, tree


def shared_headers(k):
    '''Observers of one collection.'''
    chains, headers, tree = some_headers()

    def look(n):
        header, chain = headers.lookup(tree.nodes[n].hash)
        return hx(header.hash), header.height, chains.index(chain)
    uses = (lambda: look(1), lambda: look(4), lambda: look(6),
            lambda: headers.required_bits(chains[-1], 4, 123),
            lambda: headers.chainwork_to_height(chains[0], 2),
            lambda: (headers.longest_chain().index, headers.median_time_past(chains[1], 3)))
    return uses[k // len(uses)], uses[k % len(uses)]


SHARED = {
    'templates': (shared_templates, 36), 'coins': (shared_coins, 6),
    'private_key': (shared_private_key, 36), 'public_key': (shared_public_key, 36),
    'bip32': (shared_bip32, 25), 'wordlists': (shared_wordlists, 9),
    'old_seed': (shared_old_seed, 9), 'bits': (shared_bits, 16), 'tx': (shared_tx, 36),
    'script': (shared_script, 25), 'signature': (shared_signature, 25),
    'headers': (shared_headers, 36),
}


# --- One object, the same method, other arguments in each thread -------------------------------------

def args_private_key():
    key = secret(7)
    pubs, two = [secret(j).public_key for j in (1, 2)], [(2 + j).to_bytes(32, 'big') for j in (0, 1)]
    messages, magics = (b'one', b'another'), (b'BIE1', b'magic')
    sealed = [tagged(j, lambda: key.public_key.encrypt_message(b'sealed %d' % j * (1 + 2 * j), magics[j]))()
              for j in (0, 1)]
    others = (secret(7), secret(8))
    return (lambda k: hx(key.sign(messages[k], HASHERS[k])), lambda k: hx(key.sign_recoverable(messages[k], HASHERS[k])),
            lambda k: hx(key.sign_message(messages[k], HASHERS[k])),
            lambda k: key.sign_message_to_base64(f'text {k}', HASHERS[k]),
            lambda k: key.add(two[k]).to_hex(), lambda k: key.multiply(two[k]).to_hex(),
            lambda k: hx(key.shared_secret(pubs[k], messages[k], HASHERS[k]).to_bytes()),
            lambda k: hx(key.ecdh_shared_secret(pubs[k]).to_bytes()),
            lambda k: hx(key.decrypt_message(sealed[k], magics[k])),
            lambda k: key.to_WIF(compressed=k == 0, coin=coins(k)), lambda k: key == others[k])


def args_public_key():
    from bitcoinx import double_sha256, sha256
    private = secret(8)
    key, others = private.public_key, (secret(8).public_key, secret(9).public_key)
    two = [(2 + j).to_bytes(32, 'big') for j in (0, 1)]
    messages, magics, hashers = (b'one', b'another'), (b'BIE1', b'magic'), (sha256, double_sha256)
    der = [private.sign(messages[0], hashers[j]) for j in (0, 1)]
    rec = [private.sign_recoverable(messages[0], hashers[j]) for j in (0, 1)]
    told = [private.sign_message(messages[0], hashers[j]) for j in (0, 1)]
    return (lambda k: key.verify_der_signature(der[0], messages[k], hashers[0]),
            lambda k: key.verify_der_signature(der[k], messages[0], hashers[0]),
            lambda k: key.verify_der_signature(der[0], messages[0], hashers[k]),
            lambda k: key.verify_recoverable_signature(rec[0], messages[k], hashers[0]),
            lambda k: key.verify_recoverable_signature(rec[k], messages[0], hashers[0]),
            lambda k: key.verify_recoverable_signature(rec[0], messages[0], hashers[k]),
            lambda k: key.verify_message(told[0], messages[k], hashers[0]),
            lambda k: key.verify_message(told[k], messages[0], hashers[0]),
            lambda k: key.verify_message(told[0], messages[0], hashers[k]),
            lambda k: hx(key.encrypt_message(messages[k], magics[k])),
            lambda k: key.encrypt_message_to_base64('text' * (1 + 5 * k), magics[k]),
            lambda k: key.to_hex(compressed=k == 0), lambda k: hx(key.to_bytes(compressed=k == 0)),
            lambda k: key.to_address(compressed=k == 0, coin=coins(k)).to_string(),
            lambda k: hx(key.hash160(compressed=k == 0)), lambda k: key.add(two[k]).to_hex(),
            lambda k: key.multiply(two[k]).to_hex(), lambda k: key == others[k],
            lambda k: (key.to_point(), key.complement().to_hex())[k])


def args_bip32():
    from bitcoinx import bip32_key_from_string
    key = bip32_key_from_string(master(0))
    public = bip32_key_from_string(children(1))
    return (lambda k: key.child(3 + k).to_extended_key_string(), lambda k: key.child(H + 4 * k).to_extended_key_string(),
            lambda k: key.child_safe(H * k + 5).to_extended_key_string(),
            lambda k: public.child(3 + k).to_extended_key_string(), lambda k: public.child_safe(9 - k).to_extended_key_string())


def args_tx():
    from bitcoinx import JSONFlags, SigHash
    tx, early, late = (txgen.real(a_tx(2)[:3] + (locktime,)) for locktime in (154, 5000, 500_000_000))
    flags = (JSONFlags.CLASSIFY_OUTPUT_SCRIPT + JSONFlags.ENUMERATE_INPUTS,
             JSONFlags.ENUMERATE_OUTPUTS + JSONFlags.SIZE + JSONFlags.LOCKTIME_MEANING)
    kinds = [SigHash(x) for x in (0x41, 0x42, 0x43, 0xc1, 0xc3)]
    return tuple((lambda k, kind=kind: hx(tx.signature_hash(k, 1000 + k, standard(k), sighash=kind)))
                 for kind in kinds) + (
        lambda k: hx(tx.signature_hash(k, 1000, standard(0), sighash=kinds[2])),
        lambda k: hx(tx.signature_hash(0, 1000 + k, standard(0), sighash=kinds[0])),
        lambda k: hx(tx.signature_hash(0, 1000, standard(k), sighash=kinds[0])),
        lambda k: hx(tx.signature_hash(0, 1000, standard(0), sighash=kinds[3 * k + 1])),
        lambda k: early.is_final_for_block(4999 + 2 * k, 1), lambda k: late.is_final_for_block(1, 499_999_999 + 2 * k),
        lambda k: tx.to_json(flags[k], coins(0)), lambda k: tx.to_json(flags[0], coins(k)),
        lambda k: tx.inputs[0].to_json(flags[1 - k], (None, 4)[k]), lambda k: tx.outputs[0].to_json(flags[k], coins(k), (None, 4)[k]),
        lambda k: tx.inputs[0].to_json(flags[0], 3 + k), lambda k: tx.outputs[0].to_json(flags[0], coins(k), 4),
        lambda k: hx(tx.inputs[0].to_bytes_for_signature(7 + k, standard(k))))


def args_script():
    from bitcoinx import JSONFlags, Ops, Script
    script, signed = standard(3), Script(b'\x09' + bytes.fromhex('300602010102010141') + b'\x51')
    others = (standard(3), standard(2))
    flags, pays = (0, int(JSONFlags.CLASSIFY_OUTPUT_SCRIPT)), standard(0)
    return (lambda k: hx(script << (b'ab', 700)[k]), lambda k: hx(script << (Ops.OP_1, Script(b'\x51\x52'))[k]),
            lambda k: hx(script.push_many([[b'x', 5], [Ops.OP_2, b'yz' * 40, -3]][k])),
            lambda k: signed.to_asm(k == 0), lambda k: script == others[k],
            lambda k: pays.to_json(flags[k], k == 0, coins(k)), lambda k: pays.to_json(flags[1], False, coins(k)),
            lambda k: signed.to_json(0, k == 0, coins(0)))


def args_same():
    import bitcoinx as b
    pubs = [secret(j).public_key for j in range(3)]
    der = bytes.fromhex('3006020101020101')
    makes = (lambda j: b.P2PKH_Address(bytes([j]) * 20, b.Bitcoin), lambda j: b.P2SH_Address(bytes([j]) * 20, b.Bitcoin),
             lambda j: b.P2PK_Output(pubs[j], b.Bitcoin), lambda j: b.P2MultiSig_Output(pubs, 1 + j),
             lambda j: b.Signature(der + bytes([65 + j])), lambda j: b.Script(bytes([81 + j])))

    def pair(make):
        mine, others = make(0), (make(0), make(1))
        return lambda k: mine == others[k]
    return tuple(map(pair, makes))


def args_coin():
    raws = [bytes([k]) * 76 + bytes(4) for k in (1, 2)]
    coin = coins(0)
    fields = (coin.header_hash, coin.header_prev_hash, coin.header_timestamp, coin.header_bits)
    good = [raw[:72] + bits.to_bytes(4, 'little') + bytes(4) for raw, bits in zip(raws, (0x1d00ffff, 0x1b0404cb))]
    past = [Past(coin, k) for k in (0, 1)]
    return tuple((lambda k, field=field: field(raws[k])) for field in fields) + (
        lambda k: coin.header_work(good[k]), lambda k: coin.bits_to_difficulty((0x1d00ffff, 0x1b0404cb)[k]),
        lambda k: (lambda h: (hx(h.hash), h.height, hx(h.prev_hash), hx(h.merkle_root), h.timestamp, h.bits, h.nonce))(
            coin.deserialized_header(good[k], 3 + k)),
        lambda k: coin.required_bits(past[k], past[k].chain, (4032, 478601)[k], 1_300_000_000))


def args_headers():
    chains, headers, tree = some_headers()
    a, z = chains[0], chains[-1]
    return (lambda k: (headers.chainwork_range(a, k, 3 + k), headers.chainwork_range((z, a)[k], 1, 3)),
            lambda k: headers.chainwork_to_height((z, a)[k], 2 + k), lambda k: headers.chainwork_to_height(a, 1 + k),
            lambda k: hx(headers.header_at_height((z, a)[k], 3 - k).hash), lambda k: hx(headers.header_at_height(a, 1 + k).hash),
            lambda k: hx(headers.raw_header_at_height((z, a)[k], 3)), lambda k: hx(headers.raw_header_at_height(a, 1 + k)),
            lambda k: headers.median_time_past((z, a)[k], 3 - k), lambda k: headers.median_time_past(a, 2 + k),
            lambda k: headers.required_bits(z, 2 + k, 99), lambda k: headers.required_bits((z, a)[k], 3 - k, 99),
            lambda k: headers.required_bits(z, 3, (9, 1 << 31)[k]),
            lambda k: (lambda c: (c[0] and chains.index(c[0]), c[1]))(z.common_chain_and_height(chains[k])),
            lambda k: sorted((chains.index(c), h) for c, h in chains[-1 - k].parent_heights().items()),
            lambda k: [hx(headers.lookup(tree.nodes[n].hash)[0].hash) for n in (1 + 3 * k, 5 - k)],
            lambda k: hx(headers.raw_header_at_height(z, 1 + k)), lambda k: hx(headers.raw_header_at_height(z, 4 - k)),
            lambda k: headers.median_time_past(z, 4 - k), lambda k: headers.chainwork_range(z, 1, 3 + k),
            lambda k: [hx(headers.header_at_height(c, h).hash) for c in chains[::1 - 2 * k] for h in (1, c.height)],
            lambda k: ((headers.longest_chain().index, len(headers)), headers.chain_count())[k],
            lambda k: chains[k].desc())


ARGS = {'private_key': (args_private_key, 11), 'public_key': (args_public_key, 19), 'bip32': (args_bip32, 5),
        'tx': (args_tx, 18), 'script': (args_script, 8), 'same': (args_same, 6), 'coin': (args_coin, 8),
        'headers': (args_headers, 22)}


def with_args(make):
    def setup(k):
        use = make()[k]
        return lambda: use(0), lambda: use(1)
    return setup


SHARED.update((f'{name} args', (with_args(make), n)) for name, (make, n) in ARGS.items())


# --- Storms: one call while another thread makes a great many different ones of its kind -----------

def _storms():
    import bitcoinx as b

    def b58(j, n=25):
        return ref.b58c_encode(bytes([(0, 5, 111, 196)[j % 4]]) + ref.hash160(b'%d' % j))

    def raw(j):
        return ref.ser_tx(a_tx(j % 3)[:3] + (j,))

    def sig(j):
        return secret(j % 50).sign(b'%d' % j)

    def script(j):
        return b.Script(standard_raw(j % 6) if j % 3 else
                        b'\x76\xa9\x14' + ref.hash160(b'%d' % j) + b'\x88\xac')

    def child(j):
        return b.bip32_key_from_string(master(0)).public_key.child(j).to_extended_key_string()

    def wif(j):
        return ref.b58c_encode(bytes([(0x80, 0xef)[j % 2]]) + (99 + j).to_bytes(32, 'big') + b'\1')

    def header(j):
        data = bytes(b.Bitcoin.genesis_header)[:-4] + j.to_bytes(4, 'little')
        h = b.Bitcoin.deserialized_header(data, j)
        return hx(h.hash), h.height, h.work(), h.difficulty()

    texts = [b58(j) for j in range(16)]
    return {
        'bits_to_target': lambda j: b.bits_to_target(0x1c00ffff + j),
        'bits_to_work': lambda j: b.bits_to_work(0x1c00ffff + j),
        'target_to_bits': lambda j: b.target_to_bits(0xffff << 180 | j << 160),
        'difficulty': lambda j: b.Bitcoin.bits_to_difficulty(0x1c00ffff + j),
        'base58': lambda j: (b.base58_encode(b'\0%d' % j), hx(b.base58_decode('1' + texts[j % 16][:5 + j % 9]))),
        'address': lambda j: (lambda a: (type(a).__name__, a.to_string(), hx(a.to_script()), a.coin().name))(
            b.Address.from_string(b58(j), coins(j % 4 // 2))),
        'classify': lambda j: classified(script(j), coins(j % 4)),
        'asm': lambda j: (hx(b.Script.from_asm(f'OP_DUP {j:06x} {j} OP_{1 + j % 16}')),
                          script(j).to_asm(j % 2 == 0)),
        'push': lambda j: (hx(b.push_int(j)), hx(b.push_item(b'%d' % j)),
                           b.item_to_int(b'\x11' + bytes([j % 251, 1 + j // 251]))),
        'template': lambda j: hx(script(j).to_template()[0]),
        'op_name': lambda j: b.Ops(j % 186).name if j % 186 > 75 else '',
        'public_key': lambda j: str(b.PublicKey.from_hex(secret(j).public_key.to_hex())),
        'address_of': lambda j: secret(j).public_key.to_address(coin=coins(j)).to_string(),
        'wif': lambda j: b.PrivateKey.from_WIF(wif(j)).to_WIF(),
        'signature': lambda j: hx(b.der_signature_to_compact(sig(j))),
        'verify': lambda j: secret(j % 50).public_key.verify_der_signature(sig(j), b'%d' % j),
        'tx': lambda j: b.Tx.from_bytes(raw(j)).hex_hash(),
        'sighash': lambda j: hx(b.Tx.from_bytes(raw(j)).signature_hash(
            0, j, b.Script(b'\x51'), sighash=b.SigHash(0x41 + j % 3))),
        'header': header,
        'child': child,
        'xkey': lambda j: b.bip32_key_from_string(master(j % 60)).to_extended_key_string(),
        'chain_string': lambda j: list(b.bip32_decompose_chain_string(f"m/{j}'/{j % 7}")),
        'hashes': lambda j: (hx(b.hash160(b'%d' % j)), hx(b.double_sha256(b'%d' % j)),
                             b.hash_to_hex_str(ref.sha256(b'%d' % j))),
        'varint': lambda j: hx(b.pack_varint(j * j)),
        'old_seed': lambda j: b.ElectrumMnemonic.hex_seed_to_old('%032x' % (j << 77 | j)),
        'new_seed': lambda j: b.ElectrumMnemonic.is_valid_new(f'seed {j}', ''),
        'verbytes': lambda j: (b.Coin.from_WIF_byte((0x80, 0xef)[j % 2]).name,
                               named(b.Coin.lookup_xver_bytes(coins(j).xpub_verbytes))),
    }


@functools.lru_cache(None)
def storms():
    return _storms()


STORMS = ('bits_to_target', 'bits_to_work', 'target_to_bits', 'difficulty', 'base58', 'address',
          'classify', 'asm', 'push', 'template', 'op_name', 'public_key', 'address_of', 'wif',
          'signature', 'verify', 'tx', 'sighash', 'header', 'child', 'xkey', 'chain_string',
          'hashes', 'varint', 'old_seed', 'new_seed', 'verbytes')


SLOW = ('address', 'address_of', 'asm', 'child', 'classify', 'public_key', 'sighash', 'tx', 'verify',
        'wif', 'xkey')


def storm(name, size):
    '''One call, made before or not, is preempted at each point while size others run.'''
    call = storms()[name]
    assert tuple(storms()) == STORMS
    fresh()
    watch(False)
    call(1)
    want = []
    for j in range(size):
        fresh()
        want.append(call(j))
    one, many = lambda: call(1), lambda: [call(j) for j in range(2, size)]
    count = 0
    try:
        for made in ((), (1,), (2, 1), (1, 2, 3, 4)):
            for i in itertools.count(1):
                fresh()
                for j in made:
                    call(j)
                sched = Scheduler((one, many), [(0, i), (1, None), (0, None)])
                got = sched.run()
                where = f'{name}: call {made} before, preempted at {i}'
                eq(got[0], ('ok', want[1]), where)
                if got[1] != ('ok', want[2:]):
                    raise Mismatch(f'{where}: one of the many calls')
                eq([call(j) for j in range(9)], want[:9], f'{where}: afterwards')
                count += 1
                if not sched.preempted:
                    break
    finally:
        entropy.reset()
    return {'evals': count, 'schedule': count}


# --- Exploration --------------------------------------------------------------------------------

def tasks(tier):
    sizes = {name: n for name, (_fn, n) in SHARED.items()}
    two = {name: range(n) for name, n in sizes.items()}
    ops = dict(two)
    one = dict(two)
    pairs = [(a, b, 2 if a == b else 1) for a in NAMES for b in NAMES]
    if tier == 'quick':
        two = {'private_key': two['private_key'], 'public_key': two['public_key'],
               'signature': two['signature'], 'bits': two['bits'], 'templates': (1, 7),
               'private_key args': two['private_key args'], 'same args': two['same args'],
               'coins': (1,), 'bip32': (0, 1)}
        one['wordlists'] = (0, 1, 4, 5)
        ops = {'private_key': ops['private_key'], 'bits': ops['bits'], 'coins': (1,),
               'templates': (0, 1, 6, 9, 23, 32), 'bip32': (0, 1, 6), 'signature': (0, 6)}
        pairs = [(a, a, 1) for a in NAMES] + [(a, NAMES[(n + d) % len(NAMES)], 1)
                                              for n, a in enumerate(NAMES) for d in (1, -1)]
    out = [('shared', name, k, 2, False) for name in two for k in two[name]]
    out += [('shared', name, k, 1, True) for name in ops for k in ops[name]]
    out += [('shared', name, k, 1, False) for name in one for k in one[name]
            if k not in two.get(name, ())]
    out += [('storm', name, (40 if name in SLOW else 300) * (1 if tier == 'quick' else 6))
            for name in STORMS]
    out += [('battery',) + p for p in pairs]
    return out


def run(task, res):
    if task[0] == 'shared':
        res.case(shared, *task[1:], seconds=3000)
    elif task[0] == 'storm':
        res.case(storm, *task[1:], seconds=3000)
    else:
        res.case(battery, *task[1:], seconds=3000)


def shared(name, k, preempt, opcodes):
    fn = SHARED[name][0]
    return explore(lambda: fn(k), preempt, opcodes)


def battery(a, b, preempt):
    return explore(lambda: (OPS[a](0), OPS[b](1)), preempt, False, both=a == b)


SNAP = None
WHO = threading.local()


def drawn(n):
    '''What the random source answers, which is not the same to every thread.'''
    who = getattr(WHO, 'tag', 0)
    return bytes(((37 - 8 * who) * j + 5 + 60 * who) & 0xff for j in range(n))


def tagged(tag, call):
    def tagged_call():
        WHO.tag = tag
        try:
            return call()
        finally:
            WHO.tag = 0
    return tagged_call


def fresh():
    global SNAP
    if SNAP is None:
        SNAP = Snapshot()
    SNAP.restore()
    entropy.reset(drawn)


def alone(call):
    try:
        return ('ok', call())
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])


def explore(setup, preempt, opcodes, both=True):
    '''Every schedule of the two calls with up to so many preemptions.'''
    watch(opcodes)
    want = []
    for t in (0, 1):
        fresh()
        want.append(alone(tagged(t, setup()[t])))
        if want[t][0] != 'ok':
            raise Mismatch(f'call {t} alone: {want[t]}')
    count = 0

    def execute(plan):
        nonlocal count
        count += 1
        fresh()
        calls = [tagged(t, call) for t, call in enumerate(setup())]
        SNAP.restore()      # making the objects does not count as first use
        sched = Scheduler(calls, plan)
        got = sched.run()
        for t in (0, 1):
            eq(got[t], want[t], f'call {t} under schedule {plan}')
        for t in (0, 1):
            eq(alone(calls[t]), want[t], f'call {t} afterwards, under schedule {plan}')
        return sched

    try:
        for first in (0, 1) if both else (0,):
            other = 1 - first
            execute([(first, None), (other, None)])
            for i in itertools.count(1):
                if not execute([(first, i), (other, None)]).preempted:
                    break
                if preempt > 1:
                    for j in itertools.count(1):
                        if execute([(first, i), (other, j), (first, None)]).preempted < 2:
                            break
    finally:
        entropy.reset()
    return {'evals': count - 1, 'schedule': count}
