'''Run in a fresh process by C26: calls from every part of the library, results as JSON lines.

usage: env_battery.py ORDER [MODULE]    ORDER: forward, reverse, or a stride; MODULE: import first
'''

import hashlib
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import common                                               # noqa: E402
common.own_entropy()
if os.environ.get('MC_NO_AES'):
    sys.modules['Cryptodome'] = None

os.environ.setdefault('MC_SCRATCH', tempfile.gettempdir())
if len(sys.argv) > 2:
    __import__(sys.argv[2])
import bitcoinx                                                     # noqa: E402
from mc import c27, ref                                             # noqa: E402


def J(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [J(y) for y in x]
    if isinstance(x, dict):
        return {str(k): J(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bitcoinx.Coin):
        return x.name
    return type(x).__name__


def sha(words):
    return hashlib.sha256('\n'.join(words).encode()).hexdigest()


def headers_file():
    from mc.chainmodel import Tree, toy_coin
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'headers')
        tree = Tree()
        out = []
        headers = bitcoinx.Headers.from_file(toy_coin(), path, tree.checkpoint())
        for parent in (0, 1, 1, 2, 0):
            raw = tree.make(parent, 0)
            tree.add(parent, raw)
            header, chain = headers.connect(raw)
            out.append([header.height, chain.index, chain.work])
        for bad in (tree.nodes[1].raw[:79], b'\1' * 80, tree.nodes[5].raw[:-8] + b'\0' * 8):
            try:
                headers.connect(bad)
            except Exception as e:
                out.append(type(e).__name__)
        headers.flush()
        headers = bitcoinx.Headers.from_file(toy_coin(), path, tree.checkpoint())
        return out, len(headers), headers.chain_count(), headers.longest_chain().index


def classified(script, coin):
    out = bitcoinx.classify_output_script(script, coin)
    return [type(out).__name__, J(out.coin()) if hasattr(out, 'coin') else None]


def outcome(fn, *args):
    try:
        return J(fn(*args))
    except Exception as e:
        return type(e).__name__


def extra():
    b = bitcoinx
    S = b.Script
    key = c27.secret(1)
    sig = key.sign_message_to_base64('m')
    der = key.sign(b'm')
    enc = bytes(key.public_key.encrypt_message(b'hello'))
    W = b.Wordlists
    M = b.BIP39Mnemonic
    E = b.ElectrumMnemonic
    out = [
        lambda: sha(W.bip39_wordlist('english.txt')), lambda: sha(W.bip39_wordlist('spanish.txt')),
        lambda: sha(W.bip39_wordlist('japanese.txt')),
        lambda: sha(W.bip39_wordlist('chinese_simplified.txt')),
        lambda: sha(W.original_electrum_wordlist()), lambda: W.bip39_wordlist('electrum_old.txt'),
        lambda: M.to_seed('あいこくしん é', 'ﬁ ü'), lambda: M.normalize('あ\u3000É ﬁ'),
        lambda: M.is_valid(' '.join(['ábaco'] * 12), W.bip39_wordlist('spanish.txt')),
        lambda: M.is_valid('zzz ' * 12, W.bip39_wordlist('spanish.txt')),
        lambda: E.is_valid_old('é' * 12), lambda: E.is_valid_new('é あ', 'a'),
        lambda: E.generate_new(W.bip39_wordlist('japanese.txt'), prefix=''),
        lambda: key.sign_message('mé あ'), lambda: key.public_key.verify_message(sig, 'm'),
        lambda: key.public_key.verify_message('é' * 88, 'm'),
        lambda: key.public_key.verify_message(sig[:-1], 'm'),
        lambda: key.public_key.verify_message(b'\0' * 65, 'm'),
        lambda: b.PublicKey.verify_message_and_address(sig, 'm', 'é'),
        lambda: b.PublicKey.from_signed_message('!', 'm'),
        lambda: key.decrypt_message(enc), lambda: key.decrypt_message(enc[:-1]),
        lambda: key.decrypt_message('é'), lambda: key.decrypt_message(b''),
        lambda: key.decrypt_message(enc[:40] + bytes([enc[40] ^ 1]) + enc[41:]),
        lambda: b.der_signature_to_compact(b''), lambda: b.der_signature_to_compact(der[:-1]),
        lambda: b.compact_signature_to_der(bytes(63)), lambda: b.compact_signature_to_der(b'\xff' * 64),
        lambda: b.PrivateKey.from_text('x'), lambda: b.PrivateKey.from_WIF('5é'),
        lambda: b.PrivateKey(bytes(32)), lambda: b.PrivateKey(bytes(31)), lambda: b.PrivateKey(5),
        lambda: b.PrivateKey.from_hex('0'), lambda: b.PrivateKey.from_minikey('S'),
        lambda: b.PublicKey.from_hex('02'), lambda: b.PublicKey.from_bytes(b'\2' + b'\xff' * 32),
        lambda: b.PublicKey.combine_keys([]), lambda: key.add(bytes(31)),
        lambda: key.multiply(bytes(32)),
        lambda: b.Address.from_string('é' * 20, b.Bitcoin), lambda: b.Address.from_string('', b.Bitcoin),
        lambda: b.Address.from_string('bitcoincash:' + 'q' * 42, b.Bitcoin),
        lambda: b.Address.from_string('bitcoincash:', b.Bitcoin),
        lambda: b.base58_decode('é'), lambda: b.base58_decode('0'), lambda: b.base58_decode_check('11111'),
        lambda: b.bip32_key_from_string('xpub'), lambda: b.bip32_decompose_chain_string("m/é"),
        lambda: b.bip32_decompose_chain_string("m/1\n"), lambda: b.bip32_decompose_chain_string("m/٣"),
        lambda: b.bip32_build_chain_string([-1]), lambda: b.bip32_validate_derivation([1 << 32]),
        lambda: b.BIP32PrivateKey.from_seed(b'', b.Bitcoin),
        lambda: b.push_int(1 << 3000), lambda: b.item_to_int(b'\0' * 9),
        lambda: b.int_to_be_bytes(-1), lambda: b.int_to_be_bytes(256, 1), lambda: b.be_bytes_to_int(b''),
        lambda: b.bits_to_target(0x04800001), lambda: b.bits_to_target(0xff000001),
        lambda: b.target_to_bits(0), lambda: b.target_to_bits(1 << 256), lambda: b.target_to_bits(-1),
        lambda: b.pack_varint(-1), lambda: b.pack_varint(1 << 64), lambda: b.pack_le_uint32(1 << 32),
        lambda: b.hex_str_to_hash('0'), lambda: b.hash_to_hex_str(b''),
        lambda: b.Tx.from_hex('00'), lambda: b.Tx.from_bytes(ref.ser_tx(c27.a_tx(0))[:-1]),
        lambda: c27.txgen.real(c27.a_tx(0)).signature_hash(9, 0, S(), sighash=b.SigHash(0x41)),
        lambda: c27.txgen.real(c27.a_tx(0)).signature_hash(0, -1, S(), sighash=b.SigHash(0x41)),
        lambda: c27.txgen.real(c27.a_tx(0)).signature_hash(0, 0, S(), sighash=b.SigHash(1)),
        lambda: [b.locktime_description(n) for n in (0, 499999999, 500000000, 1500000000, 4294967295)]
        if hasattr(b, 'locktime_description') else None,
        lambda: b.Coin.from_WIF_byte(1), lambda: b.Coin.lookup_xver_bytes(b'1234'),
        lambda: b.P2MultiSig_Output([key.public_key], 2), lambda: b.P2PKH_Address(bytes(19), b.Bitcoin),
        lambda: b.Signature(b'x'), lambda: b.Signature(b''), lambda: b.SigHash(300),
        lambda: S.from_asm('OP_NOTHING'), lambda: S.from_asm('é'), lambda: S.from_asm('0٣'),
        lambda: S(b'\x4c').to_hex(), lambda: S() << object(), lambda: S() << None,
        lambda: json.dumps(c27.txgen.real((1, c27.a_tx(0)[1], c27.a_tx(0)[2], 1500000000)).to_json(
            b.JSONFlags.LOCKTIME_MEANING + b.JSONFlags.CLASSIFY_OUTPUT_SCRIPT, b.Bitcoin)),
        headers_file,
    ]
    # Texts and bytes of every size and kind, through everything that reads them
    payloads = [bytes([v]) + bytes(range(1, n)) for n in range(1, 40)
                for v in (0, 5, 0x80, 0x6f, 0xef, 0xc4)]
    payloads += [raw[:n] for n in range(74, 82) for raw in (
        bytes.fromhex('0488ade4') + bytes(9) + bytes(33) + b'\1' * 40,
        bytes.fromhex('0488b21e') + bytes(9) + b'\7' * 32 + b'\2' + b'\1' * 40)] + [b'']
    texts = [b.base58_encode_check(p) for p in payloads]
    texts += [t[:-1] + ('1' if t[-1] != '1' else '2') for t in texts[::5]]
    readers = [b.PrivateKey.from_text, b.PrivateKey.from_WIF, b.bip32_key_from_string,
               b.base58_decode_check, *(lambda t, c=c: b.Address.from_string(t, c)
                                        for c in b.all_coins[:2])]
    out += [lambda read=read: [outcome(read, t) for t in texts] for read in readers]
    sizes = [bytes(n) for n in range(83)] + [b'\2' * n for n in range(83)] + [b'\4' * 65, b'\x1b' * 65]
    takers = [b.PrivateKey, b.PublicKey.from_bytes, lambda raw: b.P2PKH_Address(raw, b.Bitcoin),
              lambda raw: b.P2SH_Address(raw, b.Bitcoin), b.Tx.from_bytes,
              b.Bitcoin.deserialized_header, b.Signature, b.item_to_int, b.be_bytes_to_int,
              b.der_signature_to_compact, b.compact_signature_to_der, b.hash_to_hex_str,
              b.Coin.lookup_xver_bytes, key.decrypt_message, key.add, key.public_key.add,
              key.multiply, b.PublicKey.from_bytes, b.base58_encode_check, S,
              lambda raw: b.PublicKey.from_signed_message(raw, 'm'),
              lambda raw: key.public_key.verify_der_signature(raw, b'm'),
              lambda raw: key.public_key.verify_recoverable_signature(raw, b'm'),
              lambda raw: b.BIP32PrivateKey.from_seed(raw, b.Bitcoin),
              lambda raw: b.BIP39Mnemonic.generate(W.bip39_wordlist('english.txt'), len(raw)),
              lambda raw: b.TxInput(raw, 0, S(), 0), lambda raw: b.P2MultiSig_Output(
                  [key.public_key] * 3, len(raw))]
    out += [lambda take=take: [outcome(take, *((raw, -1) if take == b.Bitcoin.deserialized_header
                                               else (raw, ))) for raw in sizes] for take in takers]
    # Classification on each network, with the lookups by version byte before, between and after
    for n in range(4):
        coin = b.all_coins[n]
        point = c27.secret(1).public_key
        outs = (S() << b.OP_HASH160 << bytes(20) << b.OP_EQUAL, point.P2PK_script(),
                b.P2MultiSig_Output([point], 1).to_script(), S() << b.OP_RETURN << b'x', S(),
                b.P2PKH_Address(bytes(20), coin).to_script())
        out += [lambda k=k, coin=coin: classified(outs_of()[k], coin)
                for outs_of in (lambda outs=outs: outs,) for k in range(len(outs))]
        out += [lambda coin=coin: b.Coin.from_WIF_byte(coin.WIF_byte),
                lambda coin=coin: b.Coin.lookup_xver_bytes(coin.xpub_verbytes),
                lambda coin=coin: b.Coin.lookup_xver_bytes(coin.xprv_verbytes),
                lambda coin=coin: b.PrivateKey(bytes(31) + b'\1', True, coin).to_WIF(),
                lambda coin=coin: b.PrivateKey.from_text(
                    b.PrivateKey(bytes(31) + b'\1', True, coin).to_WIF()).coin(),
                lambda coin=coin: b.bip32_key_from_string(b.BIP32PrivateKey.from_seed(
                    bytes(16), coin).to_extended_key_string()).coin(),
                lambda coin=coin: [point.to_address(coin=coin).to_string(), point.to_address(coin=coin)
                                   .coin()],
                lambda coin=coin: b.Address.from_string(
                    b.P2PKH_Address(bytes(20), coin).to_string(), coin).coin(),
                lambda coin=coin: b.Address.from_string(
                    b.P2SH_Address(bytes(20), coin).to_string(), coin).coin()]
    for n in range(len(TRUNCATED)):
        out.append(lambda n=n: [J(x) for x in S(TRUNCATED[n]).ops()])
        out.append(lambda n=n: S(TRUNCATED[n]).to_asm(True))
        out.append(lambda n=n: [J(x) for x in S(TRUNCATED[n]).to_template()])
        out.append(lambda n=n: type(b.classify_output_script(S(TRUNCATED[n]), b.Bitcoin)).__name__)
    return out


TRUNCATED = (b'\x01', b'\x02a', b'\x4b' + bytes(74), b'\x4c', b'\x4c\x02a', b'\x4d', b'\x4d\x01', b'\x4d\x02\x00a',
             b'\x4e', b'\x4e\x01\x00\x00', b'\x4e\x02\x00\x00\x00a', b'\x51\x4c', b'\x50', b'\xff', b'\x4d\xff\xff',
             b'\x4e\xff\xff\xff\xff', b'\x76\xa9\x14' + bytes(19))


def main():
    calls = [(f'{name} {k}', fn(k)) for name, fn in c27.OPS.items() for k in range(4)]
    calls += [(f'extra {n}', fn) for n, fn in enumerate(extra())]
    order = list(range(len(calls)))
    mode = sys.argv[1]
    if mode.startswith('alone'):
        _, lo, step = mode.split(':')
        return fresh(calls, order[int(lo)::int(step)], lambda n: [n])
    if mode.startswith('after'):
        _, lo, step = mode.split(':')
        return fresh(calls, order[int(lo)::int(step)], lambda n: [n, n] + order)
    if mode.startswith('pairs'):
        _, lo, step = mode.split(':')
        for n in order[int(lo)::int(step)]:
            fresh(calls, order, lambda m, n=n: [n, m])
        return
    if mode == 'reverse':
        order.reverse()
    elif mode != 'forward':
        step = int(mode)
        order = [n for first in range(step) for n in order[first::step]]
    results = {}
    for n in order:
        results[calls[n][0]] = one(*calls[n])
    sys.stdout.write('RESULT ' + json.dumps(results, sort_keys=True) + '\n')


def one(_name, call):
    common.entropy.reset(lambda size: bytes((37 * j + 5) & 0xff for j in range(size)))
    has_aes = getattr(bitcoinx.aes, 'AES', None)
    try:
        return ['ok', J(call())]
    except Exception as e:
        return ['exc', type(e).__name__]
    finally:
        if has_aes is not None:
            bitcoinx.aes.AES = has_aes


def fresh(calls, which, history):
    '''For each of which, a child of this process (which has called nothing yet) makes the calls of
    its history; every result is reported.'''
    for n in which:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                out = [[calls[k][0], one(*calls[k])] for k in history(n)]
                with os.fdopen(w, 'w') as f:
                    json.dump([calls[n][0], out], f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        sys.stdout.write('HISTORY ' + (text or json.dumps([calls[n][0], None])) + '\n')


if __name__ == '__main__':
    main()
