'''Transactions as plain tuples: (version, inputs, outputs, locktime), an input being
(prev hash, prev index, script bytes, sequence) and an output (value, script bytes).'''

from . import ref

H1, H2, H3 = ref.sha256(b'h1'), ref.sha256(b'h2'), ref.sha256(b'h3')
VERSIONS = (1, 2, 0, -1, 0x7fffffff, -0x80000000)
HASHES = (H1, bytes(32), b'\xff' * 32)
INDICES = (0, 1, 0xfffffffe, 0xffffffff)
SEQUENCES = (0xffffffff, 0, 1, 0xfffffffe, 0x80000000)
VALUES = (0, 1, 21 * 10 ** 14, -1, (1 << 63) - 1, -(1 << 63), 1 << 32)
LOCKTIMES = (0, 1, 499_999_999, 500_000_000, 0xffffffff)
LENGTHS = (0, 1, 75, 76, 252, 253, 254, 255, 256, 65_535, 65_536)


def script(n, salt=0):
    return bytes((i * 7 + salt) % 256 for i in range(min(n, 300))).ljust(n, b'\x51')


def real(tx):
    from bitcoinx import Tx, TxInput, TxOutput, Script
    version, ins, outs, locktime = tx
    return Tx(version, [TxInput(h, i, Script(s), q) for h, i, s, q in ins],
              [TxOutput(v, Script(s)) for v, s in outs], locktime)


def plain(tx):
    return (tx.version,
            tuple((bytes(i.prev_hash), i.prev_idx, bytes(i.script_sig), i.sequence)
                  for i in tx.inputs),
            tuple((o.value, bytes(o.script_pubkey)) for o in tx.outputs), tx.locktime)


def an_input(k):
    return ((H1, H2, H3)[k % 3], k, script(k % 4, k), 0xffffffff - k)


def an_output(k):
    return (1000 * k + 1, script(k % 3 + 1, k + 100))
