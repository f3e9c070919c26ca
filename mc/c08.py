'''C08: transactions survive serialization exactly, in the standard wire format.'''

import itertools
from io import BytesIO

from . import ref
from .common import eq, true, raises, Mismatch
from .txgen import (
    VERSIONS, HASHES, INDICES, SEQUENCES, VALUES, LOCKTIMES, LENGTHS, script, real, plain,
    an_input, an_output,
)

LEVEL = 'exploration'
RULE = ('Every combination of boundary values of every field for one input and one output; every '
        'pair of input and output counts from a boundary set; every pair of script lengths; each '
        'is serialized, sized, hashed and parsed back alone, in a stream among others, and with '
        'its data cut at every byte.  Non-trivial: all.')
EXPECT = ('fields', 'counts', 'lengths', 'stream', 'cut', 'refused', 'short reads')

COUNTS = (0, 1, 2, 3, 252, 253, 254)


def tasks(tier):
    out = [('fields', v, h) for v in range(len(VERSIONS)) for h in range(len(HASHES))]
    out += [('counts', a) for a in COUNTS]
    out += [('lengths', n) for n in LENGTHS]
    out += [('all lengths', lo) for lo in range(0, 600, 100)]
    out += [('stream',), ('refused',), ('bytes',)]
    if tier == 'quick':
        out += [('counts big', 65_536, (b,)) for b in (0, 1)]
    else:
        out += [('counts big', a, COUNTS) for a in (65_535, 65_536, 70_000)]
        out += [('all lengths', lo) for lo in range(600, 66_000, 100)]
        out += [('fields2', v) for v in range(len(VERSIONS))]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'fields':
        version, h = VERSIONS[task[1]], HASHES[task[2]]
        for i, q, v, l in itertools.product(INDICES, SEQUENCES, VALUES, LOCKTIMES):
            tx = (version, ((h, i, b'\x51', q),), ((v, b'\x6a\1\2'),), l)
            res.case(roundtrip, tx, 'fields', False)
    elif kind == 'fields2':
        version = VERSIONS[task[1]]
        for a, b in itertools.product(itertools.product(HASHES, INDICES, (b'', b'\x51'),
                                                        SEQUENCES), repeat=2):
            for v, w in itertools.product(VALUES, repeat=2):
                tx = (version, (a, b), ((v, b''), (w, b'\x6a')), 0)
                res.case(roundtrip, tx, 'fields', False)
    elif kind in ('counts', 'counts big'):
        for b in task[2] if len(task) > 2 else COUNTS:
            for order in (1, -1):
                n, m = (task[1], b)[::order]
                tx = (1, tuple(an_input(k) for k in range(n)),
                      tuple(an_output(k) for k in range(m)), 0)
                res.case(counts, n, m)
    elif kind == 'lengths':
        for n in LENGTHS:
            res.case(lengths, task[1], n)
    elif kind == 'all lengths':
        for n in range(task[1], task[1] + 100):
            res.case(lengths, n, 1)
            res.case(lengths, 1, n)
    elif kind == 'stream':
        menu = small_menu()
        for a, b in itertools.product(range(len(menu)), repeat=2):
            res.case(stream, a, b)
        for a in range(len(menu)):
            res.case(short_reads, a)
    elif kind == 'refused':
        for field in range(8):
            for v in (1 << 63, -(1 << 63) - 1, 1 << 64, 1 << 32, -1, -2, 1 << 31, 1 << 70):
                res.case(refused, field, v)
    else:
        # Every byte string with a small count structure: parse, and serialize back
        for n, m in itertools.product(range(3), repeat=2):
            for fill in range(256):
                res.case(filled, n, m, fill)


def small_menu():
    out = []
    for n, m in itertools.product(range(4), repeat=2):
        out.append((n - 1, tuple(an_input(k) for k in range(n)),
                    tuple(an_output(k) for k in range(m)), n * m))
    return out


def roundtrip(tx, label, cuts=True):
    from bitcoinx import Tx
    from bitcoinx.tx import TxInput, TxOutput
    raw = ref.ser_tx(tx)
    obj = real(tx)
    eq(obj.to_bytes(), raw, 'serialized')
    eq(obj.to_hex(), raw.hex(), 'serialized to hex')
    eq(obj.size(), len(raw), 'size')
    eq(Tx.size_io(obj.inputs, obj.outputs), len(raw), 'size_io')
    eq(bytes(obj.hash()), ref.sha256d(raw), 'hash')
    eq(obj.hex_hash(), ref.sha256d(raw)[::-1].hex(), 'hex hash')
    for back in (Tx.from_bytes(raw), Tx.from_hex(raw.hex()), Tx.from_hex(raw.hex().upper()),
                 Tx.from_bytes(bytearray(raw)), Tx.from_bytes(memoryview(raw))):
        if plain(back) != tx:
            raise Mismatch(f'parsed back differently: {plain(back)} for {tx}')
        eq(back.to_bytes(), raw, 'serialized again')
        true(back == obj, 'parsed transaction equals the original')
    # Amid a stream, where each read takes just its own bytes
    s = BytesIO(b'xyz' + raw * 2 + b'\xff')
    s.read(3)
    for n in (1, 2):
        back = Tx.read(s.read)
        true(back == obj, 'read from a stream')
        eq(s.tell(), 3 + n * len(raw), 'bytes consumed of a stream')
    for i, item in list(enumerate(tx[1]))[:3]:
        data = ref.ser_in(item)
        eq(obj.inputs[i].to_bytes(), data, 'input serialized')
        eq(obj.inputs[i].to_hex(), data.hex(), 'input in hex')
        eq(obj.inputs[i].size(), len(data), 'size of input')
        eq(TxInput.from_bytes(data).to_bytes(), data, 'input parsed back')
        for t in (data.hex(), data.hex().upper()):
            eq(TxInput.from_hex(t).to_bytes(), data, 'input parsed back')
        eq(bytes(obj.inputs[i].prevout_bytes()), data[:36], 'prevout')
    for i, item in list(enumerate(tx[2]))[:3]:
        data = ref.ser_out(item)
        eq(obj.outputs[i].to_bytes(), data, 'output serialized')
        eq(obj.outputs[i].to_hex(), data.hex(), 'output in hex')
        eq(obj.outputs[i].size(), len(data), 'size of output')
        eq(TxOutput.from_bytes(data).to_bytes(), data, 'output parsed back')
        for t in (data.hex(), data.hex().upper()):
            eq(TxOutput.from_hex(t).to_bytes(), data, 'output parsed back')
    if cuts:
        for cut in (range(len(raw)) if len(raw) < 700 else
                    [*range(100), *range(len(raw) - 100, len(raw))]):
            raises(Exception, Tx.from_bytes, raw[:cut], what=f'cut at byte {cut} of {len(raw)}')
        return {label: 1, 'cut': 1}
    return label


def counts(n, m):
    tx = (1, tuple(an_input(k) for k in range(n)), tuple(an_output(k) for k in range(m)), 0)
    return roundtrip(tx, 'counts', n + m < 65_000)


def lengths(n, m):
    return roundtrip((2, (an_input(0)[:2] + (script(n), 5),), ((7, script(m)),), 9), 'lengths')


def stream(a, b):
    '''One after the other in a stream.'''
    from bitcoinx import Tx
    menu = small_menu()
    data = ref.ser_tx(menu[a]) + ref.ser_tx(menu[b])
    s = BytesIO(b'xyz' + data + b'\xff')
    s.read(3)
    eq(plain(Tx.read(s.read)), menu[a], 'first in stream')
    eq(s.tell(), 3 + len(ref.ser_tx(menu[a])), 'bytes consumed')
    eq(plain(Tx.read(s.read)), menu[b], 'second in stream')
    eq(s.read(), b'\xff', 'left in stream')
    return 'stream'


def short_reads(a):
    '''A stream that ends, at the nth read, after every number of bytes.'''
    from bitcoinx import Tx
    raw = ref.ser_tx(small_menu()[a])
    reads = []

    def record(s):
        def read(n):
            reads.append(n)
            return s.read(n)
        return read
    Tx.read(record(BytesIO(raw)))
    true(sum(reads) == len(raw), 'asks for just the bytes it needs')
    total = 0
    for n, size in enumerate(reads):
        for got in range(size):
            left = [n]
            s = BytesIO(raw)

            def read(k):
                left[0] -= 1
                if left[0] == -1:
                    return s.read(got)
                return b'' if left[0] < -1 else s.read(k)
            raises(Exception, Tx.read, read, what=f'read {n} of {size} bytes gives {got}')
            total += 1
    return {'short reads': 1, 'evals': total}


def refused(field, v):
    '''A field out of its range cannot be serialized.'''
    ins, outs = [list(an_input(1))], [list(an_output(1))]
    tx = [1, ins, outs, 0]
    signed, bits = False, 32
    if field == 0:
        tx[0] = v
        signed = True
    elif field == 1:
        ins[0][1] = v
    elif field == 2:
        ins[0][3] = v
    elif field == 3:
        outs[0][0] = v
        signed, bits = True, 64
    elif field == 4:
        tx[3] = v
    else:
        return 'fields'
    lo, hi = (-(1 << bits - 1), 1 << bits - 1) if signed else (0, 1 << bits)
    obj = real((tx[0], [tuple(i) for i in ins], [tuple(o) for o in outs], tx[3]))
    if lo <= v < hi:
        eq(obj.to_bytes(), ref.ser_tx(tx), 'serialized')
        return 'fields'
    raises(Exception, obj.to_bytes, what=f'field {field} = {v}')
    return 'refused'


def filled(n, m, fill):
    from bitcoinx import Tx
    f = bytes([fill])
    scr = f * (fill % 7)
    tx = (int.from_bytes(f * 4, 'little', signed=True),
          ((f * 32, int.from_bytes(f * 4, 'little'), scr, int.from_bytes(f * 4, 'little')),) * n,
          ((int.from_bytes(f * 8, 'little', signed=True), scr),) * m,
          int.from_bytes(f * 4, 'little'))
    return roundtrip(tx, 'fields', fill in (0, 1, 0xfd, 0xff))
