'''C10: facts derived from a transaction: coinbase, finality, totals, size, hash; never stale.'''

import copy
import itertools

from . import ref
from .common import eq, true, raises, Mismatch
from .txgen import real, plain, an_input, an_output, script, H1

LEVEL = 'model_checking'
RULE = ('Finality over every combination of boundary lock times, heights, times and sequences of up '
        'to three inputs; coinbase over every combination of up to three inputs of five kinds; '
        'totals over every tuple of boundary values.  Then every sequence of edits (to a depth) of '
        'a live transaction object: after each, every derived fact must equal that of the same '
        'transaction parsed afresh from its reference serialization; chosen counts of inputs and outputs to 65536, with the odd one at every place; also for edits of a copy and its original in every order.  Non-trivial: all.')
EXPECT = ('final', 'not final', 'coinbase', 'not coinbase', 'total', 'edited', 'copied')

NULL = bytes(32)
LOCKS = (0, 1, 2, 99, 100, 101, 499_999_998, 499_999_999, 500_000_000, 500_000_001, 1_600_000_000,
         0xfffffffe, 0xffffffff)
KINDS = ((NULL, 0xffffffff), (NULL, 0), (H1, 0xffffffff), (H1, 3), (b'\1' + bytes(31), 0xffffffff),
         (bytes(31) + b'\1', 0xffffffff), (NULL, 0xfffffffe))


def tasks(tier):
    out = [('final', l) for l in LOCKS]
    out += [('final of', l) for l in (0, 1, 100, 499_999_999, 500_000_000, 0xffffffff)]
    out += [('coinbase', n) for n in range(4)]
    out += [('totals', n) for n in range(4)]
    out += [('many', n) for n in MANY] + [('wide', n) for n in ((65_536,) if tier == 'quick' else (65_535, 65_536, 65_537))]
    depth = 3 if tier == 'quick' else 4
    out += [('edits', a, depth) for a in range(len(EDITS))]
    out += [('copies', a, depth - 1) for a in range(len(EDITS))]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'final':
        lock = task[1]
        near = sorted({0, 1, lock - 1, lock, lock + 1, 100, 499_999_999, 500_000_000, 500_000_001,
                       0xffffffff, 0x100000000} - {-1})
        seqs = (0xffffffff, 0xfffffffe, 0, 0x7fffffff)
        for height in near:
            for ts in near:
                for n in range(3):
                    for s in itertools.product(seqs, repeat=n):
                        res.case(final, lock, height, ts, s)
        for s in itertools.product(seqs, repeat=3):
            for height in (lock - 1, lock, lock + 1):
                res.case(final, lock, height, lock + 1 - (height - lock), s)
    elif kind == 'final of':
        lock = task[1]
        seqs = (0xffffffff, 0xfffffffe, 0, 0x80000000, 0x00400001)
        near = sorted({0, lock - 1, lock, lock + 1, 0xffffffff} - {-1})
        for n in range(3):
            for kinds in itertools.product(range(len(KINDS)), repeat=n):
                for s in itertools.product(seqs, repeat=n):
                    for limit in near:
                        for version in (1, 2, -1, 0)[:4 if n < 2 else 2]:
                            res.case(final_of, lock, limit, s, kinds, version)
    elif kind == 'coinbase':
        for kinds in itertools.product(range(len(KINDS)), repeat=task[1]):
            res.case(coinbase, kinds)
    elif kind == 'totals':
        values = (0, 1, -1, 546, 21 * 10 ** 14, (1 << 63) - 1, -(1 << 63))
        for vs in itertools.product(values, repeat=task[1]):
            res.case(total, vs)
    elif kind == 'many':
        n = task[1]
        for at in sorted({*range(n if n <= 300 else 0), 0, 1, n // 2, n - 2, n - 1}):
            for seq in (0xfffffffe, 0):
                res.case(many, n, at, seq)
        res.case(many, n, None, 0)
    elif kind == 'wide':
        for at in (None, 0, 32_768, 65_534, task[1] - 1):
            res.case(many, task[1], at, 5)
    elif kind == 'copies':
        _, first, depth = task
        for rest in itertools.product(range(len(EDITS)), repeat=depth - 1):
            for way in range(len(WAYS)):
                for turns in range(2 ** depth):
                    res.case(copies, (first,) + rest, way, turns)
    else:
        _, first, depth = task
        for rest in itertools.product(range(len(EDITS)), repeat=depth - 1):
            res.case(edits, (first,) + rest)


def final(lock, height, ts, seqs):
    tx = (1, tuple((H1, 0, b'', s) for s in seqs), (an_output(0),), lock)
    obj = real(tx)
    limit = height if lock < 500_000_000 else ts
    want = lock == 0 or lock < limit or all(s == 0xffffffff for s in seqs)
    eq(obj.is_final_for_block(height, ts), want, f'final: lock {lock}, height {height}, time {ts}')
    eq(obj.are_inputs_final(), all(s == 0xffffffff for s in seqs), 'inputs final')
    eq([i.is_final() for i in obj.inputs], [s == 0xffffffff for s in seqs], 'input final')
    return 'final' if want else 'not final'


def final_of(lock, limit, seqs, kinds, version):
    '''Nothing but the lock time and the sequences counts: not what the inputs spend, nor the
    outputs, nor the version.'''
    want = lock == 0 or lock < limit or all(s == 0xffffffff for s in seqs)
    other = 0 if lock < limit else 0x100000000
    args = (limit, other) if lock < 500_000_000 else (other, limit)
    for outs in ((), (an_output(0),), ((0, b'\x6a'), (-1, b''))):
        obj = real((version, tuple(KINDS[k] + (b'\1\2', s) for k, s in zip(kinds, seqs)), outs, lock))
        eq(obj.is_final_for_block(*args), want, f'final: lock {lock}, {args}')
    return 'final' if want else 'not final'


MANY = (4, 5, 9, 10, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 252, 253, 255, 256, 257, 300, 1000)


def many(n, at, seq):
    '''Many inputs, one of them not final (or like a coinbase's), and many outputs.'''
    ins = [(H1, i, b'', 0xffffffff) for i in range(n)]
    if at is not None:
        ins[at] = ins[at][:3] + (seq,)
    outs = tuple((i * i + 1 if i != at else -(1 << 62), b'') for i in range(n))
    tx = (1, tuple(ins), outs, 500)
    obj = real(tx)
    eq(obj.are_inputs_final(), at is None, f'inputs final: {n} inputs')
    eq(obj.is_final_for_block(500, 0), at is None, f'final: {n} inputs')
    eq(obj.is_final_for_block(501, 0), True, f'final, locktime past: {n} inputs')
    eq([i.is_final() for i in obj.inputs], [i != at for i in range(n)], 'input final')
    eq(obj.total_output_value(), sum(v for v, _ in outs), f'total of {n} outputs')
    raw = ref.ser_tx(tx)
    eq(obj.size(), len(raw), f'size with {n} inputs and outputs')
    eq(obj.hash(), ref.sha256d(raw), f'hash with {n} inputs and outputs')
    obj.inputs[at or 0].prev_hash, obj.inputs[at or 0].prev_idx = NULL, 0xffffffff
    eq(obj.is_coinbase(), n == 1, f'coinbase with {n} inputs')
    return 'final' if at is None else 'not final'


def coinbase(kinds):
    want = kinds == (0,)
    for seq, outs, data in itertools.product((5, 0xffffffff), ((), (an_output(0),), (an_output(1),) * 3),
                                             (b'', b'\1', bytes(101))):
        obj = real((1, tuple(KINDS[k] + (data, seq) for k in kinds), outs, 0))
        eq(obj.is_coinbase(), want, f'coinbase of input kinds {kinds}')
        for i, k in zip(obj.inputs, kinds):
            eq(i.is_coinbase(), k == 0, 'input of a coinbase')
    return 'coinbase' if want else 'not coinbase'


def total(vs):
    obj = real((1, (an_input(0),), tuple((v, b'') for v in vs), 0))
    eq(obj.total_output_value(), sum(vs), 'total output value')
    return 'total'


def _edits():
    def field(which, pos, f, new):
        def edit(t):
            if len(t[which]) <= pos:
                return
            item = list(t[which][pos])
            item[f] = new
            t[which][pos] = tuple(item)
        return edit

    def setter(which, new):
        def edit(t):
            t[which] = new
        return edit

    return [
        setter(0, 7), setter(3, 0), setter(3, 0xffffffff), setter(3, 400),
        field(1, 0, 0, NULL), field(1, 0, 1, 0xffffffff), field(1, 0, 2, script(300)),
        field(1, 0, 3, 0xffffffff), field(1, 1, 3, 0xffffffff), field(1, 0, 3, 1),
        field(2, 0, 0, 12345), field(2, 0, 1, script(253)), field(2, 0, 1, b''),
        # ... of the same length
        field(1, 1, 2, b'\xac'), field(2, 1, 1, b'\xac\xad'), field(1, 1, 0, bytes(31) + b'\2'),
        lambda t: t[1].append(an_input(5)), lambda t: t[1].__delitem__(slice(0, 1)),
        lambda t: t[2].append(an_output(5)), lambda t: t[2].__delitem__(slice(0, 1)),
        lambda t: t[2].reverse(), lambda t: t[1].reverse(),
    ]


EDITS = _edits()


def facts(obj):
    from bitcoinx import SigHash, Bitcoin, JSONFlags
    out = [obj.to_bytes(), obj.size(), bytes(obj.hash()), obj.hex_hash(), obj.is_coinbase(),
           obj.total_output_value(), obj.are_inputs_final(),
           obj.is_final_for_block(400, 400), obj.is_final_for_block(401, 1),
           [i.to_bytes() for i in obj.inputs], [o.to_bytes() for o in obj.outputs],
           [i.is_final() for i in obj.inputs], [i.is_coinbase() for i in obj.inputs],
           [i.size() for i in obj.inputs], [o.size() for o in obj.outputs]]
    for i in range(len(obj.inputs)):
        out.append(obj.signature_hash(i, 5, b'\x51', sighash=SigHash(0x41)))
        out.append(obj.signature_hash(i, 5, b'\x51', sighash=SigHash(0xc3)))
    out.append(repr(obj.to_json(JSONFlags.SIZE, Bitcoin)))
    out.append(repr(obj))
    return out


def texts(obj, t):
    '''The text forms show the contents.'''
    whole = repr(obj)
    for one, (h, idx, sig, seq) in zip(obj.inputs, t[1]):
        text = repr(one)
        true(text in whole, 'the text of a transaction has those of its inputs')
        for part in (h[::-1].hex(), str(idx), sig.hex(), str(seq)):
            true(part in text, f'the text of an input lacks {part}: {text}')
    for one, (value, pubkey) in zip(obj.outputs, t[2]):
        text = repr(one)
        true(text in whole, 'the text of a transaction has those of its outputs')
        for part in (str(value), pubkey.hex()):
            true(part in text, f'the text of an output lacks {part}: {text}')
    for part in (str(t[0]), str(t[3])):
        true(part in whole, f'the text of a transaction lacks {part}: {whole}')


def direct(obj, t, n):
    '''Edit the object as the user would: lists by list operations, fields by assignment.'''
    from .c09 import apply
    from bitcoinx import Script, TxInput, TxOutput
    if n == len(EDITS) - 6:
        h, i, s, q = an_input(5)
        obj.inputs.append(TxInput(h, i, Script(s), q))
    elif n == len(EDITS) - 4:
        v, s = an_output(5)
        obj.outputs = obj.outputs + [TxOutput(v, Script(s))]
    elif n >= len(EDITS) - 5:
        EDITS[n]((None, obj.inputs, obj.outputs))
    EDITS[n](t)
    apply(obj, t)


def evolved(obj):
    import attr
    return attr.evolve(obj, inputs=[attr.evolve(i) for i in obj.inputs],
                       outputs=[attr.evolve(o) for o in obj.outputs])


def shallow(obj):
    twin = copy.copy(obj)
    twin.inputs = [copy.copy(i) for i in obj.inputs]
    twin.outputs = [copy.copy(o) for o in obj.outputs]
    return twin


def rebuilt(obj):
    from bitcoinx import Tx, TxInput, TxOutput
    return Tx(obj.version, [TxInput(i.prev_hash, i.prev_idx, i.script_sig, i.sequence) for i in obj.inputs],
              [TxOutput(o.value, o.script_pubkey) for o in obj.outputs], obj.locktime)


WAYS = (copy.deepcopy, evolved, shallow, rebuilt)


def check_facts(obj, t, what):
    from bitcoinx import Tx
    raw = ref.ser_tx(t)
    eq(obj.to_bytes(), raw, f'{what}: serialized')
    mine, theirs = facts(obj), facts(Tx.from_bytes(raw))
    if mine != theirs:
        bad = [i for i, (a, b) in enumerate(zip(mine, theirs)) if a != b]
        raise Mismatch(f'{what}: facts {bad} are stale')
    eq(mine[3], ref.sha256d(raw)[::-1].hex(), f'{what}: hash')


def copies(seq, way, turns):
    '''A copy of a transaction, made after its facts were asked for, is equal to it and neither shows the edits of the other.'''
    both = []
    t = [2, [an_input(k) for k in range(2)], [an_output(k) for k in range(2)], 77]
    obj = real(t)
    check_facts(obj, t, 'the original')
    twin = WAYS[way](obj)
    true(obj == twin and twin == obj, 'a copy is equal')
    both = [(obj, t), (twin, [t[0], list(t[1]), list(t[2]), t[3]])]
    for n, step in enumerate(seq):
        direct(*both[turns >> n & 1], step)
        for k in (0, 1):
            check_facts(*both[k], f'{("original", "copy")[k]} after {seq[:n + 1]}')
        eq(obj == twin, ref.ser_tx(both[0][1]) == ref.ser_tx(both[1][1]), 'the copy is equal')
    # Two transactions with the same inputs and outputs
    from bitcoinx import Tx
    other = Tx(5, obj.inputs, obj.outputs, 6)
    check_facts(other, [5, t[1], t[2], 6], 'with shared parts')
    direct(obj, t, seq[0])
    check_facts(obj, t, 'with shared parts, after an edit')
    check_facts(other, [5, t[1], t[2] if other.outputs is obj.outputs else t[2][:len(other.outputs)], 6],
                'another with the same parts, after an edit')
    return {'copied': 1, 'states': 2 * len(seq) + 3, 'transitions': len(seq) + 1, 'traces': 2}


def edits(seq):
    from bitcoinx import Tx
    start = [2, [an_input(k) for k in range(2)], [an_output(k) for k in range(2)], 77]
    alike = [2, [an_input(1)] * 2, [an_output(1)] * 2, 77]
    for t, parsed in ((start, False), (alike, True)):
        raw = ref.ser_tx(t)
        obj = Tx.from_bytes(raw) if parsed else real(t)
        twin, twin_facts = Tx.from_bytes(raw), facts(Tx.from_bytes(raw))
        for step in (None,) + tuple(seq):
            if step is not None:
                direct(obj, t, step)
            raw = ref.ser_tx(t)
            eq(obj.to_bytes(), raw, f'serialized after {seq}')
            fresh = Tx.from_bytes(raw)
            mine, theirs = facts(obj), facts(fresh)
            if mine != theirs:
                bad = [i for i, (a, b) in enumerate(zip(mine, theirs)) if a != b]
                raise Mismatch(f'after edits {seq}: facts {bad} are stale')
            texts(obj, t)
            eq(mine[1], len(raw), 'size')
            eq(mine[3], ref.sha256d(raw)[::-1].hex(), 'hash')
            true(obj == fresh, 'equal to the transaction parsed afresh')
        if facts(twin) != twin_facts:
            raise Mismatch(f'after edits {seq}: another transaction changed')
    return {'edited': 1, 'states': 2 * len(seq) + 2, 'transitions': 2 * len(seq), 'traces': 2}
