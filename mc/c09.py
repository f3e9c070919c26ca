'''C09: the hash a signature signs is the standard one and commits to exactly what it should.'''

import itertools

from . import ref
from .common import eq, true, raises, Mismatch
from .txgen import real, plain, an_input, an_output, script, H1, H2

LEVEL = 'exploration'
RULE = ('All 256 sighash bytes times every shape of up to 3 inputs and 4 outputs, every input, and '
        'a set of values and scripts, against a reference written from the specification; '
        'independently, for every sighash byte and every single-field edit of a transaction, '
        'whether the hash may change is read off the specification\'s commitment table; and every '
        'sequence of edits and hashes on one object must agree with a fresh one.  Non-trivial: all.')
EXPECT = ('matches', 'committed', 'not committed', 'edited', 'refused')

SHAPES = [(n, m) for n in (1, 2, 3) for m in (0, 1, 2, 4)]
VALUES = (0, 1, 21 * 10 ** 14, (1 << 63) - 1)
SCRIPTS = (b'', b'\x51', script(75), script(252), script(253), script(256), script(65_536))


def tasks(tier):
    out = [('shape', n, m, lo) for n, m in SHAPES for lo in range(0, 256, 64)]
    out += [('scripts',), ('refused',), ('default',)] + [('alike', n) for n in (1, 2, 3)]
    out += [('commit', lo) for lo in range(0, 256, 16)]
    out += [('edits', k, tier == 'thorough') for k in range(len(EDITS))]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'shape':
        _, n, m, lo = task
        for s in range(lo, lo + 64):
            for i in range(n):
                for v in (0, 10 ** 8):
                    res.case(compare, n, m, i, s, v, 1)
    elif kind == 'scripts':
        for s in (0x01, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x00):
            for v in VALUES:
                for k in range(len(SCRIPTS)):
                    res.case(compare, 2, 2, 1, s, v, k)
        # wide sighash values are hashed as 32 bits
        for s in (0x100, 0x141, 0xff41, 0xffffff41, 0x80000041, 0xffffffff):
            for i in (0, 1):
                res.case(compare, 2, 2, i, s, 5, 1)
        for n, m in ((252, 2), (253, 2), (2, 252), (2, 253), (300, 300)):
            for s in (0x41, 0x42, 0x43, 0xc1, 0xc3):
                for i in (0, 1, n - 1):
                    res.case(compare, n, m, i, s, 5, 1)
    elif kind == 'alike':
        # Inputs, and outputs, that are equal to one another
        for n, m in itertools.product((task[1],), range(4)):
            for ins in itertools.product((0, 1), repeat=n):
                for outs in itertools.product((0, 1), repeat=m):
                    for s in (0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3):
                        for i in range(n):
                            res.case(alike, ins, outs, i, s)
    elif kind == 'commit':
        for s in range(task[1], task[1] + 16):
            for i in range(3):
                for e in range(len(EDITS)):
                    res.case(commitment, s, i, e)
    elif kind == 'edits':
        first, full = task[1], task[2]
        kinds = (0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3)
        for second in range(len(EDITS)):
            for s in kinds:
                res.case(edited, (first, second), s)
            if full:
                for third in range(len(EDITS)):
                    res.case(edited, (first, second, third), 0x41)
                    res.case(edited, (first, second, third), 0xc3)
    elif kind == 'default':
        for n, m in SHAPES:
            for i in range(n):
                res.case(default, n, m, i)
    else:
        for n in (0, 1, 3):
            for i in (-1, n, n + 1, -n - 1, 10 ** 6):
                res.case(bad_index, n, i)
        for s in (0x41, 0, 1, None, 'ALL', 65.0, b'A'):
            res.case(bad_sighash, s)
        for v in (-1, -2, -(1 << 63), 1 << 63):
            res.case(bad_value, v)


def a_tx(n, m):
    return (2, tuple(an_input(k) for k in range(n)), tuple(an_output(k) for k in range(m)), 77)


def compare(n, m, i, s, value, k):
    from bitcoinx import SigHash, Script
    tx = a_tx(n, m)
    obj = real(tx)
    want = ref.bip143(tx, i, value, SCRIPTS[k], s)
    for scr in (Script(SCRIPTS[k]), SCRIPTS[k]):
        eq(obj.signature_hash(i, value, scr, sighash=SigHash(s)), want,
           f'{n} inputs, {m} outputs: input {i} sighash 0x{s:02x}')
    true(plain(obj) == tx, 'hashing leaves the transaction alone')
    return 'matches'


def alike(ins, outs, i, s):
    from bitcoinx import SigHash
    tx = (2, tuple(an_input(k) for k in ins), tuple(an_output(k) for k in outs), 77)
    want = ref.bip143(tx, i, 5, b'\x51', s)
    eq(real(tx).signature_hash(i, 5, b'\x51', sighash=SigHash(s)), want,
       f'inputs {ins}, outputs {outs}: input {i} sighash 0x{s:02x}')
    # and when they are the same objects
    obj = real(tx)
    for items in (obj.inputs, obj.outputs):
        for k, item in enumerate(items):
            items[k] = next(x for x in items if x == item)
    eq(obj.signature_hash(i, 5, b'\x51', sighash=SigHash(s)), want,
       f'the same inputs {ins}, outputs {outs}: input {i} sighash 0x{s:02x}')
    return 'matches'


def default(n, m, i):
    '''Without a sighash, all is signed, with the fork id.'''
    tx = a_tx(n, m)
    eq(real(tx).signature_hash(i, 9, b'\x51'), ref.bip143(tx, i, 9, b'\x51', 0x41),
       'default sighash')
    return 'matches'


# Edits of a three-input, three-output transaction (and the value and script being spent):
# (name, function on mutable [version, inputs, outputs, locktime, value, script])
def _edit_list(which, index, field, new):
    def edit(t):
        item = list(t[which][index])
        item[field] = new
        t[which][index] = tuple(item)
    return edit


def _set(which, new):
    def edit(t):
        t[which] = new
    return edit


EDITS = [('version', _set(0, 1)), ('locktime', _set(3, 78)), ('value', _set(4, 10)),
         ('script', _set(5, b'\x52'))]
for _k in range(3):
    EDITS += [((_k, 'hash'), _edit_list(1, _k, 0, b'\x99' * 32)),
              ((_k, 'index'), _edit_list(1, _k, 1, 1234)),
              ((_k, 'script sig'), _edit_list(1, _k, 2, b'\x61\x61')),
              ((_k, 'sequence'), _edit_list(1, _k, 3, 17)),
              ((_k, 'out value'), _edit_list(2, _k, 0, 5)),
              ((_k, 'out script'), _edit_list(2, _k, 1, b'\x6a'))]
EDITS += [('add input', lambda t: t[1].append(an_input(9))),
          ('add output', lambda t: t[2].append(an_output(9))),
          ('swap inputs', lambda t: t[1].__setitem__(slice(0, 2), t[1][1::-1])),
          ('swap outputs', lambda t: t[2].__setitem__(slice(0, 2), t[2][1::-1])),
          ('drop output', lambda t: t[2].pop())]


def committed(s, i, name):
    '''Whether the specification says the hash for input i covers the thing named.'''
    base, acp = s & 0x1f, bool(s & 0x80)
    single, none = base == 3, base == 2
    if name in ('version', 'locktime', 'value', 'script'):
        return True
    if name == 'add input':
        return not acp
    if name == 'swap inputs':
        return not acp or i in (0, 1)       # the input signed is another one
    if name == 'add output':
        return not single and not none
    if name == 'swap outputs':
        return not none and (not single or i in (0, 1))
    if name == 'drop output':
        return not none and (not single or i == 2)
    k, field = name
    if field == 'script sig':
        return False
    if field in ('hash', 'index'):
        return k == i or not acp
    if field == 'sequence':
        return k == i or not (acp or single or none)
    if none:
        return False
    return k == i if single else True


def commitment(s, i, e):
    from bitcoinx import SigHash
    name, edit = EDITS[e]
    t = [2, [an_input(k) for k in range(3)], [an_output(k) for k in range(3)], 77, 9, b'\x51']
    before = real(t[:4]).signature_hash(i, t[4], t[5], sighash=SigHash(s))
    edit(t)
    after = real(t[:4]).signature_hash(i, t[4], t[5], sighash=SigHash(s))
    want = committed(s, i, name)
    if (before != after) != want:
        raise Mismatch(f'sighash 0x{s:02x} input {i}: {name} '
                       f'{"is not" if want else "is"} committed to')
    return 'committed' if want else 'not committed'


def edited(edits, s):
    '''Hash, edit, hash, edit, hash... on one object.'''
    from bitcoinx import SigHash, Script
    from bitcoinx.tx import TxInput, TxOutput
    t = [2, [an_input(k) for k in range(3)], [an_output(k) for k in range(3)], 77, 9, b'\x51']
    obj = real(t[:4])
    for e in (None,) + tuple(edits):
        if e is not None:
            if EDITS[e][0] == 'drop output' and not t[2]:
                break
            if len(t[1]) < 2 or len(t[2]) < 2:
                break
            try:
                EDITS[e][1](t)
            except IndexError:
                break
            apply(obj, t)
        for i in range(len(t[1])):
            want = ref.bip143((t[0], t[1], t[2], t[3]), i, t[4], t[5], s)
            eq(obj.signature_hash(i, t[4], Script(t[5]), sighash=SigHash(s)), want,
               f'after edits {edits}: input {i} sighash 0x{s:02x}')
        eq(obj.to_bytes(), ref.ser_tx((t[0], t[1], t[2], t[3])), 'serialized')
    return 'edited'


def apply(obj, t):
    '''Edit the object in place to match, setting only the fields that differ.'''
    from bitcoinx import Script
    from bitcoinx.tx import TxInput, TxOutput

    def put(x, name, value):
        now = getattr(x, name)
        if (bytes(now) if isinstance(value, bytes) else now) != value:
            setattr(x, name, Script(value) if name.startswith('script') else value)

    put(obj, 'version', t[0])
    put(obj, 'locktime', t[3])
    while len(obj.inputs) < len(t[1]):
        h, i, s, q = t[1][len(obj.inputs)]
        obj.inputs.append(TxInput(h, i, Script(s), q))
    del obj.inputs[len(t[1]):]
    while len(obj.outputs) < len(t[2]):
        v, s = t[2][len(obj.outputs)]
        obj.outputs.append(TxOutput(v, Script(s)))
    del obj.outputs[len(t[2]):]
    for o, one in zip(obj.inputs, t[1]):
        for name, value in zip(('prev_hash', 'prev_idx', 'script_sig', 'sequence'), one):
            put(o, name, value)
    for o, one in zip(obj.outputs, t[2]):
        for name, value in zip(('value', 'script_pubkey'), one):
            put(o, name, value)


def bad_index(n, i):
    if 0 <= i < n:
        return 'matches'
    raises(IndexError, real(a_tx(n, 1)).signature_hash, i, 0, b'', what=f'input {i} of {n}')
    return 'refused'


def bad_sighash(s):
    if s is None:
        return 'matches'
    raises(TypeError, lambda: real(a_tx(1, 1)).signature_hash(0, 0, b'', sighash=s),
           what=f'sighash {s!r}')
    return 'refused'


def bad_value(v):
    raises(Exception, real(a_tx(1, 1)).signature_hash, 0, v, b'', what=f'value {v}')
    return 'refused'
