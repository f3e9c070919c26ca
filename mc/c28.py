'''C28: the JSON view of transactions and scripts is faithful.'''

import itertools
import json
import os
import time

from . import ref, txgen
from .c13 import NAME, asm_item, sigs, sighash_text
from .c14 import reference, normal, keys, standard, VERBYTES
from .common import eq, true, Mismatch

LEVEL = 'exploration'
RULE = ('Every combination of the six options is combined with every coin and every transaction of '
        'up to 2 inputs and 2 outputs of menus of input kinds (ordinary, signed, odd, cut, '
        'coinbase) and output kinds, with sequences, values and versions at their limits; with '
        'every lock time of a menu of boundaries in each of four time zones; with every one-byte '
        'script, and every short coinbase text.  Scripts, inputs and outputs are also asked on '
        'their own, with and without an index.  Non-trivial: all.')
EXPECT = ('transaction', 'coinbase', 'locktime', 'script', 'pubkeyhash', 'scripthash', 'pubkey',
          'multisig', 'op_return', 'unknown', 'truncated')

FLAGS = dict(ENUMERATE_INPUTS=1, ENUMERATE_OUTPUTS=2, SIZE=4, LOCKTIME_MEANING=8,
             CLASSIFY_OUTPUT_SCRIPT=16, SIGHASH_MEANING=32)
ZONES = ('UTC0', 'EST5EDT4,M3.2.0,M11.1.0', 'IST-5:30', 'LINT-14')


def out_scripts():
    k = keys()
    return standard() + [
        b'', b'\x51', b'\x05abc', b'\x4d\xff', b'\x76\xa9\x4c\x14' + bytes(20) + b'\x88\xac',
        b'\x61' + standard()[0], standard()[0] + b'\x61', b'\x51\x75' + standard()[2],
        b'\x76\xa9\x13' + bytes(19) + b'\x88\xac', ref.push(k[0]) + b'\xad',
        b'\xff\xba', b'\x6a' + ref.push(sigs()[0][0] + b'\x01'),
        ref.push(sigs()[1][0] + b'\x41'), b'\x02\xff\x80\x4f\x60', b'\x52' + ref.push(k[0]) + b'\x52\xae']


def in_scripts():
    k = keys()
    return [b'', ref.push(sigs()[0][0] + b'\x41') + ref.push(k[0]), ref.push(sigs()[5][0] + b'\x01'),
            ref.push(sigs()[9][0] + b'\xc3') + ref.push(k[3]),
            b'\x00' + ref.push(sigs()[3][0] + b'\x02') + ref.push(sigs()[4][0] + b'\x83'),
            ref.push(b'\x30' + bytes(30)), b'\x4c', b'\x05abc', standard()[0], b'\x51\xff\xba\x50',
            ref.push(b'hello'), b'\x4f\x01\x80\x02\x10\x27']


TEXTS = (b'', b'/pool/', b'\x03\x01\x02\x03/x/', b'\xff\xfe', b'\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80',
         b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe2\x82', b'"\\\n\0\x7f', b'\xe2\x28\xa1',
         bytes(range(100)), bytes(range(128, 228)))

LOCKTIMES = sorted({0, 1, 2, 9, 10, 99, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000,
                    123456789, 499999999, 500000000, 500000001, 0xffffffff, 0xfffffffe, 0x80000000,
                    0x7fffffff, 1230768000 + 1, 951782399, 951782400, 951868799, 951868800, 4107542399,
                    4107542400, 1583020799, 1583020800, 1583625600, 1604210400, 1604211000}
                   | {s + d for s in (978307200, 1009843200, 1078012800, 1234567890, 1456704000,
                                      1477353600, 1509494400, 2524608000) for d in (-1, 0, 1, 60, 3600)})


def tasks(tier):
    out = [('flags', f) for f in range(64)]
    out += [('outputs', k) for k in range(len(out_scripts()))]
    out += [('inputs', k) for k in range(len(in_scripts()))]
    out += [('locktime', z) for z in range(len(ZONES))]
    out += [('many', n) for n in (3, 10, 50, 99, 100, 101, 128, 252, 253, 256, 257, 300)]
    out += [('coinbase',), ('bytes',), ('empty',)]
    out += [('again', k) for k in range(len(out_scripts() + in_scripts()))]
    if tier == 'thorough':
        out += [('outputs3', k) for k in range(len(out_scripts()))]
        out += [('texts2', k) for k in range(0, 256, 16)]
    return out


def run(task, res):
    kind = task[0]
    n_out, n_in = len(out_scripts()), len(in_scripts())
    if kind == 'flags':
        f = task[1]
        for coin in range(4):
            for i in range(n_in):
                for o in range(n_out):
                    res.case(grid, f, coin, [i], [o], (i + o) % len(LOCKTIMES))
            for i in range(-len(TEXTS), 0):
                res.case(grid, f, coin, [i], [(-i) % n_out], 0)
            res.case(grid, f, coin, [], [], 3)
    elif kind == 'outputs':
        k = task[1]
        for o in range(n_out):
            for f in (0, 2, 16, 18, 63, 32, 61):
                for coin in range(4):
                    res.case(grid, f, coin, [0], [k, o], 1)
    elif kind == 'inputs':
        for i in range(n_in):
            for f in (0, 1, 2, 32, 62, 63):
                res.case(grid, f, 0, [task[1], i], [0], 1)
    elif kind == 'again':
        ways = [(f, coin, is_sig) for f in (0, 16, 32, 63) for coin in (0, 1, 3)
                for is_sig in (False, True)]
        for first, second in itertools.product(ways, repeat=2):
            res.case(again, task[1], first, second)
    elif kind == 'outputs3':
        for a, b in itertools.product(range(n_out), repeat=2):
            for f in range(0, 64, 2):
                res.case(grid, f, (a + b) % 4, [a % n_in], [task[1], a, b], 1)
    elif kind == 'locktime':
        for t in LOCKTIMES:
            for f in range(64):
                res.case(locktime, task[1], f, t)
    elif kind == 'coinbase':
        for n in range(len(TEXTS)):
            for f in (0, 1, 2, 16, 63):
                for seq in txgen.SEQUENCES:
                    res.case(coinbase, TEXTS[n], f, seq)
        for a in range(256):
            res.case(coinbase, bytes([a]), 1, 0)
            for b in range(0, 256, 5):
                res.case(coinbase, bytes([a, b]), 1, 0)
    elif kind == 'many':
        n = task[1]
        for f in (0, 63):
            for a, b in ((n, 0), (0, n), (n, n), (1, n), (n, 1)):
                res.case(grid, f, 0, [(5 * i + 1) % n_in if i % 7 != 3 or n_in < 3 else -1 for i in range(a)],
                         [(3 * i + 2) % n_out for i in range(b)], n % len(LOCKTIMES))
            for data in (b'\x76' * n, ref.push(b'a' * 20) * n, b'\x6a' + b'\x51' * n, b'\x76' * n + b'\x4c'):
                res.case(script, data, f, 0)
    elif kind == 'texts2':
        for a in range(task[1], task[1] + 16):
            for b in range(256):
                for tail in (b'', b'\x80', b'\xbf\xbf', b'a', b'\x9f\x80'):
                    res.case(coinbase, bytes([a, b]) + tail, 1, 0)
    elif kind == 'bytes':
        for a in range(256):
            for f in (0, 16, 63):
                for coin in range(2):
                    res.case(script, bytes([a]), f, coin)
                    res.case(script, bytes([0x51, a]), f, coin)
                    res.case(script, bytes([a, 0x51, 0x6a]), f, coin)
    else:
        for v, val, seq in itertools.product(txgen.VERSIONS, txgen.VALUES, txgen.SEQUENCES):
            for idx in txgen.INDICES:
                res.case(limits, v, val, seq, idx)


def asm(data, decode):
    ops, cut = ref.parse_script(data)
    if cut:
        return '[error]'
    words = []
    for op in ops:
        if not isinstance(op, bytes):
            words.append(NAME.get(op, 'OP_INVALIDOPCODE' if op == 0xff else 'OP_UNKNOWN'))
        elif decode and len(op) >= 9 and is_der(op[:-1]):
            words.append(f'{op[:-1].hex()}[{sighash_text(op[-1])}]')
        else:
            words.append(asm_item(op))
    return ' '.join(words)


def is_der(data):
    return any(good and data == der for der, good in sigs())


def want_script(data, flags, coin, is_sig):
    want = {'asm': asm(data, is_sig), 'hex': data.hex()}
    if is_sig or not flags & 16:
        return want
    kind, detail = reference(data)
    want['type'] = kind
    _, p2pkh, p2sh = VERBYTES[coin]
    if kind == 'pubkeyhash':
        want['address'] = ref.b58c_encode(bytes([p2pkh]) + detail)
    elif kind == 'pubkey':
        pub = normal(detail)
        want['pubkey'] = pub.hex()
        want['address'] = ref.b58c_encode(bytes([p2pkh]) + ref.hash160(pub))
    elif kind == 'scripthash':
        want['maybe address'] = ref.b58c_encode(bytes([p2sh]) + detail)
    return want


def want_input(txin, flags, n):
    h, idx, data, seq = txin
    if h == bytes(32) and idx == 0xffffffff:
        want = {'coinbase': data.hex(), 'text': data.decode('utf-8', 'replace'), 'sequence': seq}
    else:
        want = {'hash': h.hex(), 'idx': idx, 'script': want_script(data, flags, 0, True),
                'sequence': seq}
    if flags & 1 and n is not None:
        want['nInput'] = n
    return want


def want_output(out, flags, coin, n):
    want = {'value': out[0], 'script': want_script(out[1], flags, coin, False)}
    if flags & 2 and n is not None:
        want['nOutput'] = n
    return want


def utc(t):
    days, secs = divmod(t, 86400)
    year = 1970
    while True:
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        if days < 365 + leap:
            break
        days -= 365 + leap
        year += 1
    month = 1
    for n in (31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31):
        if days < n:
            break
        days -= n
        month += 1
    return (f'{year:04d}-{month:02d}-{days + 1:02d} {secs // 3600:02d}:{secs // 60 % 60:02d}'
            f':{secs % 60:02d}')


def meaning(t):
    if t == 0:
        return 'valid in any block'
    if t < 500_000_000:
        digits, parts = str(t), []
        while digits:
            parts.insert(0, digits[-3:])
            digits = digits[:-3]
        return f'valid in blocks with height greater than {",".join(parts)}'
    return f'valid in blocks with MTP greater than {utc(t)} UTC'


def want_tx(tx, flags, coin):
    version, ins, outs, lock = tx
    raw = ref.ser_tx(tx)
    want = {'version': version, 'nInputs': len(ins), 'nOutputs': len(outs), 'locktime': lock,
            'vin': [want_input(i, flags, n) for n, i in enumerate(ins)],
            'vout': [want_output(o, flags, coin, n) for n, o in enumerate(outs)],
            'hash': ref.sha256d(raw)[::-1].hex()}
    if flags & 4:
        want['size'] = len(raw)
    if flags & 8:
        want['locktimeMeaning'] = meaning(lock)
    return want


def agree(got, want, where):
    '''Equal, types included; and so after a trip through JSON text.'''
    same(got, want, where)
    same(json.loads(json.dumps(got)), want, f'{where} through JSON')


def same(got, want, where):
    if isinstance(want, dict):
        if not isinstance(got, dict):
            raise Mismatch(f'{where}: {got!r} is not an object')
        want = dict(want)
        maybe = want.pop('maybe address', None)
        if maybe and 'address' in got:
            want['address'] = maybe
        if set(got) != set(want):
            raise Mismatch(f'{where}: has {sorted(got)}, expected {sorted(want)}')
        for k, v in want.items():
            same(got[k], v, f'{where} {k}')
    elif isinstance(want, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            raise Mismatch(f'{where}: {got!r}, expected {len(want)} items')
        for k, v in enumerate(want):
            same(got[k], v, f'{where} {k}')
    else:
        true(type(got) is type(want) or isinstance(got, int) and not isinstance(got, bool)
             and isinstance(want, int), f'{where}: {got!r} has the wrong type')
        eq(got, want, where)


def the_coin(k):
    import bitcoinx
    return getattr(bitcoinx, VERBYTES[k][0])


def options(f):
    from bitcoinx import JSONFlags
    for name, bit in FLAGS.items():
        eq(int(JSONFlags[name]), bit, f'JSONFlags.{name}')
    return JSONFlags(f)


def check_tx(tx, f, coin):
    flags = options(f)
    real = txgen.real(tx)
    where = f'flags {f}, {VERBYTES[coin][0]}'
    want = want_tx(tx, f, coin)
    agree(real.to_json(flags, the_coin(coin)), want, where)
    eq(txgen.plain(real), plain(tx), f'{where}: the transaction afterwards')
    agree(real.to_json(f, the_coin(coin)), want, f'{where}, again')
    for n, one in enumerate(real.inputs):
        for index in (None, n, 0, n + 7):
            agree(one.to_json(flags, index), want_input(tx[1][n], f, index), f'{where}: input')
        agree(one.to_json(flags), want_input(tx[1][n], f, None), f'{where}: input')
    for n, one in enumerate(real.outputs):
        for index in (None, n, 0, n + 7):
            agree(one.to_json(flags, the_coin(coin), index), want_output(tx[2][n], f, coin, index),
                  f'{where}: output')
        agree(one.to_json(flags, the_coin(coin)), want_output(tx[2][n], f, coin, None),
              f'{where}: output')


def plain(tx):
    return (tx[0], tuple(tx[1]), tuple(tx[2]), tx[3])


def grid(f, coin, ins, outs, lock):
    the_ins = []
    for n, i in enumerate(ins):
        if i < 0:
            the_ins.append((bytes(32), 0xffffffff, TEXTS[i], 0xffffffff))
        else:
            h = (txgen.H1, bytes(32), b'\xff' * 32)[(i + n) % 3]
            the_ins.append((h, (n, 7, 0xfffffffe, 0xffffffff)[i % 4] if h != bytes(32) else i,
                            in_scripts()[i], 0xffffffff - i))
    the_outs = [(1000 * o + n, out_scripts()[o]) for n, o in enumerate(outs)]
    check_tx((1 + f % 2, the_ins, the_outs, LOCKTIMES[lock]), f, coin)
    if f & 16 and len(outs) == 1:
        ops, cut = ref.parse_script(out_scripts()[outs[0]])
        return 'truncated' if cut else reference(out_scripts()[outs[0]])[0]
    return 'transaction'


def locktime(zone, f, t):
    os.environ['TZ'] = ZONES[zone]
    time.tzset()
    try:
        tx = (2, [(txgen.H1, 0, b'', 0)], [(5, b'\x51')], t)
        real = txgen.real(tx)
        agree(real.to_json(options(f), the_coin(0)), want_tx(tx, f, 0), f'{ZONES[zone]}')
    finally:
        del os.environ['TZ']
        time.tzset()
    return 'locktime'


def coinbase(text, f, seq):
    tx = (1, [(bytes(32), 0xffffffff, text, seq)], [(5, standard()[0])], 0)
    check_tx(tx, f, 0)
    return 'coinbase'


def limits(version, value, seq, idx):
    h = txgen.H2 if idx == 0xffffffff else bytes(32)
    check_tx((version, [(h, idx, b'\x51', seq)], [(value, b'\x52')], 0), 63, 0)
    return 'transaction'


def script(data, f, coin):
    from bitcoinx import Script
    for is_sig in (False, True):
        one = Script(data)
        agree(one.to_json(options(f), is_sig, the_coin(coin)), want_script(data, f, coin, is_sig),
              f'script {data.hex()}')
        eq(bytes(one), data, 'the script afterwards')
    return 'script'


def again(k, *ways):
    '''One object asked in different ways, in turn.'''
    data = (out_scripts() + in_scripts())[k]
    tx = (2, [(txgen.H1, 1, data, 5), (bytes(32), 0xffffffff, data, 6)], [(7, data)], 8)
    from bitcoinx import Script
    one, whole = Script(data), txgen.real(tx)
    for f, coin, is_sig in ways + ways[:1]:
        agree(one.to_json(options(f), is_sig, the_coin(coin)), want_script(data, f, coin, is_sig),
              f'script {data.hex()} asked {ways}')
        eq(one.to_asm(is_sig), asm(data, is_sig), f'script {data.hex()} asked {ways}: to_asm')
        whole.inputs[1].prev_idx = 0xffffffff if is_sig else 3
        now = (2, [tx[1][0], (bytes(32), whole.inputs[1].prev_idx) + tx[1][1][2:]]) + tx[2:]
        agree(whole.to_json(options(f), the_coin(coin)), want_tx(now, f, coin), f'asked {ways}')
    return 'script'
