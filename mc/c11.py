'''C11: items and numbers are pushed minimally and read back exactly.'''

import itertools

from . import ref
from .common import eq, true, raises, Mismatch

LEVEL = 'exploration'
RULE = ('Every item of up to two bytes, every length to 600 and around each opcode\'s limit; every '
        'integer below 70000 in magnitude and within 2 of every power of two to 2**130; every byte '
        'string of up to two bytes (thorough: three) as a number; every list of up to 7 items to '
        'push and drop.  Each is compared with a reference and executed on a reference stack.  '
        'Non-trivial: all.')
EXPECT = ('opcode', 'direct', 'PUSHDATA1', 'PUSHDATA2', 'PUSHDATA4', 'number', 'number read',
          'dropped')


def tasks(tier):
    out = [('items', lo) for lo in range(0, 256, 64)]
    out += [('lengths', lo) for lo in range(0, 600, 100)] + [('lengths', 'big')]
    top = 70_000 if tier == 'quick' else 9_000_000
    step = 10_000 if tier == 'quick' else 100_000
    out += [('ints', lo, lo + step) for lo in range(-top, top, step)] + [('wide',)]
    out += [('read', lo) for lo in range(0, 256, 32)]
    if tier == 'thorough':
        out += [('read3', lo) for lo in range(256)]
        out += [('lengths', lo) for lo in range(600, 66_000, 100)]
    out += [('drop', n) for n in range(8)] + [('drop', 'many')]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'items':
        if task[1] == 0:
            res.case(item, b'')
        for a in range(task[1], task[1] + 64):
            res.case(item, bytes([a]))
            for b in range(256):
                res.case(item, bytes([a, b]))
    elif kind == 'lengths':
        for n in (range(task[1], task[1] + 100) if task[1] != 'big' else
                  [*range(65_530, 65_542), 70_000, (1 << 24) + 3]):
            for fill in (0, 1, 0x81, 0xff):
                res.case(long_item, n, fill)
    elif kind == 'ints':
        for lo in range(task[1], task[2], 1000):
            res.case(numbers, lo, min(lo + 1000, task[2]))
    elif kind == 'wide':
        for k in range(131):
            for d in (-2, -1, 0, 1, 2):
                for sign in (1, -1):
                    res.case(number, sign * ((1 << k) + d))
        for k in range(0, 128, 8):
            for v in range(256):
                res.case(number, v << k)
                res.case(number, -(v << k))
    elif kind == 'read':
        if task[1] == 0:
            res.case(read, b'')
        for a in range(task[1], task[1] + 32):
            res.case(read, bytes([a]))
            res.case(read_all, bytes([a]), 1)
    elif kind == 'read3':
        res.case(read_all, bytes([task[1]]), 2, seconds=600)
    else:
        n = task[1]
        menu = (b'', b'\1', b'\x81', b'ab', bytes(80))
        if n == 'many':
            for n in (*range(9, 70), *range(120, 136), *range(250, 264), *range(504, 520), 1000, 1023,
                      1024, 1025, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537):
                for k in (1, 2):
                    res.case(dropped, tuple(menu[i * k % 5] for i in range(n)))
            return
        for combo in (itertools.product(menu, repeat=n) if n < 5 else
                      ([menu[(i * k) % 5] for i in range(n)] for k in range(5))):
            res.case(dropped, tuple(combo))


def item(data):
    from bitcoinx import push_item, Script
    got = push_item(data)
    want = ref.push(data)
    if got != want or not isinstance(got, bytes):
        raise Mismatch(f'push of {data[:20].hex()} ({len(data)} bytes): {got[:24].hex()}, '
                       f'expected {want[:24].hex()}')
    if list(Script(got).ops()) != [data]:
        raise Mismatch('a pushed item is not read back')
    if bytes(Script() << data) != want or bytes(Script().push_many([data])) != want:
        raise Mismatch('script << item')
    n = len(data)
    if len(want) == 1:
        return 'opcode'
    return 'direct' if n < 76 else f'PUSHDATA{1 if n < 256 else 2 if n < 65536 else 4}'


def long_item(n, fill):
    return item(bytes([fill]) * n)


def number(v):
    from bitcoinx import push_int, item_to_int, Script
    enc = ref.num_encode(v)
    got = push_int(v)
    if got != ref.push(enc):
        raise Mismatch(f'push of {v}: {got.hex()}, expected {ref.push(enc).hex()}')
    ops = list(Script(got).ops())
    if ops != [enc] or item_to_int(enc) != v:
        raise Mismatch(f'{v} is not read back')
    if bytes(Script() << v) != got:
        raise Mismatch(f'script << {v}')
    return 'number'


def numbers(lo, hi):
    for v in range(lo, hi):
        number(v)
    return {'evals': hi - lo - 1, 'number': hi - lo}


def read(data):
    from bitcoinx import item_to_int
    if item_to_int(data) != ref.num_decode(data):
        raise Mismatch(f'{data.hex()} as a number: {item_to_int(data)}, expected '
                       f'{ref.num_decode(data)}')
    return 'number read'


def read_all(prefix, n):
    for tail in itertools.product(range(256), repeat=n):
        read(prefix + bytes(tail))
    for tail in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xff), repeat=4):
        read(prefix + bytes(tail))
    return {'evals': 256 ** n + 1295, 'number read': 256 ** n + 1296}


def dropped(data):
    from bitcoinx import push_and_drop_items, push_and_drop_item, Script
    script = push_and_drop_items(list(data))
    pushes = b''.join(ref.push(d) for d in data)
    true(script.startswith(pushes), 'the pushes come first')
    stack = [b'base']
    for op in ref.parse_script(script)[0]:
        if isinstance(op, bytes):
            stack.append(op)
        elif op == 0x75:
            stack.pop()
        elif op == 0x6d:
            stack.pop()
            stack.pop()
        else:
            raise Mismatch(f'opcode {op}')
    eq(stack, [b'base'], 'all dropped')
    n = len(data)
    eq(script[len(pushes):], b'\x6d' * (n // 2) + b'\x75' * (n & 1), 'as few drops as possible')
    if n == 1:
        eq(push_and_drop_item(data[0]), script, 'push_and_drop_item')
    eq(Script(script).to_template(), (b'', []), 'the template of dropped data')
    return 'dropped'
