'''C12: scripts are parsed, composed and templated faithfully, truncation included.'''

import itertools

from . import ref
from .common import eq, true, raises, Mismatch

LEVEL = 'exploration'
RULE = ('Every script of up to two bytes, and every script of up to n tokens over the opcodes and '
        'length bytes where parsing changes, is parsed and templated and compared with a reference; '
        'every pair and triple of scriptlets is composed in every way; every script of dropped data '
        'and no-ops is stripped.  Non-trivial: more than one operation, or truncated.')
TRIVIAL = ('empty',)
EXPECT = ('parsed', 'truncated', 'composed', 'buffers')

TOKENS = (0x00, 0x01, 0x02, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x6a, 0x75, 0x6d,
          0x76, 0xac, 0xff, 0x05)


def tasks(tier):
    out = [('short', a) for a in range(0, 256, 16)]
    depth = 4 if tier == 'quick' else 5
    out += [('tokens', t, depth) for t in TOKENS]
    out += [('strip', n) for n in range(1, 6 if tier == 'quick' else 7)]
    out += [('compose', k) for k in range(len(PIECES))] + [('long',), ('buffers',), ('errors',)]
    out += [('lengthy', k) for k in range(4)]
    out += [('alike', lo) for lo in range(8)]
    if tier == 'thorough':
        out += [('three', a) for a in range(256)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'short':
        if task[1] == 0:
            res.case(parse, b'')
        for a in range(task[1], task[1] + 16):
            res.case(parse, bytes([a]))
            res.case(parse_all, bytes([a]), 1)
    elif kind == 'three':
        res.case(parse_all, bytes([task[1]]), 2, seconds=900)
    elif kind == 'tokens':
        for n in range(task[2]):
            for rest in itertools.product(TOKENS, repeat=n):
                res.case(parse, bytes((task[1],) + rest))
    elif kind == 'strip':
        for combo in itertools.product(STRIP, repeat=task[1]):
            res.case(parse, b''.join(combo))
    elif kind == 'compose':
        for rest in itertools.product(range(len(PIECES)), repeat=2):
            res.case(compose, (task[1],) + rest)
    elif kind == 'long':
        for n in [*range(70, 80), *range(250, 260), 65_534, 65_535, 65_536, 65_537]:
            for op, width in ((0x4c, 1), (0x4d, 2), (0x4e, 4)):
                if n < 1 << 8 * width:
                    for short in (0, 1, 2, n):
                        data = bytes([op]) + n.to_bytes(width, 'little') + b'\x51' * (n - short)
                        res.case(parse, data)
                        res.case(parse, data + b'\xac')
                        res.case(parse, b'\xac' + data)
        for n in (1 << 31, (1 << 32) - 1, 1 << 24):
            res.case(parse, b'\x4e' + n.to_bytes(4, 'little') + b'abc')
    elif kind == 'lengthy':
        for n in (*range(4 + task[1], 40, 4), 64 + task[1], 127 + task[1], 254 + task[1], 1000 + task[1]):
            for step in range(1, 8):
                res.case(lengthy, n, step)
    elif kind == 'alike':
        for v in range(task[1], 256, 8):
            for which in itertools.product(range(6), repeat=3):
                res.case(alike, v, which)
    elif kind == 'buffers':
        for data in (b'', b'\0', b'\x51\x52', b'\x4c', bytes(range(100))):
            res.case(buffers, data)
    else:
        res.case(errors)


DATA = (b'\x00', b'\x51', b'\x4f', b'\x02ab', b'\x4c\x01x')
STRIP = DATA[1:4] + (b'\x00', b'\x61', b'\x75', b'\x6d', b'\x50', b'\x02a')


def strip(ops):
    '''Drop no-ops, and data that is dropped straight after it is pushed.'''
    out = []
    for op in ops:
        if op == 0x61:
            continue
        if op == 0x75 and out and isinstance(out[-1], bytes):
            del out[-1:]
        elif op == 0x6d and len(out) > 1 and isinstance(out[-1], bytes) \
                and isinstance(out[-2], bytes):
            del out[-2:]
        else:
            out.append(op)
    return out


def parse(data):
    from bitcoinx import Script, TruncatedScriptError, ScriptError
    want, truncated = ref.parse_script(data)
    script = Script(data)
    got, cut = [], False
    try:
        for op in script.ops():
            got.append(op)
    except TruncatedScriptError:
        cut = True
    if cut != truncated or len(got) != len(want) or any(
            a != b or isinstance(a, bytes) != isinstance(b, bytes) for a, b in zip(got, want)):
        raise Mismatch(f'script {data[:50].hex()}: operations {got[:8]} '
                       f'{"truncated" if cut else ""}, expected {want[:8]} '
                       f'{"truncated" if truncated else ""}')
    stripped = strip(want) + ([0] if truncated else [])
    template = bytes(0x4c if isinstance(op, bytes) else op for op in stripped)
    items = [op for op in stripped if isinstance(op, bytes)]
    if script.to_template() != (template, items):
        raise Mismatch(f'script {data[:50].hex()}: template {script.to_template()}, expected '
                       f'{template, items}')
    if bytes(script) != data or len(script) != len(data) or script.to_hex() != data.hex() \
            or Script.from_hex(data.hex()) != script or Script.from_hex(data.hex().upper()) != script or script != data:
        raise Mismatch('script bytes')
    if (script.to_asm(False) == '[error]') != truncated:
        raise Mismatch(f'script {data[:50].hex()}: ASM {script.to_asm(False)}')
    return 'truncated' if truncated else 'parsed' if want else 'empty'


def parse_all(prefix, n):
    counts = {'evals': 256 ** n - 1}
    for tail in itertools.product(range(256), repeat=n):
        label = parse(prefix + bytes(tail))
        counts[label] = counts.get(label, 0) + 1
    return counts


PIECES = ('script:', 'script:5152', 'script:ac', 'script:4c', 'data:', 'data:01', 'data:11',
          'data:81', 'data:616263', 'int:0', 'int:-1', 'int:16', 'int:17', 'int:-128', 'int:32768',
          'op:OP_CHECKSIG', 'op:OP_0', 'op:OP_RETURN', 'op:OP_PUSHDATA1', 'array:6162', 'long:')


def piece(text):
    '''(the object to append, its scriptlet)'''
    import bitcoinx
    kind, _, value = text.partition(':')
    if kind == 'script':
        return bitcoinx.Script(bytes.fromhex(value)), bytes.fromhex(value)
    if kind == 'data':
        return bytes.fromhex(value), ref.push(bytes.fromhex(value))
    if kind == 'array':
        return bytearray.fromhex(value), ref.push(bytes.fromhex(value))
    if kind == 'long':
        return bytes(300), ref.push(bytes(300))
    if kind == 'int':
        return int(value), ref.push(ref.num_encode(int(value)))
    op = bitcoinx.Ops[value]
    return op, bytes([int(op)])


def compose(which):
    from bitcoinx import Script
    parts = [piece(PIECES[k]) for k in which]
    objs = [p[0] for p in parts]
    want = b''.join(p[1] for p in parts)
    start = Script()
    one = start << objs[0] << objs[1] << objs[2]
    eq(bytes(one), want, 'composed with <<')
    eq(bytes(start), b'', 'the script appended to is unchanged')
    eq(bytes(Script().push_many(objs)), want, 'composed with push_many')
    eq(bytes(Script().push_many(iter(objs))), want, 'push_many of an iterator')
    eq(bytes(Script(parts[0][1]).push_many(objs[1:])), want, 'composed with push_many')
    two = Script(parts[0][1]) << (Script() << objs[1] << objs[2])
    eq(bytes(two), want, 'composition is associative')
    for o, p in zip(objs, parts):
        if isinstance(o, Script):
            eq(bytes(o), p[1], 'the script appended is unchanged')
    true(one == two and hash(one) == hash(two), 'equal scripts hash equally')
    ops, cut = ref.parse_script(want)
    got = []
    try:
        got.extend(one.ops())
    except Exception:
        pass
    true(cut or list(got) == ops, 'operations of the composition')
    return 'composed'


def lengthy(n, step):
    '''Many pieces composed, one by one, at once, and in two halves.'''
    from bitcoinx import Script
    parts = [piece(PIECES[k * step % len(PIECES)]) for k in range(n)]
    parts = [p for p in parts if p[1] != b'\x4c']     # it would swallow what follows
    objs = [p[0] for p in parts]
    want = b''.join(p[1] for p in parts)
    script = Script()
    for obj in objs:
        script = script << obj
    eq(bytes(script), want, 'composed one by one')
    eq(bytes(Script().push_many(objs)), want, 'composed with push_many')
    half = len(objs) // 2
    eq(bytes(Script().push_many(objs[:half]) << Script().push_many(o for o in objs[half:])), want,
       'composed in halves')
    ops, cut = ref.parse_script(want)
    true(not cut, 'harness: nothing is cut')
    eq(list(script.ops()), ops, 'operations of a long composition')
    eq(list(script.ops()), ops, 'operations asked again')
    eq(len(script), len(want), 'length')
    return 'composed'


def number(v):
    return ref.push(ref.num_encode(v))


def alike(v, which):
    '''Objects which are equal, or hash alike, but stand for different scriptlets, in any order.'''
    from bitcoinx import Script, Ops
    try:
        op = Ops(v), bytes([v])
    except ValueError:
        op = v, number(v)
    data = bytes([v])
    forms = ((v, number(v)), op, (data, ref.push(data)), (bytearray(data), ref.push(data)),
             (Script(data), data), (bool(v) if v < 2 else v + (1 << 61) - 1,
                                    number(v if v < 2 else v + (1 << 61) - 1)))
    parts = [forms[k] for k in which]
    script = Script()
    for obj, _ in parts:
        script = script << obj
    want = b''.join(p[1] for p in parts)
    eq(bytes(script), want, f'composed of {[p[0] for p in parts]}')
    eq(bytes(Script().push_many([p[0] for p in parts])), want, 'composed with push_many')
    return 'composed'


def buffers(data):
    from bitcoinx import Script
    for kind in (bytes, bytearray, memoryview, Script):
        source = kind(data)
        script = Script(source)
        eq(bytes(script), data, f'from {kind.__name__}')
        true(script == kind(data), f'equal to {kind.__name__}')
        true(not script == kind(data + b'\0'), f'not equal to another {kind.__name__}')
        if kind is bytearray and data:
            source[0] ^= 1
            eq(bytes(script), data, 'a script does not change with its source')
    eq(script.to_bytes(), data, 'to_bytes')
    eq(str(script), data.hex(), 'str')
    eq(hash(Script(data)), hash(Script(bytearray(data))), 'hash')
    for other in (None, 0, 'ab', 1.5, [], data.hex()):
        true(not script == other, f'not equal to {other!r}')
    return 'buffers'


def errors():
    from bitcoinx import Script
    for bad in (None, 1.5, 'text', [1], (b'a',), {}):
        raises(TypeError, lambda b=bad: Script() << b, what=f'<< {bad!r}')
        raises(TypeError, Script().push_many, [b'a', bad], what=f'push_many of {bad!r}')
    return 'refused'
