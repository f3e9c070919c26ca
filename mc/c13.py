'''C13: scripts and their human-readable form agree, in both directions.'''

import itertools
import re

from . import ref
from .common import eq, true, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Every opcode byte, every pushed item of up to two bytes, every number within 2 of a power '
        'of two, every item length to 80 and around each push limit, and every sequence of up to n '
        'tokens of a boundary alphabet is rendered and compared with a reference, and parsed back '
        'where the rendering is unambiguous; every word of up to n characters of an alphabet, and '
        'every decimal and hexadecimal word around each limit, is parsed.  Scripts of chosen counts of '
        'operations to 65536.  Every sighash byte is '
        'rendered on signatures of every length, valid, invalid and cut.  Non-trivial: all.')
EXPECT = ('round trip', 'rendered', 'truncated', 'sighash shown', 'not a signature', 'word parsed',
          'word refused')

NAMES = '''
4c PUSHDATA1 PUSHDATA2 PUSHDATA4 1NEGATE RESERVED 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16
61 NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP 2DUP
6f 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SPLIT NUM2BIN
81 BIN2NUM SIZE INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE
90 ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY
9e NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1
a8 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY
b0 NOP1 CHECKLOCKTIMEVERIFY CHECKSEQUENCEVERIFY NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10
'''
NAME = {0: 'OP_0'}
for _line in NAMES.strip().splitlines():
    _first, *_rest = _line.split()
    for _k, _name in enumerate(_rest):
        NAME[int(_first, 16) + _k] = 'OP_' + _name
OPCODE = {v: k for k, v in NAME.items()}
OPCODE.update({'OP_FALSE': 0, 'OP_TRUE': 0x51, 'OP_NOP2': 0xb1, 'OP_NOP3': 0xb2})

ITEMS = (b'', b'\x01', b'\x10', b'\x11', b'\x81', b'\x80', b'\x7f', b'\xff\x00', b'\xff\x80',
         b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\0\0\0\x01', b'\x12\x34\x56\x78\x90',
         b'\x10\0\0\0\0', b'\x21\x47\x48\x36\x48', b'\xff\xff\xff\xff\x00', b'\0\0\0\0\0',
         b'\x0f\xff\xff\xff\xff', b'OP_DUP', b'\x00' * 20, b'a' * 75, b'b' * 76)
OPS = (0x50, 0x61, 0x6a, 0x76, 0x75, 0x87, 0x88, 0xa9, 0xac, 0xae, 0xb1, 0xb9)


def tasks(tier):
    n = 4 if tier == 'thorough' else 3
    tokens = len(ITEMS) + len(OPS)
    out = [('tokens', first, n) for first in range(tokens)]
    out += [('items', lo) for lo in range(0, 256, 16)]
    out += [('long', n) for n in LONG] + [('opcodes',), ('numbers',), ('sizes',), ('digits',), ('truncated',), ('names',)]
    out += [('sighash', lo) for lo in range(0, 256, 32)]
    out += [('words', k, tier == 'thorough') for k in range(len(WORDCHARS))]
    return out


def run(task, res):
    kind = task[0]
    tokens = [('i', i) for i in ITEMS] + [('o', o) for o in OPS]
    if kind == 'tokens':
        _, first, n = task
        for k in range(n):
            for rest in itertools.product(range(len(tokens)), repeat=k):
                if k == 3 and any(r % 3 for r in rest[:2]):     # a third of the alphabet
                    continue
                res.case(tokens_case, [first, *rest])
    elif kind == 'long':
        n = task[1]
        for way in range(len(WAYS)):
            res.case(long_script, n, way)
        for at in (0, 1, n // 2, n - 1):
            for k in (0, 1, 5, len(sigs()) - 1):
                res.case(long_signature, n, at, k)
            for bad in ('OP_NONE', 'abc', '2147483648x', '0x00'):
                res.case(word, ' '.join(['OP_DUP'] * at + [bad] + ['1'] * (n - at - 1)))
    elif kind == 'items':
        for a in range(task[1], task[1] + 16):
            res.case(item, bytes([a]))
            res.case(items_of_two, a)
    elif kind == 'opcodes':
        for op in range(256):
            res.case(opcode, op)
    elif kind == 'numbers':
        values = {s * ((1 << k) + d) for k in range(33) for d in (-2, -1, 0, 1, 2)
                  for s in (1, -1)}
        for v in sorted(values):
            res.case(number, v)
    elif kind == 'sizes':
        for n in list(range(81)) + [254, 255, 256, 257, 519, 520, 521, 65535, 65536]:
            for fill in (0x00, 0x11, 0x99, 0xab, 0x30):
                res.case(item, bytes([fill]) * n)
    elif kind == 'digits':
        # data whose hexadecimal form is all digits
        for n in (5, 6, 7, 8):
            for lead in ('00', '01', '09', '10', '20', '21', '22', '30', '42', '99'):
                for rest in ('00', '47', '48', '99', '11'):
                    for last in ('00', '46', '47', '48', '49', '99'):
                        res.case(item, bytes.fromhex(lead + rest * (n - 2) + last))
        for text in ('2147483646', '2147483647', '2147483648', '2147483649', '2147483650',
                     '4294967295', '4294967296', '0999999999', '9999999999', '1000000000'):
            res.case(item, bytes.fromhex(text))
    elif kind == 'truncated':
        for good in (b'', b'\x51', b'\x76\xa9', b'\x03abc'):
            for bad in (b'\x01', b'\x4b', b'\x4c', b'\x4c\x01', b'\x4d', b'\x4d\x01',
                        b'\x4d\x01\x00', b'\x4e', b'\x4e\x01\0\0', b'\x4e\x01\0\0\0',
                        b'\x4e\xff\xff\xff\xff', b'\x05abcd', b'\x4c\xff' + bytes(254)):
                res.case(truncated, good + bad)
    elif kind == 'names':
        for name in sorted(OPCODE):
            res.case(named, name)
            for bad in (name.lower(), name + '_', name[:-1] + '~', name + 'é', 'OP_' + name,
                        ' ' + name, name[3:]):
                res.case(word, bad)
        for bad in ('OP_', 'OP_UNKNOWN', 'OP_INVALIDOPCODE', '[error]', 'OP_17', 'OP_-1',
                    'OP_NOP11', 'OP___class__', 'OP_name', 'op_dup', '__members__', 'mro'):
            res.case(word, bad)
    elif kind == 'sighash':
        for s in range(task[1], task[1] + 32):
            for k in range(len(sigs())):
                res.case(signature, k, s)
            for n in range(1, 10):
                res.case(not_signature, bytes([0x30] * n)[:-1] + bytes([s]))
    elif kind == 'words':
        _, k, deep = task
        for n in range(1, 4 if deep else 3):
            for rest in itertools.product(WORDCHARS, repeat=n - 1):
                res.case(word, WORDCHARS[k] + ''.join(rest))
        for n in (3, 4, 5, 6) if deep else (3, 4):
            for rest in itertools.product('017-aFP', repeat=n - 1):
                res.case(word, WORDCHARS[k] + ''.join(rest))
        for base in ('2147483647', '2147483648', '-2147483647', '-2147483648', '999999999',
                     '1234567890', '12345678901', '0' * 9, '0' * 10, '0' * 11, '0' * 12,
                     '1' * 4299, '1' * 4300, '1' * 4302, '1' * 5000, 'ab' * 5, '30450221'):
            res.case(word, base)
            res.case(word, base + WORDCHARS[k])
            res.case(word, WORDCHARS[k] + base)


WORDCHARS = ('0129abcdefABFGgOPx_-+.,:;/\\|"\'()[]{}<>=!?*&^%$#@~` \t\n'
             '\0\x1c\x85\xa0\xb2é\u0660\u0661\u09e7\u2028\u3000\uff11\ud800\U0001d7ce')


def asm_item(data):
    return str(ref.num_decode(data)) if len(data) <= 4 else data.hex()


def ambiguous(data):
    '''Items the rendering cannot tell from another: short ones that are not minimal numbers, and
    five bytes that look like a decimal.'''
    if len(data) <= 4:
        return ref.num_encode(ref.num_decode(data)) != data
    return bool(re.fullmatch('[1-9][0-9]{9}', data.hex())) and int(data.hex()) <= 2147483647


def check(parts, ops):
    '''Render and parse back a script made of minimal parts.'''
    from bitcoinx import Script
    script = Script(b''.join(parts))
    want = ' '.join(asm_item(op) if isinstance(op, bytes) else NAME[op] for op in ops)
    eq(script.to_asm(False), want, f'ASM of {script.to_hex()[:80]}')
    if not any(isinstance(op, bytes) and op[:1] == b'\x30' for op in ops):
        eq(script.to_asm(True), want, f'ASM of {script.to_hex()[:80]}, decoding signatures')
    if any(isinstance(op, bytes) and ambiguous(op) for op in ops):
        true(outcome(Script.from_asm, want)[1] != script, 'ambiguous')
        return 'rendered'
    eq(Script.from_asm(want).to_hex(), script.to_hex(), f'parsed from {want[:80]}')
    for text in (want.replace(' ', '  '), ' ' + want.replace(' ', '\n') + '\t'):
        eq(Script.from_asm(text).to_hex(), script.to_hex(), f'parsed from {text[:80]!r}')
    return 'round trip'


def tokens_case(which):
    tokens = [('i', i) for i in ITEMS] + [('o', o) for o in OPS]
    chosen = [tokens[k] for k in which]
    return check([ref.push(v) if k == 'i' else bytes([v]) for k, v in chosen],
                 [v for k, v in chosen])


def item(data):
    return check([ref.push(data)], [data])


LONG = (4, 5, 8, 9, 10, 16, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 202, 254, 255, 256,
        257, 499, 500, 501, 511, 512, 999, 1000, 1001, 1024, 2000, 5000, 9999, 10_000, 10_001, 65_536)
WAYS = ((0x76,), (0x61, 0xac), (b'\x10',), (b'', 0x51), (b'OP_DUP', 0x76, b'\xff\x00', 0x87), (b'\x12\x34\x56\x78\x90', 0x75),
        (b'a' * 20, 0x87, b'\x81', 0xae, b'b' * 33))


def long_script(n, way):
    '''A script of n operations, whole and then cut.'''
    from bitcoinx import Script
    ops = [WAYS[way][i % len(WAYS[way])] for i in range(n)]
    # bare opcodes that are themselves pushes are the item they push
    ops = [bytes([op - 0x50]) if isinstance(op, int) and 0x51 <= op <= 0x60 else op for op in ops]
    parts = [ref.push(op) if isinstance(op, bytes) else bytes([op]) for op in ops]
    label = check(parts, ops)
    for tail in (b'\x05abcd', b'\x4c', b'\x4d\xff\xff'):
        for flag in (False, True):
            eq(Script(b''.join(parts) + tail).to_asm(flag), '[error]', f'ASM of {n} operations and a cut one')
    return label


def long_signature(n, at, k):
    '''A signature shown with its sighash wherever it is.'''
    from bitcoinx import Script
    der, good = sigs()[k]
    raw = b'\x76' * at + ref.push(der + b'\x41') + b'\x87' * (n - at - 1)
    before, after = ['OP_DUP'] * at, ['OP_EQUAL'] * (n - at - 1)
    plain = (der + b'\x41').hex()
    eq(Script(raw).to_asm(False), ' '.join(before + [plain] + after), f'signature at {at} of {n}')
    if good and 8 <= len(der) <= 72:
        plain = der.hex() + '[ALL|FORKID]'
    eq(Script(raw).to_asm(True), ' '.join(before + [plain] + after), f'signature at {at} of {n}, shown')
    return 'sighash shown' if plain[-1] == ']' else 'not a signature'


def items_of_two(a):
    counts = {'evals': 255}
    for b in range(256):
        label = item(bytes([a, b]))
        counts[label] = counts.get(label, 0) + 1
    return counts


def number(v):
    return item(ref.num_encode(v))


def opcode(op):
    from bitcoinx import Script, ScriptError
    if op < 0x4f or 0x51 <= op <= 0x60:
        return 'a push'
    if op == 0x4f:
        eq(Script(b'\x4f').to_asm(False), '-1', 'minus one')
        return 'a push'
    for before, after in ((b'', b''), (b'\x51', b'\x52')):
        script = Script(before + bytes([op]) + after)
        words = ['1'] * bool(before) + [NAME.get(op)] + ['2'] * bool(after)
        if op in NAME:
            eq(script.to_asm(False), ' '.join(words), f'opcode 0x{op:02x}')
            eq(Script.from_asm(' '.join(words)).to_hex(), script.to_hex(), NAME[op])
        else:
            # Not an opcode: shown as such, and never read back as another script
            shown = script.to_asm(False)
            words[len(before)] = 'OP_INVALIDOPCODE' if op == 0xff else 'OP_UNKNOWN'
            eq(shown, ' '.join(words), f'opcode 0x{op:02x}')
            eq(outcome(Script.from_asm, shown), ('exc', 'ScriptError'), f'parsing {shown}')
    return 'round trip'


def named(name):
    from bitcoinx import Script, Ops
    eq(Script.from_asm(name).to_hex(), f'{OPCODE[name]:02x}', name)
    eq(int(Ops[name]), OPCODE[name], name)
    return 'round trip'


def truncated(data):
    from bitcoinx import Script
    for flag in (False, True):
        eq(Script(data).to_asm(flag), '[error]', f'ASM of {data[:20].hex()}')
    return 'truncated'


def word(text):
    '''Any text at all gives a script or is refused.'''
    from bitcoinx import Script, ScriptError
    try:
        got = bytes(Script.from_asm(text))
    except ScriptError:
        got = None
    words = text.split()
    want = b''
    for w in words:
        if w.startswith('OP_'):
            one = bytes([OPCODE[w]]) if w in OPCODE else None
        elif re.fullmatch('0|-?[1-9][0-9]{0,9}', w) and abs(int(w)) <= 2147483647:
            one = ref.push(ref.num_encode(int(w)))
        elif re.fullmatch('-?0[0-9]{0,9}', w):
            return 'word parsed' if got is not None else 'word refused'     # -0, 007
        elif re.fullmatch('([0-9a-fA-F]{2})+', w):
            one = ref.push(bytes.fromhex(w))
        else:
            one = None
        want = None if want is None or one is None else want + one
    if got != want:
        raise Mismatch(f'word {text[:60]!r}: got {got and got[:30].hex()}, expected '
                       f'{want and want[:30].hex()}')
    return 'word refused' if got is None else 'word parsed'


_SIGS = []


def sigs():
    '''(data, whether it is a DER signature)'''
    if _SIGS:
        return _SIGS
    values = (0, 1, 0x7f, 0x80, 0xff, 0x100, 1 << 127, 1 << 247, 1 << 255, ref.N - 1)
    good = [ref.der_encode(r, s) for r in values for s in (1, 0x80, 1 << 254, ref.N // 2, ref.N - 1)]
    # lengths 8 to 72
    good += [ref.der_encode((1 << 8 * a) - 1 if a else 0, (1 << 8 * b) - 2 if b else 0)
             for a, b in ((0, 0), (1, 0), (5, 9), (31, 31), (32, 31), (31, 32))]
    base = ref.der_encode(1 << 250, 1 << 249)
    bad = [base[:-1], base + b'\0', b'\x31' + base[1:], base[:1] + bytes([base[1] + 1]) + base[2:],
           base[:2] + b'\x03' + base[3:], base[:3] + bytes([base[3] + 1]) + base[4:],
           b'\x30' + bytes(30), b'\x30\x06\x02\x01', b'\x30' * 20, b'\x30' + b'\xff' * 71,
           b'\x30\x80' + base[2:], b'\x30\x07\x02\x02\x00\x01\x02\x01\x01', b'\x02' * 20]
    _SIGS.extend((g, True) for g in good)
    _SIGS.extend((b, False) for b in bad)
    return _SIGS


def sighash_text(s):
    words = []
    if s & 3:
        words.append({1: 'ALL', 2: 'NONE', 3: 'SINGLE'}[s & 3])
    if s & 0x80:
        words.append('ANYONE_CAN_PAY')
    if s & 0x40:
        words.append('FORKID')
    if s & 0x3c:
        words.append('0x%02x' % (s & 0x3c))
    return '|'.join(words)


def signature(k, s):
    from bitcoinx import Script
    der, good = sigs()[k]
    data = der + bytes([s])
    script = Script(ref.push(data) + b'\x51')
    plain = data.hex() + ' 1'
    eq(script.to_asm(False), plain, f'signature {der.hex()}')
    want = f'{der.hex()}[{sighash_text(s)}] 1' if good and 9 <= len(data) <= 73 else plain
    eq(script.to_asm(True), want, f'signature {der.hex()} sighash 0x{s:02x}')
    return 'sighash shown' if want != plain else 'not a signature'


def not_signature(data):
    from bitcoinx import Script
    eq(Script(ref.push(data)).to_asm(True), asm_item(data), f'item {data.hex()}')
    return 'not a signature'
