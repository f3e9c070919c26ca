'''C15: base 58 is exact, and base 58 check lets no damaged text through.'''

import itertools

from . import ref
from .common import eq, true, raises, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Every byte string of up to two bytes (thorough: three), every count of leading zeros with '
        'each tail, chosen lengths to 5000, values within 2 of each power of 58 and 256 to 2**600, every text of up to '
        'three characters of the alphabet and of up to two ASCII characters; and for payloads of '
        'every length to 82, every one-character substitution, insertion, deletion, repetition and '
        'swap of the checked text: compared with a schoolbook reference.  Non-trivial: all.')
EXPECT = ('bytes', 'text', 'bad text', 'checked', 'damaged', 'wrong type')


def tasks(tier):
    out = [('bytes', a, tier == 'thorough') for a in range(0, 256, 8)]
    out += [('long', n, tier == 'thorough') for n in (150, 151, 168, 169, 170, 199, 200, 201, 222, 223, 224, 255, 256, 257, 300, 511,
                                                      512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 3000, 4096, 5000)]
    out += [('zeros',), ('powers',), ('types',), ('lengths',)]
    out += [('text', k, tier == 'thorough') for k in range(58)] + [('ascii', k) for k in range(0, 128, 16)]
    sizes = range(83) if tier == 'thorough' else (0, 1, 4, 20, 21, 33, 34, 37, 78)
    out += [('damage', n, k) for n in sizes for k in range(4 if n < 70 or tier != 'quick' else 2)]
    return sorted(out, key=lambda t: -t[1] if t[0] == 'damage' else 0)


def run(task, res):
    kind = task[0]
    if kind == 'bytes':
        if task[1] == 0:
            res.case(data, b'')
        for a in range(task[1], task[1] + 8):
            res.case(data, bytes([a]))
            for b in range(256):
                res.case(data, bytes([a, b]))
                if task[2]:
                    for c in range(256):
                        res.case(data, bytes([a, b, c]))
                else:
                    for c in (0, 1, 57, 58, 59, 127, 128, 255):
                        res.case(data, bytes([a, b, c]))
    elif kind == 'zeros':
        for n in range(66):
            for tail in (b'', b'\1', b'\x39', b'\x3a', b'\xff', b'\1\0', b'\1\0\0\0\0', b'\xff' * 20,
                         b'\x80' + bytes(32), bytes(range(1, 60))):
                res.case(data, bytes(n) + tail)
    elif kind == 'powers':
        for base, top in ((58, 103), (256, 76), (2, 600)):
            for k in range(top):
                for d in (-2, -1, 0, 1, 2):
                    v = base ** k + d
                    if v >= 0:
                        res.case(data, v.to_bytes((v.bit_length() + 7) // 8, 'big'))
    elif kind == 'lengths':
        for n in range(150):
            for fill in (0, 1, 0x3a, 0x80, 0xff):
                res.case(data, bytes([fill]) * n)
                res.case(data, bytes((fill + 7 * i) & 255 for i in range(n)))
                res.case(checked, bytes((fill + 7 * i) & 255 for i in range(n)))
    elif kind == 'long':
        n = task[1]
        for fill in (0, 1, 0x80, 0xff) if n < 1500 or task[2] else (0x80,):
            res.case(data, bytes([fill]) * n)
            res.case(data, bytes(n // 2) + bytes([fill]) * (n - n // 2))
            res.case(checked, bytes((fill + 7 * i) & 255 for i in range(n)))
            res.case(checked, bytes(fill % 2) + bytes([fill]) * n)
        for t in ('1' * n, 'z' * n, '1' * (n - 1) + '2') if n > 1500 and not task[2] else ('1' * n, 'z' * n, '2' * n, '1' * (n - 1) + '2', '1z' * (n // 2), 'z' + '1' * n, 'z' * n + '0', 'l' + 'z' * n,
                  'z' * n + ' ', ref.b58c_encode(bytes(n))[:-1], ref.b58c_encode(bytes(n))[1:],
                  ref.b58c_encode(b'\x80' * n)[:-1] + 'z'):
            res.case(text, t)
    elif kind == 'text':
        a = ref.B58[task[1]]
        res.case(text, a)
        for n in (1, 2):
            for rest in itertools.product(ref.B58, repeat=n):
                res.case(text, a + ''.join(rest))
        for rest in itertools.product('12yz', repeat=5):
            res.case(text, a + ''.join(rest))
    elif kind == 'ascii':
        extra = '\x80\xb2éI\u0131\u212a\u0661\uff11\ud800\U0001d7cf'
        for a in range(task[1], task[1] + 16):
            a = chr(a)
            res.case(text, a)
            for b in [chr(k) for k in range(128)] + list(extra):
                res.case(text, a + b)
                res.case(text, b + a)
                res.case(text, '1' + a + '1' + b)
                res.case(text, 'z' + a + b + 'z')
    elif kind == 'damage':
        _, n, k = task
        fill, step = ((0, 1), (0x80, 13), (0, 0), (255, 0))[k]
        res.case(damage, bytes((fill + step * i) & 255 for i in range(n)))
    else:
        for bad in ([], None, 5, b'111', bytearray(b'2'), ['1'], ('2', '3'), {}, 1.5):
            if isinstance(bad, (bytes, bytearray)):
                bad = ('bytes' if isinstance(bad, bytes) else 'array') + ':' + bad.hex()
            res.case(types, bad if not isinstance(bad, (list, tuple, dict)) else repr(bad))
        res.case(types, 'empty')


def data(b):
    from bitcoinx import base58_encode, base58_decode
    want = ref.b58_encode(b)
    eq(base58_encode(b), want, f'encode {b.hex()}')
    eq(base58_encode(bytearray(b)), want, f'encode array {b.hex()}')
    if b:
        eq(bytes(base58_decode(want)), b, f'decode {want}')
    else:
        eq(outcome(base58_decode, ''), ('exc', 'Base58Error'), 'decode empty')
    return 'bytes'


def text(t):
    from bitcoinx import base58_encode, base58_decode, base58_decode_check
    want = ref.b58_decode(t) if t else None
    if want is None:
        eq(outcome(base58_decode, t), ('exc', 'Base58Error'), f'decode {t!r}')
        eq(outcome(base58_decode_check, t), ('exc', 'Base58Error'), f'decode check {t!r}')
        return 'bad text'
    got = bytes(base58_decode(t))
    eq(got, want, f'decode {t!r}')
    eq(base58_encode(got), t, 'encode again')
    check(t)
    return 'text'


def check(t):
    from bitcoinx import base58_decode_check
    want = ref.b58c_decode(t)
    got = outcome(base58_decode_check, t)
    if got[0] == 'ok':
        got = ('ok', bytes(got[1]))
    want = ('exc', 'Base58Error') if want is None else ('ok', want)
    eq(got, want, f'decode check {t!r}')
    return want[0] == 'ok'


def checked(payload):
    from bitcoinx import base58_encode_check, base58_decode_check
    t = ref.b58c_encode(payload)
    eq(base58_encode_check(payload), t, f'encode check {payload.hex()}')
    eq(base58_encode_check(bytearray(payload)), t, f'encode check {payload.hex()}')
    eq(bytes(base58_decode_check(t)), payload, f'decode check {t}')
    return 'checked'


def damage(payload):
    '''Every small edit of the text.'''
    t = ref.b58c_encode(payload)
    true(check(t), 'good')
    counts = {'evals': 0, 'checked': 1, 'damaged': 0}
    edits = set()
    for i in range(len(t) + 1):
        for c in ref.B58 + '0OIl +/=\n':
            edits.add(t[:i] + c + t[i:])
            edits.add(t[:i] + c + t[i + 1:])
        edits.add(t[:i] + t[i + 1:])
        edits.add(t[:i])
        edits.add(t[i:])
        edits.add(t[:i] + t[i:i + 2][::-1] + t[i + 2:])
        edits.add(t[:i].lower() + t[i:])
        edits.add(t[i:] + t[:i])
    edits |= {t + t, t.lower(), t.upper(), t.swapcase(), t[::-1], ' ' + t, t + ' ', t + '\n'}
    edits.discard(t)
    # a checksum for other bytes
    for i in range(4):
        for bit in range(8):
            raw = bytearray(payload + ref.sha256d(payload)[:4])
            raw[-1 - i] ^= 1 << bit
            edits.add(ref.b58_encode(bytes(raw)))
    for i in range(len(payload)):
        raw = bytearray(payload + ref.sha256d(payload)[:4])
        raw[i] ^= 1
        edits.add(ref.b58_encode(bytes(raw)))
    for e in edits:
        counts['evals'] += 1
        check(e)
        counts['damaged'] += 1
    return counts


def types(bad):
    from bitcoinx import base58_decode, base58_decode_check
    if bad == 'empty':
        eq(outcome(base58_decode, ''), ('exc', 'Base58Error'), 'empty')
        eq(outcome(base58_decode_check, ''), ('exc', 'Base58Error'), 'empty')
        return 'bad text'
    if isinstance(bad, str):
        bad = {'bytes:313131': b'111', 'array:32': bytearray(b'2'), '[]': [], "['1']": ['1'],
               "('2', '3')": ('2', '3'), '{}': {}}[bad]
    for fn in (base58_decode, base58_decode_check):
        eq(outcome(fn, bad), ('exc', 'TypeError'), f'decode {bad!r}')
    return 'wrong type'
