'''C25: Electrum mnemonics and old seeds are exact, and only valid ones pass.'''

import functools
import hashlib
import hmac
import itertools
import unicodedata

from .common import eq, true, raises, entropy, Mismatch

LEVEL = 'exploration'
RULE = ('Old seeds: every pair, and every triple of a boundary set, of word positions and of values '
        '(about 0, 2**32 and n**3) in every group, every word count to 50, an unknown word in every '
        'place, every hex length to 80 and every bad character in every place, go both ways.  New '
        'mnemonics: every number of bits to 300 for lists of several lengths, with the random source '
        'answering each boundary value after each sequence of unusable ones, one-bit changes of its '
        'answer, runs of values that are also old seeds; validity over every prefix of two digits '
        'and every short text of an alphabet.  Non-trivial: all.')
EXPECT = ('old', 'not old', 'refused', 'generated', 'valid', 'normalized', 'random')

N = 1626
CHARS = (' ', '\t', '\u3000', '\xa0', 'a', 'É', '\u0301', '\n', 'Σ', 'ﬁ')
BAD = ('g', ' ', '+', '_', 'x', '\uff11', '-', '\n', '\t', '', '00', '\u0661', 'G', '.')
INDEX = (0, 1, 2, 812, 813, 1623, 1624, 1625)


def tasks(tier):
    out = [('triples', i) for i in range(8)]
    out += [('pairs', lo) for lo in range(8)] if tier == 'quick' else \
        [('allpairs', lo) for lo in range(0, N, 32)]
    out += [('values',), ('counts',), ('unknown',), ('hex',), ('oldgen',), ('bits',), ('wide',), ('badargs',)]
    out += [('badhex', k) for k in range(len(BAD))]
    out += [('draws', k) for k in range(5)] + [('flips', k) for k in range(8)]
    out += [('skip', k) for k in range(4 if tier == 'quick' else 6)]
    out += [('prefixes', k) for k in range(8)] + [('both',)]
    out += [('spaces',)]
    out += [('strings', c, 4 if tier == 'quick' else 5) for c in range(len(CHARS))]
    out += [('points', lo) for lo in range(0, 0x110000, 0x10000)]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'triples':
        for j, k in itertools.product(INDEX, repeat=2):
            for pos in (0, 1, 3):
                res.case(old, ((INDEX[task[1]], j, k),) * pos + ((5, 6, 7),) * (4 - pos))
            for pos in range(4):
                res.case(old, ((5, 6, 7),) * pos + ((INDEX[task[1]], j, k),) + ((9, 9, 9),) * (3 - pos))
            for pos in range(8):
                res.case(old, ((5, 6, 7),) * pos + ((INDEX[task[1]], j, k),) + ((9, 9, 9),) * (7 - pos))
    elif kind == 'pairs':
        for i in range(task[1], N, 8):
            res.case(pairs, i, INDEX)
    elif kind == 'allpairs':
        for i in range(task[1], min(N, task[1] + 32)):
            for lo in range(0, N, 400):
                res.case(pairs, i, tuple(range(lo, min(N, lo + 400))))
    elif kind == 'values':
        marks = (0, N, N * N, 1 << 32, N ** 3, 1 << 31, 1 << 16, 0x01234567, 0xfedcba98)
        for m in marks:
            for d in range(-3, 4):
                if 0 <= m + d < N ** 3:
                    for pos in range(4):
                        res.case(value, m + d, pos, 4)
                    for pos in range(8):
                        res.case(value, m + d, pos, 8)
        for bit in range(32):
            res.case(value, 1 << bit, 0, 4)
            res.case(value, (1 << 32) - 1 - (1 << bit), 1, 4)
    elif kind == 'counts':
        for n in [*range(51), 60, 63, 64, 65, 72, 96, 99, 100, 120, 192, 255, 256, 257, 300, 1000, 4096]:
            res.case(count, n)
    elif kind == 'unknown':
        for words in (12, 24):
            for pos in range(words):
                for w in ('lik', 'likee', 'zoo', '0', 'abandon', 'l\u0456ke', 'like,', '00000000'):
                    res.case(unknown, words, pos, w)
    elif kind == 'hex':
        for n in [*range(81), 96, 127, 128, 129, 192, 255, 256, 257, 512, 1000, 1024, 4096]:
            for c in '0fFa9':
                res.case(hex_length, c * n)
        for n in (16, 32):
            for sep in (' ', '  ', '\n', '\t'):
                res.case(spaced_hex, n, sep)
    elif kind == 'badhex':
        for n in (32, 64):
            for pos in range(n):
                for c in '0a':
                    res.case(bad_hex, c * n, pos, BAD[task[1]])
            # At two places, and in a row
            bad = BAD[task[1]]
            if len(bad) == 1:
                for pos, other in itertools.combinations(range(n), 2):
                    text = '0' * pos + bad + '0' * (other - pos - 1)
                    res.case(bad_hex, text + '0' * (n - other), other, bad)
                for length in range(1, n + 1):
                    for pos in range(0, n - length + 1):
                        res.case(bad_hex, 'a' * pos + bad * length + 'a' * (n - pos - length), pos, bad)
    elif kind == 'oldgen':
        for n in (12, 24):
            res.case(old_generate, n)
        for n in itertools.chain(range(-30, 200), (1 << 40,)):
            if n not in (12, 24):
                res.case(old_count, n)
        res.case(old_default)
    elif kind == 'bits':
        for bits in range(132, 300):
            for size in (2048, 2049, 4096):
                res.case(generate, size, bits, '', True, [])
    elif kind == 'wide':
        for size in (2048, 5000, 8192, 10_000, 65_535, 65_536, 65_537, 100_000):
            for bits in (132, 256, 300, 511, 512, 513, 1000, 1024, 2047, 2048, 2049, 4096):
                res.case(generate, size, bits, '' if bits > 600 else '1', True, [])
    elif kind == 'badargs':
        for bits in (-1, 0, 1, 64, 128, 130, 131):
            res.case(bad_generate, 2048, bits)
        for size in (0, 1, 2, 1626, 2046, 2047):
            res.case(bad_generate, size, 132)
    elif kind == 'draws':
        size, bits = ((2048, 132), (2049, 132), (2050, 264), (4096, 144), (3000, 256))[task[1]]
        wc = word_count(size, bits)
        mod, low = size ** wc, size ** (wc - 1)
        good = (low + 2, low + 3, mod - 1, mod - 2, (low + mod) // 2, (low + mod) // 2 + 1,
                (low + mod) // 2 - 1, mod + low + 5, 2 * mod - 1)
        bad = (0, 1, low - 1, low, low + 1, mod, mod + 1)
        for g in good:
            for k in range(3):
                for lead in itertools.product(bad, repeat=k):
                    res.case(generate, size, bits, '', True, list(lead) + [g])
            for prefix in ('0', '01', 'ff'):
                for lead in ((),) + tuple((b,) for b in bad):
                    for skip in (True, False):
                        res.case(generate, size, bits, prefix, skip, list(lead) + [g])
            res.case(generate, size, bits, '100', True, [g])
    elif kind == 'flips':
        res.case(flips, (2048, 2049, 4096, 3000)[task[1] % 4], (132, 264)[task[1] // 4])
    elif kind == 'skip':
        for lead in (0, 1, 2, 3):
            res.case(skip_old, task[1], lead, 12)
            res.case(skip_old, task[1], lead, 24)
    elif kind == 'prefixes':
        for n in range(task[1], 256, 8):
            res.case(prefixes, f'{n:02x}')
    elif kind == 'both':
        for m, old_ in BOTH:
            res.case(both, m, old_)
    elif kind == 'spaces':
        for sep in SPACES:
            for n in (1, 2, 3, 11, 12, 13, 24, 25):
                for case in range(4):
                    res.case(spaces, sep, n, case)
    elif kind == 'strings':
        for k in range(task[2]):
            res.case(strings, task[1], k)
    else:
        for lo in range(task[1], task[1] + 0x10000, 0x400):
            res.case(points, lo, lo + 0x400)


# --- Reference ---------------------------------------------------------------------------------

def words():
    from bitcoinx import Wordlists
    return Wordlists.original_electrum_wordlist()


def to_words(value_):
    '''The three word positions standing for a value.'''
    a = value_ % N
    b = value_ // N % N
    c = value_ // (N * N)
    return a, (a + b) % N, (a + b + c) % N


def from_words(i, j, k):
    b = (j - i) % N
    c = (k - j) % N
    return i + N * b + N * N * c


@functools.lru_cache(None)
def table_of():
    return {w: n for n, w in enumerate(words())}


def ref_old(mnemonic):
    '''The hex seed of an old mnemonic, or None.'''
    ws = mnemonic.lower().split()
    table = table_of()
    if len(ws) not in (12, 24) or any(w not in table for w in ws):
        return None
    ind = [table[w] for w in ws]
    values = [from_words(*ind[p: p + 3]) for p in range(0, len(ind), 3)]
    if any(v >> 32 for v in values):
        return None
    return ''.join('%08x' % v for v in values)


def ref_hash(mnemonic):
    norm = unicodedata.normalize('NFKD', mnemonic).lower()
    return hmac.new(b'Seed version', norm.encode(), hashlib.sha512).hexdigest()


def word_count(size, bits):
    n = 1
    while size ** n < 1 << bits:
        n += 1
    return n


# --- Old seeds ---------------------------------------------------------------------------------

def E():
    from bitcoinx import ElectrumMnemonic
    return ElectrumMnemonic


def check_old(ind):
    ws = words()
    mnemonic = ' '.join(ws[k] for k in ind)
    want = ref_old(mnemonic)
    for form in (mnemonic, mnemonic.upper(), '\n ' + mnemonic.replace(' ', '  \t') + '\n'):
        eq(E().is_valid_old(form), want is not None, f'valid {form!r}')
        if want is None:
            raises(ValueError, E().old_to_hex_seed, form, what=f'hex of {form!r}')
        else:
            eq(E().old_to_hex_seed(form), want, f'hex of {form!r}')
    if want is None:
        return 'not old'
    eq(E().hex_seed_to_old(want), mnemonic, f'words of {want}')
    return 'old'


def old(triples):
    return check_old([k for t in triples for k in t])


def pairs(i, others):
    '''Word i with each other word, in each two places of a group.'''
    n = 0
    for j in others:
        for t in ((i, j, 5), (i, 5, j), (5, i, j)):
            for u in ((0, 0, 0), (1625, 1625, 1625)):
                check_old(t + u + t + u)
                n += 1
    return {'evals': n, 'old': n}


def value(v, pos, groups):
    base = 0x00c0ffee
    values = [base] * pos + [v] + [base] * (groups - pos - 1)
    ind = [k for x in values for k in to_words(x)]
    out = check_old(ind)
    hex_seed = ''.join('%08x' % x for x in values)
    if v >> 32:
        eq(out, 'not old', 'outcome')
        return out
    eq(out, 'old', 'outcome')
    want = ' '.join(words()[k] for k in ind)
    for form in (hex_seed, hex_seed.upper()):
        eq(E().hex_seed_to_old(form), want, f'words of {form}')
        eq(E().is_valid_old(form), True, f'valid {form}')
    eq(E().old_to_hex_seed(want), hex_seed, f'hex of {want}')
    return out


def count(n):
    out = check_old([7] * n)
    eq(out == 'old', n in (12, 24), f'{n} words')
    return out


def unknown(n, pos, word):
    ws = ['like'] * n
    ws[pos] = word
    mnemonic = ' '.join(ws)
    raises(ValueError, E().old_to_hex_seed, mnemonic, what=f'hex of {mnemonic!r}')
    eq(E().is_valid_old(mnemonic), False, f'valid {mnemonic!r}')
    return 'not old'


def hex_length(text):
    want = len(text) in (32, 64)
    eq(E().is_valid_old(text), want, f'valid {text!r}')
    if not want:
        raises(ValueError, E().hex_seed_to_old, text, what=f'words of {text!r}')
        return 'refused'
    got = E().hex_seed_to_old(text)
    eq(got, ' '.join(words()[k] for p in range(0, len(text), 8)
                     for k in to_words(int(text[p: p + 8], 16))), f'words of {text!r}')
    eq(E().old_to_hex_seed(got), text.lower(), 'hex again')
    return 'old'


def spaced_hex(n, sep):
    '''Hexadecimal with spaces between bytes is a valid old seed, as the length in bytes counts.'''
    text = sep.join(['ab'] * n)
    eq(E().is_valid_old(text), True, f'valid {text!r}')
    text = sep.join(['ab'] * (n - 1))
    eq(E().is_valid_old(text), False, f'valid {text!r}')
    return 'old'


def bad_hex(text, pos, bad):
    text = text[:pos] + bad + text[pos + 1:]
    raises(ValueError, E().hex_seed_to_old, text, what=f'words of {text!r}')
    bare = ''.join(text.split())
    if len(bare) not in (32, 64) or bare.strip('0123456789abcdef'):     # else only spaced out
        eq(E().is_valid_old(text), False, f'valid {text!r}')
    return 'refused'


def old_generate(n):
    size = n * 4 // 3
    seen = set()
    for bit in range(-1, size * 8):
        stream = bytearray(b'\x5a' * size)
        if bit >= 0:
            stream[bit // 8] ^= 1 << bit % 8
        serve(stream)
        try:
            got = E().generate_old_seed(word_count=n)
        finally:
            entropy.reset()
        eq(len(got), size * 2, 'length')
        bytes.fromhex(got)
        true(got not in seen, f'{got} twice from different random bytes')
        seen.add(got)
        mnemonic = E().hex_seed_to_old(got)
        eq(len(mnemonic.split()), n, 'number of words')
        eq(E().old_to_hex_seed(mnemonic), got, 'hex again')
        eq(E().is_valid_old(got), True, 'valid')
    return 'random'


def old_default():
    entropy.reset()
    eq(len(E().hex_seed_to_old(E().generate_old_seed()).split()), 12, 'default number of words')
    for size in (2048, 2049, 3000):
        check_new(E().generate_new(list_of(size)), size, 132, '01', True)
    return 'random'


def old_count(n):
    raises(ValueError, E().generate_old_seed, word_count=n, what=f'{n} words')
    return 'refused'


def serve(data):
    left = bytearray(data)

    def script(size):
        if size > len(left):
            return entropy.rng.randbytes(size)
        out = bytes(left[:size])
        del left[:size]
        return out
    entropy.reset(script)


# --- New mnemonics -----------------------------------------------------------------------------

LISTS = {}


def list_of(size):
    '''A list that shares the old Electrum words, so that old seeds can be generated.'''
    if size not in LISTS:
        LISTS[size] = (words() + [f'w{k}' for k in range(size)])[:size]
    return LISTS[size]


def check_new(got, size, bits, prefix, skip):
    ws = list_of(size)
    parts = got.split(' ')
    true(all(p in ws for p in parts), f'words of {got!r}')
    eq(len(parts), word_count(size, bits), f'number of words of {got!r}')
    true(ref_hash(got).startswith(prefix), f'prefix of {got!r}')
    eq(E().is_valid_new(got, prefix), True, 'valid')
    if skip:
        true(ref_old(got) is None, f'{got!r} is an old mnemonic')
    return parts


def generate(size, bits, prefix, skip, answers):
    '''The random source answers these values first.'''
    left = list(answers)

    def script(n):
        if left:
            v = left.pop(0)
            return (v % (1 << 8 * n)).to_bytes(n, 'big')
        return entropy.rng.randbytes(n)
    entropy.reset(script, seed=size + bits)
    ws = list_of(size)
    before = list(ws)
    try:
        got = E().generate_new(ws, prefix=prefix, bits=bits, skip_old=skip)
    finally:
        drawn = sum(map(len, entropy.drawn))
        entropy.reset()
    true(drawn * 8 >= bits, f'{drawn} random bytes drawn for {bits} bits')
    check_new(got, size, bits, prefix, skip)
    eq(ws, before, 'the list afterwards')
    return 'generated'


def flips(size, bits):
    '''Each bit of the random source matters, but for the few that the search for the prefix and
    the reduction may hide.'''
    seen = set()
    for bit in range(-1, bits + 24):
        def script(n):
            v = int.from_bytes(bytes((91 * k + 17) & 0xff for k in range(n)), 'big')
            if bit >= 0:
                v ^= 1 << bit
            return (v % (1 << 8 * n)).to_bytes(n, 'big')
        entropy.reset(script)
        try:
            got = E().generate_new(list_of(size), prefix='0', bits=bits)
        finally:
            entropy.reset()
        check_new(got, size, bits, '0', True)
        seen.add(got)
    true(len(seen) >= bits - 16, f'only {len(seen)} mnemonics from {bits} flipped bits')
    return 'random'


def skip_old(k, lead, wc):
    '''Start the search on a value that is an old seed, as are the next ones; try all prefixes
    that it and its neighbours have.'''
    size = 2048
    ws = list_of(size)
    ind = [(11 * j + 5 * k) % 1500 for j in range(wc)]
    ind[0] = 700 + lead
    ind[-1] = (100, 1500)[k % 2]      # the search goes up from the lower half and down from the other
    start = sum(x * size ** j for j, x in enumerate(ind))
    mnemonic = ' '.join(ws[x] for x in ind)
    is_old = ref_old(mnemonic) is not None
    true(is_old, 'harness: the start is an old seed')
    for prefix in ('', ref_hash(mnemonic)[:1], ref_hash(mnemonic)[:2]):
        for skip in (True, False):
            entropy.reset(lambda n: (start % (1 << 8 * n)).to_bytes(n, 'big'))
            try:
                got = E().generate_new(ws, prefix=prefix, bits=11 * wc, skip_old=skip)
                if skip:
                    default = E().generate_new(ws, prefix=prefix, bits=11 * wc)
                    eq(default, got, 'default of skip_old')
            finally:
                entropy.reset()
            check_new(got, size, 11 * wc, prefix, skip)
    return 'generated'


def bad_generate(size, bits):
    raises(ValueError, E().generate_new, list_of(size), bits=bits, what=f'{bits} bits, {size} words')
    return 'refused'


def prefixes(text):
    '''Whatever the text, exactly one prefix of each length is right.'''
    for m in (text, f'{text} zoo', '', 'wild father tree among universe such mobile favorite target '
              'dynamic credit identify', 'あいこくしん' + text):
        want = ref_hash(m)
        for n in range(1, 3):
            for p in range(16 ** n):
                prefix = f'{p:0{n}x}'
                eq(E().is_valid_new(m, prefix), want.startswith(prefix), f'{m!r} has prefix {prefix}')
        for n in range(129):
            eq(E().is_valid_new(m, want[:n]), True, f'{m!r} has its first {n} digits')
        eq(E().is_valid_new(m, want + '0'), False, 'prefix too long')
    return 'valid'


BOTH = [
    ('happy ceiling STOLEN wheel slam mix listen gain mask vast autumn truck', True),
    ('wild father tree among universe such mobile favorite target dynamic credit identify', False),
    ('hurry idiot prefer sunset mention mist jaw inhale impossible kingdom rare squeeze', False),
]


def both(m, old_):
    eq(E().is_valid_old(m), old_, 'valid old')
    eq(ref_old(m) is not None, old_, 'harness: reference')
    return 'valid'


def check_normal(text):
    want = ' '.join(text.lower().split())
    eq(E().normalize_new(text), want, f'normalize new {text!r}')
    eq(E().normalize_old(text), want, f'normalize old {text!r}')
    try:
        digest = ref_hash(text)
    except UnicodeEncodeError:
        return
    eq(E().is_valid_new(text, digest[:6]), True, f'{text!r} has its prefix')


def strings(c, k):
    for rest in itertools.product(CHARS, repeat=k):
        check_normal(''.join(rest) + CHARS[c])
    return {'evals': len(CHARS) ** k, 'normalized': 1}


SPACES = (' ', '  ', '\t', '\n', '\r\n', '\u3000', '\xa0', ' \t ')


def spaces(sep, count, case):
    '''A phrase of so many words with an unusual space at each place, in each letter case.'''
    chosen = [words()[k * 7 % N] for k in range(count)]
    if case == 1:
        chosen = [w.upper() for w in chosen]
    elif case == 2:
        chosen[-1] = chosen[-1].title()
    elif case == 3:
        chosen[count // 2] = chosen[count // 2].swapcase()
    for place in range(count + 1):
        check_normal(' '.join(chosen[:place]) + sep + ' '.join(chosen[place:]))
    check_normal(sep.join(chosen))
    check_normal(sep + sep.join(chosen) + sep)
    return {'evals': count + 3, 'normalized': 1}


def points(lo, hi):
    for cp in range(lo, hi):
        check_normal(f'a{chr(cp)}b')
    return {'evals': hi - lo, 'normalized': 1}
