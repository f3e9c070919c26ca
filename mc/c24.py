'''C24: BIP39 mnemonics encode entropy exactly, and only valid ones pass.'''

import hashlib
import itertools
import unicodedata

from .common import eq, true, raises, entropy, Mismatch

LEVEL = 'exploration'
RULE = ('For every entropy size and word list: zeros, ones, a ramp, and every single bit set or '
        'clear are generated and validated; every word is tried in the last position and in each '
        'other position a set of words, every transposition of words, every set of unknown words '
        'in a 12-word mnemonic, every two neighbours in the list swapped, every word count to 30, every other number of bits to 600 and '
        'every list length about 2048.  Every Unicode code point, and every sequence of up to n '
        'characters of an alphabet, is normalized.  Seeds of mnemonics and passphrases of every '
        'length about the hash block are compared with a reference.  Non-trivial: all.')
EXPECT = ('generated', 'valid', 'invalid', 'bad words', 'refused', 'normalized', 'seed', 'list')

# SHA-256 of the words, in order, one to a line (that of english.txt is the published list)
HASHES = {
    'english.txt': '187db04a869dd9bc7be80d21a86497d692c0db6abd3aa8cb6be5d618ff757fae',
    'chinese_simplified.txt': '106cc8387ac3fc7d44ca1072e30a0b27ed017b1d377501bb909c2833ef60c186',
    'japanese.txt': 'a3c2aa5c689341519e8a579e28d2956910313e372b04cf0f31baef40dc44d69c',
    'spanish.txt': '2f06d28020d49115a2e502fb6042aaa593e90773edb947685482d05ee2af6a03',
    'electrum_old.txt': 'b329cea782bdd8b1de49bbb9fbdef9e8230e15eb08f0d7952613992246c38f96',
}
NAMES = tuple(HASHES)[:4]
SIZES = (16, 20, 24, 28, 32)
LINES = ('', '#c', ' a ', 'A', 'a b', 'é\r', 'e\u0301', 'a\u3000', ' # d', 'b#')
CHARS = (' ', '\t', '\u3000', '\xa0', 'a', 'É', '\u0301', '\n', 'Σ', 'ﬁ')


def wl(name):
    from bitcoinx import Wordlists
    return Wordlists.bip39_wordlist(name)


def tasks(tier):
    out = [('gen', k, n) for k in range(len(SIZES)) for n in NAMES]
    out += [('last', k, n) for k in range(len(SIZES)) for n in NAMES
            if tier == 'thorough' or n == 'english.txt' or k in (0, 4)]
    out += [('subst', k) for k in range(len(SIZES))]
    out += [('bad', k) for k in range(8)]
    out += [('counts',), ('lists',), ('text', 4 if tier == 'quick' else 5), ('rotate',)]
    out += [('points', lo) for lo in range(0, 0x110000, 0x8000)]
    out += [('strings', c, 4 if tier == 'quick' else 6) for c in range(len(CHARS))]
    out += [('seeds', k) for k in range(8)]
    return out


def ramp(size):
    return bytes((7 * k + 3) & 0xff for k in range(size))


def run(task, res):
    kind = task[0]
    if kind == 'gen':
        size = SIZES[task[1]]
        for data in [bytes(size), b'\xff' * size, ramp(size), b'\x80' * size, b'\x7f' * size]:
            res.case(generate, data, task[2])
        step = 1 if task[2] == 'english.txt' else 7
        for bit in range(0, size * 8, step):
            one = (1 << bit).to_bytes(size, 'big')
            res.case(generate, one, task[2])
            res.case(generate, bytes(b ^ 0xff for b in one), task[2])
    elif kind == 'last':
        for data in (bytes(SIZES[task[1]]), ramp(SIZES[task[1]])):
            for lo in range(0, 2048, 256):
                res.case(last_word, data, task[2], lo)
    elif kind == 'subst':
        size = SIZES[task[1]]
        for data in (ramp(size), b'\xff' * size, bytes(size)):
            for pos in range(size * 3 // 4):
                res.case(substitute, data, pos)
            res.case(transpose, data)
            res.case(dropped, data)
    elif kind == 'bad':
        for mask in range(task[1], 1 << 12, 8):
            res.case(bad_words, mask)
        size = SIZES[task[1] % len(SIZES)]
        if task[1] < len(SIZES):
            for data in (ramp(size), bytes(size)):
                for n in (1, 2, 3):
                    for where in itertools.combinations(range(size * 3 // 4), n):
                        if n < 3 or where[2] - where[0] < 6:
                            res.case(bad_at, data, where)
                res.case(bad_at, data, tuple(range(size * 3 // 4)))
    elif kind == 'counts':
        for n in [*range(52), 60, 63, 64, 65, 72, 93, 96, 99, 100, 192, 255, 256, 257, 300, 372, 384, 1000, 4096]:
            for word in ('abandon', 'zoo', 'art'):
                res.case(count, n, word)
        for n in itertools.chain(range(-2, 700), (1024, 4096, 1 << 40)):
            res.case(bits, n)
        for n in (0, 1, 2, 1024, 1626, 2046, 2047, 2049, 2050, 4095, 4096, 8192, 65_536):
            res.case(list_length, n)
    elif kind == 'lists':
        for name in NAMES:
            res.case(the_list, name)
        res.case(not_lists)
    elif kind == 'text':
        for k in range(task[1] + 1):
            for lines in itertools.product(LINES, repeat=k):
                res.case(text, lines)
    elif kind == 'rotate':
        for k in (1, 2, 1024, 2047):
            res.case(rotate, k)
        res.case(mutate)
        for lo in range(0, 2047, 89):
            res.case(swapped, lo, lo + 89)
    elif kind == 'points':
        for lo in range(task[1], task[1] + 0x8000, 0x400):
            res.case(points, lo, lo + 0x400)
    elif kind == 'strings':
        for k in range(task[2]):
            for lead in itertools.product(CHARS, repeat=min(k, 3)):
                res.case(strings, task[1], lead, k - min(k, 3))
    else:
        for n in [*range(task[1], 300, 8), 504 + task[1], 512 + task[1], 1000 + task[1], 1024 + task[1], 4096 + task[1],
                  65_536 + task[1]]:
            res.case(seed, 'x' * n, '')
            res.case(seed, 'word', 'p' * n)
        for m in ('', ' ', ' A  b ', 'é', 'e\u0301', 'ﬁ', '\u3000あ\u3000い', 'Σ', 'あ\u3099が'):
            for p in ('', ' ', 'P', ' p ', 'é', 'ﬁ', '\u3000', 'a  b', '\x00', 'が', '\U0001f600'):
                if (len(m) + len(p)) % 8 == task[1]:
                    res.case(seed, m, p)


# --- Reference ---------------------------------------------------------------------------------

def ref_indices(data):
    cs = len(data) // 4
    bits_ = ''.join(f'{b:08b}' for b in data)
    bits_ += ''.join(f'{b:08b}' for b in hashlib.sha256(data).digest())[:cs]
    return [int(bits_[k: k + 11], 2) for k in range(0, len(bits_), 11)]


def ref_valid(indices):
    if len(indices) not in (12, 15, 18, 21, 24):
        return False
    bits_ = ''.join(f'{i:011b}' for i in indices)
    size = len(bits_) * 32 // 33
    data = bytes(int(bits_[k: k + 8], 2) for k in range(0, size, 8))
    return ref_indices(data) == list(indices)


def ref_normalize(text_):
    words, word = [], ''
    for c in unicodedata.normalize('NFKD', text_):
        if c.isspace():
            if word:
                words.append(word)
            word = ''
        else:
            word += c
    if word:
        words.append(word)
    return ' '.join(words).lower()


# --- Cases -------------------------------------------------------------------------------------

def serve(data):
    '''Entropy that hands out data, in whatever pieces it is asked for.'''
    left = bytearray(data)

    def script(size):
        if size > len(left):
            raise Mismatch(f'asked for {size} random bytes with {len(left)} left of {len(data)}')
        out = bytes(left[:size])
        del left[:size]
        return out
    entropy.reset(script)
    return left


def valid(mnemonic, words):
    from bitcoinx import BIP39Mnemonic
    return BIP39Mnemonic.is_valid(mnemonic, words)


def generate(data, name):
    from bitcoinx import BIP39Mnemonic
    words = wl(name)
    left = serve(data)
    try:
        got = BIP39Mnemonic.generate(words, len(data) * 8)
        true(not left, f'only {len(data) - len(left)} random bytes drawn')
        if len(data) == 16:
            left = serve(data)
            eq(BIP39Mnemonic.generate(words), got, 'default number of bits')
            true(not left, 'random bytes left')
    finally:
        entropy.reset()
    want = [words[k] for k in ref_indices(data)]
    eq(got, ' '.join(want), 'mnemonic')
    eq(BIP39Mnemonic._from_entropy(data, words), got, 'mnemonic of the entropy')
    eq(len(want), (len(data) * 8 + len(data) // 4) // 11, 'count')
    for form in (got, got.upper(), f'\n {got}\t', '\u3000'.join(want), ' \xa0 '.join(want),
                 unicodedata.normalize('NFC', got), unicodedata.normalize('NFKC', got.title())):
        eq(BIP39Mnemonic.normalize(form), got, 'normalized')
        eq(valid(form, words), True, f'valid {form!r}')
    return 'generated'


def last_word(data, name, lo):
    words = wl(name)
    first = ref_indices(data)[:-1]
    n = 0
    lead = ' '.join(words[k] for k in first) + ' '
    for k in range(lo, lo + 256):
        want = ref_valid(first + [k])
        eq(valid(lead + words[k], words), want, f'last word {k}')
        n += want
    eq(n, 256 >> (len(data) // 4), 'number of valid last words')
    return {'evals': 256, 'valid': n, 'invalid': 256 - n}


def substitute(data, pos):
    words = wl('english.txt')
    base = ref_indices(data)
    n = 0
    for k in sorted({0, 1, 2, 3, 1023, 1024, 2046, 2047, *(base[pos] ^ 1 << j for j in range(11)),
                     (base[pos] + 1) % 2048, (base[pos] - 1) % 2048}):
        ind = base[:pos] + [k] + base[pos + 1:]
        want = ref_valid(ind)
        eq(valid(' '.join(words[j] for j in ind), words), want, f'word {pos} replaced by {k}')
        n += want
    return {'evals': 20, 'valid': n, 'invalid': 20}


def transpose(data):
    words = wl('english.txt')
    base = ref_indices(data)
    for a, b in itertools.combinations(range(len(base)), 2):
        ind = list(base)
        ind[a], ind[b] = ind[b], ind[a]
        eq(valid(' '.join(words[j] for j in ind), words), ref_valid(ind), f'{a} and {b} swapped')
    return 'invalid'


def dropped(data):
    '''Words taken out, added or repeated.'''
    words = wl('english.txt')
    base = ref_indices(data)
    for pos in range(len(base)):
        for ind in (base[:pos] + base[pos + 1:], base[:pos] + base[pos:pos + 1] + base[pos:],
                    base[:pos], base[pos:], base[:pos] + base, base[pos:] + base[:pos]):
            eq(valid(' '.join(words[j] for j in ind), words), ref_valid(ind), f'at {pos}')
    return 'invalid'


def bad_words(mask):
    from bitcoinx import BIP39Mnemonic
    words = wl('english.txt')
    good = [words[k] for k in ref_indices(ramp(16))]
    unknown = ('abando', 'abandonn', 'zoox', 'a', 'ábaco', 'about2', '0', 'abandon,', 'cat-dog', 'x',
               'aban\u200bdon', 'abandon.')
    text_, want = [], []
    for k in range(12):
        if mask >> k & 1:
            text_.append(unknown[k])
            want.append(unicodedata.normalize('NFKD', unknown[k]))
        else:
            text_.append(good[k])
    if not want:
        eq(valid(' '.join(text_), words), True, 'valid')
        return 'valid'
    try:
        got = valid(' '.join(text_).upper(), words)
    except BIP39Mnemonic.BadWords as e:
        eq(e.args[0], want, 'the bad words')
        return 'bad words'
    raise Mismatch(f'returned {got} despite unknown words {want}')


def bad_at(data, where):
    '''The unknown words of a mnemonic of any length, in order, each time they occur.'''
    from bitcoinx import BIP39Mnemonic
    words = wl('english.txt')
    text_ = [words[k] for k in ref_indices(data)]
    want = []
    for k, pos in enumerate(where):
        text_[pos] = ('abando', 'zoox', 'abando')[k % 3]
        want.append(text_[pos])
    try:
        got = valid(' '.join(text_), words)
    except BIP39Mnemonic.BadWords as e:
        eq(e.args[0], want, f'the bad words at {where} of {len(text_)}')
        return 'bad words'
    raise Mismatch(f'returned {got} despite unknown words {want} at {where} of {len(text_)}')


def count(n, word):
    words = wl('english.txt')
    want = ref_valid([words.index(word)] * n)
    eq(valid(' '.join([word] * n), words), want, f'{n} times {word}')
    return 'valid' if want else 'invalid'


def bits(n):
    from bitcoinx import BIP39Mnemonic
    if n in (128, 160, 192, 224, 256):
        entropy.reset(seed=n)
        got = BIP39Mnemonic.generate(wl('english.txt'), bits=n)
        eq(len(got.split()), n * 33 // 32 // 11, 'number of words')
        return 'generated'
    raises(ValueError, BIP39Mnemonic.generate, wl('english.txt'), n, what=f'{n} bits')
    return 'refused'


def list_length(n):
    from bitcoinx import BIP39Mnemonic
    words = [f'w{k}' for k in range(n)]
    raises(ValueError, BIP39Mnemonic.generate, words, what=f'generating from {n} words')
    for text_ in ('', ' '.join(['w0'] * 12), ' '.join(['w0'] * 11)):
        raises(ValueError, BIP39Mnemonic.is_valid, text_, words, what=f'validating with {n} words')
    return 'refused'


def the_list(name):
    words = wl(name)
    eq(len(words), 2048, 'number of words')
    eq(len(set(words)), 2048, 'number of different words')
    for word in words:
        eq(word, unicodedata.normalize('NFKD', word).lower(), 'normalized word')
        true(word and not any(c.isspace() for c in word), f'word {word!r}')
    eq(hashlib.sha256('\n'.join(words).encode()).hexdigest(), HASHES[name], 'words of the list')
    eq(wl(name), words, 'the list again')
    return 'list'


def not_lists():
    from bitcoinx import Wordlists
    for _ in range(2):
        raises(SyntaxError, wl, 'electrum_old.txt', what='the old Electrum list')
        raises(OSError, wl, 'nonexistent.txt', what='no list')
        words = Wordlists.original_electrum_wordlist()
        eq(len(words), 1626, 'number of words')
        eq(len(set(words)), 1626, 'number of different words')
        eq(hashlib.sha256('\n'.join(words).encode()).hexdigest(), HASHES['electrum_old.txt'],
           'words of the list')
    return 'list'


def text(lines):
    from bitcoinx import Wordlists
    want = []
    spaced = False
    for line in lines:
        line = unicodedata.normalize('NFKD', line).strip()
        if line and not line.startswith('#'):
            want.append(line.lower())
            spaced |= ' ' in line
    full = '\n'.join(lines)
    if spaced:
        raises(SyntaxError, Wordlists._text_to_wordlist, full, None, what='words with spaces')
        return 'refused'
    eq(list(Wordlists._text_to_wordlist(full, None)), want, 'words')
    for n in range(0, len(lines) + 2):
        if n == len(want):
            eq(list(Wordlists._text_to_wordlist(full, n)), want, 'words')
        else:
            raises(SyntaxError, Wordlists._text_to_wordlist, full, n, what=f'{n} words')
    return 'list'


def rotate(k):
    '''The same words in another order are another list.'''
    words = wl('english.txt')
    other = words[k:] + words[:k]
    n = 0
    for data in (bytes(16), ramp(16), ramp(32)):
        ind = ref_indices(data)
        mnemonic = ' '.join(words[j] for j in ind)
        shifted = [(j - k) % 2048 for j in ind]
        for _ in range(2):
            eq(valid(mnemonic, words), True, 'own list')
            want = ref_valid(shifted)
            eq(valid(mnemonic, other), want, f'list rotated by {k}')
        n += want
        left = serve(data)
        from bitcoinx import BIP39Mnemonic
        try:
            eq(BIP39Mnemonic.generate(other, len(data) * 8), ' '.join(other[j] for j in ind), 'mnemonic')
        finally:
            entropy.reset()
    return 'valid'


def mutate():
    '''A list is what it is when used.'''
    words = list(wl('english.txt'))
    mnemonic = ' '.join(words[j] for j in ref_indices(ramp(16)))
    eq(valid(mnemonic, words), True, 'before')
    words.reverse()
    eq(valid(mnemonic, words), ref_valid([2047 - j for j in ref_indices(ramp(16))]), 'reversed')
    words.reverse()
    eq(valid(mnemonic, words), True, 'after')
    words.append('extra')
    raises(ValueError, valid, mnemonic, words, what='longer list')
    return 'valid'


def swapped(lo, hi):
    '''Lists which differ in the places of two neighbours only, as new lists and in place.'''
    words = wl('english.txt')
    same = list(words)
    for k in range(lo, min(hi, 2047)):
        other = list(words)
        other[k], other[k + 1] = other[k + 1], other[k]
        for data in (bytes(14) + k.to_bytes(2, 'big'), (k << 117).to_bytes(16, 'big')):
            ind = ref_indices(data)
            mnemonic = ' '.join(words[j] for j in ind)
            want = ref_valid([{k: k + 1, k + 1: k}.get(j, j) for j in ind])
            eq(valid(mnemonic, same), True, 'own list')
            eq(valid(mnemonic, other), want, f'list with words {k} and {k + 1} swapped')
            same[k], same[k + 1] = same[k + 1], same[k]
            eq(valid(mnemonic, same), want, f'words {k} and {k + 1} swapped in place')
            same[k], same[k + 1] = same[k + 1], same[k]
    return {'evals': 89 * 6, 'valid': 1, 'invalid': 1}


def check_normal(text_):
    from bitcoinx import BIP39Mnemonic
    got = BIP39Mnemonic.normalize(text_)
    eq(got, ref_normalize(text_), f'normalize {text_!r}')
    eq(BIP39Mnemonic.normalize(got), got, f'normalize {text_!r} twice')
    nfc = unicodedata.normalize('NFC', text_)
    if nfc != text_:
        eq(BIP39Mnemonic.normalize(nfc), got, f'composed form of {text_!r}')


def points(lo, hi):
    for cp in range(lo, hi):
        c = chr(cp)
        check_normal(f'a{c}b')
        check_normal(c)
    return {'evals': 2 * (hi - lo) - 1, 'normalized': 1}


def strings(c, lead, more):
    for rest in itertools.product(CHARS, repeat=more):
        check_normal(''.join(lead) + ''.join(rest) + CHARS[c])
    return {'evals': len(CHARS) ** more - 1, 'normalized': 1}


def seed(mnemonic, passphrase):
    from bitcoinx import BIP39Mnemonic
    key = ref_normalize(mnemonic).encode()
    salt = b'mnemonic' + unicodedata.normalize('NFKD', passphrase).encode()
    want = hashlib.pbkdf2_hmac('sha512', key, salt, 2048)
    eq(BIP39Mnemonic.to_seed(mnemonic, passphrase), want, 'seed')
    return 'seed'
