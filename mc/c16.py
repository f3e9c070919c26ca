'''C16: an address string names exactly one destination on one network, or is refused.'''

import itertools

from . import ref
from .common import eq, true, outcome, Mismatch

LEVEL = 'exploration'
RULE = ('Hashes with every count of leading zero bytes, of both kinds, on every network, are written '
        'and read in every form (base 58, cash address with and without prefix, either case); every '
        'one-character substitution, insertion, deletion and swap of each form, every pair of '
        'substitutions of a cash address at a set of distances, every version byte, payload length, '
        'cash address size and kind code, padding value and prefix is offered to every network and '
        'compared with a reference decoder written from the specifications.  Non-trivial: all.')
EXPECT = ('round trip', 'accepted', 'refused', 'typo refused', 'cash decoded', 'cash refused', 'of key')

COINS = (('Bitcoin', 0, 5, 'bitcoincash'), ('BitcoinTestnet', 0x6f, 0xc4, 'bchtest'),
         ('BitcoinScalingTestnet', 0x6f, 0xc4, 'bchtest'),
         ('BitcoinRegtest', 0x6f, 0xc4, 'bchtest'))

HASHES = [bytes(k) + bytes(range(1, 21 - k)) for k in range(0, 21)] + [
    b'\xff' * 20, bytes.fromhex('76a04053bda0a88bda5177b86a15c3b29f559873'),
    bytes(19) + b'\1', b'\x80' + bytes(19)]


def tasks(tier):
    out = [('round', k) for k in range(len(HASHES))]
    out += [('typos', k, w, c) for k in (0, 3, 22) for w in range(6) for c in (0, 1)]
    out += [('version', lo) for lo in range(0, 256, 32)] + [('lengths',), ('odd',)]
    out += [('cash', kind) for kind in range(32)]
    out += [('prefix',), ('cash short',)] + [('keys', c) for c in range(4)]
    gaps = (1, 2, 5, 8, 13) if tier == 'quick' else range(1, 42)
    out += [('pairs', g) for g in gaps]
    return out


def run(task, res):
    kind = task[0]
    if kind == 'round':
        for c in range(4):
            for p2sh in (0, 1):
                res.case(round_trip, HASHES[task[1]], p2sh, c)
    elif kind == 'typos':
        _, k, w, c = task
        res.case(typos, HASHES[k], w, c, seconds=300)
    elif kind == 'version':
        for v in range(task[1], task[1] + 32):
            for h in (HASHES[0], HASHES[1], bytes(20)):
                res.case(accept, ref.b58c_encode(bytes([v]) + h))
    elif kind == 'lengths':
        for n in list(range(45)) + [64, 65, 78]:
            for v in (0, 5, 0x6f, 0xc4):
                for fill in (0, 7, 255):
                    res.case(accept, ref.b58c_encode(bytes([v]) + bytes([fill]) * n))
                    res.case(accept, ref.b58_encode(bytes([v]) + bytes([fill]) * n))
    elif kind == 'odd':
        for text in odd():
            res.case(accept, text)
    elif kind == 'cash':
        for size in range(8):
            for top in (0, 1):
                for n in {20, 24, 28, 32, 40, 48, 56, 64, 19, 21, 36, 44, 0, 1}:
                    data = bytes([(top << 7 | task[1] << 3 | size) & 255]) + bytes(range(n))
                    for pad in range(8):
                        res.case(cash, 'bitcoincash', ref.to5(data, pad % (1 << -len(data) * 8 % 5)),
                                 0)
                    res.case(cash, 'bitcoincash', ref.to5(data) + [0], 0)
    elif kind == 'prefix':
        good = ref.to5(bytes([0]) + HASHES[0])
        for c in range(256):
            for prefix in (chr(c), 'bitcoin' + chr(c) + 'cash', chr(c) + 'bchtest'):
                for upper in (0, 1):
                    res.case(cash, prefix, good, upper)
        for prefix in ('bitcoincash', 'bchtest', 'bchreg', 'simpleledger', 'bitcoincas',
                       'bitcoincashh', 'x' * 83, '1', '~', 'a:b', '', 'prefix1', 'bitcoin cash',
                       'bitcoincas\u0128', 'bit\u212aoin', 'bch\u017fest'):
            for upper in (0, 1, 2):
                res.case(cash, prefix, good, upper)
    elif kind == 'keys':
        for compressed in (True, False):
            for pair in itertools.product(KEY_FORMS, repeat=2):
                res.case(of_key, task[1], compressed, pair)
    elif kind == 'cash short':
        for n in range(4):
            for values in itertools.product((0, 1, 8, 16, 31), repeat=n):
                res.case(cash, 'bitcoincash', values, 0)
        for n in list(range(4, 60)) + list(range(100, 130)):
            for fill in (0, 1, 31):
                res.case(cash, 'bitcoincash', [0, 0] + [fill] * n, 0)
                res.case(cash, 'bitcoincash', [fill] * n, 1)
        for text in odd():
            res.case(cash_text, text)
    else:
        gap = task[1]
        for c in (0, 1):
            res.case(pairs, HASHES[0], gap, c, seconds=600)


def forms(h, p2sh, c):
    _, v0, v1, prefix = COINS[c]
    cash_form = ref.cash_encode(prefix, p2sh, h)
    bare = cash_form.split(':')[1]
    return [ref.b58c_encode(bytes([(v0, v1)[p2sh]]) + h), cash_form, cash_form.upper(), bare,
            bare.upper()]


def reference(text, c):
    '''(kind, hash) or None'''
    _, v0, v1, prefix = COINS[c]
    for candidate in (text, prefix + ':' + text, prefix.upper() + ':' + text):
        got = ref.cash_decode(candidate)
        if got and got[0].lower() == prefix and len(got[2]) == 20:
            return got[1], got[2]
    raw = ref.b58c_decode(text)
    if raw is not None and len(raw) == 21 and raw[0] in (v0, v1):
        return (v0, v1).index(raw[0]), raw[1:]
    return None


def read(text, c):
    '''What the code makes of it; only ValueError may be raised.'''
    import bitcoinx
    coin = getattr(bitcoinx, COINS[c][0])
    try:
        got = bitcoinx.Address.from_string(text, coin)
    except ValueError:
        return None
    true(got.coin() is coin, f'coin of {text!r}')
    kind = {'P2PKH_Address': 0, 'P2SH_Address': 1}[type(got).__name__]
    return kind, got.hash160()


def accept(text):
    counts = {'evals': 3}
    for c in range(4):
        want, got = reference(text, c), read(text, c)
        if got != want:
            raise Mismatch(f'{text!r} on {COINS[c][0]}: got {got}, expected {want}')
        label = 'accepted' if want else 'refused'
        counts[label] = counts.get(label, 0) + 1
    return counts


def round_trip(h, p2sh, c):
    import bitcoinx
    name = COINS[c][0]
    coin = getattr(bitcoinx, name)
    cls = (bitcoinx.P2PKH_Address, bitcoinx.P2SH_Address)[p2sh]
    obj = cls(h, coin)
    texts = forms(h, p2sh, c)
    eq(obj.to_string(), texts[0], f'address of {h.hex()} on {name}')
    eq(str(obj), texts[0], 'str')
    for t in texts:
        again = bitcoinx.Address.from_string(t, coin)
        true(type(again) is cls and again == obj and again.coin() is coin, f'reading {t}')
        eq(again.to_string(), texts[0], 'written again')
        accept(t)
        eq(cls.from_string(t, coin).to_string(), texts[0], 'read by the subclass')
    return 'round trip'


KEY_FORMS = list(itertools.product((None, True, False), (None, 0, 1, 2, 3)))
KEY = 0x1234567890abcdef


def of_key(own, compressed, asked):
    '''The addresses of a key, asked for one after the other with whatever compression and coin.'''
    import bitcoinx
    coins = [getattr(bitcoinx, c[0]) for c in COINS]
    key = bitcoinx.PrivateKey(KEY.to_bytes(32, 'big'), compressed, coins[own]).public_key
    for form, c in asked:
        point = ref.ser_point(ref.ec_mul(KEY), compressed if form is None else form)
        h = ref.hash160(point)
        coin = coins[own if c is None else c]
        obj = key.to_address(compressed=form, coin=None if c is None else coin)
        true(type(obj) is bitcoinx.P2PKH_Address and obj.coin() is coin, 'kind or coin of address')
        eq(obj.hash160(), h, 'hash of address')
        eq(obj.to_string(), ref.b58c_encode(bytes([COINS[own if c is None else c][1]]) + h),
           'address of key')
        eq(key.hash160(compressed=form), h, 'hash of key')
    own_hash = ref.hash160(ref.ser_point(ref.ec_mul(KEY), compressed))
    eq(key.P2PKH_script().to_bytes(), b'\x76\xa9\x14' + own_hash + b'\x88\xac', 'script of key')
    return 'of key'


def edits(text, alphabet):
    out = set()
    for i in range(len(text) + 1):
        for a in alphabet:
            out.add(text[:i] + a + text[i:])
            out.add(text[:i] + a + text[i + 1:])
        out.add(text[:i] + text[i + 1:])
        out.add(text[:i] + text[i:i + 2][::-1] + text[i + 2:])
        out.add(text[:i])
        out.add(text[i:])
        out.add(text[:i] + text[i:i + 1].swapcase() + text[i + 1:])
    out.discard(text)
    out |= {text + text, ' ' + text, text + ' ', text + '\n', '\n' + text}
    return out


def typos(h, w, c):
    '''Every small edit, on the network meant and on another.  None may pass for another address,
    and unless it spells the same address none is accepted.'''
    alphabet = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZIO:' if w == 0 else \
        ref.CASH + '1bio:' + (ref.CASH + 'B').upper()
    p2sh = int(w == 5)
    text = forms(h, p2sh, c)[w % 5]
    counts = {'evals': 0, 'typo refused': 0}
    for e in edits(text, alphabet):
        for coin in (c, 1 - c):
            want, got = reference(e, coin), read(e, coin)
            counts['evals'] += 1
            if got != want:
                raise Mismatch(f'{e!r} on {COINS[coin][0]}: got {got}, expected {want}')
            if got is not None and got != (p2sh, h):
                raise Mismatch(f'typo {e!r} is accepted as another address')
            label = 'accepted' if want else 'typo refused'
            counts[label] = counts.get(label, 0) + 1
    return counts


def pairs(h, gap, c):
    '''Two wrong characters, a given distance apart, in a cash address.'''
    text = forms(h, 0, c)[3]
    counts = {'evals': 0, 'typo refused': 0}
    for i in range(0, len(text) - gap, 3 if gap < 14 else 1):
        for a in ref.CASH:
            for b in ref.CASH[::2 if gap < 14 else 5]:
                if a == text[i] or b == text[i + gap]:
                    continue
                e = text[:i] + a + text[i + 1:i + gap] + b + text[i + gap + 1:]
                counts['evals'] += 1
                if read(e, c) is not None:
                    raise Mismatch(f'two typos are accepted: {e}')
                counts['typo refused'] += 1
    return counts


def odd():
    base, cash_form, upper, bare, bare_upper = forms(HASHES[3], 0, 0)
    out = [ref.b58c_encode(b''), '', ' ', '1', ':', 'bitcoincash', 'bitcoincash:', ':' + bare, cash_form + ':',
           'bitcoincash:' + cash_form, 'bitcoincash:bitcoincash:' + bare, 'bchtest:' + bare,
           'BITCOINCASH:' + bare, 'bitcoincash:' + bare_upper, 'Bitcoincash:' + bare,
           'bitcoincash :' + bare, 'bitcoincash: ' + bare, '\u212a' + bare, 'x' * 100, '1' * 25,
           '1' * 34, '1' * 36, '1' * 200, 'q' * 42, 'bitcoincash:' + 'q' * 42, '\0' * 40,
           'bitcoincash:' + '\xe9' * 42, 'bitcoincash:' + '\ud800' * 42, '\uff11' * 42,
           bare.title(), bare.capitalize(), base.lower(), base.upper(), '2' * 40, '0' * 40,
           cash_form.replace('bitcoincash', 'bitcoincas'), cash_form + '?amount=1',
           'bitcoincash:' + base, 'bitcoincash:' + '8' * 8, 'BITCOINCASH:' + '2' * 42, '2:2' * 20]
    for c in range(4):
        for p2sh in (0, 1):
            out += forms(HASHES[22], p2sh, c)
    # the same text with one letter replaced by a look-alike that folds to it
    for form in (cash_form, upper, bare, bare_upper):
        for old, new in (('k', '\u212a'), ('K', '\u212a'), ('s', '\u017f'), ('S', '\u017f')):
            if old in form:
                out.append(form.replace(old, new))
                out.append(form.replace(old, new, 1))
    return out


def cash_text(text):
    from bitcoinx import cashaddr
    want = ref.cash_decode(text)
    got = outcome(cashaddr.decode, text)
    eq(got, ('exc', 'ValueError') if want is None else ('ok', want), f'cash address {text!r}')
    accept(text)
    return 'cash decoded' if want else 'cash refused'


def cash(prefix, values, upper):
    '''Values under a good checksum.'''
    text = ref.cash_payload_encode(prefix, values)
    if upper:
        text = text.upper() if upper == 1 else text[0:1].upper() + text[1:]
    label = cash_text(text)
    # The same without the prefix, and with a broken checksum
    accept(text.split(':')[-1])
    cash_text(text[:-1] + ('q' if text[-1] != 'q' else 'p'))
    return label
