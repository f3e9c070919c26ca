'''C05: required difficulty equals the coin's published rule, at every boundary of the rule.'''

import itertools
import os

from . import ref
from .common import eq, true, raises, Mismatch
from .chainmodel import pack_header, scratch_file, fresh, close_headers, Node, mine, EASY

LEVEL = 'exploration'
RULE = ('For each network and each rule era, every combination of boundary heights, boundary time '
        'spans, timestamp orderings (ties included), bits values and proposed timestamps is written '
        'into a real collection, and the required bits are compared with a reference written from '
        'the consensus specification.  Then whole forked chains with easy proof of work are '
        'connected under the same rules, each header offered with the right bits and with those of '
        'the other fork.  Non-trivial: the result differs from the parent\'s bits.')
TRIVIAL = ('as parent',)
ASSUMES = ('the constants of the networks (heights, spans, limits) as published',)
EXPECT = ('clamped low', 'clamped high', 'capped', 'EDA cut', 'DAA', '20 minute rule', 'walk back',
          'fork') + tuple(f'fork {era}: wrong branch refused' for era in
                          ('fort', 'fort4', 'eda', 'daa', 'test', 'testdaa', 'stn'))

T = 2016 * 600
LIMIT = 0xffff << 208
TOP = 1_191_000


class Model(dict):
    '''height -> (timestamp, bits), with the rules of each network.'''

    def __init__(self, limit=LIMIT, limit_bits=0x1d00ffff):
        super().__init__()
        self.limit = limit
        self.limit_bits = limit_bits
        self.notes = set()

    def ts(self, h):
        return self[h][0]

    def bits(self, h):
        return self[h][1]

    def cap(self, target):
        if target > self.limit:
            self.notes.add('capped')
            target = self.limit
        return ref.compact_encode(target)

    def fortnight(self, h):
        if h == 0:
            return self.limit_bits
        if h % 2016 != 0:
            return self.bits(h - 1)
        span = self.ts(h - 1) - self.ts(h - 2016)
        if span < T // 4:
            span = T // 4
            self.notes.add('clamped low')
        if span > T * 4:
            span = T * 4
            self.notes.add('clamped high')
        return self.cap(ref.compact_decode(self.bits(h - 1)) * span // T)

    def mtp(self, h):
        times = sorted(self.ts(i) for i in range(max(h - 10, 0), h + 1))
        return times[len(times) // 2]

    def eda(self, h):
        bits = self.fortnight(h)
        if h % 2016 == 0 or self.mtp(h - 1) - self.mtp(h - 7) < 12 * 3600:
            return bits
        self.notes.add('EDA cut')
        target = ref.compact_decode(bits)
        return self.cap(target + target // 4)

    def suitable(self, h):
        '''The median by time of three blocks ending at h, as the specification's sorting network
        settles ties.'''
        b = [h - 2, h - 1, h]
        if self.ts(b[0]) > self.ts(b[2]):
            b[0], b[2] = b[2], b[0]
        if self.ts(b[0]) > self.ts(b[1]):
            b[0], b[1] = b[1], b[0]
        if self.ts(b[1]) > self.ts(b[2]):
            b[1], b[2] = b[2], b[1]
        return b[1]

    def daa(self, h):
        self.notes.add('DAA')
        last, first = self.suitable(h - 1), self.suitable(h - 145)
        work = sum(ref.work_of(self.bits(i)) for i in range(first + 1, last + 1)) * 600
        span = self.ts(last) - self.ts(first)
        if span > 288 * 600:
            span = 288 * 600
            self.notes.add('clamped high')
        if span < 72 * 600:
            span = 72 * 600
            self.notes.add('clamped low')
        work //= span
        return self.cap(((1 << 256) - work) // work)

    def mainnet(self, h, ts):
        if h < 478558:
            return self.fortnight(h)
        return self.eda(h) if h <= 504031 else self.daa(h)

    def testnet_like(self, h, ts, daa_height, daa_slow_rule):
        slow = ts > self.ts(h - 1) + 1200
        if h > daa_height:
            if slow and daa_slow_rule:
                self.notes.add('20 minute rule')
                return self.limit_bits
            return self.daa(h)
        if h % 2016 == 0:
            return self.fortnight(h)
        if slow:
            self.notes.add('20 minute rule')
            return self.limit_bits
        i = h - 1
        while i % 2016 and self.bits(i) == self.limit_bits:
            self.notes.add('walk back')
            i -= 1
        return self.bits(i)

    def required(self, net, h, ts):
        if net == 'main':
            return self.mainnet(h, ts)
        if net == 'stn':
            return self.testnet_like(h, ts, 2200, False)
        return self.testnet_like(h, ts, 1188697, True)


def coin_of(net):
    import bitcoinx
    return {'main': bitcoinx.Bitcoin, 'test': bitcoinx.BitcoinTestnet,
            'stn': bitcoinx.BitcoinScalingTestnet, 'reg': bitcoinx.BitcoinRegtest}[net]


OPEN = {}


def collection(net):
    '''A real collection whose headers at any height up to TOP can be set.'''
    if net not in OPEN:
        from bitcoinx import Headers, CheckPoint
        path = fresh(scratch_file(net))
        cp = CheckPoint(pack_header(1, bytes(32), bytes(32), 7, 0x1d00ffff, TOP), TOP, 0)
        OPEN[net] = Headers.from_file(coin_of(net), path, cp)
    return OPEN[net]


BITS = (0x1d00ffff, 0x1d00fffe, 0x1d008000, 0x1c7fffff, 0x1c3fffc0, 0x1b0404cb, 0x1a05db8b,
        0x18009645, 0x180091fb, 0x0400ffff, 0x03123457, 0x02345600)
SPANS = (-10 ** 6, -1, 0, T // 4 - 1, T // 4, T // 4 + 1, T - 600, T - 1, T, T + 1, 4 * T - 1,
         4 * T, 4 * T + 1, 10 ** 8)
BASE = 1_300_000_000


def tasks(tier):
    full = tier == 'thorough'
    out = []
    for net in ('main', 'test', 'stn', 'reg'):
        out.append(('fort', net, full))
    out += [('eda', i, full) for i in range(6)]
    for net, heights in (('main', (504031, 504032, 504033, 520000, 504000)),
                         ('test', (1188698, 1189000, 1188697)),
                         ('stn', (2201, 2202, 4032, 2200)), ('reg', (1188698,))):
        for h in heights:
            out.extend(('daa', net, h, i, full) for i in range(3))
    for net in ('test', 'stn', 'reg'):
        out.append(('walk', net, full))
    out += [('long walk', net, h, wait) for net, h in
            (('test', 4031), ('test', 1188697), ('stn', 2015), ('stn', 2200), ('reg', 6047))
            for wait in ((1200, 1201) if full else (1200,))]
    out += [('late', base) for base in LATE]
    out.extend(('forks', era) for era in ('fort', 'fort4', 'eda', 'daa', 'test', 'testdaa', 'stn'))
    return out


def run(task, res):
    kind = task[0]
    if kind == 'fort':
        net = task[1]
        heights = {'main': (1, 2, 2015, 2016, 2017, 4031, 4032, 4033, 32256, 477792, 478557),
                   'test': (2016, 4032, 1187424), 'stn': (2016,), 'reg': (2016, 20160)}[net]
        if net == 'main':
            res.case(at_genesis)
        for h in heights:
            for bits in BITS:
                for span in SPANS:
                    for first in (bits, 0x1b0404cb):
                        res.case(fortnightly, net, h, bits, span, first)
    elif kind == 'eda':
        heights = (478558, 478559, 480000, 479808, 479809, 504000, 504001, 504031)
        values = (-100_000, -7201, -7200, -1, 0, 1, 7200, 7201, 100_000)
        part = task[1]
        for h in heights:
            for n, bits in enumerate(BITS):
                if n % 6 != part:
                    continue
                for step in (7199, 7200, 7201, 600):
                    res.case(eda, h, bits, step, ())
                    if n < 6 or task[2]:
                        for i in range(18):
                            for v in values:
                                res.case(eda, h, bits, step, ((i, v),))
                if n == part and h in (478559, 504031):
                    step = 7200
                    for i, j in itertools.combinations(range(18), 2):
                        for v, w in itertools.product(values if task[2] else
                                                      (-100_000, -1, 1, 100_000), repeat=2):
                            res.case(eda, h, bits, step, ((i, v), (j, w)))
    elif kind == 'daa':
        _, net, h, part, full = task
        triples = list(itertools.product((0, 1, 2), repeat=3))
        spans = (-5, 0, 43199, 43200, 43201, 86400, 172799, 172800, 172801, 10 ** 6)
        for n, start in enumerate(triples):
            if n % 3 != part:
                continue
            for end in triples:
                for span in spans if full else spans[(n + sum(end)) % 2::2]:
                    res.case(daa, net, h, start, end, span, n % 4, 0)
        if part == 0:
            for bits in range(9):
                for span in spans:
                    for wait in (-1, 0, 1199, 1200, 1201, 10 ** 6):
                        res.case(daa, net, h, (0, 1, 2), (0, 1, 2), span, bits, wait)
    elif kind == 'walk':
        _, net, full = task
        heights = {'stn': (1, 2, 100, 2015, 2017, 2019, 2199, 2200)}.get(
            net, (1, 2, 100, 2015, 2017, 2019, 4033, 1188697))
        for h in heights:
            for run_length in range(0, 6):
                for pattern in itertools.product((0x1d00ffff, 0x1b0404cb), repeat=3):
                    for wait in (-5000, 0, 1199, 1200, 1201, 100_000):
                        res.case(walk, net, h, run_length, pattern, wait)
    elif kind == 'long walk':
        _, net, h, wait = task
        for run_length in RUNS:
            for pattern in ((0x1b0404cb,) * 3, (0x1b0404cb, 0x1d00ffff, 0x1b0404cb), (0x1a012345, 0x1b0404cb, 0x1d00ffff)):
                res.case(walk, net, h, run_length, pattern, wait)
    elif kind == 'late':
        base = task[1]
        for span in SPANS:
            for net, h in (('main', 2016), ('main', 477792), ('test', 2016)):
                res.case(late, base, 'fortnightly', net, h, 0x1b0404cb, span, 0x1b0404cb)
        for step in (7199, 7200, 7201):
            for h in (478559, 504031):
                res.case(late, base, 'eda', h, 0x1b0404cb, step, ())
                for i, v in itertools.product(range(18), (-100_000, -1, 1, 100_000)):
                    res.case(late, base, 'eda', h, 0x1b0404cb, step, ((i, v),))
        for net, h in (('main', 504032), ('test', 1188698), ('stn', 2201), ('reg', 1188698)):
            for start, end in itertools.product(itertools.permutations((0, 1, 2)), repeat=2):
                for span in (-5, 43200, 86400, 172801, 10 ** 6):
                    res.case(late, base, 'daa', net, h, start, end, span, sum(end) % 4, 600)
            for wait in (-1, 0, 1199, 1200, 1201, 10 ** 5):
                res.case(late, base, 'daa', net, h, (0, 1, 2), (0, 1, 2), 86400, 0, wait)
        for net, run_length, wait in itertools.product(('test', 'stn', 'reg'), range(3),
                                                       (-5000, 0, 1199, 1200, 1201, 100_000)):
            res.case(late, base, 'walk', net, 2019, run_length, (0x1d00ffff, 0x1b0404cb, 0x1d00ffff), wait)
    else:
        res.case(forks, task[1], seconds=300)


RUNS = (6, 7, 9, 10, 11, 12, 20, 99, 100, 101, 127, 128, 143, 144, 145, 255, 256, 257, 498, 499, 500, 501, 511,
        512, 999, 1000, 1001, 1023, 1024, 1500, 1999, 2000, 2010, 2011, 2012, 2013, 2014, 2015, 2016, 2017)


def ask(net, model, h, ts):
    headers = collection(net)
    for height, (t, bits) in model.items():
        if height <= TOP:
            headers.set_one(height, pack_header(1, bytes(32), bytes(32), t, bits, height))
    want = model.required(net, h, ts)
    chain = headers.longest_chain()
    got = headers.required_bits(chain, h, ts)
    if got != want:
        raise Mismatch(f'{net} height {h}: required bits 0x{got:08x}, the rule says 0x{want:08x}')
    if net == 'main':
        eq(headers.required_bits(chain, h), want, 'required bits without a timestamp')
    if not model.notes and want == model.bits(h - 1):
        return 'as parent'
    return ', '.join(sorted(model.notes)) or 'retarget'


def labels(text):
    return {name: 1 for name in text.split(', ')}


def at_genesis():
    headers = collection('main')
    eq(headers.required_bits(headers.longest_chain(), 0), 0x1d00ffff, 'bits required of the genesis')
    return 'retarget'


LATE = (1 << 31, (1 << 32) - 2_000_000)


def late(base, kind, *args):
    '''The same, with times that need all 32 bits.'''
    global BASE
    early, BASE = BASE, base
    try:
        return globals()[kind](*args)
    finally:
        BASE = early


def fortnightly(net, h, bits, span, first):
    model = Model()
    model[h - 1] = (BASE, bits)
    if h >= 2016:
        model[h - 2016] = (BASE - span, first)
        model[h - 2017 if h > 2016 else h - 2015] = (BASE - span - 4321, first)
        model[h - 2015] = (BASE - span + 1234, first)
    return labels(ask(net, model, h, BASE + 600))


def eda(h, bits, step, changes):
    model = Model()
    for i in range(1, 19):
        model[h - i] = (BASE - i * step, bits if i == 1 else 0x1b0404cb)
    for i, v in changes:
        t, b = model[h - i - 1]
        model[h - i - 1] = (t + v, b)
    if h % 2016 == 0:
        model[h - 2016] = (BASE - T - 999, bits)
    return labels(ask('main', model, h, BASE + 600))


def daa(net, h, start, end, span, mix, wait):
    '''The three headers at each end of the window have the timestamp order given.'''
    model = Model()
    for i in range(1, 160):
        # Distinct work at every height, of one or more sizes
        bits = ((0x18009645 + 37 * i), (0x1b0404cb - 97 * i), (0x1d00ffff - i), 0x1d00ffff,
                (0x1c7fffff - i if i % 3 else 0x1b0404cb + i), (0x1a05db8b + i * i),
                # targets of three bytes or less, so that the last bit of the new one shows
                0x03700000 - 97 * i, 0x0312d687 + i, 0x02040000)[mix]
        model[h - i] = (BASE - 300 * i, bits)
    for k, order in enumerate(end):
        model[h - 3 + k] = (BASE + span + order, model.bits(h - 3 + k))
    for k, order in enumerate(start):
        model[h - 147 + k] = (BASE + order, model.bits(h - 147 + k))
    for i in range(4, 145):
        model[h - i] = (BASE + span // 2, model.bits(h - i))
    if h % 2016 == 0:
        model[h - 2016] = (BASE - T, 0x1b0404cb)
    prev = model.ts(h - 1)
    if net != 'main' and h <= {'stn': 2200}.get(net, 1188697):
        for i in range(160, h % 2016 + 1):
            if h - i >= 0:
                model[h - i] = (BASE, 0x1b0404cb)
    return labels(ask(net, model, h, prev + wait))


def walk(net, h, run_length, pattern, wait):
    '''A run of minimum-difficulty headers below h, then the pattern of bits.'''
    model = Model()
    for i in range(1, 24):
        if h - i >= 0:
            model[h - i] = (BASE - i, 0x1a05db8b)
    for i in range(1, run_length + 1):
        if h - i >= 0:
            model[h - i] = (BASE - i, 0x1d00ffff)
    for k, bits in enumerate(pattern):
        if h - run_length - 1 - k >= 0:
            model[h - run_length - 1 - k] = (BASE - 50 - k, bits)
    if h >= 2016:
        edge = h - h % 2016
        if edge not in model:
            model[edge] = (BASE - 999, 0x1c3fffc0)
        if h % 2016 == 0:
            model[h - 2016] = (BASE - T, 0x1c3fffc0)
    return labels(ask(net, model, h, model.ts(h - 1) + wait))


# --- Whole chains ------------------------------------------------------------------------------

class Branch(Model):
    '''The headers below and on one branch, by height, with an easy limit.'''

    def __init__(self):
        super().__init__(ref.compact_decode(EASY), EASY)
        self.raws = {}

    def copy(self):
        other = Branch()
        other.update(self)
        other.raws = dict(self.raws)
        return other


def forks(era):
    '''Two branches with different histories: each header must carry its own branch's bits.'''
    import bitcoinx
    from bitcoinx import Coin, Headers, CheckPoint, IncorrectBits
    net, cp_height, trunk, fork_at, length = {
        'fort': ('main', 0, 2000, 1990, 60),
        'fort4': ('main', 2016 * 4 - 2, 2017, 2010, 30),
        'eda': ('main', 479808 + 30, 30, 20, 40),
        'daa': ('main', 504031 + 30, 60, 40, 220),
        'test': ('test', 2016 * 3 - 25, 20, 10, 30),
        'testdaa': ('test', 1188697 + 40, 30, 20, 170),
        'stn': ('stn', 2180, 30, 10, 40),
    }[era]
    rule = coin_of(net).required_bits
    branch = Branch()
    start = EASY if era == 'fort' else 0x2007ffff
    genesis = pack_header(1, bytes(32), bytes(32), BASE, EASY, 0)
    coin = Coin('easy', genesis.hex(), rule, 0, 5, 0x80, bytes(4), bytes(4), 'easy')
    path = fresh(scratch_file('f'))
    if cp_height:
        cp_raw = mine(ref.sha256(b'below'), bytes(32), BASE, start)
    else:
        cp_raw = genesis
    headers = Headers.from_file(coin, path, CheckPoint(cp_raw, cp_height, 0))
    for i in range(min(cp_height, 2100), 0, -1):
        h = cp_height - i
        branch[h] = (BASE - 600 * i + (h % 7) * 100, start)
        headers.set_one(h, pack_header(1, bytes(32), bytes(32), *branch[h], h))
    branch[cp_height] = (BASE, start if cp_height else EASY)
    branch.raws[cp_height] = cp_raw
    connected = 0
    mixed = 0

    def extend(branch, gap, salt, other=None):
        nonlocal connected, mixed
        h = max(branch) + 1
        prev = ref.sha256d(branch.raws[h - 1])
        ts = branch.ts(h - 1) + gap
        need = branch.required(net, h, ts)
        raw = mine(prev, ref.sha256(salt + b'%d' % h), ts, need)
        if other and h in other and other.bits(h) != need:
            wrong = mine(prev, ref.sha256(salt + b'%d' % h), ts, other.bits(h))
            raises(IncorrectBits, headers.connect, wrong, what=f'{era}: other fork\'s bits at {h}')
            mixed += 1
        header, chain = headers.connect(raw)
        eq((header.height, header.bits), (h, need), f'{era}: header connected')
        branch[h] = (ts, need)
        branch.raws[h] = raw
        connected += 1

    slow = net == 'test'
    trunk_gaps = {'fort': (550, 650), 'fort4': (300, 500), 'eda': (9000, 5000, 7000)}.get(
        era, (600, 500, 1300) if slow else (600, 700))
    for i in range(trunk):
        extend(branch, trunk_gaps[i % len(trunk_gaps)], b't')
    at = cp_height + fork_at
    left = branch
    right = branch.copy()
    for h in list(right):
        if h > at:
            del right[h]
    for i in range(length):
        extend(left, (250, 400, 1250)[i % 3] if slow else (250, 400)[i % 2], b'l', right)
        extend(right, {0: 1500, 1: 800}.get(i % 2) if era != 'eda' else 12000, b'r', left)
    # The branches differ, and each still answers for itself
    chains = headers.chains()
    eq(len(chains), 2, 'two chains')
    chain_of = {}
    for b in (left, right):
        tip = ref.sha256d(b.raws[max(b)])
        chain_of[id(b)] = next(c for c in chains if c.tip.hash == tip)
    top = max(max(left), max(right)) + 1
    # Asked in turn at the same height, whatever the tips have come to since
    for heights, order in ((range(top, at, -1), (left, right)),
                           (range(at + 1, top + 1), (right, left, right))):
        for h in heights:
            for wait in (600, 1201):
                for b in order:
                    if h - 1 in b:
                        ts = b.ts(h - 1) + wait
                        eq(headers.required_bits(chain_of[id(b)], h, ts),
                           b.required(net, h, ts), f'{era}: required bits at {h}')
    close_headers(headers)
    return {'fork': 1, f'fork {era}: wrong branch refused': mixed, 'evals': connected,
            'states': 0}
