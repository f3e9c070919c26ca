'''C02: a header is admitted exactly when it connects, has the required bits and meets its target;
a refused header leaves no trace in memory or on disk.'''

import itertools
import os

from . import ref
from .common import eq, true, raises, Mismatch
from .chainmodel import (
    EASY, MID, HARD, Tree, config, open_headers, check_tree, connect_ok, scratch_file, fresh,
    sequences, same_header, drop_cache, close_headers, mine, pack_header,
)

LEVEL = 'model_checking'
RULE = ('Every tree-with-order of n headers is built on a real collection; in that state every '
        'candidate of a menu is offered at every parent: duplicates of every header, each wrong '
        'bits value (easier, harder, another branch\'s), hash just above the target, unknown and '
        'nearly-known parents, wrong sizes.  The outcome is compared with the reference rule, and '
        'after each refusal every observer and the bytes of the file are compared with those '
        'before.  Then every valid child is offered in a fresh copy.  Also every sequence of offers, '
        'repeats included, of the headers of every small tree and of three bad ones: children '
        'before parents, refused ones again.  Non-trivial: a refusal.')
TRIVIAL = ('admitted', 'known already')
ASSUMES = ('proof of work on a toy coin with easy targets and a branch-, height- and '
           'timestamp-dependent difficulty rule',)
EXPECT = ('IncorrectBits', 'InsufficientPoW', 'MissingHeader', 'known already', 'admitted',
          'wrong size')


def tasks(tier):
    top = {'quick': {'genesis': 6, 'cache1': 5, 'cp5': 5, 'nocache': 5},
           'thorough': {'genesis': 7, 'cache1': 7, 'cp5': 7, 'nocache': 7, 'cache2': 7,
                        'cp5-cache1': 7}}[tier]
    out = []
    for cfg, n in top.items():
        for k in range(n + 1):
            if k < 5:
                out.append((cfg, k, None))
            else:
                out.extend((cfg, k, p) for p in sequences(3))
    for cfg in ('genesis', 'cp5', 'cache1'):
        for n in range(1, 4 if tier == 'quick' else 5):
            for seq in sequences(n):
                for first in range(n + len(BAD)):
                    out.append(('offers', cfg, seq, first))
    return out


def run(task, res):
    if task[0] == 'offers':
        _, cfg, seq, first = task
        menu = len(seq) + len(BAD)
        for rest in itertools.product(range(menu), repeat=min(4, len(seq) + 1)):
            res.case(offers, cfg, seq, (first, *rest))
        return
    cfg, n, prefix = task
    for seq in sequences(n):
        if prefix is None or seq[:3] == tuple(prefix):
            res.case(admission, cfg, seq, seconds=200)


def near_miss(prev, merkle, ts, bits):
    '''Of several headers that miss the target, the one that misses it by least.'''
    target = ref.compact_decode(bits)
    best = None
    for nonce in range(24):
        raw = pack_header(1, prev, merkle, ts, bits, nonce)
        value = int.from_bytes(ref.sha256d(raw), 'little')
        if value > target and (best is None or value < best[0]):
            best = value, raw
    return best[1] if best else mine(prev, merkle, ts, bits, good=False)


def candidates(tree):
    '''(expected outcome, raw header, parent number) for the whole menu.'''
    for i, node in enumerate(tree.nodes):
        if i:
            yield 'known', node.raw, i
        salt = ref.sha256(b'candidate %d' % i)
        for variant in (0, 1, 2):
            ts = node.ts + 600 + variant
            need = node.required(ts)
            # Bits that were right for another parent or time, or easier or harder or absurd
            for bits in (EASY, MID, HARD, 0x2100ffff, 0x1d00ffff, 0, 0x01003456, 0xff7fffff):
                if bits != need and (variant == 0 or bits in (EASY, MID, HARD)):
                    target = ref.compact_decode(bits)
                    if bits in (EASY, MID, HARD, 0x2100ffff):
                        raw = mine(node.hash, salt, ts, bits)
                    else:
                        raw = pack_header(1, node.hash, salt, ts, bits, 7)
                    yield 'bits', raw, i
            yield 'pow', near_miss(node.hash, salt, ts, need), i
        ts = node.ts + 600
        for bad in (bytes(32) if i or node.hash != tree.cp.hash else b'\1' * 32,
                    node.hash[:4] + bytes(28), node.hash[:31] + bytes([node.hash[31] ^ 1]),
                    bytes([node.hash[0] ^ 0x80]) + node.hash[1:], node.hash[::-1]):
            yield 'missing', mine(bad, salt, ts, node.required(ts)), i
    good = tree.make(len(tree.nodes) - 1, 0)
    yield 'size', good[:-1], 0
    yield 'size', good + b'\0', 0
    yield 'size', b'', 0
    yield 'size', good[:40], 0
    # The checkpoint's own parent is not in the collection
    yield 'checkpoint', tree.cp.raw, 0


def observe_cheap(headers, path):
    with open(path, 'rb') as f:
        content = f.read(8 + 80 * (len(headers) + 3)).rstrip(b'\0')  # growth is no trace
    return (len(headers), content,
            [(c.tip.hash, c.height, c.work, c.first_height, c.parent) for c in headers.chains()],
            headers.longest_chain())


def admission(cfg, seq):
    from bitcoinx import MissingHeader, IncorrectBits, InsufficientPoW, ChainException
    tree, cache, clear = config(cfg)
    path = fresh(scratch_file())
    headers = open_headers(path, tree, cache)
    for i, parent in enumerate(seq):
        if clear:
            drop_cache(headers)
        connect_ok(headers, tree, parent, tree.make(parent, i % 3))
    counts = {'evals': 0, 'states': 1, 'transitions': 0, 'traces': 1}

    def count(name):
        counts[name] = counts.get(name, 0) + 1
        counts['evals'] += 1
        counts['transitions'] += 1

    before = observe_cheap(headers, path)
    for kind, raw, i in candidates(tree):
        if clear:
            drop_cache(headers)
        what = f'candidate {kind} at parent {i}'
        if kind == 'known':
            header, chain = headers.connect(raw)
            same_header(header, tree.nodes[i], what)
            eq(bytes(headers.raw_header_at_height(chain, header.height)), raw, what + ': its chain')
            count('known already')
        elif kind == 'bits':
            try:
                headers.connect(raw)
            except IncorrectBits as e:
                node = tree.nodes[i]
                ts = int.from_bytes(raw[68:72], 'little')
                eq(e.required_bits, node.required(ts), what + ': required bits reported')
                eq(e.header.hash, ref.sha256d(raw), what + ': header reported')
                true(str(e), what + ': message')
                count('IncorrectBits')
            except InsufficientPoW:
                count('InsufficientPoW before IncorrectBits')
            else:
                raise Mismatch(f'{what}: header with wrong bits accepted: {raw.hex()}')
        elif kind == 'pow':
            raises(InsufficientPoW, headers.connect, raw, what=what)
            count('InsufficientPoW')
        elif kind == 'missing':
            raises(MissingHeader, headers.connect, raw, what=what)
            count('MissingHeader')
        elif kind == 'size':
            raises(Exception, headers.connect, raw, what=what)
            count('wrong size')
        else:
            try:
                header, _ = headers.connect(raw)
                same_header(header, tree.cp, what)
            except MissingHeader:
                pass
            count('checkpoint offered')
        if kind in ('bits', 'pow', 'missing'):
            raises(MissingHeader, headers.lookup, ref.sha256d(raw), what=what + ': lookup')
        eq(observe_cheap(headers, path), before, f'{what}: the collection is as before')
    check_tree(headers, tree)
    close_headers(headers)

    # The file is as before too: reopening it gives the same tree
    headers = open_headers(path, tree, cache)
    check_tree(headers, tree, deep=False)
    # Every valid child of every header, each with every timestamp variant, is admitted
    for i in range(len(tree.nodes)):
        for variant in (0, 1, 2):
            if clear:
                drop_cache(headers)
            connect_ok(headers, tree, i, tree.make(i, variant))
            count('admitted')
    check_tree(headers, tree, deep=len(seq) < 4)
    close_headers(headers)
    return counts


BAD = ('bits', 'pow', 'bad parent')


def offers(cfg, seq, order):
    '''The headers of a tree, a header with wrong bits, one that misses its target and one on top
    of a refused one, offered in any order, repeats included: each is judged by what is there when
    it is offered and by nothing offered or refused before.'''
    from bitcoinx import MissingHeader, IncorrectBits, InsufficientPoW
    plan = config(cfg)[0]
    for i, parent in enumerate(seq):
        plan.add(parent, plan.make(parent, i % 3))
    last = plan.nodes[-1]
    ts = last.ts + 600
    need = last.required(ts)
    salt = ref.sha256(b'bad')
    wrong = mine(last.hash, salt, ts, next(b for b in (EASY, MID, HARD) if b != need))
    missed = mine(last.hash, salt, ts, need, good=False)
    menu = [(n.parent, n.raw, None) for n in plan.nodes[1:]]
    menu += [(last, wrong, IncorrectBits), (last, missed, InsufficientPoW)]
    menu.append((None, mine(ref.sha256d(wrong), salt, ts, EASY), MissingHeader))
    tree, cache, clear = config(cfg)
    headers = open_headers(fresh(scratch_file()), tree, cache)
    counts = {'states': 1, 'transitions': len(order), 'traces': 1}
    for which in order:
        parent, raw, error = menu[which]
        there = {n.hash: i for i, n in enumerate(tree.nodes)}
        if parent is not None and parent.hash not in there:
            error = MissingHeader
        if error:
            raises(error, headers.connect, raw, what='offer')
            label = f'{error.__name__} offered'
        elif ref.sha256d(raw) in there:
            header, chain = headers.connect(raw)
            same_header(header, tree.nodes[there[header.hash]], 'offered again')
            label = 'offered again'
        else:
            connect_ok(headers, tree, there[parent.hash], raw, reused=len(there) & 1)
            label = 'admitted in any order'
        counts[label] = counts.get(label, 0) + 1
    check_tree(headers, tree, deep=False)
    close_headers(headers)
    return counts
