'''A toy coin with real (cheap) proof of work, and the reference block tree for C01-C04 and C30.

The coin's difficulty rule looks at the parent and grandparent on the header's own branch and at
the header's own height and timestamp, so judging a header in another context gives a different
answer.'''

import math
import os
from functools import lru_cache

from .common import eq, true, raises, Mismatch
from . import ref

EASY, MID, HARD = 0x207fffff, 0x203fffff, 0x201fffff


def pack_header(version, prev, merkle, timestamp, bits, nonce):
    return (ref.sle(version, 4) + prev + merkle + ref.le(timestamp, 4) + ref.le(bits, 4)
            + ref.le(nonce, 4))


GENESIS = pack_header(1, bytes(32), bytes(32), 1_000_000, EASY, 0)


def rule(prev_ts, grand_ts, height, timestamp):
    return (EASY, MID, HARD)[(prev_ts + 2 * grand_ts + height + timestamp) % 3]


def toy_required_bits(headers, chain, height, timestamp=None):
    prev = headers.header_at_height(chain, height - 1)
    base = headers.checkpoint.height
    grand = headers.header_at_height(chain, height - 2) if height - 2 >= base else prev
    return rule(prev.timestamp, grand.timestamp, height, timestamp)


@lru_cache(None)
def toy_coin():
    from bitcoinx import Coin
    return Coin('Toy', GENESIS.hex(), toy_required_bits, 0, 5, 0x80, bytes(4), bytes(4), 'toy')


class Node:
    __slots__ = ('parent', 'raw', 'hash', 'height', 'ts', 'bits', 'work', 'total', 'kids', 'chain')

    def __init__(self, parent, raw, height, prev_work=0):
        self.parent = parent
        self.raw = raw
        self.hash = ref.sha256d(raw)
        self.height = height
        self.ts = int.from_bytes(raw[68:72], 'little')
        self.bits = int.from_bytes(raw[72:76], 'little')
        self.work = ref.work_of(self.bits)
        self.total = (parent.total if parent else prev_work) + self.work
        self.kids = []

    def ancestor(self, height):
        node = self
        while node.height > height:
            node = node.parent
        return node

    def required(self, timestamp):
        '''The bits required of a child of this node with that timestamp.'''
        grand = self.parent.ts if self.parent else self.ts
        return rule(self.ts, grand, self.height + 1, timestamp)


@lru_cache(1 << 20)
def mine(prev, merkle, timestamp, bits, good=True, version=1):
    '''The first header over nonces whose hash meets (or, if not good, misses) its target.'''
    target = ref.compact_decode(bits)
    nonce = 0
    while True:
        raw = pack_header(version, prev, merkle, timestamp, bits, nonce)
        if (int.from_bytes(ref.sha256d(raw), 'little') <= target) == good:
            return raw
        nonce += 1


class Tree:
    '''The reference: a plain tree of headers above a checkpoint, in arrival order.'''

    def __init__(self, cp_raw=GENESIS, cp_height=0, prev_work=0):
        self.cp = Node(None, cp_raw, cp_height, prev_work)
        self.prev_work = prev_work
        self.nodes = [self.cp]
        self.cp.chain = 0
        self.tips = [self.cp]       # by age of the chain

    def checkpoint(self):
        from bitcoinx import CheckPoint
        return CheckPoint(self.cp.raw, self.cp.height, self.prev_work)

    def make(self, parent, variant):
        '''The raw bytes of a valid child of node number parent.'''
        p = self.nodes[parent]
        merkle = ref.sha256(b'%d %d' % (len(self.nodes), variant) + p.hash)
        ts = p.ts + 600 + variant
        return mine(p.hash, merkle, ts, p.required(ts))

    def add(self, parent, raw):
        p = self.nodes[parent]
        node = Node(p, raw, p.height + 1)
        # It extends the chain of its parent if that is the tip, otherwise it starts a chain
        if p.kids:
            node.chain = len(self.tips)
            self.tips.append(node)
        else:
            node.chain = p.chain
            self.tips[p.chain] = node
        p.kids.append(node)
        self.nodes.append(node)
        return node

    def leaves(self):
        return [n for n in self.nodes if not n.kids]


def config(name):
    '''A named starting point: (Tree, max_cache_size or None, clear_cache).'''
    cp = mine(ref.sha256(b'checkpoint parent'), ref.sha256(b'checkpoint'), 2_000_001, MID)
    return {
        'genesis': lambda: (Tree(), None, False),
        'cache1': lambda: (Tree(), 1, False),
        'cache2': lambda: (Tree(), 2, False),
        'nocache': lambda: (Tree(), None, True),
        'cp5': lambda: (Tree(cp, 5, 123456789), None, False),
        'cp5-cache1': lambda: (Tree(cp, 5, 123456789), 1, False),
        'cp64k': lambda: (Tree(cp, 65_533, 1 << 70), 1, False),
        'easy': lambda: (EasyTree(), None, False),
    }[name]()


def drop_cache(headers):
    cache = getattr(headers, '_cache', None)
    if isinstance(cache, dict):
        cache.clear()


def scratch_file(tag='h'):
    return os.path.join(os.environ['MC_SCRATCH'], f'{tag}{os.getpid()}')


def fresh(path):
    if os.path.exists(path):
        os.unlink(path)
    return path


class EasyTree(Tree):
    '''A tree of headers of a coin which always requires the same bits.'''

    def make(self, parent, variant):
        p = self.nodes[parent]
        merkle = ref.sha256(b'%d %d' % (len(self.nodes), variant) + p.hash)
        return mine(p.hash, merkle, p.ts + 600 + variant, EASY)


@lru_cache(None)
def easy_coin():
    from bitcoinx import Coin
    return Coin('Easy', GENESIS.hex(), lambda *args, **kwargs: EASY, 0, 5, 0x80, bytes(4), bytes(4), 'easy')


def open_headers(path, tree, cache=None):
    from bitcoinx import Headers
    coin = easy_coin() if isinstance(tree, EasyTree) else toy_coin()
    headers = Headers.from_file(coin, path, tree.checkpoint())
    if cache is not None:
        headers.max_cache_size = cache
    return headers


def close_headers(headers):
    '''Tests close storage this way; there is no other public means.'''
    headers._storage.close()


def same_header(header, node, what):
    eq(header.hash, node.hash, f'{what}: hash')
    eq(header.height, node.height, f'{what}: height')
    eq(bytes(header.raw), node.raw, f'{what}: raw')
    eq((bytes(header.prev_hash), header.timestamp, header.bits),
       (node.raw[4:36], node.ts, node.bits), f'{what}: fields')


def check_tree(headers, tree, deep=True, between=None):
    '''Everything a user can observe of the collection equals the reference tree.'''
    from bitcoinx import MissingHeader
    between = between or (lambda: None)
    cp = tree.cp
    eq(len(headers), cp.height + len(tree.nodes), 'number of headers stored')

    # One chain per leaf, each tip a leaf
    chains = headers.chains()
    eq(headers.chain_count(), len(chains), 'chain_count')
    leaves = {n.hash: n for n in tree.leaves()}
    tips = [c.tip.hash for c in chains]
    eq(sorted(tips), sorted(leaves), 'chain tips are the leaves')
    tip_nodes = [leaves[h] for h in tips]

    for chain, node in zip(chains, tip_nodes):
        same_header(chain.tip, node, 'tip')
        eq(chain.height, node.height, 'chain height')
        eq(chain.work, node.total, 'chain work')
        true(abs(chain.log2_work() - math.log2(node.total)) < 1e-9, 'log2 of chain work')
        # The whole branch is found by height on this chain
        n = node
        while n is not None:
            between()
            eq(bytes(headers.raw_header_at_height(chain, n.height)), n.raw,
               f'raw header at height {n.height} of chain with tip height {node.height}')
            if deep:
                same_header(headers.header_at_height(chain, n.height), n, 'header at height')
                eq(headers.chainwork_to_height(chain, n.height), n.total,
                   f'chainwork to height {n.height}')
                if n.height - 10 >= cp.height or cp.height == 0:
                    times, m = [], n
                    while m is not None and len(times) < 11:
                        times.append(m.ts)
                        m = m.parent
                    eq(headers.median_time_past(chain, n.height),
                       sorted(times)[len(times) // 2], f'median time past at {n.height}')
            n = n.parent
        raises(MissingHeader, headers.raw_header_at_height, chain, node.height + 1,
               what='height above the tip')
        raises(MissingHeader, headers.raw_header_at_height, chain, -1, what='height -1')
        for h in sorted({*range(min(cp.height, 9)), *range(max(0, cp.height - 3), cp.height)}):
            raises(MissingHeader, headers.raw_header_at_height, chain, h,
                   what=f'unset height {h} before the checkpoint')

    # Lookup by hash
    for node in tree.nodes:
        between()
        header, chain = headers.lookup(node.hash)
        same_header(header, node, 'lookup')
        true(any(chain is c for c in chains), 'lookup gives one of the chains')
        true(chain.first_height <= node.height <= chain.height, 'header lies on its own chain')
        tip = leaves[chain.tip.hash]
        eq(tip.ancestor(node.height).hash, node.hash, 'chain given by lookup passes through header')
    for bad in (bytes(32), cp.hash[:4] + bytes(28), tree.nodes[-1].hash[:31] + b'\xee',
                tree.nodes[-1].hash[:31], tree.nodes[-1].hash + b'\0', tree.nodes[-1].hash[:4], b''):
        raises(MissingHeader, headers.lookup, bad, what='lookup of an unknown hash')

    # Most work
    best = max(n.total for n in leaves.values())
    eq(headers.longest_chain().work, best, 'longest chain has the most work')
    true(any(headers.longest_chain() is c for c in chains), 'longest chain is a chain')
    eq(headers.longest_chain().tip.hash, next(n.hash for n in tree.tips if n.total == best),
       'longest chain is the oldest of those with the most work')

    # Common ancestors
    if deep:
        for c1, n1 in zip(chains, tip_nodes):
            for c2, n2 in zip(chains, tip_nodes):
                a, b = n1, n2
                while a is not b:
                    if a.height >= b.height:
                        a = a.parent
                    else:
                        b = b.parent
                chain, height = c1.common_chain_and_height(c2)
                eq(height, a.height, 'common height')
                eq(bytes(headers.raw_header_at_height(chain, height)), a.raw,
                   'common chain holds the common header')
                lo = a.height + 1
                eq(headers.chainwork_range(c1, lo, n1.height + 1), n1.total - a.total,
                   'chainwork of a range')
            # Work of every range, of a short chain
            totals = [n1.total]
            n = n1
            while n.parent is not None and len(totals) < 10:
                n = n.parent
                totals.insert(0, n.total)
            totals.insert(0, n.parent.total if n.parent is not None else n.total - ref.work_of(n.bits))
            base = n.height
            for lo in range(len(totals)):
                for hi in {lo - 1, lo, lo + 1, len(totals) - 1}:
                    if 0 <= hi < len(totals):
                        eq(headers.chainwork_range(c1, base + lo, base + hi), max(0, totals[hi] - totals[lo]),
                           f'chainwork from height {base + lo} to before {base + hi}')
            # Parent links: the branch point is on the parent, the first height is not
            eq(c1.first_height, _first_height(c1, tree, leaves), 'first height of a chain')
            if c1.parent is not None:
                heights = c1.parent_heights()
                eq(heights[c1], c1.height, 'own height in parent_heights')
                for chain, height in heights.items():
                    true(any(chain is c for c in chains), 'parent_heights lists known chains')
                    eq(leaves[chain.tip.hash].ancestor(height).hash, n1.ancestor(height).hash,
                       'parent_heights height is common')


def _first_height(chain, tree, leaves):
    '''The first height not shared with the chain's parent.'''
    if chain.parent is None:
        return tree.cp.height
    a, b = leaves[chain.tip.hash], leaves[chain.parent.tip.hash]
    while a is not b:
        if a.height >= b.height:
            a = a.parent
        else:
            b = b.parent
    return a.height + 1


def connect_ok(headers, tree, parent, raw, reused=False):
    '''connect() a header the reference accepts as new; from a buffer used again if reused.'''
    given = bytearray(raw) if reused else raw
    header, chain = headers.connect(given)
    node = tree.add(parent, raw)
    same_header(header, node, 'connect')
    if reused:
        given[:] = bytes(80)
    eq(chain.tip.hash, node.hash, 'the new header is the tip of the chain connect returns')
    return node


def sequences(n):
    '''All ways to grow a tree by n headers: the parent of header i is any of 0..i-1.'''
    def rec(prefix):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for p in range(len(prefix) + 1):
            yield from rec(prefix + [p])
    return rec([])


def near_header(height, salt):
    '''Some 80 bytes to set below a checkpoint.'''
    return pack_header(1, ref.sha256(b'%d' % height), ref.sha256(b'%d' % salt), 5 + height, MID,
                       height)


def grow_comb(get_headers, tree, levels, way):
    '''Connect branches of branches of branches...: each leaves the last one after its first or its last
    but one header, or anywhere.  Yields each with its number.'''
    at = 0
    for level in range(levels):
        line = [at]
        for i in range(2 + (level * 7 % 3 if way == 3 else way == 2)):
            connect_ok(get_headers(), tree, line[-1], tree.make(line[-1], (level + i) % 3))
            line.append(len(tree.nodes) - 1)
        at = line[(1, 0 if level % 5 == 4 else 1, 2, 1 + level * 5 % (len(line) - 2))[way]]
        yield level, line
