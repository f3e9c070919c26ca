'''C01: the header collection is a faithful block tree, after every history of arrivals.'''

import itertools
import json
import os

from . import ref
from .common import eq, true, raises, VERIF
from .chainmodel import (
    Tree, config, open_headers, check_tree, connect_ok, scratch_file, fresh, sequences,
    same_header, drop_cache, close_headers, mine, toy_coin, EASY, grow_comb,
)

LEVEL = 'model_checking'
RULE = ('Every arrival order of n headers (each new header may extend any header already there, so '
        'n! trees-with-order for n) is executed on a real collection over a real file and every '
        'observer is compared with a plain reference tree in the final state (every prefix is '
        'itself enumerated), for smaller n also after every step on the same collection; then every header is offered again.  Repeated for each cache and '
        'checkpoint configuration.  Two collections at once: every interleaving of their histories.  Branches of branches, to 300 deep.  Deep histories cross the file-growth, cache-eviction and '
        'hash-prefix-collision boundaries.  A history is non-trivial if it has a fork.')
TRIVIAL = ('single chain',)
ASSUMES = ('proof of work on a toy coin with easy targets; all code paths but the coin object are '
           'the real ones',)

CONFIGS = ('genesis', 'cache1', 'cache2', 'nocache', 'cp5', 'cp5-cache1', 'cp64k')


def tasks(tier):
    top = {'quick': {'genesis': 7, 'cache1': 6, 'cache2': 6, 'nocache': 6, 'cp5': 6,
                     'cp5-cache1': 5, 'cp64k': 4},
           'thorough': {c: 7 for c in CONFIGS} | {'genesis': 8, 'cache2': 8, 'cp64k': 5}}[tier]
    out = [('deep', k) for k in DEEP] + [('collide', k) for k in range(3)]
    out += [('comb', levels, steps, cache) for levels, caches in COMBS for steps in range(4) for cache in caches]
    for c in CONFIGS:
        for n in range(1, top[c] + 1):
            if n < 7:
                out.append(('seqs', c, n, None, 0))
            else:
                out.extend(('seqs', c, n, p, 0) for p in sequences(n - 3 if n == 7 else n - 4)
                           if p[0] == 0)
        # ... and with every observer called after every step, on the same collection
        out.extend(('steps', c, n) for n in range(2, 6 if tier == 'quick' else 8) if n <= top[c])
    # A median is what it is for every choice of the lower or the upper time (0-1 principle)
    out.extend(('times', n, k) for n in ((13,) if tier == 'quick' else (13, 15)) for k in range(16))
    # Two collections at once
    ptop = 5 if tier == 'quick' else 6
    out.extend(('pairs', a, b, n, mask) for a, b in PAIRS for n in range(2, ptop + 1)
               for mask in range(1 if n < 5 else 8))
    vtop = 4 if tier == 'quick' else 6
    out.extend(('variants', n) for n in range(1, vtop + 1))
    return out


def run(task, res):
    kind = task[0]
    if kind == 'seqs':
        _, cfg, n, prefix, _ = task
        for seq in sequences(n):
            if prefix is None or seq[:len(prefix)] == tuple(prefix):
                res.case(history, cfg, seq, tuple(i % 3 for i in range(n)))
    elif kind == 'steps':
        for seq in sequences(task[2]):
            res.case(history, task[1], seq, tuple((i + 1) % 3 for i in range(task[2])), True)
    elif kind == 'variants':
        n = task[1]
        for seq in sequences(n):
            for v in range(3 ** n if n < 6 else 2 ** n):
                b = 3 if n < 6 else 2
                res.case(history, 'genesis', seq, tuple(v // b ** i % b for i in range(n)))
    elif kind == 'pairs':
        _, a, b, n, part = task
        for mask in range(1, (1 << n) - 1):
            if n < 5 or mask % 8 == part:
                sizes = [bin(mask).count('0') - 1 + n - mask.bit_length(), bin(mask).count('1')]
                for seqs in itertools.product(sequences(sizes[0]), sequences(sizes[1])):
                    res.case(pairs, a, b, n, mask, *seqs)
    elif kind == 'times':
        n = task[1]
        for v in range(task[2], 1 << n, 16):
            res.case(times, n, v)
    elif kind == 'deep':
        res.case(deep, task[1], seconds=240)
    elif kind == 'comb':
        res.case(comb, *task[1:], seconds=240)
    else:
        res.case(collide, task[1], seconds=240)


def history(cfg, seq, variants, every=False):
    tree, cache, clear = config(cfg)
    headers = open_headers(fresh(scratch_file()), tree, cache)
    between = (lambda: drop_cache(headers)) if clear else None
    for parent, variant in zip(seq, variants):
        if clear:
            drop_cache(headers)
        connect_ok(headers, tree, parent, tree.make(parent, variant))
        if every:
            check_tree(headers, tree, between=between)
    check_tree(headers, tree, between=between)
    # Offer every header again: nothing is added, the same header and a chain it is on come back
    for node in tree.nodes[1:]:
        if clear:
            drop_cache(headers)
        header, chain = headers.connect(node.raw)
        same_header(header, node, 're-connect')
        eq(bytes(headers.raw_header_at_height(chain, node.height)), node.raw,
           'chain given for a header offered again')
    check_tree(headers, tree, deep=False, between=between)
    close_headers(headers)
    forks = len(tree.leaves()) - 1
    label = 'single chain' if not forks else f'{min(forks, 5)} forks'
    return {label: 1, 'states': 1, 'transitions': 1 + len(tree.nodes[1:]), 'traces': 1}


PAIRS = (('genesis', 'genesis'), ('genesis', 'cp5'), ('cache1', 'easy'), ('easy', 'cp5-cache1'))


def pairs(a, b, n, mask, *seqs):
    '''Two collections alive at once, their additions interleaved as the bits of mask: each is as if alone.'''
    both = []
    for k, name in enumerate((a, b)):
        tree, cache, _ = config(name)
        both.append((tree, open_headers(fresh(scratch_file(f'p{k}')), tree, cache), iter(seqs[k])))
    for step in range(n):
        which = mask >> step & 1
        tree, headers, parents = both[which]
        parent = next(parents)
        raw = tree.make(parent, 0)
        connect_ok(headers, tree, parent, raw)
        other_tree, other, _ = both[1 - which]
        known = {node.hash for node in other_tree.nodes}
        if raw[4:36] not in known:
            raises(MissingHeader(), other.connect, raw, what='a header whose parent is in the other collection')
        for node in tree.nodes:
            if node.hash not in known:
                raises(MissingHeader(), other.lookup, node.hash, what='a header of the other collection')
        for t, h, _ in both:
            check_tree(h, t, deep=step == n - 1)
    # A chain of one is not a chain of the other, and one is closed without the other
    true(not {id(c) for c in both[0][1].chains()} & {id(c) for c in both[1][1].chains()},
         'the chains of two collections are different objects')
    close_headers(both[0][1])
    check_tree(both[1][1], both[1][0])
    tree, headers, _ = both[1]
    connect_ok(headers, tree, 0, tree.make(0, 1))
    check_tree(headers, tree)
    close_headers(headers)
    return {'two collections': 1, 'states': 1, 'transitions': n + 1, 'traces': 1}


def MissingHeader():
    from bitcoinx import MissingHeader
    return MissingHeader


LOW, HIGH = 5, (1 << 32) - 1


def times(n, pattern):
    '''A chain of n headers, each with the lower or the upper time, and a fork with the others.'''
    tree = Tree()
    headers = open_headers(fresh(scratch_file()), tree)
    fork = pattern * 7 % (n - 2)
    p = 0
    for h in range(1, n):
        connect_ok(headers, tree, p, timed(tree, p, HIGH if pattern >> h & 1 else LOW))
        p = len(tree.nodes) - 1
    p = fork
    for h in range(fork + 1, n + (pattern & 1)):
        connect_ok(headers, tree, p, timed(tree, p, LOW if pattern >> h & 1 else HIGH))
        p = len(tree.nodes) - 1
    order = (1, 0) if pattern & 2 else (0, 1)
    for height in range(n):
        for i in order:
            chain, node = headers.chains()[i], tree.tips[i].ancestor(height)
            if height > chain.height:
                continue
            near = [node.ancestor(h).ts for h in range(max(0, height - 10), height + 1)]
            eq(headers.median_time_past(chain, height), sorted(near)[len(near) // 2],
               f'median time past at {height} of chain {i}')
            eq(headers.header_at_height(chain, height).timestamp, node.ts, 'timestamp')
    close_headers(headers)
    return {'times': 1, 'states': 1, 'transitions': 2 * n - fork, 'traces': 1}


def timed(tree, parent, ts):
    p = tree.nodes[parent]
    return mine(p.hash, ref.sha256(b'%d' % len(tree.nodes)), ts, p.required(ts))


# Branches of branches of branches...: (levels, cache sizes)
COMBS = ((8, (None, 1)), (40, (None, 7)), (300, (None,)))


def comb(levels, way, cache):
    '''Each branch leaves the one before it.'''
    tree = Tree()
    headers = open_headers(fresh(scratch_file()), tree, cache)
    between = (lambda: drop_cache(headers)) if cache == 1 else None
    for level, line in grow_comb(lambda: headers, tree, levels, way):
        if levels <= 8:
            check_tree(headers, tree, between=between)
    if levels <= 40:
        check_tree(headers, tree, between=between)
    else:
        chains = headers.chains()
        leaf = {n.hash: n for n in tree.leaves()}
        for c1, c2 in itertools.product(chains[::37] + chains[-2:], repeat=2):
            a, b = leaf[c1.tip.hash], leaf[c2.tip.hash]
            while a is not b:
                if a.height >= b.height:
                    a = a.parent
                else:
                    b = b.parent
            chain, height = c1.common_chain_and_height(c2)
            eq(height, a.height, 'common height')
            same_header(headers.header_at_height(chain, height), a, 'the common header')
        for c in chains[::37] + chains[-2:]:
            node = leaf[c.tip.hash]
            while node is not None:
                eq(bytes(headers.raw_header_at_height(c, node.height)), node.raw, 'raw header at height')
                if node.height % 10 == 0:
                    eq(headers.chainwork_to_height(c, node.height), node.total, 'chainwork to height')
                node = node.parent
        drop_cache(headers)
        for node in tree.nodes[::17]:
            header, chain = headers.lookup(node.hash)
            same_header(header, node, 'lookup')
            same_header(headers.header_at_height(chain, node.height), node, 'header at height')
    close_headers(headers)
    return {'branches of branches': 1, 'states': levels, 'transitions': len(tree.nodes), 'traces': 1}


# (trunk length, [(fork parent as a trunk index, fork length)...], max_cache_size)
DEEP = {
    'grow': (5010, [(0, 3), (4998, 8), (5004, 2)], None),
    'evict': (1100, [(1, 2), (50, 2), (998, 3), (1050, 3)], None),
    'evict-small': (60, [(1, 60), (2, 1), (30, 5), (59, 1)], 7),
    'bushy': (3, [(k % 3, 2) for k in range(300)], 16),
    'wide': (2, [(0, 1)] * 65_550, 10 ** 7),
}


def deep(name):
    trunk, forks, cache = DEEP[name]
    tree = Tree()
    headers = open_headers(fresh(scratch_file()), tree, cache)
    at = [0]
    n = 0
    for i in range(trunk):
        connect_ok(headers, tree, at[-1], tree.make(at[-1], i % 3))
        at.append(len(tree.nodes) - 1)
        n += 1
    for parent, length in forks:
        p = at[parent]
        for i in range(length):
            connect_ok(headers, tree, p, tree.make(p, i % 3))
            p = len(tree.nodes) - 1
            n += 1
    # An older header, out of the cache, is still known and a fork off it works
    for i in (1, trunk // 2, trunk):
        header, chain = headers.connect(tree.nodes[at[i]].raw)
        same_header(header, tree.nodes[at[i]], 're-connect of an old header')
    shallow = len(tree.nodes) > 2000
    if name == 'wide':
        return wide(headers, tree, n)
    check_tree(headers, tree, deep=False)
    chains = headers.chains()
    for c1 in chains[:6]:
        for c2 in chains[-6:]:
            a = next(x for x in tree.leaves() if x.hash == c1.tip.hash)
            b = next(x for x in tree.leaves() if x.hash == c2.tip.hash)
            while a is not b:
                if a.height >= b.height:
                    a = a.parent
                else:
                    b = b.parent
            eq(c1.common_chain_and_height(c2)[1], a.height, 'common height')
            if not shallow:
                eq(headers.chainwork_to_height(c1, a.height), a.total, 'chainwork at fork')
    drop_cache(headers)
    for node in (tree.nodes[:5] + tree.nodes[-5:]):
        same_header(headers.lookup(node.hash)[0], node, 'lookup with an empty cache')
    close_headers(headers)
    return {f'deep {name}': 1, 'states': n, 'transitions': n, 'traces': 1}


def wide(headers, tree, n):
    '''More branches than a 16-bit number counts.'''
    eq(headers.chain_count(), len(tree.leaves()), 'chain_count')
    chains = headers.chains()
    for i in (1, 2, 3, 255, 256, 65535, 65536, 65537, 65538, len(tree.nodes) - 1):
        drop_cache(headers)
        node = tree.nodes[i]
        header, chain = headers.lookup(node.hash)
        same_header(header, node, 'lookup')
        if not node.kids:
            eq(chain.tip.hash, node.hash, 'chain of a leaf')
        true(any(chain is c for c in chains), 'a known chain')
    drop_cache(headers)
    # Chains begun early and late go on past that many headers
    for i in (65_540, 1, 2, 65_530, len(tree.nodes) - 1):
        p = i
        for k in range(2):
            connect_ok(headers, tree, p, tree.make(p, k))
            p = len(tree.nodes) - 1
            drop_cache(headers)
        node = tree.nodes[p]
        header, chain = headers.lookup(node.hash)
        for want in (node, node.parent, tree.nodes[i]):
            same_header(headers.header_at_height(chain, want.height), want, 'header at height')
        eq(headers.chainwork_to_height(chain, node.height), node.total, 'chainwork to height')
        eq(chain.work, node.total, 'chain work')
    close_headers(headers)
    return {'deep wide': 1, 'states': n, 'transitions': n, 'traces': 1}


def collisions():
    with open(os.path.join(VERIF, 'mc', 'collisions.json')) as f:
        return json.load(f)


def collide(which):
    '''Headers whose hashes share their first four bytes, and one whose first four bytes occur
    across the boundary of two other hash prefixes in arrival order.'''
    data = collisions()[which]
    tree = Tree()
    headers = open_headers(fresh(scratch_file()), tree, 1)
    for parent, raw in data:
        drop_cache(headers)
        connect_ok(headers, tree, parent, bytes.fromhex(raw))
        drop_cache(headers)
        check_tree(headers, tree, deep=False, between=lambda: drop_cache(headers))
    drop_cache(headers)
    for node in tree.nodes[1:]:
        header, _ = headers.connect(node.raw)
        same_header(header, node, 're-connect under hash prefix collision')
        drop_cache(headers)
    eq(len(headers), len(tree.nodes), 'no header added twice')
    close_headers(headers)
    return {'hash prefix collision': 1, 'states': len(data), 'transitions': len(data), 'traces': 1}
