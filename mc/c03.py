'''C03: reopening the headers file gives back the same block tree, wherever in a history.'''

import itertools
import os
import pathlib

from . import ref
from .common import eq, true, raises
from .chainmodel import (
    Tree, config, open_headers, check_tree, connect_ok, scratch_file, fresh, sequences, MID,
    same_header, drop_cache, close_headers, mine, toy_coin, near_header, grow_comb,
)

LEVEL = 'model_checking'
RULE = ('Every arrival order of n headers times every set of points at which the file is reopened '
        '(after close, after flush only, or with the old handle simply abandoned); at each reopening '
        'every observer is compared with the reference tree and the file must not have been '
        'changed by opening it.  Also: every order of setting headers before the checkpoint with a '
        'reopening at every point, moving the checkpoint along an unforked trunk, and files with a '
        'larger reserved area; branches of branches, to 200 deep; file names of every kind.  '
        'Non-trivial: at least one reopening after a fork, or a hole below the checkpoint.')
TRIVIAL = ('no fork',)
EXPECT = ('set_one', 'moved checkpoint', 'foreign file', 'reserved area')
ASSUMES = ('toy coin; the file is not changed by anyone else',)

MODES = ('close', 'flush', 'abandon')


def tasks(tier):
    out = []
    top = {'quick': {'genesis': 5, 'cache1': 4, 'cp5': 4},
           'thorough': {'genesis': 6, 'cache1': 6, 'cp5': 6, 'cache2': 6}}[tier]
    for cfg, n in top.items():
        for k in range(n + 1):
            if k < 5:
                out.append(('reopen', cfg, k, None))
            else:
                out.extend(('reopen', cfg, k, p) for p in sequences(3))
    top = 4 if tier == 'quick' else 5
    out.extend(('setone', k) for k in range(1, top + 1))
    out.extend(('move', n, k) for n in range(1, 6 if tier == 'quick' else 9)
               for k in range(1, n + 1))
    out += [('foreign',), ('big',), ('reserved',)] + [('names', k) for k in range(len(NAMES))]
    out += [('comb', levels, way) for levels in (3, 5, 9, 40) for way in range(4)] + [('comb', 200, 1)]
    return out


def run(task, res):
    if task[0] == 'reopen':
        _, cfg, n, prefix = task
        for seq in sequences(n):
            if prefix is not None and seq[:3] != tuple(prefix):
                continue
            for mask in range(2 ** n):
                for mode in range(3):
                    res.case(reopen, cfg, seq, mask, mode)
    elif task[0] == 'setone':
        k = task[1]
        heights = range(6)
        for order in itertools.permutations(heights, k):
            for mask in range(2 ** k):
                res.case(set_one, order, mask)
    elif task[0] == 'move':
        _, n, k = task
        for rest in range(0, 4):
            for seq in itertools.product(range(k, n + 1), repeat=rest):
                res.case(move, n, k, seq)
    elif task[0] == 'reserved':
        for size in (8, 9, 15, 16, 79, 80, 81, 160, 4096, 65535):
            for cfg in ('genesis', 'cp5'):
                for n in range(4):
                    for seq in sequences(n):
                        res.case(reserved, size, cfg, seq)
    elif task[0] == 'names':
        for n in range(4):
            for seq in sequences(n):
                for kind in range(2):
                    res.case(named, task[1], kind, seq)
    elif task[0] == 'comb':
        for mode in range(3):
            res.case(comb, task[1], task[2], mode, seconds=200)
    elif task[0] == 'foreign':
        for i in range(4):
            for n in range(4):
                res.case(foreign, i, n)
        for k in range(16, 16 + 16 + 32 + 640):
            if not 32 <= k < 64:
                res.case(foreign, 4, k % 4, k)
        for k in range(88):
            res.case(foreign, 5, k % 4, k)
    else:
        res.case(big, seconds=200)


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def reopened(headers, path, tree, cache, mode):
    if mode == 0:
        close_headers(headers)
    elif mode == 1:
        headers.flush()
    before = content(path)
    again = open_headers(path, tree, cache)
    true(content(path) == before, 'opening the file does not change it')
    if mode != 0:
        close_headers(headers)
    return again


NAMES = ('plain', 'with space', 'h\u00e9aders-\u4e2d', 'a' * 255, 'd/e/f', 'dot.ted.name.dat', '-dash', '%s{0}~$HOME', 'q\'"q',
         'new\nline', '\udcff\udc80', '..hidden', 'd e/' + 'b' * 200 + '/c', '/'.join(['deep' * 10] * 20))


def named(k, kind, seq):
    '''A file of any name, given as a text or a path object.'''
    name = os.path.join(os.environ['MC_SCRATCH'], f'n{os.getpid()}-{k}', NAMES[k])
    os.makedirs(os.path.dirname(name), exist_ok=True)
    path = pathlib.Path(fresh(name)) if kind else fresh(name)
    tree, cache, _ = config('genesis')
    headers = open_headers(path, tree, cache)
    for i, parent in enumerate(seq):
        connect_ok(headers, tree, parent, tree.make(parent, i % 3))
        headers = reopened(headers, path, tree, cache, i % 3)
        check_tree(headers, tree, deep=False)
    close_headers(headers)
    true(os.path.isfile(name), 'the file has the name given')
    eq(os.listdir(os.path.dirname(name)), [os.path.basename(name)], 'and there is no other')
    os.unlink(name)
    return {'file names': 1, 'states': 1, 'transitions': len(seq), 'traces': 1}


def comb(levels, way, mode):
    '''Branches of branches of branches, reopened halfway and at the end.'''
    tree = Tree()
    path = fresh(scratch_file())
    headers = open_headers(path, tree, None)
    for level, line in grow_comb(lambda: headers, tree, levels, way):
        if level in (levels // 2, levels - 1):
            headers = reopened(headers, path, tree, None, mode)
            if levels <= 40:
                check_tree(headers, tree, deep=level == levels - 1)
            else:
                eq(len(headers), len(tree.nodes), 'number of headers')
                eq(sorted(c.tip.hash for c in headers.chains()), sorted(n.hash for n in tree.leaves()), 'tips')
                for node in tree.nodes[::7]:
                    header, chain = headers.lookup(node.hash)
                    same_header(header, node, 'lookup')
                    eq(headers.chainwork_to_height(chain, node.height), node.total, 'chainwork')
    close_headers(headers)
    return {'branches of branches': 1, 'states': 2, 'transitions': len(tree.nodes), 'traces': 1}


def reopen(cfg, seq, mask, mode):
    tree, cache, _ = config(cfg)
    path = fresh(scratch_file())
    headers = open_headers(path, tree, cache)
    n = len(seq)
    reopenings = 0
    for i, parent in enumerate(seq):
        if mask >> i & 1:
            headers = reopened(headers, path, tree, cache, mode)
            check_tree(headers, tree, deep=False)
            reopenings += 1
        connect_ok(headers, tree, parent, tree.make(parent, i % 3))
    tips = [c.tip.hash for c in headers.chains()]
    works = [c.work for c in headers.chains()]
    heights = [(c.first_height, c.height) for c in headers.chains()]
    longest = headers.longest_chain().tip.hash
    headers = reopened(headers, path, tree, cache, mode)
    check_tree(headers, tree, deep=n < 5)
    # The very same chains, in the same order
    eq([c.tip.hash for c in headers.chains()], tips, 'tips after reopening')
    eq([c.work for c in headers.chains()], works, 'work after reopening')
    eq([(c.first_height, c.height) for c in headers.chains()], heights, 'heights after reopening')
    eq(headers.longest_chain().tip.hash, longest, 'longest chain after reopening')
    close_headers(headers)
    label = f'{len(tree.leaves()) - 1} forks' if len(tree.leaves()) > 1 else 'no fork'
    return {label: 1, 'states': reopenings + 1, 'transitions': n + reopenings, 'traces': 1}


def set_one(order, mask):
    '''Set headers at the heights in order (checkpoint at 5), reopening where mask says.'''
    from bitcoinx import MissingHeader
    tree, cache, _ = config('cp5')
    path = fresh(scratch_file())
    headers = open_headers(path, tree, cache)
    below = {}

    def check(deep):
        chain = headers.longest_chain()
        for h in range(5):
            if h in below:
                eq(bytes(headers.raw_header_at_height(chain, h)), below[h], f'header set at {h}')
                eq(headers.header_at_height(chain, h).height, h, 'its height')
            else:
                raises(MissingHeader, headers.raw_header_at_height, chain, h, what=f'hole at {h}')
        eq(len(headers), 5 + len(tree.nodes), 'number of headers')
        for node in tree.nodes:
            eq(bytes(headers.raw_header_at_height(headers.lookup(node.hash)[1], node.height)),
               node.raw, 'header above the checkpoint')

    for i, h in enumerate(order):
        raw = tree.cp.raw if h == 5 else near_header(h, len(order))
        headers.set_one(h, raw)
        if h != 5:
            below[h] = raw
        for bad in (-1, 6, 7, 10 ** 6):
            raises(ValueError, headers.set_one, bad, near_header(0, 1), what=f'set_one({bad})')
        raises(TypeError, headers.set_one, h, raw[:-1], what='short header')
        raises(TypeError, headers.set_one, h, raw + b'\0', what='long header')
        raises(TypeError, headers.set_one, h, raw.hex()[:80], what='text header')
        if i == 1:
            connect_ok(headers, tree, 0, tree.make(0, 0))
            connect_ok(headers, tree, 0, tree.make(0, 1))
        check(False)
        if mask >> i & 1:
            headers = reopened(headers, path, tree, cache, i % 3)
            check(True)
    close_headers(headers)
    return {'set_one': 1, 'states': len(order), 'transitions': len(order), 'traces': 1}


def move(n, k, seq):
    '''A trunk of n headers, forks at or above height k, reopened with a checkpoint at k.'''
    tree = Tree()
    path = fresh(scratch_file())
    headers = open_headers(path, tree)
    for i in range(n):
        connect_ok(headers, tree, i, tree.make(i, i % 3))
    for parent in seq:
        connect_ok(headers, tree, parent, tree.make(parent, 1))
    close_headers(headers)

    cp = tree.nodes[k]
    moved = Tree(cp.raw, k, cp.parent.total)
    index = {k: 0}
    for i, node in enumerate(tree.nodes):
        if i > k:
            moved.add(index[tree.nodes.index(node.parent)], node.raw)
            index[i] = len(moved.nodes) - 1
    headers = open_headers(path, moved)
    chain = headers.longest_chain()
    eq(chain.work, max(x.total for x in tree.leaves()), 'work with a moved checkpoint')
    eq(len(headers), len(tree.nodes), 'number of headers')
    for h in range(k):
        eq(bytes(headers.raw_header_at_height(chain, h)), tree.nodes[h].raw,
           'header below the moved checkpoint')
    for node in moved.nodes:
        header, chain = headers.lookup(node.hash)
        same_header(header, node, 'lookup')
        eq(headers.chainwork_to_height(chain, node.height), node.total, 'chainwork')
    last = len(moved.nodes) - 1
    raw = moved.make(last, 2)
    connect_ok(headers, moved, last, raw)
    close_headers(headers)
    # And back
    tree.add(tree.nodes.index(next(x for x in tree.nodes if x.hash == raw[4:36])), raw)
    headers = open_headers(path, tree)
    check_tree(headers, tree, deep=False)
    close_headers(headers)
    return {'moved checkpoint': 1, 'states': 2, 'transitions': n + len(seq) + 3, 'traces': 1}


def foreign(which, n, place=0):
    '''A file that is not for this checkpoint is re-created, to hold the checkpoint alone.'''
    path = fresh(scratch_file())
    other = Tree()
    headers = open_headers(path, other)
    for i in range(n):
        connect_ok(headers, other, i, other.make(i, 0))
    close_headers(headers)
    if which == 0:
        tree = config('cp5')[0]
    elif which == 1:
        tree = Tree(mine(bytes(32), ref.sha256(b'x'), 1_000_003, MID))
    else:
        tree = other
        data = bytearray(content(path))
        if which == 2:
            data[2] = 1                     # an unknown file version
        elif which == 4:
            data[place // 8] ^= 1 << place % 8      # of the version or the checkpoint header
        elif which == 5:
            del data[place:]                # no whole checkpoint header
        else:
            data[8 + 79] ^= 1               # a damaged checkpoint header
        with open(path, 'wb') as f:
            f.write(data)
        tree = Tree()
    headers = open_headers(path, tree)
    check_tree(headers, tree)
    close_headers(headers)
    headers = open_headers(path, tree)
    check_tree(headers, tree)
    connect_ok(headers, tree, 0, tree.make(0, 0))
    check_tree(headers, tree)
    close_headers(headers)
    return {'foreign file': 1, 'states': 2, 'transitions': n + 3, 'traces': 1}


def reserved(size, cfg, seq):
    '''A file says how large its reserved area is.'''
    tree, cache, _ = config(cfg)
    path = fresh(scratch_file())
    cp = tree.cp
    area = size.to_bytes(2, 'little') + bytes(2) + (cp.height + 1).to_bytes(4, 'little')
    area += b'\xaa' * (size - 8)
    with open(path, 'wb') as f:
        f.write(area + bytes(80 * cp.height) + cp.raw)
    headers = open_headers(path, tree, cache)
    for i, parent in enumerate(seq):
        connect_ok(headers, tree, parent, tree.make(parent, i % 3))
    check_tree(headers, tree)
    if cp.height:
        headers.set_one(2, near_header(2, 1))
        eq(bytes(headers.raw_header_at_height(headers.chains()[0], 2)), near_header(2, 1), 'set')
        headers.set_one(2, bytes(80))
    headers = reopened(headers, path, tree, cache, len(seq) % 3)
    check_tree(headers, tree)
    close_headers(headers)
    data = content(path)
    eq(data[:4] + data[8:size], area[:4] + area[8:], 'reserved area')
    for i, node in enumerate(tree.nodes):
        start = size + 80 * (cp.height + i)
        eq(data[start: start + 80], node.raw, f'header {i} in the file')
    return {'reserved area': 1, 'states': 2, 'transitions': len(seq) + 2, 'traces': 1}


def big():
    '''Reopening at each side of the points where the file grows and the cache is trimmed.'''
    tree = Tree()
    path = fresh(scratch_file())
    headers = open_headers(path, tree)
    last = 0
    reopen_at = {1, 2, 999, 1000, 1001, 1002, 4999, 5000, 5001, 5002, 5003, 5200, 10003, 10004}
    for i in range(1, 10_010):
        parent = last
        fork = i in (500, 1000, 4998, 5001)
        if fork:
            parent = last - 2
        connect_ok(headers, tree, parent, tree.make(parent, i % 3))
        if not fork:
            last = len(tree.nodes) - 1
        if i in reopen_at:
            headers = reopened(headers, path, tree, None, i % 3)
            eq(sorted(c.tip.hash for c in headers.chains()),
               sorted(x.hash for x in tree.leaves()), f'tips after reopening at {i}')
            eq(len(headers), len(tree.nodes), 'number of headers')
    headers = reopened(headers, path, tree, None, 0)
    check_tree(headers, tree, deep=False)
    close_headers(headers)
    return {'growth boundaries': 1, 'states': len(reopen_at), 'transitions': 10_009, 'traces': 1}
