'''C04: the headers file survives the process being killed at any instant.'''

import itertools
import os
import shutil

from . import ref
from .common import eq, true, Mismatch
from .trace import step_through
from .chainmodel import (
    Tree, config, open_headers, check_tree, scratch_file, sequences, MID, mine, drop_cache,
    close_headers, near_header, toy_coin,
)

LEVEL = 'fault_enumeration'
RULE = ('A history of operations runs on the real code; its last operation runs one Python '
        'instruction at a time and the bytes of every file in the directory are recorded before '
        'each instruction: those are the states a process killed there leaves behind.  Each change '
        'of more than one aligned 8-byte word is also torn: at every byte from either end, and as '
        'every subset of its words.  From each distinct state a fresh collection must open, hold '
        'every acknowledged header, hold the header being added completely or not at all, and '
        'accept it and more.  Non-trivial: a state that is neither the state before nor after.')
TRIVIAL = ('before', 'after')
ASSUMES = ('the process is killed but the operating system keeps running: what was written to the '
           'file or the mapping is kept, what was buffered in the process is lost',
           'a write of at most one aligned 8-byte word is not torn',
           'a header set below the checkpoint, for which the caller vouches, is written at once')
EXPECT = ('torn', 'in between', 'after', 'before')


def tasks(tier):
    top = {'quick': {'genesis': 4, 'cp5': 3, 'cache1': 3, 'cp64k': 3},
           'thorough': {'genesis': 5, 'cp5': 5, 'cache1': 5,
                         'cp64k': 4}}[tier]
    full = tier == 'thorough'
    out = []
    for cfg, n in top.items():
        out.append((cfg, 'create', (), full))
        for k in range(1, n + 1):
            for seq in sequences(k):
                out.append((cfg, 'connect', seq, full))
                if k < n:
                    out.append((cfg, 'open', seq, full))
                    out.append((cfg, 'flush', seq, full))
                    out.append((cfg, 'again', seq, full))
    for k in range(0, 3):
        for seq in sequences(k):
            out.append(('genesis', 'recreate', seq, full))
            out.append(('cp5', 'recreate', seq, full))
            for h in range(18):
                if not seq or full or h % 6 in (0, 4):
                    out.append(('cp5', 'setone', seq + (h,), full))
    for seq in ((0,), (0, 0), (0, 1)):
        for grow in (1, 2, 3):
            out.append(('genesis', 'grow', seq + (grow,), full))
        out.append(('genesis', 'twice', seq, full))
    return out


def run(task, res):
    res.case(crash, *task, seconds=600)


class Disk:
    '''The files of a directory, as far as the first LIMIT bytes (all later bytes being zero).'''

    def __init__(self, path, limit):
        self.path = path
        self.limit = limit
        self.states = []
        self.last = None

    def snap(self):
        out = []
        with os.scandir(self.path) as it:
            for entry in it:
                fd = os.open(entry.path, os.O_RDONLY)
                try:
                    size = os.fstat(fd).st_size
                    out.append((entry.name, size, os.pread(fd, self.limit, 0)))
                finally:
                    os.close(fd)
        out.sort()
        return tuple(out)

    def observe(self):
        state = self.snap()
        if state != self.last:
            self.states.append(state)
            self.last = state


def restore(state, path):
    shutil.rmtree(path, ignore_errors=True)
    os.mkdir(path)
    for name, size, data in state:
        with open(os.path.join(path, name), 'wb') as f:
            f.write(data)
            f.truncate(size)


def torn(before, after, full, words_only=False):
    '''Every way the change between two consecutive states may be done in part.'''
    old = {name: (size, data) for name, size, data in before}
    for name, size, data in after:
        osize, odata = old.get(name, (0, b''))
        if (osize, odata) == (size, data):
            continue
        others = [f for f in after if f[0] != name]

        def state(sz, d):
            return tuple(sorted(others + [(name, sz, d)]))

        width = max(len(data), len(odata))
        a, b = odata.ljust(width, b'\0'), data.ljust(width, b'\0')
        diff = [i for i in range(width) if a[i] != b[i]]
        if not diff:
            continue
        lo, hi = diff[0], diff[-1] + 1
        if osize != size:
            # Written in order from the start of the change; the file grows as it is written
            for k in range(lo, hi):
                sz = min(max(osize, k), size) if size > osize else osize
                yield state(sz, (b[:k] + a[k:])[:min(sz, width)])
            continue
        if lo // 8 == (hi - 1) // 8:
            continue        # one aligned word
        for k in range(lo + 1, hi):
            if words_only and k % 8:
                continue
            yield state(size, b[:k] + a[k:])
            yield state(size, a[:k] + b[k:])
        if words_only:
            continue
        words = sorted({i // 8 for i in diff})
        if len(words) > 11 or not full:
            # every run of words
            subsets = [words[i:j] for i in range(len(words)) for j in range(i, len(words) + 1)]
        else:
            subsets = itertools.chain.from_iterable(
                itertools.combinations(words, r) for r in range(len(words)))
        for subset in subsets:
            mix = bytearray(a)
            for w in subset:
                mix[w * 8: w * 8 + 8] = b[w * 8: w * 8 + 8]
            yield state(size, bytes(mix))


def build(tree, headers, seq):
    for i, parent in enumerate(seq):
        raw = tree.make(parent, i % 3)
        headers.connect(raw)
        tree.add(parent, raw)


def grown(tree, headers, upto):
    '''A long trunk: the next headers fall at the end of the space reserved in the file.'''
    while len(tree.nodes) < upto:
        last = len(tree.nodes) - 1
        raw = tree.make(last, 0)
        headers.connect(raw)
        tree.add(last, raw)


def clone(tree, extra=()):
    out = Tree(tree.cp.raw, tree.cp.height, tree.prev_work)
    index = {id(tree.cp): 0}
    for node in tree.nodes[1:]:
        out.add(index[id(node.parent)], node.raw)
        index[id(node)] = len(out.nodes) - 1
    for parent, raw in extra:
        out.add(parent, raw)
    return out


def crash(cfg, op, seq, full):
    tree, cache, _ = config(cfg)
    home = scratch_file('dir')
    shutil.rmtree(home, ignore_errors=True)
    os.mkdir(home)
    path = os.path.join(home, 'headers')
    limit = 8 + 80 * (tree.cp.height + len(seq) + 12)
    arg = None
    if op in ('setone', 'grow'):
        seq, arg = seq[:-1], seq[-1]
    inflight = None
    alternatives = None

    if op == 'recreate':
        other = Tree(mine(bytes(32), ref.sha256(b'y'), 1_000_003, MID), tree.cp.height)
        headers = open_headers(path, other, cache)
        build(other, headers, seq)
        close_headers(headers)
    elif op != 'create':
        headers = open_headers(path, tree, cache)
        if op == 'grow':
            limit = 1 << 30
            # the number of headers that fit before the file has to grow, found by watching it
            size = 0
            while True:
                grown(tree, headers, len(tree.nodes) + 1)
                now = os.path.getsize(path)
                if size and now != size:
                    break
                size = now
                if len(tree.nodes) > 12000:
                    raise Mismatch('the file does not grow')
            fits = len(tree.nodes) - 2
            close_headers(headers)
            os.unlink(path)
            tree = config(cfg)[0]
            headers = open_headers(path, tree, cache)
            grown(tree, headers, fits - len(seq) + arg)
            base = len(tree.nodes) - 1
            seq = tuple(base + s for s in seq)
        build(tree, headers, seq[:-1] if op in ('connect', 'grow', 'twice') else seq)

    disk = Disk(home, limit)
    if op in ('create', 'open', 'recreate'):
        if op == 'open':
            close_headers(headers)
        def act():
            return open_headers(path, tree, cache)
    elif op in ('connect', 'grow', 'twice'):
        parent = seq[-1]
        raw = tree.make(parent, 1)
        inflight = (parent, raw)
        def act():
            return headers.connect(raw)
    elif op == 'again':
        def act():
            return headers.connect(tree.nodes[-1].raw)
    elif op == 'flush':
        act = headers.flush
    else:
        # With nothing set before, with the other heights set, and with that height set too
        arg, before = arg % 6, arg // 6
        sraw = tree.cp.raw if arg == 5 else near_header(arg, 1)
        alternatives = (arg, sraw, {})
        for h in range(5):
            if before == 2 or before and h != arg:
                alternatives[2][h] = near_header(h, 2)
                headers.set_one(h, alternatives[2][h])
        def act():
            return headers.set_one(arg, sraw)

    result, exc, steps = step_through(act, disk.observe)
    if exc is not None:
        raise Mismatch(f'{op}: {type(exc).__name__}: {exc}')
    if op in ('create', 'open', 'recreate'):
        headers = result
    close_headers(headers)
    disk.observe()

    counts = {'evals': 0, 'states': 0, 'transitions': steps, 'traces': 1}
    second = []
    seen = set()

    def consider(state, kind):
        if state in seen:
            return
        seen.add(state)
        counts[kind] = counts.get(kind, 0) + 1
        counts['evals'] += 1
        counts['states'] += 1
        again = scratch_file('rec')
        restore(state, again)
        recovered(os.path.join(again, 'headers'), tree, cache, inflight, alternatives,
                  f'{op}: killed {kind}: {summary(state)}', kind == 'torn')
        if op == 'twice' and kind == 'torn' and len(second) < 12:
            second.append(state)

    states = disk.states
    for i, state in enumerate(states):
        kind = 'before' if i == 0 else 'after' if i == len(states) - 1 else 'in between'
        consider(state, kind)
    for i in range(len(states) - 1):
        for state in torn(states[i], states[i + 1], full, op == 'grow' and not full):
            consider(state, 'torn')

    # Killed, reopened, and killed again while adding a different header
    for state in second:
        restore(state, home)
        t = clone(tree)
        headers = open_headers(path, t, cache)
        if len(headers) != len(t.nodes):
            close_headers(headers)
            continue
        raw = t.make(inflight[0], 2)
        disk = Disk(home, limit)
        _, exc, steps = step_through(lambda: headers.connect(raw), disk.observe)
        if exc is not None:
            raise Mismatch(f'connect after recovery: {type(exc).__name__}: {exc}')
        close_headers(headers)
        todo = list(disk.states)
        for i in range(len(disk.states) - 1):
            todo.extend(torn(disk.states[i], disk.states[i + 1], False))
        for st in todo:
            again = scratch_file('rec')
            restore(st, again)
            recovered(os.path.join(again, 'headers'), t, cache, (inflight[0], raw), None,
                      f'killed a second time: {summary(st)}')
            counts['evals'] += 1
            counts['second kill'] = counts.get('second kill', 0) + 1
    shutil.rmtree(home, ignore_errors=True)
    return counts


def summary(state):
    return [(name, size, data[:8].hex()) for name, size, data in state]


def recovered(path, tree, cache, inflight, alternatives, what, partly=False):
    from bitcoinx import MissingHeader
    try:
        headers = open_headers(path, tree, cache)
    except Exception as e:
        raise Mismatch(f'{what}: cannot be opened: {type(e).__name__}: {e}') from e
    shallow = len(tree.nodes) > 100
    want = tree
    if inflight and len(headers) == tree.cp.height + len(tree.nodes) + 1:
        want = clone(tree, [inflight])
    try:
        observe(headers, want, shallow)
        chain = headers.longest_chain()
        if alternatives:
            # The header being set is there or not; the others are as they were
            height, raw, held = alternatives
            for h in range(tree.cp.height):
                try:
                    got = bytes(headers.raw_header_at_height(chain, h))
                except MissingHeader:
                    got = None
                if h != height:
                    eq(got, held.get(h), f'header at height {h}')
                elif not partly:
                    true(got in (held.get(h), raw), f'header being set: {got}')
            if height < tree.cp.height:
                headers.set_one(height, raw)
                eq(bytes(headers.raw_header_at_height(chain, alternatives[0])), raw,
                   'set_one after recovery')
        # It can be used: the header is offered again, then more are added
        if want is tree:
            want = clone(tree)
        if inflight:
            header, _ = headers.connect(inflight[1])
            eq(header.hash, ref.sha256d(inflight[1]), 'the header offered again')
            if len(want.nodes) == len(tree.nodes):
                want.add(*inflight)
        for parent in {0, len(want.nodes) - 1, len(want.nodes) // 2}:
            raw = want.make(parent, 0)
            headers.connect(raw)
            want.add(parent, raw)
        if not alternatives:
            observe(headers, want, shallow)
        close_headers(headers)
        headers = open_headers(path, tree, cache)
        eq(sorted(c.tip.hash for c in headers.chains()), sorted(x.hash for x in want.leaves()),
           'tips after reopening')
        close_headers(headers)
    except Mismatch as e:
        raise Mismatch(f'{what}: {e}') from e
    except Exception as e:
        raise Mismatch(f'{what}: afterwards: {type(e).__name__}: {e}') from e


def observe(headers, tree, shallow):
    if tree.cp.height:
        # like check_tree, which also requires holes below the checkpoint
        eq(len(headers), tree.cp.height + len(tree.nodes), 'number of headers')
        eq(sorted(c.tip.hash for c in headers.chains()), sorted(n.hash for n in tree.leaves()),
           'tips')
        for node in tree.nodes:
            header, chain = headers.lookup(node.hash)
            eq(bytes(headers.raw_header_at_height(chain, node.height)), node.raw, 'header')
    elif shallow:
        eq(len(headers), len(tree.nodes), 'number of headers')
        eq(sorted(c.tip.hash for c in headers.chains()), sorted(n.hash for n in tree.leaves()),
           'tips')
        drop_cache(headers)
        for node in tree.nodes[:3] + tree.nodes[-5:]:
            header, chain = headers.lookup(node.hash)
            eq(bytes(headers.raw_header_at_height(chain, node.height)), node.raw, 'header')
    else:
        check_tree(headers, tree, deep=False)
