'''C30: a failing file operation is reported and costs nothing: no header is lost, none is half
added, and the collection works again once the fault has gone.'''

import builtins
import errno
import itertools
import mmap
import os
import sys

from .common import eq, true, raises, Mismatch
from .ref import sha256d
from .chainmodel import (
    Tree, config, open_headers, check_tree, scratch_file, fresh, sequences, drop_cache,
    close_headers, near_header, same_header, mine, MID,
)

LEVEL = 'fault_enumeration'
RULE = ('For each history, each operation that touches the file (create, reopen, connect where the '
        'file grows, set, flush) is run once to count its file operations (open, read, write, seek, '
        'truncate, close, map, flush); then it is run again once per file operation and per error '
        'with that one failing, and once per pair of them failing in successive attempts.  Each '
        'failure must surface as the error, leave every observer as before and the file openable '
        'with every header, and the operation must succeed when repeated.  Non-trivial: the fault '
        'was hit.')
TRIVIAL = ('no fault',)
EXPECT = ('open failed', 'truncate failed', 'map failed', 'sync failed')
ASSUMES = ('faults are injected where Python code calls the file or the mmap module',)

ERRORS = {'open': (errno.EACCES, errno.EMFILE, errno.EIO), 'truncate': (errno.ENOSPC, errno.EIO),
          'map': (errno.ENOMEM,), 'write': (errno.ENOSPC,), 'close': (errno.ENOSPC,),
          'read': (errno.EIO,), 'seek': (errno.ENOSPC,), 'sync': (errno.EIO,)}


def tasks(tier):
    out = []
    top = 3 if tier == 'quick' else 5
    for cfg in ('genesis', 'cp5', 'cache1'):
        for n in range(top + 1):
            for seq in sequences(n):
                for op in ('create', 'reopen', 'connect', 'grow', 'flush', 'setone'):
                    if op in ('connect', 'grow') and not n or op == 'create' and n:
                        continue
                    if op == 'grow' and (n > 2 or cfg == 'cp5') or op == 'setone' and cfg != 'cp5':
                        continue
                    out.append((cfg, op, seq))
    return out


class File:
    '''A file that may fail.'''

    def __init__(self, real, plan):
        self.real = real
        self.plan = plan

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __enter__(self):
        return self

    def __exit__(self, *_args):
        self.close()

    def write(self, data):
        self.plan.step('write')
        return self.real.write(data)

    def truncate(self, *args):
        self.plan.step('truncate')
        return self.real.truncate(*args)

    def seek(self, *args):
        self.plan.step('seek')
        return self.real.seek(*args)

    def read(self, *args):
        self.plan.step('read')
        return self.real.read(*args)

    def close(self):
        if not self.real.closed and self.real.writable():
            try:
                self.plan.step('close')
            except OSError:
                # What was buffered is lost
                fd = os.dup(self.real.fileno())
                raw = getattr(self.real, 'raw', None)
                if raw is not None:
                    raw.close()
                    try:
                        self.real.close()
                    except ValueError:
                        pass
                os.close(fd)
                raise
        self.real.close()


class Plan:
    '''Fails the nth file operation.'''

    def __init__(self, fail=None, error=None):
        self.steps = []
        self.fail = fail
        self.error = error
        self.hit = None

    def step(self, name):
        n = len(self.steps)
        self.steps.append(name)
        if n == self.fail:
            self.hit = name
            raise OSError(self.error, os.strerror(self.error))

    def __enter__(self):
        scratch = os.environ['MC_SCRATCH']
        real_open, real_fsync = builtins.open, os.fsync
        real_ftruncate, real_os_open = os.ftruncate, os.open

        def opened(file, *args, **kwargs):
            if isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(scratch):
                self.step('open')
                return File(real_open(file, *args, **kwargs), self)
            return real_open(file, *args, **kwargs)

        def synced(fd):
            self.step('sync')
            return real_fsync(fd)

        def truncated(fd, size):
            self.step('truncate')
            return real_ftruncate(fd, size)

        def os_opened(path, *args, **kwargs):
            self.step('open')
            return real_os_open(path, *args, **kwargs)

        # In the modules they come from, and where the library may have imported them by name
        swaps = ((builtins, 'open', opened), (mmap, 'mmap', Map), (os, 'fsync', synced),
                 (os, 'ftruncate', truncated), (os, 'open', os_opened))
        real = {id(getattr(m, k)): (getattr(m, k), new) for m, k, new in swaps if m is not builtins}
        self.saved = [(m, k, getattr(m, k)) for m, k, _ in swaps]
        for name, module in list(sys.modules.items()):
            if name.partition('.')[0] == 'bitcoinx':
                self.saved += [(module, k, v) for k, v in vars(module).items()
                               if id(v) in real and real[id(v)][0] is v]
        for m, k, v in self.saved:
            setattr(m, k, opened if v is real_open else real[id(v)][1])
        PLANS.append(self)
        return self

    def __exit__(self, *_args):
        PLANS.pop()
        for m, k, v in self.saved:
            setattr(m, k, v)


PLANS = []


def plan_step(name):
    if PLANS:
        PLANS[-1].step(name)


class Map(mmap.mmap):
    '''A mapping that may fail.'''

    def __new__(cls, *args, **kwargs):
        plan_step('map')
        return super().__new__(cls, *args, **kwargs)

    def flush(self, *args):
        plan_step('sync')
        return super().flush(*args)

    def resize(self, size):
        plan_step('truncate')
        return super().resize(size)


def run(task, res):
    cfg, op, seq = task
    steps = res.case(fault, cfg, op, seq, None, None, None)
    if steps is None:
        return
    with_steps = LAST_STEPS[:]
    for n, name in enumerate(with_steps):
        for error in ERRORS[name]:
            res.case(fault, cfg, op, seq, n, error, None)
        if n < 6:
            for m, other in enumerate(with_steps[:6]):
                res.case(fault, cfg, op, seq, n, ERRORS[name][0], (m, ERRORS[other][0]))


LAST_STEPS = []


def fault(cfg, op, seq, fail, error, second):
    tree, cache, _ = config(cfg)
    path = fresh(scratch_file())
    headers = None
    child = None
    if op != 'create':
        with Plan():
            headers = open_headers(path, tree, cache)
        if op == 'grow':
            size = 0
            while True:
                last = len(tree.nodes) - 1
                raw = tree.make(last, 0)
                now = os.path.getsize(path)
                if size and len(tree.nodes) * 80 + 8 >= now:
                    break
                headers.connect(raw)
                tree.add(last, raw)
                size = now
        else:
            for i, parent in enumerate(seq[:-1] if op == 'connect' else seq):
                raw = tree.make(parent, i % 3)
                headers.connect(raw)
                tree.add(parent, raw)
    if op in ('connect', 'grow'):
        parent = seq[-1] if op == 'connect' else len(tree.nodes) - 1
        child = parent, tree.make(parent, 1)

    def act():
        if op in ('create', 'reopen'):
            return open_headers(path, tree, cache)
        if op in ('connect', 'grow'):
            return headers.connect(child[1])
        if op == 'flush':
            return headers.flush()
        return headers.set_one(2, near_header(2, 1))

    if op == 'reopen':
        close_headers(headers)
    label = 'no fault'
    result = None
    for n, err in ((fail, error), second or (None, None)):
        with Plan(n, err) as plan:
            try:
                result = act()
                raised = None
            except OSError as e:
                raised = e
        if n is None and raised:
            raise Mismatch(f'{op} without a fault: {raised}')
        if fail is None:
            LAST_STEPS[:] = plan.steps
        if plan.hit == 'sync' and raised is None and 'sync' not in plan.steps[n + 1:]:
            raise Mismatch(f'{op}: flushing failed with {errno.errorcode[err]}, was not tried again '
                           'and not reported')
        if plan.hit is None or raised is None:
            break
        label = f'{plan.hit} failed'
        eq(raised.errno, err, 'the error is reported as it is')
        # Nothing is lost, nothing is half done
        if op not in ('create', 'reopen'):
            absent(headers, child)
            look(headers, tree, op)
            absent(headers, child)
            again = open_headers(path, tree, cache)
            look(again, tree, op)
            absent(again, child)
            close_headers(again)
    if label != 'no fault':
        # The fault has gone
        result = act() if raised is not None else result
    if op in ('create', 'reopen'):
        headers = result
    if child:
        same_header(result[0], tree.add(*child), 'connect after the fault')
    look(headers, tree, op, deep=True)
    if op == 'setone':
        eq(bytes(headers.raw_header_at_height(headers.longest_chain(), 2)), near_header(2, 1),
           'header set')
    close_headers(headers)
    headers = open_headers(path, tree, cache)
    look(headers, tree, op)
    raw = tree.make(0, 2)
    headers.connect(raw)
    tree.add(0, raw)
    look(headers, tree, op)
    close_headers(headers)
    return {label: 1}


def absent(headers, child):
    '''The header that could not be stored is unknown, and so are headers on top of it.'''
    if child is None:
        return
    from bitcoinx import MissingHeader
    h = sha256d(child[1])
    raises(MissingHeader, headers.lookup, h, what='lookup of the header not stored')
    raises(MissingHeader, headers.connect, mine(h, bytes(32), 5_000_000, MID),
           what='connecting to the header not stored')


def look(headers, tree, op, deep=False):
    if op in ('grow', 'setone'):
        eq(len(headers), tree.cp.height + len(tree.nodes), 'number of headers')
        eq(sorted(c.tip.hash for c in headers.chains()), sorted(n.hash for n in tree.leaves()),
           'tips')
        drop_cache(headers)
        for node in tree.nodes[:3] + tree.nodes[-3:]:
            header, chain = headers.lookup(node.hash)
            eq(bytes(headers.raw_header_at_height(chain, node.height)), node.raw, 'header')
    else:
        check_tree(headers, tree, deep=deep)
