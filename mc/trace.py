'''Running a call one Python instruction at a time.'''

import os
import sys

from .common import REPO

PREFIX = os.path.realpath(REPO) + os.sep


def step_through(fn, observe):
    '''Call fn(), calling observe() before every Python instruction executed in the code under
    test and once at the end.  Returns (result, exception, number of instructions).'''
    count = 0
    files = {}

    def local(frame, event, _arg):
        nonlocal count
        if event == 'opcode':
            count += 1
            observe()
        return local

    def tracer(frame, event, _arg):
        name = frame.f_code.co_filename
        ours = files.get(name)
        if ours is None:
            ours = files[name] = os.path.realpath(name).startswith(PREFIX)
        if not ours:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local

    result = exc = None
    observe()
    # CPython 3.12 only delivers instruction events if some frame asked for them before settrace
    sys._getframe().f_trace_opcodes = True
    sys.settrace(tracer)
    try:
        result = fn()
    except Exception as e:      # pylint: disable=W0718
        exc = e
    finally:
        sys.settrace(None)
    observe()
    if not count:
        raise RuntimeError('no instruction of the code under test was observed')
    return result, exc, count
