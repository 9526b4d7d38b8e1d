"""Faults at exact points of the real code: an interruption before a line of
the package, a file operation that fails, a write that stops."""
import contextlib
import errno
import locale
import logging
import os
import resource
import signal
import sys
import warnings

import matplotlib
import numpy as np

from . import env, threads

_STATE = {'on': None}
EVENTS = ('open', 'os.mkdir', 'os.rename')


class Interrupted(KeyboardInterrupt):
    pass


def answer(fn):
    """-> (how, value): 'ok', 'error' or 'interrupted'"""
    try:
        return 'ok', fn()
    except Interrupted:
        return 'interrupted', None
    except Exception as e:
        return 'error', '%s: %s' % (type(e).__name__, e)


def interrupted(fn, stop, only=None):
    """fn with an interruption (the user's Ctrl-C) at the point"""
    place, visit = stop
    count = [0]

    def hit(p):
        if p == place:
            count[0] += 1
            if count[0] == visit:
                raise Interrupted()

    def body():
        sys.settrace(threads._tracer(hit, only))
        try:
            return fn()
        finally:
            sys.settrace(None)
    return answer(body)


def _hook(event, args):
    s = _STATE['on']
    if s is not None and event in EVENTS:
        s(event, args)


_INSTALLED = []


@contextlib.contextmanager
def _watch(fn):
    if not _INSTALLED:
        sys.addaudithook(_hook)
        _INSTALLED.append(1)
    _STATE['on'] = fn
    try:
        yield
    finally:
        _STATE['on'] = None


def _wanted(args, roots):
    p = args[0]
    if isinstance(p, int) or p is None:
        return None
    p = os.path.abspath(os.fsdecode(p))
    if p.endswith(('.py', '.pyc')) or '__pycache__' in p:
        return None
    return p if p.startswith(tuple(r + os.sep for r in roots)) else None


def file_operations(fn, roots):
    """the number of file operations below the roots that fn performs"""
    n = [0]

    def see(event, args):
        if _wanted(args, roots):
            n[0] += 1
    with _watch(see):
        fn()
    return n[0]


def failing(fn, roots, k, code):
    """fn whose k-th file operation fails -> (happened, answer)"""
    n = [0]

    def see(event, args):
        p = _wanted(args, roots)
        if p:
            n[0] += 1
            if n[0] == k + 1:
                _STATE['on'] = None
                raise OSError(code, os.strerror(code), p)
    with _watch(see):
        r = answer(fn)
    return n[0] > k, r


def limited(fn, size):
    """fn with writes that stop at this size of a file (a full disk)"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    keep = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        return answer(fn)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, keep)


def process_state():
    """what a fault may not leave changed for the rest of the process"""
    mask = os.umask(0)
    os.umask(mask)
    return [os.getcwd(), mask, sorted(np.geterr().items()),
            sorted((k, str(v)) for k, v in np.get_printoptions().items()),
            [str(f) for f in warnings.filters],
            str(signal.getsignal(signal.SIGINT)), locale.setlocale(
                locale.LC_ALL), logging.root.manager.disable,
            sorted((k, str(v)) for k, v in matplotlib.rcParams.items()
                   if k not in ('backend', 'backend_fallback'))]


PACKAGE = os.path.join(env.SRC, 'emva1288')
CODES = {'full': errno.ENOSPC, 'denied': errno.EACCES, 'io': errno.EIO}
