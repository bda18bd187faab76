"""Simulated processes: each node has its own copy of arroba's mutable module and class state.

Which names are state is found from the code, not listed: names any function stores with
`global`, module and class attributes that are mutable containers or synchronisation objects, and
`server.storage`.  When the scheduler moves from one node to another, the values are swapped.
"""
import collections
import copy
import dis
import inspect
import sys
import threading
import types

import cachetools

from . import boot, kernel
from .kernel import SimLock, SimRLock

_SYNC = (SimLock, SimRLock, threading.Condition, threading.Event, threading.local,
         threading.Semaphore)
_CONT = (dict, list, set, collections.deque, bytearray)


def _codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _codes(c)


def _all_codes():
    """Code objects of every function that exists in an arroba module, nested ones included."""
    import gc
    by_file = {m.__file__: m.__name__ for m in boot.ARROBA.values()}
    out = {m.__name__: {} for m in boot.ARROBA.values()}
    gc.unfreeze()
    for o in gc.get_objects():
        if type(o) is types.FunctionType and o.__code__.co_filename in by_file:
            for c in _codes(o.__code__):
                out[by_file[c.co_filename]].setdefault(c)
    gc.freeze()
    key = lambda c: (c.co_firstlineno, c.co_qualname)
    return {n: sorted(cs, key=key) for n, cs in out.items()}


def _state_names():
    names = []   # (holder, name)
    for mod in boot.ARROBA.values():
        stored = set()
        for code in CODES[mod.__name__]:
            for ins in dis.get_instructions(code):
                if ins.opname == 'STORE_GLOBAL':
                    stored.add(ins.argval)
        for name, val in sorted(vars(mod).items()):
            if name.startswith('__'):
                continue
            if (name in stored or isinstance(val, _SYNC)
                    or (isinstance(val, _CONT) and type(val) in _CONT)):
                names.append((mod, name))
            elif isinstance(val, type) and val.__module__ == mod.__name__:
                for an, av in sorted(vars(val).items()):
                    if not an.startswith('_') and (isinstance(av, _SYNC) or type(av) in _CONT):
                        names.append((val, an))
            elif isinstance(inspect.getattr_static(val, 'cache', None), cachetools.Cache):
                names += [(val, n) for n in ('cache', 'cache_lock') if getattr(val, n, None) is not None]
    names.append((boot.arroba.server, 'storage'))
    return names


def _clone(val):
    if isinstance(val, (SimLock, SimRLock)):
        new = type(val)()
        new._app = val._app
        return new
    if isinstance(val, threading.Condition):
        return threading.Condition(_clone(val._lock))
    if isinstance(val, threading.Event):
        new = threading.Event()
        new._cond._lock._app = val._cond._lock._app
        return new
    if isinstance(val, threading.Semaphore):
        return threading.Semaphore(val._value)
    if isinstance(val, threading.local):
        return val
    if type(val) in _CONT or isinstance(val, cachetools.Cache):
        return copy.deepcopy(val)
    return val


CODES = _all_codes()
STATE = None
PRISTINE = None


def init():
    global STATE, PRISTINE
    STATE = _state_names()
    seen = set()
    uniq = []
    for h, n in STATE:
        if (id(h), n) not in seen:
            seen.add((id(h), n))
            uniq.append((h, n))
    STATE = uniq
    PRISTINE = [_clone(getattr(h, n)) for h, n in STATE]


def new_node(k, name):
    """A fresh process: module state as after import."""
    node = kernel.Node(name)
    node.globals = [_clone(v) for v in PRISTINE]
    return node


def switch(old, new):
    if old is not None:
        old.globals = [getattr(h, n) for h, n in STATE]
    for (h, n), v in zip(STATE, new.globals):
        setattr(h, n, v)


class as_node:
    """Temporarily looks at a node's globals from the harness (no scheduling inside!)."""
    def __init__(self, k, node):
        self.k = k
        self.node = node

    def __enter__(self):
        self.prev = self.k.cur_node
        if self.prev is not self.node:
            switch(self.prev, self.node)
            self.k.cur_node = self.node

    def __exit__(self, *a):
        if self.prev is not self.node and self.prev is not None:
            switch(self.node, self.prev)
            self.k.cur_node = self.prev


# -- preemption at source level --------------------------------------------------------------

_mon = sys.monitoring
_TOOL = 4
_E = _mon.events


def _tick(*args):
    k = kernel.K
    if k is None:
        return
    k.countdown -= 1
    if k.countdown <= 0:
        k.preempt()


def enable_preemption(modules, calls=True):
    """Lines (and returns from builtins) of the given arroba modules become preemption points."""
    _mon.use_tool_id(_TOOL, 'sim')
    _mon.register_callback(_TOOL, _E.LINE, _tick)
    ev = _E.LINE
    if calls:
        _mon.register_callback(_TOOL, _E.CALL, lambda *a: None)
        _mon.register_callback(_TOOL, _E.C_RETURN, _tick)
        ev |= _E.CALL
    for m in modules:
        for c in CODES[m] if isinstance(m, str) else codes_in(m):
            _mon.set_local_events(_TOOL, c, ev)


def codes_in(mod):
    """Code objects of a library module's own functions and methods."""
    out = {}
    for o in [mod] + [v for _, v in sorted(vars(mod).items()) if isinstance(v, type)]:
        for _, f in sorted(vars(o).items()):
            if isinstance(f, types.FunctionType) and f.__code__.co_filename == mod.__file__:
                for c in _codes(f.__code__):
                    out.setdefault(c)
    return list(out)


init()
