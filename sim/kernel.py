"""The deterministic simulation kernel.

Simulated tasks are real threads, parked on private locks; exactly one runs at a time, and
which one is decided by recorded draws from named pseudo-random streams.  Time is virtual.

Nothing in here imports arroba, ndb or anything else that binds clocks or locks at import.
"""
import _thread
import hashlib
import heapq
import random
import sys
import traceback

NS = 1_000_000_000
BASE_WALL = 1_767_225_600 * NS  # 2026-01-01T00:00:00Z

_get_ident = _thread.get_ident
_raw_lock = _thread.allocate_lock

K = None  # the active kernel in this process, if any


class Inconclusive(Exception):
    """The run could not be judged (budget exhausted, harness limitation)."""


class Choices:
    """Named streams of recorded small-integer decisions.

    Value 0 always means the plainest behaviour (keep running the current task, no fault, no
    delay, no more preemption), so minimisation consists of zeroing and truncating streams.
    """

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.rngs = {}
        self.rec = {}

    def rng(self, stream):
        r = self.rngs.get(stream)
        if r is None:
            r = self.rngs[stream] = random.Random(f'{self.seed}/{stream}')
            self.rec[stream] = []
        return r

    def draw(self, stream, n, gen=None):
        """Returns an int in [0, n). gen(rng) may bias it."""
        if n <= 1:
            return 0
        r = self.rng(stream)
        rec = self.rec[stream]
        if self.replay is not None:
            lst = self.replay.get(stream)
            i = len(rec)
            v = lst[i] % n if lst is not None and i < len(lst) else 0
        else:
            v = gen(r) if gen else int(r.random() * n)
        rec.append(v)
        return v

    def chance(self, stream, p):
        """True with probability p (recorded as 0/1)."""
        if p <= 0:
            return False
        return self.draw(stream, 2, lambda r: 1 if r.random() < p else 0) == 1

    def pick(self, stream, seq):
        """Uniform choice from seq; index 0 is the plain one."""
        return seq[self.draw(stream, len(seq))]

    def wpick(self, stream, pairs):
        """Weighted choice from [(weight, value)...]; index 0 is the plain one."""
        tot = sum(w for w, _ in pairs)

        def gen(r):
            x = r.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.draw(stream, len(pairs), gen)][1]

    def sub(self, stream, base):
        """Integer >= 0 with exponential-ish distribution around base (0 only if base is 0)."""
        if base <= 0:
            return 0
        return self.draw(stream, 1 << 62, lambda r: 1 + int(r.expovariate(1.0 / base)))


class Task:
    __slots__ = ('id', 'name', 'node', 'fn', 'state', 'baton', 'exc', 'result', 'waitlist',
                 'timer_token', 'signaled', 'thread', 'done_waiters', 'ident', 'daemon',
                 'killed', 'nopreempt', 'prio', 'stalled_until')

    def __init__(self, id, name, node, fn, daemon):
        self.id = id
        self.name = name
        self.node = node
        self.fn = fn
        self.state = 'ready'
        self.baton = _raw_lock()
        self.baton.acquire()
        self.exc = None
        self.result = None
        self.waitlist = None
        self.timer_token = 0
        self.signaled = False
        self.thread = None
        self.done_waiters = []
        self.ident = None
        self.daemon = daemon
        self.killed = False
        self.nopreempt = 0
        self.prio = 0
        self.stalled_until = 0

    def __repr__(self):
        return f'<{self.name}@{self.node.name if self.node else "-"} {self.state}>'


class Node:
    """A simulated process: a set of tasks plus a private copy of arroba's mutable globals."""

    def __init__(self, name):
        self.name = name
        self.alive = True
        self.wall_offset = 0  # ns
        self.globals = None   # captured module state; see sim.nodes
        self.incarnation = 0
        self.rpc_count = 0
        self.crash_at_rpc = None


class Kernel:
    def __init__(self, choices, *, step_limit=400_000, time_limit=NS * 86400 * 30):
        self.ch = choices
        self.now = 0
        self.tasks = []
        self.ready = []
        self.timers = []
        self.tseq = 0
        self.current = None
        self.by_ident = {}
        self.steps = 0
        self.step_limit = step_limit
        self.time_limit = time_limit
        self.main_lock = _raw_lock()
        self.main_lock.acquire()
        self.stop_reason = None
        self.running = False
        self.cur_node = None
        self.switch_node = None     # callback(old_node, new_node)
        self.countdown = 0          # preemption
        self.preempt_mean = 0
        self.preempts = 0
        self.lock_p = 0             # chance to be preempted around arroba's own locks
        self.pstall_p = 0           # chance that a preempted task stays off the processor...
        self.pstall_ns = 0          # ...for about this long
        self.pstall_who = None      # predicate: only these tasks
        self.switches = 0
        self.sched_mode = 'uniform'
        self.sticky = 0.0
        self.tick_ns = 1000
        self.evseq = 0
        self.trace = []
        self.trace_hash = hashlib.blake2b(digest_size=12)
        self.keep_trace = False
        self.stats = {}
        self.root = None
        self.faults_on = True
        self.max_time = None
        self.on_put = self.on_get = None    # harness callbacks, SimSimpleQueue only

    # -- bookkeeping ------------------------------------------------------------------

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def ev(self, label, *args):
        """Appends to the event log. Never draws and never reads a real clock."""
        self.evseq += 1
        t = self.current
        self.trace_hash.update(f'{t.name if t else "-"}|{label}|{args}\n'.encode())
        if self.keep_trace:
            self.trace.append(f'{self.evseq} t={self.now / 1e9:.6f} '
                              f'{t.node.name if t and t.node else "-"}/{t.name if t else "-"} '
                              f'{label} {" ".join(map(str, args))}')
        return self.evseq

    # -- tasks ------------------------------------------------------------------------

    def spawn(self, fn, name, node=None, daemon=False, thread=None, start_fn=None):
        t = Task(len(self.tasks), name, node, fn, daemon)
        t.thread = thread
        t.prio = self.ch.draw('prio', 1000) if self.sched_mode == 'pct' else 0
        self.tasks.append(t)
        self.ready.append(t)

        def boot():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            t.baton.acquire()
            try:
                if thread is not None:
                    thread._bootstrap()
                    t.result = None
                else:
                    t.result = fn()
            except BaseException as e:
                t.exc = e
            self._finish(t)

        _thread.start_new_thread(boot, ())
        return t

    def _finish(self, t):
        t.state = 'done'
        for w in t.done_waiters:
            self._wake(w, True)
        t.done_waiters = []
        if t is self.root:
            self._stop('root done')
            return
        self._dispatch(None)

    def me(self):
        return self.by_ident.get(_get_ident())

    def active(self):
        return self.running and _get_ident() in self.by_ident

    # -- running ----------------------------------------------------------------------

    def run(self, fn, name='main', node=None):
        """Runs fn as the root task until it returns. Called on the process's main thread."""
        global K
        K = self
        self.root = self.spawn(fn, name, node)
        self.running = True
        if self.preempt_mean:
            self.countdown = self.ch.sub('preempt', self.preempt_mean) or (1 << 60)
        else:
            self.countdown = 1 << 60
        self._dispatch(None, from_main=True)
        self.main_lock.acquire()
        self.running = False
        if self.root.exc is not None:
            raise self.root.exc
        if self.stop_reason != 'root done':
            raise Inconclusive(self.stop_reason)
        return self.root.result

    def _stop(self, reason):
        self.stop_reason = reason
        self.main_lock.release()

    def _pick_next(self):
        """Chooses the next task to run; advances time if nobody is ready."""
        while True:
            if self.steps > self.step_limit:
                return None, 'step limit'
            if self.ready:
                break
            if not self.timers:
                return None, 'deadlock'
            self._fire_next()
            if self.now > self.time_limit:
                return None, 'time limit'
        # timers that are already due fire too
        while self.timers and self.timers[0][0] <= self.now:
            self._fire_next()
        ready = self.ready
        n = len(ready)
        if n == 1:
            return ready.pop(), None
        cur = self.current
        if cur is not None and cur.state == 'ready' and cur in ready:
            i = ready.index(cur)
            if i:
                ready.pop(i)
                ready.insert(0, cur)
        mode = self.sched_mode
        if mode == 'uniform':
            i = self.ch.draw('sched', n)
        elif mode == 'sticky':
            s = self.sticky
            i = self.ch.draw('sched', n, lambda r: 0 if r.random() < s else int(r.random() * n))
        else:  # pct: highest priority first, occasionally demote
            def gen(r):
                if r.random() < self.sticky:
                    b = max(range(n), key=lambda j: ready[j].prio)
                    ready[b].prio = -self.steps
                return max(range(n), key=lambda j: ready[j].prio)
            i = self.ch.draw('sched', n, gen)
        return ready.pop(i), None

    def _fire_next(self):
        t, _, cb = heapq.heappop(self.timers)
        if t > self.now:
            self.now = t
        cb()

    def _dispatch(self, me, from_main=False):
        """Gives the processor to the next task. me: calling task if it stays alive, or None."""
        self.steps += 1
        self.now += self.tick_ns
        nxt, why = self._pick_next()
        if nxt is None:
            self._stop(why)
            if me is not None:
                me.baton.acquire()  # parked forever
            elif not from_main:
                pass
            return
        nxt.state = 'running'
        if nxt is me:
            return
        self.switches += 1
        self.current = nxt
        if nxt.node is not self.cur_node and nxt.node is not None:
            if self.switch_node:
                self.switch_node(self.cur_node, nxt.node)
            self.cur_node = nxt.node
        nxt.baton.release()
        if me is not None:
            me.baton.acquire()

    def yield_(self, label=None):
        """A scheduling point: another ready task may run now."""
        t = self.me()
        if t is None or not self.running:
            return
        if t.nopreempt:
            return
        if not self.ready and not (self.timers and self.timers[0][0] <= self.now):
            self.steps += 1
            self.now += self.tick_ns
            if self.steps > self.step_limit:
                self._stop('step limit')
                t.baton.acquire()
            return
        t.state = 'ready'
        self.ready.append(t)
        self._dispatch(t)

    def preempt(self):
        """Called from a source-level hook inside arroba code."""
        t = self.me()
        if t is None or not self.running or t is not self.current or t.nopreempt:
            self.countdown = 1
            return
        self.countdown = self.ch.sub('preempt', self.preempt_mean) or (1 << 60)
        self.preempts += 1
        self._preempted()

    def lock_point(self):
        """Called before and after arroba takes or frees one of its own locks."""
        t = self.me()
        if t is None or not self.running or t is not self.current or t.nopreempt or \
                not self.ch.chance('lockp', self.lock_p):
            return
        self.preempts += 1
        self._preempted()

    def stall_bound(self):
        """How long a stall that is under way may still last."""
        return self.pstall_ns if self.pstall_p else 0

    def _preempted(self):
        if self.pstall_p and self.faults_on and self.current is not self.root and \
                (self.pstall_who is None or self.pstall_who(self.current)) and \
                self.ch.chance('pstall', self.pstall_p):
            # a thread that loses the processor (or its machine) for a while
            self.count('fault.stall_mid_code')
            self.sleep(1 + self.ch.sub('pstall.ns', self.pstall_ns), 'pstall')
        else:
            self.yield_('preempt')

    def after(self, ns, cb):
        self.tseq += 1
        heapq.heappush(self.timers, (self.now + max(int(ns), 0), self.tseq, cb))

    def sleep(self, ns, label='sleep'):
        t = self.me()
        if ns <= 0:
            return self.yield_(label)
        t.timer_token += 1
        tok = t.timer_token

        def wake():
            if t.state == 'blocked' and t.timer_token == tok:
                self._wake(t, False)
        self.after(ns, wake)
        t.state = 'blocked'
        self._dispatch(t)

    def block(self, waitlist, timeout_ns=None):
        """Parks the current task on waitlist. Returns True if woken, False on timeout."""
        t = self.me()
        t.signaled = False
        t.waitlist = waitlist
        waitlist.append(t)
        t.timer_token += 1
        if timeout_ns is not None:
            tok = t.timer_token

            def wake():
                if t.state == 'blocked' and t.timer_token == tok:
                    try:
                        waitlist.remove(t)
                    except ValueError:
                        pass
                    self._wake(t, False)
            self.after(timeout_ns, wake)
        t.state = 'blocked'
        self._dispatch(t)
        t.waitlist = None
        return t.signaled

    def _wake(self, t, signaled):
        if t.state == 'blocked' and not t.killed:
            t.signaled = signaled
            t.timer_token += 1
            t.state = 'ready'
            self.ready.append(t)

    def wake_all(self, waitlist):
        ws = list(waitlist)
        del waitlist[:]
        for w in ws:
            self._wake(w, True)

    def wake_one(self, waitlist):
        while waitlist:
            w = waitlist.pop(0)
            if w.state == 'blocked' and not w.killed:
                self._wake(w, True)
                return

    def join(self, t, timeout_ns=None):
        if t.state == 'done' or t.killed:
            return True
        return self.block(t.done_waiters, timeout_ns)

    def stall(self, t, ns):
        """Takes a ready task off the processor for a while (a stalled thread)."""
        if t.state == 'ready' and t in self.ready:
            self.ready.remove(t)
            t.state = 'stalled'

            def back():
                if t.state == 'stalled' and not t.killed:
                    t.state = 'ready'
                    self.ready.append(t)
            self.after(ns, back)
            return True
        return False

    # -- crashes ----------------------------------------------------------------------

    def crash(self, node):
        """Kills every task of a node where it stands; nothing of them runs ever again."""
        node.alive = False
        mine = self.me()
        self.count('fault.crash')
        self.ev('CRASH', node.name)
        for t in self.tasks:
            if t.node is node and t.state != 'done' and not t.killed:
                t.killed = True
                if t.state == 'ready':
                    self.ready.remove(t)
                if t is not mine:
                    t.state = 'dead'
                for w in t.done_waiters:
                    self._wake(w, True)
                t.done_waiters = []
        if mine is not None and mine.killed:
            mine.state = 'dead'
            self._dispatch(mine)   # never returns: nobody releases a dead task's baton


# -- replacements for the threading primitives ----------------------------------------------

def _of_app():
    """Is arroba's code creating this lock, directly or inside a Condition or the like?"""
    f = sys._getframe(2)
    for _ in range(2):
        if f is None:
            return False
        if f.f_globals.get('__name__', '').startswith('arroba'):
            return True
        f = f.f_back
    return False


class SimLock:
    """Drop-in for threading.Lock; cooperative inside a simulation, trivial outside."""

    def __init__(self):
        self._app = _of_app()
        self._locked = False
        self._waiters = []
        self._holder = None

    def acquire(self, blocking=True, timeout=-1):
        k = K
        if k is None or not k.active():
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError('sim lock contended outside of the simulation')
            self._locked = True
            return True
        if self._app and k.lock_p:
            k.lock_point()
        if self._locked:
            if not blocking:
                return False
            deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * NS)
            while self._locked:
                rem = None if deadline is None else deadline - k.now
                if rem is not None and rem <= 0:
                    return False
                k.block(self._waiters, rem)
        self._locked = True
        self._holder = k.current
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        self._holder = None
        if self._waiters and K is not None:
            K.wake_all(self._waiters)
        if self._app and K is not None and K.lock_p:
            K.lock_point()

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __deepcopy__(self, memo):
        return SimLock()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock:
    def __init__(self):
        self._app = _of_app()
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        k = K
        if self._app and k is not None and k.lock_p:
            k.lock_point()
        if k is None or not k.active():
            if self._owner is not None:
                if not blocking:
                    return False
                raise RuntimeError('sim rlock contended outside of the simulation')
        elif self._owner is not None:
            if not blocking:
                return False
            deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * NS)
            while self._owner is not None:
                rem = None if deadline is None else deadline - k.now
                if rem is not None and rem <= 0:
                    return False
                k.block(self._waiters, rem)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if self._waiters and K is not None:
                K.wake_all(self._waiters)
            if self._app and K is not None and K.lock_p:
                K.lock_point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        if self._waiters and K is not None:
            K.wake_all(self._waiters)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def __deepcopy__(self, memo):
        return SimRLock()


class SimSimpleQueue:
    def __init__(self):
        self._items = []
        self._waiters = []

    def put(self, item, block=True, timeout=None):
        self._items.append(item)
        if K is not None and K.on_put is not None and K.active():
            K.on_put(self, item)
        if self._waiters and K is not None:
            K.wake_one(self._waiters)

    put_nowait = put

    def get(self, block=True, timeout=None):
        import queue
        k = K
        if k is not None and k.on_get is not None and k.active():
            k.on_get(self)
        deadline = None
        if k is not None and timeout is not None:
            deadline = k.now + int(timeout * NS)
        while not self._items:
            if not block or k is None or not k.active():
                raise queue.Empty
            rem = None if deadline is None else deadline - k.now
            if rem is not None and rem <= 0:
                raise queue.Empty
            k.block(self._waiters, rem)
        return self._items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def qsize(self):
        return len(self._items)

    def empty(self):
        return not self._items

    @classmethod
    def __class_getitem__(cls, item):
        return cls


def format_exc(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))
