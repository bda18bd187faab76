"""A simulated deployment: PDS processes sharing a datastore, memcache and the outside world.

Harness-side code: clients, crash/restart supervision and the recorded history of operations.
"""
import contextlib
import datetime
import re

import flask
import grpc
import requests
from google.api_core import exceptions as gexc

from . import boot, fakes, nodes
from .datastore import Datastore
from .kernel import NS, BASE_WALL

import arroba.datastore_storage as dss
import arroba.firehose as firehose
import arroba.server as aserver
import arroba.storage as astorage
import arroba.util as autil
from arroba.repo import Repo, Write
from arroba.storage import Action

NSID = astorage.SUBSCRIBE_REPOS_NSID
APP = flask.Flask('sim')
HEADERS = {'Authorization': 'Bearer sim-token'}
COLL = 'com.example.foo'

KEYS = {}
ADDRESS = re.compile(r" at 0x[0-9a-f]+|Context\(id='[^']*'")   # differ between processes


def key_for(n):
    k = KEYS.get(n)
    if k is None:
        k = KEYS[n] = autil.new_key(seed=1000 + n)
    return k


for _n in range(6):
    key_for(_n)


def indefinite(exc):
    """True if this error leaves it open whether the operation took effect."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, (gexc.GoogleAPICallError, gexc.RetryError, grpc.RpcError)):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


class Op:
    __slots__ = ('id', 'kind', 'args', 'node', 'task', 'inv', 'ret', 'res', 'exc', 'state',
                 't0', 't1', 'ts0', 'ts1', 'extra')

    def __init__(self, id, kind, args, node):
        self.id, self.kind, self.args, self.node = id, kind, args, node
        self.task = self.inv = self.ret = self.res = self.exc = None
        self.t0 = self.t1 = self.ts0 = self.ts1 = None
        self.state = 'open'      # open | ok | err
        self.extra = {}

    def __repr__(self):
        r = (f'{len(self.res)} bytes' if isinstance(self.res, bytes) else
             ADDRESS.sub('', repr(self.res)) if self.state == 'ok' else
             ADDRESS.sub('', repr(self.exc))[:160] if self.exc else '')
        return f'op{self.id} {self.kind}{self.args} on {self.node} -> {self.state} {r}'[:400]


# -- swarm configuration ---------------------------------------------------------------------

def configure_sched(env, *, preempt=True, stall=True):
    ch, k = env.ch, env.k
    k.switch_node = nodes.switch
    k.sched_mode = ch.pick('cfg.sched', ['uniform', 'sticky', 'pct'])
    k.sticky = ch.pick('cfg.sticky', [0.0, 0.5, 0.9, 0.05])
    k.tick_ns = ch.pick('cfg.tick', [1000, 100, 50_000])
    if preempt:
        k.preempt_mean = ch.pick('cfg.preempt', [0, 0, 30, 200, 1000])
        k.lock_p = ch.pick('cfg.lockp', [0, 0.1, 0.4])
        if stall:
            k.pstall_p = ch.pick('cfg.pstall', [0, 0, 0.03, 0.3])
            k.pstall_ns = ch.pick('cfg.pstall_ns', [NS // 20, NS, 8 * NS])


def swarm_ds(env, *, faults=True, amb=True, hang=True, partial=False):
    """Random datastore behaviour for one run; each feature is off about half the time."""
    ch = env.ch

    def feat(name, vals):
        return ch.pick(f'cfg.ds.{name}', [0] * len(vals) + vals)
    cfg = dict(lat=ch.pick('cfg.ds.lat', [0, 2_000_000, 20_000_000, 100_000_000]),
               batch=feat('batch', [1, 3, 10]), defer=feat('defer', [0.1, 0.5]),
               shuffle=bool(ch.pick('cfg.ds.shuffle', [0, 1])))
    if faults:
        cfg.update(err=feat('err', [0.01, 0.05, 0.15]), abort=feat('abort', [0.05, 0.3]),
                   slow=feat('slow', [0.01, 0.05]), slow_s=ch.pick('cfg.ds.slow_s', [1, 5, 20]))
        cfg.update(outage=feat('outage', [0.005, 0.03]),
                   outage_s=ch.pick('cfg.ds.outage_s', [2, 20]))
        if amb:
            cfg['amb'] = feat('amb', [0.03, 0.15, 0.4])
        if hang:
            cfg['hang'] = feat('hang', [0.01, 0.05])
        if partial:
            cfg['partial'] = feat('partial', [0.05, 0.2])
    return cfg


def swarm_mc(env, *, errors=True, evict=False):
    ch = env.ch
    cfg = dict(lat=ch.pick('cfg.mc.lat', [0, 1_000_000, 10_000_000]))
    if errors:
        cfg.update(err=ch.pick('cfg.mc.err', [0, 0, 0.02, 0.1]),
                   lost=ch.pick('cfg.mc.lost', [0, 0, 0.02, 0.1]),
                   slow=ch.pick('cfg.mc.slow', [0, 0, 0.02]))
    if evict:
        cfg['evict'] = ch.pick('cfg.mc.evict', [0, 0.02, 0.1])
    return cfg


PREEMPT = ('arroba.storage', 'arroba.datastore_storage', 'arroba.firehose', 'arroba.repo')


class World:
    def __init__(self, env, *, ds=None, mc=None, seqs='datastore', preempt=PREEMPT):
        self.env, self.k, self.ch = env, env.k, env.ch
        self.seqs = seqs
        self.ds = Datastore(self.k, ds)
        self.mc = fakes.MemcacheServer(self.k, mc)
        self.nodes = {}
        self.ops = []
        self.up_waiters = {}
        self.boot_fns = {}
        self.on_start = None        # harness callback(node), before the process does anything
        self.restart_delay = {}
        self.crashes = 0
        self.crash_mean = self.ch.pick('cfg.crash_mean', [40, 120])
        self.op_of_task = {}
        self.lost = []           # (ev, node, seq) lost_seq callbacks
        self.on_data = None
        if self.k.preempt_mean and preempt:
            nodes.enable_preemption([m for m in preempt])

    # -- processes ---------------------------------------------------------------------

    def start(self, name, boot_fn=None, restart_s=0.5):
        """Starts a process. boot_fn(node) runs in it as its first task."""
        old = self.nodes.get(name)
        node = nodes.new_node(self.k, name)
        node.incarnation = old.incarnation + 1 if old else 0
        if old:
            node.wall_offset = old.wall_offset
        node.client = boot.make_ndb_client(self.ds)
        node.mc = fakes.MemcacheClient(self.mc)
        if self.seqs == 'memcache':
            sequences = dss.MemcacheSequences(memcache=node.mc, ndb_client=node.client)
        else:
            sequences = dss.DatastoreSequences(ndb_client=node.client)
        node.storage = dss.DatastoreStorage(sequences=sequences, ndb_client=node.client)
        # `server.storage` is the last entry of the node's saved globals
        node.globals[-1] = node.storage
        assert nodes.STATE[-1][1] == 'storage'
        self.nodes[name] = node
        if self.on_start:
            self.on_start(node)
        self.boot_fns[name] = boot_fn
        self.restart_delay[name] = restart_s
        if boot_fn:
            self.k.spawn(lambda: boot_fn(node), f'{name}.boot{node.incarnation}', node)
        ws = self.up_waiters.pop(name, [])
        for w in ws:
            self.k._wake(w, True)
        return node

    def crash(self, name):
        node = self.nodes[name]
        if node.alive:
            self.k.crash(node)

    def arm_crash(self, name, stream='crash'):
        """The process dies at a randomly chosen datastore call, before or after it is applied."""
        node = self.nodes[name]
        n = 1 + self.ch.sub(f'{stream}.at', self.crash_mean)
        node.crash_at_rpc = (node.rpc_count + n, self.ch.pick(f'{stream}.when',
                                                              ['before', 'after']))

    def supervisor(self, name, max_crashes=3, stream='crash'):
        """Task: restarts the process whenever it has died; re-arms crashes."""
        k = self.k
        n = 0
        while True:
            node = self.nodes[name]
            if node.alive:
                k.sleep(NS // 5, 'supervise')
                continue
            self.crashes += 1
            k.sleep(self.ch.sub(f'{stream}.down', int(self.restart_delay[name] * NS)), 'down')
            k.count('node_restart')
            k.ev('RESTART', name)
            self.start(name, self.boot_fns[name], self.restart_delay[name])
            n += 1
            if n < max_crashes and k.faults_on:
                self.arm_crash(name, stream)

    def wait_up(self, name):
        node = self.nodes[name]
        while not node.alive:
            self.k.block(self.up_waiters.setdefault(name, []))
            node = self.nodes[name]
        return node

    # -- operations --------------------------------------------------------------------

    def op(self, name, kind, args, fn, *, timeout=None, ndb=True, flask_ctx=False, wait=True,
           headers=HEADERS):
        """A client sends a request to a process and waits for the answer. Returns the Op.

        fn(node) runs in the process, in its own thread and ndb context.
        """
        k = self.k
        node = self.wait_up(name) if wait else self.nodes[name]
        op = Op(len(self.ops), kind, args, name)
        self.ops.append(op)
        op.ts0, op.t0, op.inv = self.ds.ts, k.now, k.evseq    # in case it is never served

        def serve():
            op.ts0, op.t0 = self.ds.ts, k.now
            op.inv = k.ev('invoke', op.id, kind, args)
            try:
                with contextlib.ExitStack() as stack:
                    if ndb:
                        stack.enter_context(node.client.context())
                    if flask_ctx:
                        stack.enter_context(APP.test_request_context('/', headers=headers))
                    op.res = fn(node)
                op.state = 'ok'
            except Exception as e:
                op.exc = e
                op.state = 'err'
            op.ret = k.ev('return', op.id, op.state, type(op.exc).__name__)
            op.ts1, op.t1 = self.ds.ts, k.now
        t = k.spawn(serve, f'{name}.{kind}{op.id}', node)
        op.task = t.id
        self.op_of_task[t.id] = op
        k.join(t, timeout)
        if t.state != 'done' and op.state == 'open':
            self.env.note(f'{op} (no answer)')
        else:
            self.env.note(repr(op))
        return op

    def xrpc(self, name, nsid, input=None, *, headers=HEADERS, **params):
        def fn(node):
            return aserver.server.call(nsid, input, **params)
        shown = {**(input if isinstance(input, dict) else {}), **params}
        return self.op(name, nsid.split('.')[-1], shown, fn, flask_ctx=True, headers=headers)

    def callback(self, node, hub=None):
        """The callback applications register: wakes the local firehose, reports lost numbers."""
        def cb(data=None, lost_seq=None):
            if data is not None:
                if self.on_data:
                    self.on_data(node, data)
                firehose.send_events()
            elif lost_seq is not None:
                self.lost.append((self.k.ev('lost_seq', lost_seq), node.name, lost_seq))
                firehose.mark_seq_lost(lost_seq)
        return cb

    def create_repo(self, name, n, did=None, handle=None, callback=True):
        """Repo number n; its key is key_for(n)."""
        did = did or f'did:plc:repo{n}'

        def fn(node):
            Repo.create(node.storage, did, signing_key=key_for(n), rotation_key=key_for(n),
                        handle=handle or f'h{n}.test',
                        callback=self.callback(node) if callback else None)
        op = self.op(name, 'create_repo', (did,), fn)
        return op

    def commit(self, name, did, writes, handle=None, callback=True):
        """One commit through the Python API. writes: [(action, coll, rkey, record or None)]."""
        def fn(node):
            repo = handle if handle is not None else node.storage.load_repo(did)
            if callback:
                repo.callback = self.callback(node)
            data = node.storage.commit(repo, [
                Write(getattr(Action, a.upper()), c, r, rec) for a, c, r, rec in writes])
            return data.commit.cid.encode('base32')
        return self.op(name, 'commit', (did, writes), fn)

    def ds_last_seq(self):
        """Highest sequence number stored."""
        return max((e.properties['seq'].integer_value for _, e in self.ds.all('AtpBlock')),
                   default=0)

    def all_ok(self, tasks):
        for t in tasks:
            self.k.join(t)
        for t in tasks:
            if t.exc is not None:
                raise t.exc

    def quiesce(self):
        """Faults stop; armed crashes are disarmed."""
        self.k.faults_on = False
        for n in self.nodes.values():
            n.crash_at_rpc = None
        self.k.ev('faults off')


def record(n, **kw):
    return {'$type': COLL, 'n': n, **kw}
