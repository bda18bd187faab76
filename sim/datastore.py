"""A simulated Google Cloud Datastore (Firestore in Datastore mode), at the gRPC stub.

Real ndb talks to it.  Multi-version store, serialisable optimistic transactions, strongly
consistent queries that come back in batches, deferred lookups, and the errors, delays, hangs and
ambiguous commits that the real service produces.
"""
import json
import struct

import grpc
from google.api_core import exceptions as gexc
from google.cloud.datastore_v1.types import datastore as dst, entity as ent, query as qt

from . import kernel
from .kernel import NS

_KeyPB = ent.Key.pb()
_EntityPB = ent.Entity.pb()

GRPC = {
    'ABORTED': (grpc.StatusCode.ABORTED, gexc.Aborted),
    'UNAVAILABLE': (grpc.StatusCode.UNAVAILABLE, gexc.ServiceUnavailable),
    'INTERNAL': (grpc.StatusCode.INTERNAL, gexc.InternalServerError),
    'UNKNOWN': (grpc.StatusCode.UNKNOWN, gexc.Unknown),
    'DEADLINE_EXCEEDED': (grpc.StatusCode.DEADLINE_EXCEEDED, gexc.DeadlineExceeded),
    'INVALID_ARGUMENT': (grpc.StatusCode.INVALID_ARGUMENT, gexc.InvalidArgument),
    'RESOURCE_EXHAUSTED': (grpc.StatusCode.RESOURCE_EXHAUSTED, gexc.ResourceExhausted),
}


class SimRpcError(grpc.RpcError, grpc.Call):
    def __init__(self, code, msg):
        super().__init__(msg)
        self._code, self._msg = code, msg

    def code(self):
        return self._code

    def details(self):
        return self._msg

    def initial_metadata(self):
        return ()

    def trailing_metadata(self):
        return ()

    def add_callback(self, cb):
        return False

    def cancel(self):
        return False

    def is_active(self):
        return False

    def time_remaining(self):
        return None


class DoneFuture:
    def __init__(self, result=None, error=None):
        self._r, self._e = result, error

    def result(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._r

    def exception(self, timeout=None):
        return self._e

    def add_done_callback(self, cb):
        cb(self)

    def cancel(self):
        return False

    def cancelled(self):
        return False

    def done(self):
        return True


class _Fail(Exception):
    def __init__(self, code, msg=''):
        self.code, self.msg = code, msg


def path_of(key):
    return tuple((e.kind, e.name if e.WhichOneof('id_type') == 'name' else e.id)
                 for e in key.path)


def _sortable(path):
    return tuple((kind, 0 if isinstance(i, int) else 1, i) for kind, i in path)


def pyval(v):
    w = v.WhichOneof('value_type')
    if w is None or w == 'null_value':
        return (0, None)
    x = getattr(v, w)
    if w == 'key_value':
        return (9, _sortable(path_of(x)))
    if w == 'timestamp_value':
        return (3, x.seconds * NS + x.nanos)
    if w == 'integer_value':
        return (2, x)
    if w == 'boolean_value':
        return (1, x)
    if w == 'double_value':
        return (2, x)
    if w == 'string_value':
        return (5, x.encode())
    if w == 'blob_value':
        return (6, bytes(x))
    if w == 'entity_value':
        return (10, x.SerializeToString(deterministic=True))
    raise NotImplementedError(w)


def indexed(entity, name):
    """Indexed values of a property, [] if it is missing or unindexed."""
    if name not in entity.properties:
        return []
    v = entity.properties[name]
    if v.exclude_from_indexes:
        return []
    if v.WhichOneof('value_type') == 'array_value':
        return [pyval(x) for x in v.array_value.values if not x.exclude_from_indexes]
    return [pyval(v)]


class _Tx:
    def __init__(self, snap, now):
        self.snap = snap
        self.reads = {}
        self.queries = []
        self.last = now
        self.begun = now


class Datastore:
    RPCS = ('lookup', 'run_query', 'begin_transaction', 'commit', 'rollback', 'allocate_ids')

    def __init__(self, k, cfg=None):
        self.k = k
        self.cfg = dict(lat=0, err=0.0, amb=0.0, hang=0.0, defer=0.0, abort=0.0, batch=0,
                        slow=0.0, slow_s=5.0, partial=0.0, outage=0.0, outage_s=5.0, shuffle=False, kinds=None)
        self.cfg.update(cfg or {})
        self.rows = {}      # path -> [(ts, entity or None)] ascending
        self.by_kind = {}   # kind -> set of paths
        self.ts = 0
        self.txs = {}
        self.ntx = 0
        self.nid = 0
        self.log = []       # (ts, sim time, task name, task id, [paths], tx id)
        self.queries = []   # (ts the query saw, task id, sim time, lowest seq or None)
        self.rpcs = 0
        self.on_commit = None   # harness callback(ts, paths), runs at the instant of application
        self.outage_until = 0
        self.outage_kind = None
        self.ambiguous = {}     # task id -> commits applied although the caller saw an error
        for name in self.RPCS:
            setattr(self, name, _Method(self, name))

    # -- faults ------------------------------------------------------------------------

    def _call(self, name, request, timeout):
        k, cfg, ch = self.k, self.cfg, self.k.ch
        if not k.active():
            return self._handle(name, request)
        t = k.me()
        node = t.node
        self.rpcs += 1
        k.count(f'rpc.{name}')
        if node is not None:
            node.rpc_count += 1
            if node.crash_at_rpc is not None and node.rpc_count >= node.crash_at_rpc[0]:
                when = node.crash_at_rpc[1]
                node.crash_at_rpc = None
                if when == 'before':
                    k.crash(node)
                try:
                    self._handle(name, request)
                except _Fail:
                    pass
                k.count('fault.crash_after_apply')
                k.crash(node)
        self._latency()
        faulty = k.faults_on and (cfg['kinds'] is None or name in cfg['kinds'])
        if faulty:
            if cfg['outage'] and k.now >= self.outage_until and \
                    ch.chance('ds.outage', cfg['outage']):
                self.outage_until = k.now + ch.sub('ds.outage_ns', int(cfg['outage_s'] * NS))
                self.outage_kind = ch.pick('ds.outage_kind', ['commit', None])
                k.ev('outage', self.outage_kind, self.outage_until)
            if k.now < self.outage_until and self.outage_kind in (None, name):
                k.count('fault.ds_outage')
                if name == 'commit':
                    self.txs.pop(bytes(request.transaction), None)
                raise _Fail('UNAVAILABLE', 'simulated outage')
            if timeout and cfg['hang'] and ch.chance('ds.hang', cfg['hang']):
                k.count('fault.ds_hang')
                applied = name == 'commit' and ch.chance('ds.hang_applied', 0.5)
                if applied:
                    self._try(name, request)
                    self.ambiguous[t.id] = self.ambiguous.get(t.id, 0) + 1
                k.ev('hang', name, applied)
                k.sleep(int(timeout * NS), 'hang')
                raise _Fail('DEADLINE_EXCEEDED', 'simulated hang')
            if cfg['slow'] and ch.chance('ds.slow', cfg['slow']):
                k.count('fault.ds_slow')
                k.sleep(ch.sub('ds.slow_ns', int(cfg['slow_s'] * NS)), 'slow')
            if cfg['err'] and ch.chance('ds.err', cfg['err']):
                code = ch.pick('ds.errcode', ['UNAVAILABLE', 'INTERNAL', 'UNKNOWN', 'ABORTED',
                                              'DEADLINE_EXCEEDED'])
                if code == 'ABORTED' and name != 'commit':
                    code = 'UNAVAILABLE'
                k.count(f'fault.ds_err_{code.lower()}')
                k.ev('err', name, code)
                if name == 'commit':
                    tx = bytes(request.transaction)
                    self.txs.pop(tx, None)
                raise _Fail(code, 'simulated')
            if name == 'commit' and cfg['abort'] and request.transaction and \
                    ch.chance('ds.abort', cfg['abort']):
                k.count('fault.ds_abort')
                k.ev('abort', name)
                self.txs.pop(bytes(request.transaction), None)
                raise _Fail('ABORTED', 'simulated contention')
            if name == 'commit' and cfg['amb'] and ch.chance('ds.amb', cfg['amb']):
                code = ch.pick('ds.ambcode', ['UNAVAILABLE', 'INTERNAL', 'UNKNOWN',
                                              'DEADLINE_EXCEEDED'])
                self._handle(name, request)
                self.ambiguous[t.id] = self.ambiguous.get(t.id, 0) + 1
                k.count('fault.ds_ambiguous_commit')
                k.ev('ambiguous', code)
                self._latency()
                raise _Fail(code, 'simulated loss of response')
        resp = self._handle(name, request)
        self._latency()
        return resp

    def _try(self, name, request):
        try:
            self._handle(name, request)
        except _Fail:
            pass

    def _latency(self):
        k = self.k
        if self.cfg['lat']:
            k.sleep(k.ch.sub('ds.lat', self.cfg['lat']), 'rpc')
        else:
            k.yield_('rpc')

    # -- storage -----------------------------------------------------------------------

    def _at(self, path, ts=None):
        vs = self.rows.get(path)
        if not vs:
            return 0, None
        if ts is None:
            return vs[-1]
        for v in reversed(vs):
            if v[0] <= ts:
                return v
        return 0, None

    def get(self, path):
        return self._at(path)[1]

    def all(self, kind, ts=None):
        """[(path, entity)] currently stored, key order."""
        out = []
        for p in self.by_kind.get(kind, ()):
            e = self._at(p, ts)[1]
            if e is not None:
                out.append((p, e))
        out.sort(key=lambda x: _sortable(x[0]))
        return out

    def _write(self, path, entity):
        self.rows.setdefault(path, []).append((self.ts, entity))
        self.by_kind.setdefault(path[-1][0], set()).add(path)

    def _handle(self, name, request):
        return getattr(self, f'_do_{name}')(request)

    def _tx(self, tx):
        tx = bytes(tx)
        t = self.txs.get(tx)
        if t is None:
            raise _Fail('INVALID_ARGUMENT', 'The referenced transaction has expired or is no '
                                            'longer valid.')
        if self.k.now - t.last > 60 * NS or self.k.now - t.begun > 270 * NS:
            del self.txs[tx]
            raise _Fail('INVALID_ARGUMENT', 'The referenced transaction has expired or is no '
                                            'longer valid.')
        t.last = self.k.now
        return t

    def _do_begin_transaction(self, req):
        self.ntx += 1
        tx = b'tx%d' % self.ntx
        self.txs[tx] = _Tx(self.ts, self.k.now)
        resp = dst.BeginTransactionResponse.pb()(transaction=tx)
        return dst.BeginTransactionResponse.wrap(resp)

    def _do_rollback(self, req):
        self.txs.pop(bytes(req.transaction), None)
        return dst.RollbackResponse.wrap(dst.RollbackResponse.pb()())

    def _do_allocate_ids(self, req):
        resp = dst.AllocateIdsResponse.pb()()
        for key in req.keys:
            self.nid += 1
            nk = resp.keys.add()
            nk.CopyFrom(key)
            nk.path[-1].id = 1000 + self.nid
        return dst.AllocateIdsResponse.wrap(resp)

    def _do_lookup(self, req):
        k, ch = self.k, self.k.ch
        tx = None
        if req.read_options.WhichOneof('consistency_type') == 'transaction':
            tx = self._tx(req.read_options.transaction)
        resp = dst.LookupResponse.pb()()
        keys = list(req.keys)
        if len(keys) > 1000:
            raise _Fail('INVALID_ARGUMENT', 'cannot get more than 1000 keys in a single call')
        seen = set()
        found = []
        ndefer = 0
        for key in keys:
            path = path_of(key)
            if path in seen:
                continue
            seen.add(path)
            if (k.running and k.faults_on and self.cfg['defer'] and ndefer < len(keys) - 1
                    and ch.chance('ds.defer', self.cfg['defer'])):
                ndefer += 1
                resp.deferred.add().CopyFrom(key)
                k.count('fault.ds_deferred')
                continue
            ver, e = self._at(path, tx.snap if tx else None)
            if tx:
                tx.reads[path] = ver
            if e is None:
                resp.missing.add().entity.key.CopyFrom(key)
            else:
                found.append((ver, e))
        if self.cfg['shuffle'] and len(found) > 1 and k.running:
            for i in range(len(found) - 1, 0, -1):
                j = i - ch.draw('ds.shuffle', i + 1)
                found[i], found[j] = found[j], found[i]
        for ver, e in found:
            r = resp.found.add()
            r.entity.CopyFrom(e)
            r.version = ver
        return dst.LookupResponse.wrap(resp)

    # -- queries -----------------------------------------------------------------------

    def _filters(self, f):
        w = f.WhichOneof('filter_type')
        if w is None:
            return
        if w == 'composite_filter':
            assert f.composite_filter.op == 1, 'only AND'
            for g in f.composite_filter.filters:
                yield from self._filters(g)
        else:
            p = f.property_filter
            yield p.property.name, int(p.op), p.value

    def _matches(self, path, e, filters):
        for name, op, value in filters:
            if name == '__key__':
                vals = [(9, _sortable(path))]
            else:
                vals = indexed(e, name)
            if op in (6, 13):    # IN, NOT_IN
                want = [pyval(v) for v in value.array_value.values]
                ok = any(v in want for v in vals)
                if op == 13:
                    ok = not ok
            else:
                w = pyval(value)
                if op == 5:
                    ok = any(v == w for v in vals)
                elif op == 1:
                    ok = any(v[0] == w[0] and v < w for v in vals)
                elif op == 2:
                    ok = any(v[0] == w[0] and v <= w for v in vals)
                elif op == 3:
                    ok = any(v[0] == w[0] and v > w for v in vals)
                elif op == 4:
                    ok = any(v[0] == w[0] and v >= w for v in vals)
                elif op == 9:
                    ok = any(v != w for v in vals)
                else:
                    raise NotImplementedError(op)
            if not ok:
                return False
        return True

    def _query(self, q, ts):
        """Full ordered result list: [(sortkey, path, version, entity)]."""
        kind = q.kind[0].name
        filters = list(self._filters(q.filter))
        orders = [(o.property.name, int(o.direction) == 2) for o in q.order]
        if not orders:
            ineq = [n for n, op, _ in filters if op in (1, 2, 3, 4, 9)]
            if ineq and ineq[0] != '__key__':
                orders = [(ineq[0], False)]
        rows = []
        for path in self.by_kind.get(kind, ()):
            ver, e = self._at(path, ts)
            if e is None or not self._matches(path, e, filters):
                continue
            sk = []
            for name, desc in orders:
                if name == '__key__':
                    vals = [(9, _sortable(path))]
                else:
                    vals = indexed(e, name)
                if not vals:
                    break
                sk.append(_Rev(max(vals)) if desc else min(vals))
            else:
                if not any(n == '__key__' for n, _ in orders):
                    sk.append((9, _sortable(path)))
                rows.append((tuple(sk), path, ver, e))
        rows.sort(key=lambda r: r[0])
        return rows

    def _do_run_query(self, req):
        k, ch = self.k, self.k.ch
        q = req.query
        tx = None
        if req.read_options.WhichOneof('consistency_type') == 'transaction':
            tx = self._tx(req.read_options.transaction)
        rows = self._query(q, tx.snap if tx else None)
        if k.active():
            # a continuation sees nothing before its position
            lo = None if q.start_cursor else max(
                (v.integer_value + (op == 3) for n, op, v in self._filters(q.filter)
                 if n == 'seq' and op in (3, 4, 5)), default=None)
            self.queries.append((tx.snap if tx else self.ts, k.me().id, k.now, lo))
        if tx:
            tx.queries.append((q, [(r[1], r[2]) for r in rows]))
        start = bytes(q.start_cursor)
        if start:
            sk = _decode_cursor(start)
            rows = [r for r in rows if _cursor_key(r) > sk]
        end = bytes(q.end_cursor)
        if end:
            sk = _decode_cursor(end)
            rows = [r for r in rows if _cursor_key(r) <= sk]
        skipped = min(q.offset, len(rows))
        rows = rows[skipped:]
        limit = q.limit.value if q.HasField('limit') else None
        n = 300
        if self.cfg['batch'] and k.running and k.faults_on:
            n = 1 + ch.sub('ds.batch', self.cfg['batch'])
        more_after_limit = False
        if limit is not None and limit < len(rows):
            rows = rows[:limit]
            more_after_limit = True
        batch = rows[:n]
        resp = dst.RunQueryResponse.pb()()
        b = resp.batch
        keys_only = [p.property.name for p in q.projection] == ['__key__']
        b.entity_result_type = 3 if keys_only else 1
        b.skipped_results = skipped
        for r in batch:
            er = b.entity_results.add()
            if keys_only:
                er.entity.key.CopyFrom(r[3].key)
            else:
                er.entity.CopyFrom(r[3])
            er.cursor = _encode_cursor(_cursor_key(r))
            er.version = r[2]
        if len(batch) < len(rows):
            b.more_results = 1     # NOT_FINISHED
            k.count('fault.ds_query_split')
        elif more_after_limit:
            b.more_results = 2
        else:
            b.more_results = 3
        b.end_cursor = _encode_cursor(_cursor_key(batch[-1])) if batch else start
        return dst.RunQueryResponse.wrap(resp)

    # -- commit ------------------------------------------------------------------------

    def _do_commit(self, req):
        k = self.k
        tx = None
        if req.WhichOneof('transaction_selector') == 'transaction':
            txid = bytes(req.transaction)
            tx = self._tx(txid)
            del self.txs[txid]
            for path, ver in tx.reads.items():
                if self._at(path)[0] != ver:
                    k.count('ds.conflict')
                    raise _Fail('ABORTED', 'too much contention on these datastore entities')
            for q, was in tx.queries:
                if [(r[1], r[2]) for r in self._query(q, None)] != was:
                    k.count('ds.conflict')
                    raise _Fail('ABORTED', 'too much contention on these datastore entities')
        muts = list(req.mutations)
        if (tx is None and len(muts) > 1 and k.running and k.faults_on and self.cfg['partial']
                and k.ch.chance('ds.partial', self.cfg['partial'])):
            k.count('fault.ds_partial_commit')
            muts = muts[:k.ch.draw('ds.partial_n', len(muts))]
            self._apply(muts, None)
            raise _Fail('UNAVAILABLE', 'partially applied')
        resp = self._apply(muts, bytes(req.transaction) if tx else None)
        return dst.CommitResponse.wrap(resp)

    def _apply(self, muts, txid):
        k = self.k
        self.ts += 1
        resp = dst.CommitResponse.pb()()
        paths = []
        for m in muts:
            op = m.WhichOneof('operation')
            res = resp.mutation_results.add()
            res.version = self.ts
            if op == 'delete':
                path = path_of(m.delete)
                self._write(path, None)
            else:
                src = getattr(m, op)
                e = _EntityPB()
                e.CopyFrom(src)
                if e.key.path[-1].WhichOneof('id_type') is None:
                    self.nid += 1
                    e.key.path[-1].id = 1000 + self.nid
                    res.key.CopyFrom(e.key)
                path = path_of(e.key)
                cur = self._at(path)[1]
                if op == 'insert' and cur is not None:
                    raise _Fail('INVALID_ARGUMENT', 'entity already exists')
                if op == 'update' and cur is None:
                    raise _Fail('INVALID_ARGUMENT', 'no entity to update')
                self._write(path, e)
            paths.append(path)
        resp.index_updates = len(paths)
        t = k.me() if k.running else None
        self.log.append((self.ts, k.now, t.name if t else '-', t.id if t else None, paths, txid))
        if self.on_commit:
            self.on_commit(self.ts, paths)
        return resp


class _Method:
    def __init__(self, ds, name):
        self.ds, self.name = ds, name

    def future(self, request, timeout=None, metadata=None):
        pb = getattr(request, '_pb', request)
        try:
            return DoneFuture(self.ds._call(self.name, pb, timeout))
        except _Fail as f:
            return DoneFuture(error=SimRpcError(GRPC[f.code][0], f'{f.code}: {f.msg}'))

    def __call__(self, request, timeout=None, metadata=None):
        return self.future(request, timeout, metadata).result()


class _Rev:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return o.v < self.v

    def __le__(self, o):
        return o.v <= self.v

    def __gt__(self, o):
        return o.v > self.v

    def __eq__(self, o):
        return self.v == o.v


def _cursor_key(r):
    return r[0]


_CURSORS = {}


def _encode_cursor(sk):
    # opaque to the client, so an interned token is as good as any encoding
    tok = b'c%d' % len(_CURSORS)
    _CURSORS[tok] = sk
    return tok


def _decode_cursor(tok):
    return _CURSORS[bytes(tok)]
