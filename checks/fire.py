"""The firehose under simulation: a hub process runs the collector and serves subscribers; frontend
processes commit and notify it. Shared by C04 (order), C05 (nothing missed) and C06 (self-contained).
"""
import datetime

import dag_cbor

import arroba.firehose as firehose
from arroba.xrpc_sync import subscribe_repos

from sim import archive, boot, model, nodes, oracles, world
from sim.kernel import NS
from sim.world import NSID, World, key_for

from . import c01, common

REAL = c01.REAL + ['arroba.firehose (Collector, subscribe, process_event)',
                   'arroba.xrpc_sync.subscribe_repos']
STUB = c01.STUB + ['websocket transport (subscribers iterate the generator)',
                   'notification transport between processes (lossy, delayed)']


class Conn:
    """One subscription: what was asked for and what arrived."""
    def __init__(self, sub, n, cursor, node, now):
        self.sub, self.n, self.cursor, self.node, self.t0 = sub, n, cursor, node, now
        self.inc = node.incarnation
        self.events = []        # (sim time, seq, header, dag-cbor payload)
        self.info = None        # sim time of an OutdatedCursor notice
        self.refused = None     # sim time of a FutureCursor error
        self.reg = None         # sim time by which it was waiting for live events
        self.queue = None
        self.end = None         # None (still connected) | 'closed' | 'done' | 'crash' | exception
        self.task = None
        self.idle = False

    def __repr__(self):
        return (f'<{self.sub}.{self.n} cursor={self.cursor} hub incarnation {self.inc} '
                f'seqs={[e[1] for e in self.events]} end={self.end!r}>')


class Fire:
    def __init__(self, env, focus):
        self.env, self.ch, self.k, self.focus = env, env.ch, env.k, focus
        self.conns = []
        self.allocs = []        # [begin, end or None, seq or None]
        self.reports = []       # (sim time, hub incarnation, seq) lost numbers the hub was told of
        self.boots = {}         # hub incarnation -> [boot began, collector started or None]
        self.monitors = {}      # hub incarnation -> Conn
        self.puts = {}          # id(queue) -> [(sim time, task id, query index, seq)]
        self.by_task = {}       # task id -> Conn
        self.abandoned = []
        self.keep = []
        self.stop = False
        self.open_ = []

    # -- configuration -------------------------------------------------------------------

    def configure(self):
        env, ch, k = self.env, self.ch, self.k
        world.configure_sched(env)
        self.faults = ch.pick('cfg.faults', [False, True])
        cfg = world.swarm_ds(env, faults=self.faults)
        w = self.w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
                           seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
        self.fronts = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.fronts', 3)]
        self.same = ch.pick('cfg.same', [0, 0, 1])      # the hub also serves commits
        if self.same:
            self.fronts[-1] = 'hub'
        self.rollback = ch.pick('cfg.rollback', [50_000, 3, 5, 10, 50])
        self.preload = ch.pick('cfg.preload', [4000, 1, 5, 20])
        self.batch_s = ch.pick('cfg.batch_s', [0.0, 0.1, 1.0])
        self.window = ch.pick('cfg.window', [300, 5, 0])
        self.delay_s = ch.pick('cfg.delay_s', [2.0, 0.5, 10.0, 120.0])
        firehose.ROLLBACK_WINDOW = self.rollback
        firehose.PRELOAD_WINDOW = self.preload
        firehose.SUBSCRIBE_REPOS_BATCH_DELAY = datetime.timedelta(seconds=self.batch_s)
        firehose.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW = self.window
        firehose.SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY = datetime.timedelta(seconds=self.delay_s)
        self.lossy = ch.pick('cfg.lossy', [0, 0, 0.2, 1.0])
        self.nlat = ch.pick('cfg.nlat', [0, NS // 10, 2 * NS])
        self.burn = ch.pick('cfg.burn', [0, 0.1, 0.3])
        self.stall = ch.pick('cfg.stall', [0, 0, 1])
        self.crash_front = ch.pick('cfg.crash_front', [0, 0, 1])
        self.crash_hub = ch.pick('cfg.crash_hub', [0, 0, 1])
        self.nsubs = 1 + ch.draw('cfg.subs', 4)
        self.nclients = 1 + ch.draw('cfg.clients', 3)
        self.nrepos = 1 + ch.draw('cfg.repos', 3)
        self.imported = ch.pick('cfg.import', [0, 0, 1])
        self.pace = ch.pick('cfg.pace', [0, NS // 2, 5 * NS])
        self.gc = ch.pick('cfg.gc', [0, 0.3])
        self.pre = ch.draw('cfg.pre', 12)
        self.gen = common.layered(env, ch.pick('cfg.nkeys', [6, 12, 40]))
        self.maxn = ch.pick('cfg.maxn', [2, 6, 14])
        # subscribers come and go and lose the processor half way, while events keep coming
        self.churn = ch.pick('cfg.churn', [0, 0, 0, 1])
        if self.churn:
            k.lock_p, k.pstall_p, k.pstall_ns = 0.4, 0.4, 2 * NS
            k.pstall_who = lambda t: t.id in self.by_task and t.name != 'monitor'
            self.pace, self.maxn = NS // 5, 1
            self.nclients = max(self.nclients, 2)
            self.rollback = ch.pick('cfg.churn_rollback', [3, 1, 5, 10])
            firehose.ROLLBACK_WINDOW = self.rollback
        else:
            k.pstall_who = lambda t: t.name != 'monitor'
        self.maxsubs = 15 if self.churn else 8
        w.callback = self.callback
        w.on_start = self.watch_allocs
        k.on_put, k.on_get = self.on_put, self.on_get

    # -- processes -----------------------------------------------------------------------

    def watch_allocs(self, node):
        seqs = node.storage.sequences
        orig = seqs.allocate

        def allocate(nsid):
            rec = [self.k.now, None, None]
            self.allocs.append(rec)
            rec[2] = orig(nsid)
            rec[1] = self.k.now
            return rec[2]
        seqs.allocate = allocate

    def boot_hub(self, node):
        rec = self.boots[node.incarnation] = [self.k.now, None]
        self.k.ev('hub boot')
        firehose.start()
        rec[1] = self.k.now
        conn = Conn('monitor', node.incarnation, None, node, self.k.now)
        self.monitors[node.incarnation] = conn
        self.conns.append(conn)
        conn.task = self.k.spawn(lambda: self.serve(conn, firehose.subscribe), 'monitor', node,
                                 daemon=True)
        self.by_task[conn.task.id] = conn

    def callback(self, node, hub=None):
        """What the frontends register as their repos' callback: tells the hub's process."""
        def cb(data=None, lost_seq=None):
            hub = self.w.nodes.get('hub')
            if hub is None or not hub.alive:
                return
            if node is hub:
                self.tell(hub, lost_seq)
                return
            if self.lossy and self.ch.chance('note.lost', self.lossy):
                self.k.count('fault.notification_lost')
                return

            def deliver():
                if self.nlat:
                    self.k.sleep(self.ch.sub('note.lat', self.nlat), 'notify')
                self.tell(hub, lost_seq)
            self.k.spawn(deliver, 'notify', hub, daemon=True)
        return cb

    def tell(self, hub, lost_seq):
        if lost_seq is not None:
            self.reports.append((self.k.now, hub.incarnation, lost_seq))
            firehose.mark_seq_lost(lost_seq)
        else:
            firehose.send_events()

    # -- observing queues ------------------------------------------------------------------

    def on_get(self, q):
        t = self.k.me()
        conn = self.by_task.get(t.id)
        if conn is not None and conn.queue is None:
            conn.queue = id(q)
            self.keep.append(q)
            if conn.reg is None:
                conn.reg = self.k.now
        if conn is not None:
            conn.idle = not q._items

    def on_put(self, q, item):
        if not (isinstance(item, tuple) and len(item) == 2 and isinstance(item[1], dict)
                and 'seq' in item[1]):
            return
        t = self.k.me()
        self.keep.append(q)
        self.puts.setdefault(id(q), []).append(
            (self.k.now, t.id, len(self.w.ds.queries), item[1]['seq']))
        if self.gc and self.abandoned and t.id not in self.by_task and \
                self.ch.chance('gc', self.gc):
            # garbage collection on the collector's thread finalises an abandoned subscription
            gen, node = self.abandoned[0]
            if node is t.node:
                self.abandoned.pop(0)
                self.k.count('fault.gc_in_collector')
                gen.close()

    # -- subscribers -------------------------------------------------------------------

    def serve(self, conn, subscribe=subscribe_repos, st=None):
        k, ch = self.k, self.ch
        gen = subscribe(conn.cursor)
        slow = pause = 0
        take = None
        if st:
            slow = ch.pick(f'{st}.slow', [0, 0, 0, 1])
            pause = ch.pick(f'{st}.pause', [NS // 10, NS, 10 * NS])
            if ch.chance(f'{st}.leave', 0.8 if self.churn else 0.5):
                take = ch.draw(f'{st}.take', 8 if self.churn else 25)
        n = 0
        try:
            for header, payload in gen:
                conn.idle = False
                if header.get('t') == '#info':
                    conn.info = k.now
                elif header.get('op') == -1:
                    conn.refused = k.now
                else:
                    conn.events.append((k.now, payload['seq'], dict(header),
                                        dag_cbor.encode(payload)))
                    if conn.reg is None and conn.cursor is None:
                        conn.reg = k.now
                n += 1
                if take is not None and n > take and k.faults_on:
                    if self.gc and ch.chance(f'{st}.abandon', 0.7):
                        self.abandoned.append((gen, conn.node))
                    else:
                        gen.close()
                    conn.end = 'closed'
                    return
                if slow and k.faults_on and ch.chance(f'{st}.slows', 0.4):
                    k.sleep(ch.sub(f'{st}.slow_ns', pause), 'slow subscriber')
            conn.end = 'done'
        except Exception as e:
            conn.end = e

    def subscriber(self, i):
        k, ch, w = self.k, self.ch, self.w
        st = f's{i}'
        k.sleep(ch.sub(f'{st}.start', 4 * NS))
        cursor = self.pick_cursor(st)
        n = 0
        while True:
            node = w.wait_up('hub')
            conn = Conn(st, n, cursor, node, k.now)
            self.conns.append(conn)
            t = conn.task = k.spawn(lambda: self.serve(conn, st=st), f'{st}.{n}', node,
                                    daemon=True)
            self.by_task[t.id] = conn
            k.join(t)
            if conn.end is None:
                conn.end = 'crash'
            n += 1
            k.sleep(ch.sub(f'{st}.again', NS // 5 if self.churn else NS), 'reconnect')
            if conn.events and ch.chance(f'{st}.resume', 0.8):
                cursor = conn.events[-1][1] + 1
            elif conn.refused is not None or not k.faults_on or n < self.maxsubs:
                cursor = self.pick_cursor(st)
            if n >= self.maxsubs and not k.faults_on:
                return
            if n >= self.maxsubs:
                k.sleep(30 * NS, 'backoff')

    def pick_cursor(self, st):
        last = self.w.ds_last_seq()
        how = self.ch.draw(f'{st}.cur', 5)
        if how == 0:
            return None
        if how == 1:
            return 0
        if how == 2:
            return max(last - self.ch.draw(f'{st}.back', 8), 0)
        return self.ch.draw(f'{st}.pos', last + 3)

    # -- commits -----------------------------------------------------------------------

    def client(self, i, dids):
        ch, k, w = self.ch, self.k, self.w
        st = f'c{i}'
        g = common.Gen(self.env, st, **self.gen)
        for j in range(1 + ch.draw(f'{st}.n', 24 if self.churn else 14)):
            self.one(st, g, dids)
            if self.pace:
                k.sleep(ch.sub(f'{st}.pace', self.pace))

    def one(self, st, g, dids):
        ch, w = self.ch, self.w
        name = ch.pick(f'{st}.node', self.fronts)
        if name not in w.nodes:
            name = 'f0' if 'f0' in w.nodes else next(iter(w.nodes))
        did = ch.pick(f'{st}.did', dids)
        if self.burn and ch.chance(f'{st}.burn', self.burn):
            # a process that took a number and never used or reported it
            return w.op(name, 'burn', (), lambda node: node.storage.sequences.allocate(NSID))
        if ch.chance(f'{st}.event', 0.1):
            kind = ch.pick(f'{st}.kind', ['account', 'identity', 'sync'])

            def fn(node):
                repo = node.storage.load_repo(did)
                repo.callback = self.callback(node)
                node.storage.write_event(repo, kind, **({'active': True} if kind == 'account'
                                                        else {}))
            return w.op(name, 'event', (did, kind), fn)
        writes = g.writes(self.maxn, 0.1)
        if ch.chance(f'{st}.twice', 0.1):
            more = g.write(0)
            writes.append(more)
        op = w.commit(name, did, writes)
        if op.state == 'ok':
            g.learn(writes)
        elif op.state == 'err' and not world.indefinite(op.exc):
            for wr in writes:
                (g.believed.add if wr[0] == 'create' else g.believed.discard)(wr[1:3])
        return op

    def staller(self):
        """Now and then a thread that serves a request stops for a while."""
        k, ch = self.k, self.ch
        for _ in range(3):
            k.sleep(ch.sub('stall.gap', 6 * NS), 'staller')
            for _ in range(40):
                ts = [t for t in k.ready if t.id in self.w.op_of_task or t.name == 'notify']
                if ts:
                    k.count('fault.stall')
                    k.stall(ts[ch.draw('stall.which', len(ts))],
                            ch.sub('stall.ns', int(3 * self.delay_s * NS)))
                    break
                k.yield_()

    # -- the run -----------------------------------------------------------------------

    def run(self):
        k, ch, w = self.k, self.ch, self.w
        fronts = [n for n in self.fronts if n != 'hub']
        for n in fronts or ['f0']:
            w.start(n)
        dids = self.dids = common.setup_repos(self.env, w, self.nrepos)
        common.populate(self.env, w, dids, self.gen)
        if self.imported:
            self.do_import()
        was, k.faults_on = k.faults_on, False
        g = common.Gen(self.env, 'pre', **self.gen)
        fr, self.fronts = self.fronts, ['f0']
        for j in range(self.pre):
            self.one('pre', g, dids)
        self.fronts = fr
        k.faults_on = was
        tasks = []
        if ch.chance('cfg.early', 0.5):     # commits in flight while the hub starts
            tasks = [k.spawn(lambda i=i: self.client(i, dids), f'client{i}')
                     for i in range(self.nclients)]
            k.sleep(ch.sub('hub.start', NS))
        w.start('hub', self.boot_hub)
        for n in fronts:
            if self.crash_front:
                w.arm_crash(n, f'crash.{n}')
            k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        if self.crash_hub:
            w.arm_crash('hub', 'crash.hub')
        k.spawn(lambda: w.supervisor('hub', 3, 'crash.hub'), 'sup.hub', daemon=True)
        if not tasks:
            tasks = [k.spawn(lambda i=i: self.client(i, dids), f'client{i}')
                     for i in range(self.nclients)]
        subs = [k.spawn(lambda i=i: self.subscriber(i), f'sub{i}', daemon=True)
                for i in range(self.nsubs)]
        if self.stall:
            k.spawn(self.staller, 'staller', daemon=True)
        w.all_ok(tasks)
        for t in subs:
            if t.state == 'done' and t.exc:
                raise t.exc
        w.quiesce()
        k.sleep(2 * NS)
        w.wait_up('hub')
        self.settle()

    def do_import(self):
        did = 'did:web:imported.test'
        ar = archive.Archive(did, key_for(4), {
            f'{common.COLLS[i % 3]}/k{i}': {'$type': 'com.example.foo', 'same': i % 2}
            for i in range(self.ch.draw('imp.n', 30))})
        boot.http_handler = archive.serve_docs(
            {did: archive.did_doc(did, key_for(4), 'imp.test')})
        was, self.k.faults_on = self.k.faults_on, False
        op = self.w.xrpc('f0', 'com.atproto.repo.importRepo', ar.car())
        if op.exc:
            raise op.exc
        op = self.w.op('f0', 'activate', (did,), lambda node: node.storage.activate_repo(
            node.storage.load_repo(did)))
        if op.exc:
            raise op.exc
        self.k.faults_on = was
        self.dids.append(did)

    def bound(self):
        """Sim time by which the stream must have caught up once faults have stopped."""
        truth = oracles.Truth(self.w)
        durable = {b.seq for b in truth.blocks.values() if b.is_commit or b.is_event}
        last = max(durable)
        gaps = sum(1 for s in range(1, last) if s not in durable)
        return int((60 + (gaps + 2) * (2 * self.delay_s + self.batch_s + 2)) * NS) + \
            self.k.stall_bound(), last

    def monitor(self):
        return self.monitors.get(self.w.nodes['hub'].incarnation)

    def settle(self):
        """Everything catches up, then one more commit has to come through."""
        k, w, env = self.k, self.w, self.env
        inc = w.nodes['hub'].incarnation
        limit, last = self.bound()
        self.wait(lambda: self.monitor() is not None and self.monitor().reg is not None,
                  60 * NS + int(2 * self.batch_s * NS))
        m = self.monitor()
        live = m is not None
        if live:
            self.wait(lambda: any(e[1] >= last for e in m.events[-3:]) or
                      self.preloaded(m, last), limit)
        self.probe = None
        if live:
            was = self.w.ds_last_seq()
            for _ in range(3):
                op = w.commit('f0' if 'f0' in w.nodes else 'hub', self.dids[0], [
                    ('create', 'com.example.probe', f'p{k.now}', world.record(1))])
                if op.state == 'ok':
                    break
            if op.state != 'ok':
                raise op.exc or RuntimeError('probe commit has no answer')
            probe = self.w.ds_last_seq()
            t = k.now
            # each number that was never used may cost a waiting period
            D = self.durable()
            at = max([e[1] for e in m.events] + [0])
            gaps = sum(1 for s in range(at + 1, probe) if s not in D)
            wait = int(((gaps + 3) * (self.delay_s + self.batch_s) + 20) * NS)
            wait += k.stall_bound() + 90 * NS   # a stall or hang that began before faults stopped
            ok = self.wait(lambda: any(e[1] >= probe for e in m.events[-3:]), wait)
            self.probe = (probe, t, ok, wait)
            # slow subscribers drain their queues
            open_ = self.open_ = [c for c in self.conns if c.inc == inc and c.end is None]
            self.wait(lambda: all(c.end is not None or
                                  any(e[1] >= probe for e in c.events[-3:]) for c in open_),
                      wait + 120 * NS)
        self.live = live
        self.stop = True

    def preloaded(self, m, last):
        """Nothing is left for the stream to deliver: everything was there before it started."""
        D = self.durable()
        return D[last][1] <= (self.boots[m.inc][1] or 0)

    def wait(self, cond, limit):
        k = self.k
        end = k.now + limit
        while not cond():
            if k.now >= end:
                return False
            k.sleep(min(NS // 2, max(end - k.now, 1)), 'settle')
        return True

    # -- the oracle --------------------------------------------------------------------

    def durable(self):
        """{seq: (ts, sim time)} when each commit or event became readable."""
        truth = oracles.Truth(self.w)
        when = {}
        for ts, t, name, tid, paths, tx in self.w.ds.log:
            for p in paths:
                if p[-1][0] == 'AtpBlock':
                    when.setdefault(p[-1][1], (ts, t))
        return {b.seq: when[b.cid] for b in truth.blocks.values()
                if b.seq and (b.is_commit or b.is_event)}

    def upper(self, t):
        """The highest number that had been allocated by sim time t."""
        w = self.w
        if w.seqs == 'memcache':
            return max((r for _, op, _, r, _, at in w.mc.log
                        if op == 'incr' and isinstance(r, int) and at <= t), default=0)
        return max((w.ds._at(p, ts)[1].properties['next'].integer_value - 1
                    for ts, at, _, _, paths, _ in w.ds.log if at <= t
                    for p in paths if p[-1][0] == 'AtpSequence'), default=0)

    def lower(self, t):
        """This number had certainly been allocated by sim time t."""
        return max((a[2] for a in self.allocs if a[1] is not None and a[1] <= t), default=0)

    def begun(self, seq, t):
        """Could this number have been allocated by sim time t?"""
        for a in self.allocs:
            if a[2] == seq:
                return a[0] <= t
        return True      # its allocator crashed, or it was before we watched

    def judge(self, what):
        env = self.env
        self.D = self.durable()
        self.truth = oracles.Truth(self.w)
        self.heads = {}
        for b in self.truth.blocks.values():
            if b.seq and (b.is_commit or b.is_event):
                self.heads.setdefault(b.seq, b)
        for c in self.conns:
            env.probe('events', len(c.events))
            if c.info:
                env.probe('outdated')
            if c.refused:
                env.probe('future')
            if c.sub != 'monitor' and c.events and c.cursor is not None:
                env.probe('from_cursor')
            if c.queue and c.events and c.cursor is not None and c.events[0][1] < self.D_first(c):
                env.probe('from_storage')
        getattr(self, f'judge_{what}')()

    def D_first(self, c):
        m = self.monitors.get(c.inc)
        return m.events[0][1] if m and m.events else 0

    # C04

    def judge_order(self):
        env = self.env
        seen = {}
        for c in self.conns:
            last = None
            for t, seq, header, data in c.events:
                env.check(last is None or seq > last, 'not increasing', lambda:
                          f'{c}: {seq} after {last}')
                last = seq
                env.check(c.cursor is None or seq >= c.cursor, 'before the cursor', lambda:
                          f'{c}: {seq}')
                key = (c.inc, seq)
                sem = seen.get((seq, data, str(header)))
                if sem is None:
                    sem = seen[seq, data, str(header)] = self.semantics(c, seq, header, data)
                old = seen.setdefault(key, sem)
                env.check(old == sem, 'payloads differ', lambda:
                          f'{c}: seq {seq} is {sem}, another subscriber got {old}')

    def semantics(self, c, seq, header, data):
        """Checks one event against the stored truth. Returns it without incidental order."""
        env = self.env
        b = self.heads.get(seq)
        p = dag_cbor.decode(data)
        env.check(b is not None, 'event that never happened', lambda: f'{c}: {seq} {header} {p}')
        if b.is_event:
            want = dict(b.obj)
            typ = want.pop('$type').split('#')[1]
            env.check(header == {'op': 1, 't': f'#{typ}'} and p == want, 'event differs', lambda:
                      f'{c}: {header} {p}, stored {b.obj}')
            return (header['t'], repr(sorted(p.items())))
        o = b.obj
        env.check(header == {'op': 1, 't': '#commit'}, 'event differs', lambda: f'{c}: {header}')
        ops = [(x['action'], x['path'], model.s(x['cid']), model.s(x.get('prev')))
               for x in p['ops']]
        got = dict(repo=p['repo'], commit=model.s(p['commit']), rev=p['rev'], seq=p['seq'])
        want = dict(repo=o['did'], commit=b.cid, rev=o['rev'], seq=b.seq)
        env.check(got == want, 'event differs', lambda: f'{c}: {got}, stored {want}')
        env.check(ops == [tuple(x) for x in b.ops], 'event differs', lambda:
                  f'{c}: ops {ops}, stored {b.ops}')
        roots, blocks = model.read_car(p['blocks'])
        rest = {x: v for x, v in p.items() if x not in ('blocks', 'ops')}
        return (header['t'], ops, roots, sorted(dict(blocks)), repr(sorted(rest.items())))

    # C05

    def judge_complete(self):
        env, w, D = self.env, self.w, self.D
        final = w.nodes['hub'].incarnation
        env.check(self.live, 'collector never started', lambda:
                  f'the hub (incarnation {final}) booted at {self.boots.get(final)} and has not '
                  f'started streaming by {self.k.now / NS} s, long after faults stopped')
        known = []
        self.skips = {}
        for inc, m in self.monitors.items():
            self.judge_monitor(inc, m, known)
        m = self.monitors[final]
        probe, t, ok, wait = self.probe
        env.check(ok, 'stream stopped', lambda:
                  f'seq {probe} was committed at {t / NS} s with no faults; not delivered within '
                  f'{wait / NS} s: {m}')
        for c in self.conns:
            self.judge_conn(c, final, known)
        if known:
            env.fail('missed: in flight while the collector started', known[0])

    def in_flight(self, inc, s):
        """Allocated before the collector had started, readable only after it began to."""
        began, started = self.boots[inc]
        return self.begun(s, started if started is not None else self.k.now) and \
            self.D[s][1] >= began

    def judge_monitor(self, inc, m, known):
        """The collector's own emissions: no number skipped too soon or after it was readable."""
        env, w, D = self.env, self.w, self.D
        began, started = self.boots[inc]
        puts = [p for p in self.puts.get(m.queue, []) if p[1] != m.task.id]
        exact = bool(puts) or not m.events
        if not exact:     # some other queue: only what the monitor received is known
            puts = [(e[0], None, None, e[1]) for e in m.events]
        env.check(m.end is None or m.end == 'crash', 'subscription died', lambda: f'{m}')
        skipped = self.skips[inc] = set()
        delay = int(self.delay_s * NS)
        prev = None
        order = sorted(D)
        for now, tid, nq, h in puts:
            lo = prev + 1 if prev is not None else 1
            if prev is not None and h <= prev:
                continue      # C04's business
            for s in range(lo, h):
                if prev is None and (self.begun(s, started) or
                                     any(D[x][1] < m.reg for x in order if x >= s)):
                    continue      # sent or skipped before we listened, perhaps
                lost = any(i == inc and q == s and t <= now for t, i, q in self.reports)
                if s in D:
                    skipped.add(s)
                    if exact:
                        q = max((ts for ts, t, _, first in w.ds.queries[:nq]
                                 if t == tid and first is not None and first <= s), default=None)
                    if exact and q is not None:
                        late = D[s][0] > q
                    else:
                        late = D[s][1] > now - 120 * NS
                    env.check(late, 'readable event skipped', lambda:
                              f'hub incarnation {inc} sent seq {h} at {now / NS} s without {s}, '
                              f'which was readable since {D[s][1] / NS} s: {m}')
                    if lost:
                        continue     # reported lost although it was used; came too late
                if lost:
                    env.probe('skip_lost')
                    continue
                if self.upper(now) - h > self.window:
                    env.probe('skip_window')
                    continue
                noticed = min(D[x][1] for x in order if x > s)
                env.check(now - noticed >= delay - NS // 1000, 'gave up too early', lambda:
                          f'hub incarnation {inc} skipped seq {s} and sent {h} at {now / NS} s. '
                          f'The first later event was readable only at {noticed / NS} s, the '
                          f'waiting period is {self.delay_s} s, {s} was not reported lost '
                          f'({self.reports}), at most {self.upper(now)} numbers were allocated: '
                          f'{m}')
                env.probe('skip_waited')
            prev = h

    def judge_conn(self, c, final, known):
        env, D = self.env, self.D
        if isinstance(c.end, Exception):
            env.check(world.indefinite(c.end), 'subscription died', lambda: f'{c}')
            env.probe('conn_error')
        if c.refused is not None:
            env.check(c.cursor > self.lower(c.t0), 'cursor refused', lambda:
                      f'{c}: seq {self.lower(c.t0)} was allocated before it connected')
            return
        got = {e[1] for e in c.events}
        last = max(got, default=0)
        if c.end is None and c.inc == final and c in self.open_:    # it had the time
            upto = max(D)
        else:
            upto = last
        if c.cursor is None:
            reg = c.reg
            if reg is None:
                return
            first = min(got, default=1 << 60)
            need = [s for s in D if s > first or D[s][1] > reg]
        else:
            start = c.cursor
            if c.info is not None:
                start = max(start, self.upper(c.info) - self.rollback)
            need = [s for s in D if s >= start]
        for s in sorted(need):
            if s > upto or s in got or s in self.skips.get(c.inc, ()):
                continue
            msg = (f'{c} never got seq {s}, readable since {D[s][1] / NS} s (connected at '
                   f'{c.t0 / NS} s, live at {c.reg and c.reg / NS}; the collector ran from '
                   f'{self.boots[c.inc]}; it skipped {sorted(self.skips.get(c.inc, ()))})')
            if self.boots[c.inc][1] is None or self.in_flight(c.inc, s):
                known.append(msg)
                continue
            env.fail('event missed', msg)

    # C06

    def judge_contents(self):
        env = self.env
        done = set()
        for c in self.conns:
            for t, seq, header, data in c.events:
                if header.get('t') == '#commit' and (seq, data) not in done:
                    done.add((seq, data))
                    self.judge_commit(c, seq, dag_cbor.decode(data))
        env.probe('commits_judged', len(done))

    def judge_commit(self, c, seq, p):
        env, truth = self.env, self.truth
        b = self.heads.get(seq)
        env.check(b is not None and b.is_commit, 'event that never happened', lambda: f'{c} {seq}')
        prev = model.s(b.obj['prev'])
        who = f'seq {seq} {p["repo"]} via {c.sub}.{c.n} (cursor {c.cursor})'
        try:
            roots, blocks = model.read_car(p['blocks'])
        except ValueError as e:
            env.fail('bad archive', f'{who}: {e}')
        have = {}
        for cid, data in dict(blocks).items():
            cid = model.s(cid)
            env.check(model.cid_str(data) == cid, 'block does not match its CID', lambda:
                      f'{who}: {cid}')
            have[cid] = data
        commit = model.s(p['commit'])
        env.check([model.s(r) for r in roots] == [commit], 'wrong root', lambda:
                  f'{who}: {roots}, commit is {commit}')
        env.check(commit in have, 'commit block missing', lambda: who)
        env.check(commit == b.cid, 'wrong commit', lambda: f'{who}: {commit}, stored {b.cid}')
        o = dag_cbor.decode(have[commit])
        env.check(o['did'] == p['repo'] and o['rev'] == p['rev'], 'payload differs from commit',
                  lambda: f'{who}: {p["repo"]} {p["rev"]} vs {o}')
        after = truth.content(model.s(o['data']))
        ops = [{'action': x['action'], 'path': x['path'], 'cid': model.s(x['cid']),
                'prev': model.s(x.get('prev'))} for x in p['ops']]
        if prev is None:
            env.check('prevData' not in p or p['prevData'] is None, 'prevData of a first commit',
                      lambda: f'{who}: {p.get("prevData")}')
            before, pdata = {}, None
        else:
            pdata = model.s(truth.blocks[prev].obj['data'])
            env.check(model.s(p.get('prevData')) == pdata, 'wrong prevData', lambda:
                      f'{who}: {p.get("prevData")}, the previous commit {prev} has {pdata}')
            before = truth.content(pdata)
        # the operations, one after the other, take the old content to the new
        cur = dict(before)
        net = {}
        for x in ops:
            act, path = x['action'], x['path']
            env.check(act in ('create', 'update', 'delete'), 'bad op', lambda: f'{who}: {x}')
            env.check((act == 'create') == (path not in cur), 'op does not apply', lambda:
                      f'{who}: {x} on {cur.get(path)}')
            env.check(x['prev'] == cur.get(path), 'wrong prev in op', lambda:
                      f'{who}: {x}, before it {path} was {cur.get(path)}')
            env.check((act == 'delete') == (x['cid'] is None), 'wrong cid in op', lambda:
                      f'{who}: {x}')
            if act == 'delete':
                cur.pop(path)
            else:
                cur[path] = x['cid']
            net[path] = None
        env.check(cur == after, 'ops are not the difference', lambda:
                  f'{who}: {ops} takes {oracles.fmt(before)} to {oracles.fmt(cur)}, the commit '
                  f'has {oracles.fmt(after)}')
        if len(net) == len(ops):
            env.check(set(net) == set(oracles.diff_ops(before, after)),
                      'ops are not the difference', lambda: f'{who}: {ops}')
        for x in ops:
            if x['cid'] is not None and after.get(x['path']) == x['cid']:
                env.check(x['cid'] in have, 'record missing', lambda:
                          f'{who}: record of {x} is not in the archive')
        if prev is not None:
            try:
                got = model.invert(have.get, model.s(o['data']), ops)
            except model.NeedBlock as e:
                env.fail('cannot be inverted', f'{who}: needs tree node {e}; ops {ops}; '
                                               f'archive {sorted(have)}')
            except (KeyError, ValueError) as e:
                env.fail('cannot be inverted', f'{who}: {e!r}; ops {ops}')
            env.check(got == pdata, 'inverts to another root', lambda:
                      f'{who}: undoing {ops} gives {got}, prevData is {pdata}')
            env.probe('inverted')
            env.probe(f'ops_{min(len(ops), 6)}')
        # previous tree + archive = new tree
        old = set()
        if pdata is not None:
            old = {n for n in model.walk(truth.get, pdata)[1]} | set(before.values())

        def get(cid):
            return have.get(cid) or (truth.get(cid) if cid in old else None)
        try:
            rebuilt = model.content_of(get, model.s(o['data']))[0]
        except model.Missing as e:
            env.fail('new tree cannot be rebuilt', f'{who}: tree node {e.cid} is neither in the '
                                                   f'previous tree nor in the archive; ops {ops}')
        env.check(rebuilt == after, 'new tree differs', lambda: who)
        for cid in after.values():
            env.check(get(cid) is not None, 'record missing', lambda: f'{who}: {cid}')


def run(env, what):
    f = Fire(env, what)
    f.configure()

    def main():
        f.run()
        f.judge(what)
    env.k.run(main)
