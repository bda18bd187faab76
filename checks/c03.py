"""C03: event sequence numbers are unique and monotonic."""
from google.cloud import ndb

import arroba.datastore_storage as dss
import arroba.storage as astorage

from sim import boot, nodes, world
from sim.kernel import NS
from sim.world import World

REAL = ['arroba.datastore_storage.{DatastoreSequences, MemcacheSequences}',
        'arroba.storage.MemorySequences', 'google-cloud-ndb transactions and retries']
STUB = ['datastore server', 'memcached', 'clocks', 'thread scheduling', 'process crashes']
ASSUMPTIONS = [
    'memcached applies each command atomically',
    'a process does not stall between reading the stored sequence and initialising the memcache '
    'counter for so long that the counter is created, used and evicted meanwhile (known finding)']
NSIDS = ['com.atproto.sync.subscribeRepos', 'com.example.other']


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env, preempt=False)
    k.preempt_mean = ch.pick('cfg.preempt', [0, 3, 10, 40, 200])
    kind = ch.pick('cfg.kind', ['memcache', 'datastore', 'memcache', 'memory'])
    dss.MEMCACHE_SEQUENCE_BUFFER = ch.pick('cfg.buffer', [5, 2, 3])
    dss.MEMCACHE_SEQUENCE_BATCH = dss.MEMCACHE_SEQUENCE_BUFFER + ch.pick('cfg.batch', [5, 1, 20])
    if ch.pick('cfg.bigbatch', [0, 0, 0, 1]):
        dss.MEMCACHE_SEQUENCE_BATCH, dss.MEMCACHE_SEQUENCE_BUFFER = 1000, 100
    mc = world.swarm_mc(env, evict=True)
    mc['evict'] = ch.pick('cfg.evict', [0, 0.05, 0.3])
    w = World(env, ds=world.swarm_ds(env), mc=mc, seqs='memcache' if kind == 'memcache' else
              'datastore')
    # evictions further apart than any stall, except in runs that look for the known finding
    double = ch.pick('cfg.double', [0] * 19 + [1]) and kind == 'memcache'
    w.mc.evict_gap = 0 if double else 1200 * NS
    w.mc.last_evict = 0
    evictions = []
    names = [f'p{i}' for i in range(1 if kind == 'memory' else ch.pick('cfg.procs', [1, 1, 2, 3]))]
    mem = astorage.MemorySequences()
    log = []      # (kind, inv, ret, nsid, value, op)

    def seqs(node):
        return mem if kind == 'memory' else node.storage.sequences

    def allocate(node, nsid):
        inv = k.ev('alloc', nsid)
        seq = seqs(node).allocate(nsid)
        log.append(('alloc', inv, k.ev('allocated', nsid, seq), nsid, seq))
        return seq

    def last(node, nsid):
        inv = k.ev('last', nsid)
        seq = seqs(node).last(nsid)
        log.append(('last', inv, k.ev('last is', nsid, seq), nsid, seq))
        return seq

    class Undo(Exception):
        pass

    def request(node, i, j):
        st = f'c{i}'
        out = []
        for _ in range(1 + ch.draw(f'{st}.per', ch.pick('cfg.per', [4, 4, 20]))):
            if ch.chance(f'{st}.think', 0.1):
                k.sleep(ch.sub(f'{st}.think_ns', ch.pick('cfg.pause', [200, 2000, 20]) * NS))
            nsid = NSIDS[ch.pick(f'{st}.nsid', [0, 0, 0, 1])]
            what = ch.pick(f'{st}.what', ['alloc', 'alloc', 'alloc', 'last', 'in_tx'])
            if what == 'alloc':
                out.append(allocate(node, nsid))
            elif what == 'last':
                out.append(last(node, nsid))
            else:
                # in a caller's transaction, which may fail, or be retried
                def tx():
                    out.append(allocate(node, nsid))
                    if ch.chance(f'{st}.last_tx', 0.2):
                        last(node, nsid)
                    if ch.chance(f'{st}.undo', 0.5):
                        raise Undo()
                try:
                    tx() if kind == 'memory' else ndb.transaction(tx)
                except Undo:
                    env.probe('rolled_back')
        return out

    def client(i):
        for j in range(1 + ch.draw(f'c{i}.n', 12)):
            name = ch.pick(f'c{i}.node', names)
            w.op(name, 'seqs', (j,), lambda node: request(node, i, j))
            if ch.chance(f'c{i}.pause', 0.3):
                k.sleep(ch.sub(f'c{i}.pause_ns', ch.pick('cfg.pause', [200, 2000, 20]) * NS))

    def main():
        for n in names:
            w.start(n)
        crashes = ch.pick('cfg.crashes', [0, 0, 2]) if kind != 'memory' else 0
        if crashes:
            for n in names:
                w.arm_crash(n, f'{n}.crash')
                k.spawn(lambda n=n: w.supervisor(n, crashes, f'{n}.crash'), f'sup-{n}', daemon=True)
        if kind == 'memory':
            k.now = k.now
        w.all_ok([k.spawn(lambda i=i: client(i), f'client{i}')
                  for i in range(1 + ch.draw('cfg.clients', 5))])
        w.quiesce()
        # progress and continuity once faults stop
        for n in names:
            op = w.op(n, 'final', (), lambda node: [allocate(node, x) for x in NSIDS])
            env.check(op.state == 'ok', 'stuck', lambda: f'{op}: cannot allocate with no faults')

    k.run(main)
    key = lambda s: 'stale memcache counter' if double and stale_init(w) else s
    for nsid in NSIDS:
        allocs = [x for x in log if x[0] == 'alloc' and x[3] == nsid]
        env.probe('allocated', len(allocs))
        seen = {}
        for x in allocs:
            env.check(isinstance(x[4], int) and x[4] > 0, 'not positive', lambda: f'{x[4]!r}')
            env.check(x[4] not in seen, key('duplicate'), lambda:
                      f'{nsid} {x[4]} allocated twice, events {seen[x[4]]} and {x[2]}')
            seen[x[4]] = x[2]
        # by return order: the largest returned so far must be below any that starts later
        rets = sorted(allocs, key=lambda x: x[2])
        for x in (y for y in log if y[3] == nsid):
            top = max((a[4] for a in rets if a[2] < x[1]), default=0)
            if x[0] == 'alloc':
                env.check(x[4] > top, key('went backwards'), lambda:
                          f'{nsid} {x[4]} allocated after {top} had been')
            elif x[4] is not None:
                env.check(x[4] >= top, key('last went backwards'), lambda:
                          f'last({nsid}) is {x[4]} after {top} had been allocated')
                stored = w.ds.get((('AtpSequence', nsid),))
                if kind == 'datastore' and stored is not None:
                    env.check(x[4] < stored.properties['next'].integer_value,
                              'last beyond stored', lambda: f'last({nsid}) is {x[4]}')
                env.probe('last')
            else:
                # unknown only if nothing was allocated or the cache lost it
                gone = kind == 'memcache' and w.k.stats.get('fault.mc_evict')
                env.check(top == 0 or gone, 'last unknown', lambda:
                          f'last({nsid}) is None after {top} had been allocated')


def stale_init(w):
    """A counter was created from a value read before another process created and lost it."""
    return w.k.stats.get('fault.mc_evict', 0) >= 1 and sum(
        1 for e in w.mc.log if e[1] == 'add' and e[3]) >= 2
