"""C07: inactive repos accept no commits, and status changes stick."""
from lexrpc.base import XrpcError

import arroba.server as aserver
from arroba.storage import MemoryStorage

from sim import boot, model, nodes, oracles, world
from sim.kernel import NS
from sim.world import COLL, World

from . import c01, common

REAL = c01.REAL + ['arroba.storage status changes, MemoryStorage', 'arroba.xrpc_sync, xrpc_repo reads']
STUB = c01.STUB
ASSUMPTIONS = ['a status change that fails or crashes part-way may or may not have taken effect',
               'events of concurrent status changes of one repo may be numbered in either order']
STATUS = {'deactivate': 'deactivated', 'activate': None, 'tombstone': 'tombstoned'}


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    memory = ch.pick('cfg.backend', [0, 0, 0, 1])
    faults = not memory and ch.pick('cfg.faults', [False, True])
    w = World(env, ds=world.swarm_ds(env, faults=faults), mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    names = ['f0'] if memory else ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    crash = not memory and ch.pick('cfg.crash', [0, 0, 1])
    nchangers = ch.pick('cfg.changers', [1, 1, 2])
    tomb = ch.pick('cfg.tomb', [0.1, 0.1, 0.4])
    did, other = 'did:plc:repo0', 'did:plc:repo1'
    handles = {}

    def get_handle(st, name, d=did):
        """A freshly loaded handle, or one loaded at some earlier time in this process."""
        node = w.wait_up(name)
        key = (st if ch.chance(f'{st}.own', 0.5) else '', node.name, node.incarnation, d)
        if key not in handles or ch.chance(f'{st}.fresh', 0.3):
            def load(node):
                handles[key] = node.storage.load_repo(d)
            w.op(name, 'load', (d,), load)
        h = handles.get(key)
        cur = w.nodes[name]
        return h if cur is node and node.alive else None

    def changer(i):
        st = f's{i}'
        for j in range(1 + ch.draw(f'{st}.n', 6)):
            name = ch.pick(f'{st}.node', names)
            h = get_handle(st, name)
            if ch.chance(f'{st}.tomb', tomb):
                kind = 'tombstone'
            else:
                kind = ch.pick(f'{st}.kind', ['deactivate', 'activate'])
            if h is None:
                continue

            def fn(node):
                getattr(node.storage, f'{kind}_repo')(h)
                return h.status
            w.op(name, kind, (did,), fn)
            if ch.chance(f'{st}.pause', 0.6):
                k.sleep(ch.sub(f'{st}.pause_ns', NS))

    def committer(i):
        st = f'c{i}'
        for j in range(1 + ch.draw(f'{st}.n', 8)):
            name = ch.pick(f'{st}.node', names)
            d = ch.pick(f'{st}.did', [did, did, did, other])
            how = ch.pick(f'{st}.how', ['commit', 'put'])
            rec = world.record(j, w=st)
            if how == 'commit':
                h = get_handle(st, name, d)
                if h is None:
                    continue
                w.commit(name, d, [('create', COLL, f'{st}x{j}', rec)], handle=h)
            else:
                op = w.xrpc(name, 'com.atproto.repo.putRecord',
                            {'repo': d, 'collection': COLL, 'rkey': f'{st}x{j}', 'record': rec})
                op.args = (d, op.args)
            if ch.chance(f'{st}.pause', 0.4):
                k.sleep(ch.sub(f'{st}.pause_ns', NS))

    READS = {
        'getRepoStatus': ('com.atproto.sync.getRepoStatus', dict(did=did)),
        'listRepos': ('com.atproto.sync.listRepos', {}),
        'getLatestCommit': ('com.atproto.sync.getLatestCommit', dict(did=did)),
        'getRepo': ('com.atproto.sync.getRepo', dict(did=did)),
        'listRecords': ('com.atproto.repo.listRecords', dict(repo=did, collection=COLL)),
        'getHead': ('com.atproto.sync.getHead', dict(did=did)),
    }

    def reader(i):
        st = f'r{i}'
        for j in range(1 + ch.draw(f'{st}.n', 6)):
            read(ch.pick(f'{st}.node', names), ch.pick(f'{st}.what', sorted(READS)))
            if ch.chance(f'{st}.pause', 0.6):
                k.sleep(ch.sub(f'{st}.pause_ns', NS))

    def read(name, what):
        nsid, params = READS[what]
        op = w.xrpc(name, nsid, {}, **params)
        op.kind = 'read-' + what
        if op.state == 'err' and isinstance(op.exc, XrpcError) and op.exc.name == 'RepoDeactivated':
            op.extra['active'] = False
        elif op.state == 'ok':
            if what == 'listRepos':
                r = [x for x in op.res['repos'] if x['did'] == did]
                env.check(len(r) == 1, 'listRepos', lambda: f'{op}')
                op.extra['active'] = r[0]['active']
                env.check(r[0]['active'] == ('status' not in r[0]), 'listRepos status',
                          lambda: f'{r[0]}')
            elif what == 'getRepoStatus':
                op.extra['active'] = op.res['active']
            else:
                op.extra['active'] = True
        return op

    def main():
        node = w.start('f0')
        if memory:
            node.storage = MemoryStorage()
            with nodes.as_node(k, node):
                aserver.storage = node.storage
        for n in names[1:]:
            w.start(n)
        common.setup_repos(env, w, 2)
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        tasks = [k.spawn(lambda i=i: changer(i), f's{i}') for i in range(nchangers)]
        tasks += [k.spawn(lambda i=i: committer(i), f'c{i}')
                  for i in range(1 + ch.draw('cfg.committers', 3))]
        tasks += [k.spawn(lambda i=i: reader(i), f'r{i}') for i in range(ch.draw('cfg.readers', 3))]
        w.all_ok(tasks)
        w.quiesce()
        k.sleep(2 * NS)
        final = w.op('f0', 'final', (did,), lambda node: node.storage.load_repo(did).status)
        if final.exc:
            raise final.exc
        finals = [read('f0', what) for what in sorted(READS)]
        events = []
        log = w.op('f0', 'log', (), lambda node: events.extend(
            node.storage.read_events_by_seq(start=1, repo=did)))
        if log.exc:
            raise log.exc
        check(final.res, finals, events)

    def check(final, finals, log):
        changes = [o for o in w.ops if o.kind in STATUS]
        commits = [o for o in w.ops if o.kind in ('commit', 'putRecord') and o.args[0] == did]
        env.probe('changes', sum(o.state == 'ok' for o in changes))
        env.probe('commits_ok', sum(o.state == 'ok' for o in commits))
        env.probe('commits_refused', sum(o.state == 'err' for o in commits))
        done = [o for o in changes if o.state == 'ok']
        END = 1 << 60
        ret = lambda o: o.ret if o.ret is not None else END
        tombs = [o for o in done if o.kind == 'tombstone']
        first_tomb = min((o.ret for o in tombs), default=END)
        # no commit after a completed deactivation, until someone asks for reactivation
        for c in commits:
            if c.state != 'ok':
                continue
            for d in done:
                if d.kind == 'activate' or d.ret >= c.inv:
                    continue
                undo = [a for a in changes if a.kind == 'activate' and a.inv is not None
                        and a.inv < c.ret and ret(a) > d.inv]
                env.check(bool(undo) and d.kind != 'tombstone', 'commit to inactive repo',
                          lambda: f'{c} succeeded after {d} had completed')
        # a repo that can no longer change status is as the last change says
        for o in done:
            if o.kind == 'activate' and first_tomb < o.inv:
                env.probe('activate_tombstoned')
        if tombs:
            env.check(final == 'tombstoned', 'tombstoned repo reactivated', lambda:
                      f'final status {final} after {tombs[0]}')
        maybe = [o for o in changes if o.state != 'ok']
        if done:
            # the final status was set by a change that no other completed change came after
            ok = {STATUS[o.kind] for o in changes if o.inv is not None
                  and not any(p is not o and p.inv > ret(o) and not (
                      p.kind != 'tombstone' and first_tomb < p.inv) for p in done)}
            if any(ret(o) == END or o in maybe for o in changes if o.kind == 'tombstone'):
                ok.add('tombstoned')
            env.check(final in ok, 'status change lost', lambda:
                      f'final status {final!r}, expected one of {ok}: {changes}')
        elif not maybe:
            env.check(final is None, 'status changed by itself', lambda: f'{final}')
        for o in finals:
            env.check(o.extra.get('active') == (final is None), 'read API disagrees', lambda:
                      f'{o} while the status is {final!r}')
        # durable rows: commits are only ever applied to an active repo, tombstones are final
        if not memory:
            hist = oracles.head_history(w, did)
            for (t0, h0, s0), (t1, h1, s1) in zip(hist, hist[1:]):
                env.check(h0 == h1 or (s0 is None and s1 is None), 'head moved while inactive',
                          lambda: f'at {t1} status was {s0!r} -> {s1!r}')
                env.check(s0 != 'tombstoned' or s1 == 'tombstoned', 'tombstone undone', lambda:
                          f'at {t1} status became {s1!r}')
            for o in w.ops:
                if 'active' not in o.extra:
                    continue
                at = [s for t, _, s in hist if t <= o.ts0][-1:] + [
                    s for t, _, s in hist if o.ts0 < t <= o.ts1]
                env.check(o.extra['active'] in [s is None for s in at], 'stale status read',
                          lambda: f'{o} says active={o.extra["active"]}, statuses were {at}')
            for o in done:
                if o.kind == 'activate' and any(t.ret < o.inv for t in tombs):
                    continue
                if o.kind != 'tombstone' and any(t.inv is not None and t.inv < o.ret
                                                 for t in changes if t.kind == 'tombstone'):
                    continue
                at = [s for t, _, s in hist if t <= o.ts1]
                rows = [s for t, _, s in hist if o.ts0 < t <= o.ts1]
                env.check(STATUS[o.kind] in rows or at[-1] == STATUS[o.kind],
                          'change not durable when it returned', lambda: f'{o}: {rows}')
        # events: one for each completed change, with matching content
        events = [e for e in log if isinstance(e, dict)]
        kinds = {'deactivate': [], 'activate': [], 'tombstone': []}
        for e in events[:]:
            t = e['$type'].split('#')[1]
            env.check(e['did'] == did, 'event of another repo', lambda: f'{e}')
            if t == 'tombstone':
                kinds['tombstone'].append(e)
            elif t == 'account':
                if e['active']:
                    env.check(e.get('status') is None, 'event content', lambda: f'{e}')
                    kinds['activate'].append(e)
                else:
                    env.check(e.get('status') == 'deactivated', 'event content', lambda: f'{e}')
                    kinds['deactivate'].append(e)
        kinds['activate'].pop(0)      # from the repo's creation
        for kind, es in kinds.items():
            sure = [o for o in done if o.kind == kind]
            unsure = len([o for o in maybe if o.kind == kind])
            if kind != 'tombstone':
                # refused changes of a tombstoned repo are not announced
                void = [o for o in sure if first_tomb < o.inv]
                vague = [o for o in sure if o not in void and
                         any(t.inv is not None and t.inv < o.ret for t in changes
                             if t.kind == 'tombstone')]
                lo, hi = len(sure) - len(void) - len(vague), len(sure) - len(void) + unsure
            else:
                lo, hi = len(sure), len(sure) + unsure
            env.check(lo <= len(es) <= hi, 'wrong number of events', lambda:
                      f'{len(es)} {kind} events for {lo}..{hi} changes: {es}; {changes}')
        # nothing is committed with a number after the last announcement of inactivity
        last = [e for e in events if e['$type'].split('#')[1] in ('account', 'tombstone')][-1]
        if final is not None and nchangers == 1 and not maybe and not last.get('active'):
            late = [e for e in log if not isinstance(e, dict) and e.commit.seq > last['seq']]
            env.check(not late, 'commit after deactivation event', lambda:
                      f'seqs {[e.commit.seq for e in late]} after {last}')

    k.run(main)
