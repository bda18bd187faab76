"""C21: a repo appears completely announced, and lookups and listings find exactly what is there."""
from lexrpc.base import XrpcError

from sim import archive, boot, model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from arroba.repo import Repo

from . import c01, common

REAL = c01.REAL + ['arroba.repo.Repo.create', 'arroba.datastore_storage (create_repo, load_repo, '
                   'load_repos)', 'arroba.xrpc_sync (listRepos, getRepoStatus, getHead)',
                   'arroba.xrpc_repo.describeRepo']
STUB = c01.STUB
ASSUMPTIONS = ['a creation that fails or crashes may leave events (but no repo) behind, as the order '
               'of the writes documents', 'queries by handle are strongly consistent']
EV = 'com.atproto.sync.subscribeRepos#'


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env, faults=ch.pick('cfg.faults', [False, True, True]))
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']),
              preempt=world.PREEMPT + ('arroba.xrpc_sync',))
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    crash = ch.pick('cfg.crash', [0, 1])
    total = 1 + ch.draw('cfg.total', 14)
    ncreators = 1 + ch.draw('cfg.creators', 3)
    nlookers = 1 + ch.draw('cfg.lookers', 3)
    status = ch.pick('cfg.status', [0, 0, 1])
    pace = ch.pick('cfg.pace', [0, NS // 10, NS])
    order = [f'did:plc:{"abcdefghijklmnop"[(7 * i + 3) % 16]}{i}' if i % 3 else f'did:web:r{i}.test'
             for i in range(total)]
    handles = {d: None if i % 5 == 4 else f'h{i}.test' for i, d in enumerate(order)}
    keys = {d: i % 6 for i, d in enumerate(order)}
    walks = []

    def create(name, did):
        n = keys[did]

        def fn(node):
            kw = {'handle': handles[did]} if handles[did] else {}
            repo = Repo.create(node.storage, did, signing_key=key_for(n),
                               rotation_key=key_for((n + 1) % 6), callback=w.callback(node), **kw)
            return repo.head.cid.encode('base32'), repo.did, repo.status
        return w.op(name, 'create_repo', (did,), fn)

    def creator(i):
        st = f'c{i}'
        for did in order[i::ncreators]:
            for attempt in range(4):
                op = create(ch.pick(f'{st}.node', names), did)
                if op.state == 'ok':
                    if ch.chance(f'{st}.commit', 0.3):
                        w.commit(ch.pick(f'{st}.cnode', names), did, [
                            ('create', 'com.example.foo', 'x', world.record(i))])
                    if status and ch.chance(f'{st}.status', 0.5):
                        what = ch.pick(f'{st}.what', ['deactivate_repo', 'tombstone_repo'])
                        w.op(ch.pick(f'{st}.cnode', names), 'status', (what, did), lambda node:
                             getattr(node.storage, what)(node.storage.load_repo(did)))
                    break
                # is it there after all?
                op = look(st, 'load', did)
                while op.state != 'ok':
                    k.sleep(NS)
                    op = look(st, 'load', did)
                if op.res is not None:
                    break
                if ch.chance(f'{st}.giveup', 0.3):
                    break
            if pace:
                k.sleep(ch.sub(f'{st}.pace', pace))

    def describe(repo):
        return repo and {
            'did': repo.did, 'head': repo.head.cid.encode('base32'), 'handle': repo.handle,
            'status': repo.status,
            'key': repo.signing_key.private_numbers().private_value,
            'rotation': repo.rotation_key and repo.rotation_key.private_numbers().private_value,
        }

    def look(st, kind, did):
        """kind: load, handle, getRepoStatus, getHead, describeRepo"""
        name = ch.pick(f'{st}.node', names)
        if kind in ('load', 'handle'):
            arg = did if kind == 'load' else handles[did]
            op = w.op(name, 'lookup', (kind, did), lambda node: describe(
                node.storage.load_repo(arg)))
        elif kind == 'describeRepo':
            op = w.xrpc(name, 'com.atproto.repo.describeRepo', {}, repo=did)
        else:
            op = w.xrpc(name, f'com.atproto.sync.{kind}', {}, did=did)
        op.extra.update(look=kind, did=did)
        return op

    def walk(st):
        """Pages through all repos."""
        limit = ch.pick(f'{st}.limit', [500, 1, 2, 3, 5])
        api = ch.pick(f'{st}.api', ['xrpc', 'xrpc', 'storage', 'minimal'])
        cursor, got, ts0 = None, [], w.ds.ts
        for _ in range(60):
            name = ch.pick(f'{st}.node', names)
            if api == 'xrpc':
                kw = {'limit': limit, **({'cursor': cursor} if cursor else {})}
                op = w.xrpc(name, 'com.atproto.sync.listRepos', {}, **kw)
                if op.state != 'ok':
                    env.check(op.state == 'open' or world.indefinite(op.exc), 'listing failed',
                              lambda: f'{op}: {op.exc!r}')
                    if op.state == 'open':
                        k.sleep(NS)
                    continue
                page = [(r['did'], r['head'], r['active'], r['rev']) for r in op.res['repos']]
                more = op.res.get('cursor')
                env.check((more is not None) == (len(page) == limit), 'cursor', lambda:
                          f'{op}: {len(page)} repos')
            else:
                op = w.op(name, 'load_repos', (cursor, limit), lambda node: [
                    (r.did, r.head.cid.encode('base32'), r.status is None, r.head.decoded['rev'])
                    for r in node.storage.load_repos(
                        after=cursor, limit=limit, minimal=api == 'minimal')])
                if op.state != 'ok':
                    env.check(op.state == 'open' or world.indefinite(op.exc), 'listing failed',
                              lambda: f'{op}: {op.exc!r}')
                    if op.state == 'open':
                        k.sleep(NS)
                    continue
                page = op.res
                more = page[-1][0] if len(page) == limit else None
            env.check(len(page) <= limit, 'page too long', lambda: f'{op}: {len(page)}')
            got += [x[0] for x in page]
            walks.append((op, page))
            if not more:
                complete.append((ts0, w.ds.ts, got, op))
                return
            cursor = more
            if pace:
                k.sleep(ch.sub(f'{st}.gap', pace))

    complete = []

    def looker(i):
        st = f'l{i}'
        for _ in range(2 + ch.draw(f'{st}.n', 16)):
            if ch.chance(f'{st}.walk', 0.4):
                walk(st)
            else:
                there = [d for d in order if w.ds.rows.get((('AtpRepo', d),))]
                if there and ch.chance(f'{st}.there', 0.7):
                    did = ch.pick(f'{st}.which', there)
                else:
                    did = ch.pick(f'{st}.did', order)
                kind = ch.pick(f'{st}.kind', ['load', 'handle', 'getRepoStatus', 'getHead',
                                              'describeRepo'])
                if kind == 'handle' and not handles[did]:
                    kind = 'load'
                look(st, kind, did)
            if pace:
                k.sleep(ch.sub(f'{st}.pace', pace))

    def main():
        boot.http_handler = archive.serve_docs({
            did: archive.did_doc(did, key_for(keys[did]), handles[did]) for did in order})
        for n in names:
            w.start(n)
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 3, f'crash.{n}'), f'sup.{n}', daemon=True)
        w.all_ok([k.spawn(lambda i=i: creator(i), f'creator{i}') for i in range(ncreators)] +
                 [k.spawn(lambda i=i: looker(i), f'looker{i}') for i in range(nlookers)])
        w.quiesce()
        k.sleep(2 * NS)
        w.start('reader')
        names[:] = ['reader']
        for _ in range(3):
            walk('end')
        for did in order:
            op = look('end', 'load', did)
            env.check(op.state == 'ok', 'final lookup failed', lambda: f'{op}: {op.exc!r}')
        judge()

    def judge():
        truth = oracles.Truth(w)
        hist = {did: oracles.head_history(w, did) for did in order}
        born = {d: h[0][0] for d, h in hist.items() if h}

        def row_at(did, ts):
            rows = [h for h in hist[did] if h[0] <= ts]
            return rows[-1] if rows else None

        def rows_during(did, op):
            out = []
            for i, (ts, head, st) in enumerate(hist[did]):
                until = hist[did][i + 1][0] if i + 1 < len(hist[did]) else None
                if ts <= op.ts1 and (until is None or until > op.ts0):
                    out.append((head, st))
            return out

        events = {}
        for b in truth.blocks.values():
            if b.is_event or b.is_commit:
                events.setdefault(b.obj['did'], []).append(b)
        creates = {}
        for op in w.ops:
            if op.kind == 'create_repo':
                creates.setdefault(op.args[0], []).append(op)
        env.probe('created', len(born))
        env.probe('create_failed', sum(o.state != 'ok' for os in creates.values() for o in os))
        for did in order:
            mine = sorted(events.get(did, []), key=lambda b: b.seq)
            chain = oracles.check_chain(env, w, truth, did, key_for(keys[did]).public_key()) \
                if did in born else []
            for op in creates.get(did, []):
                own = [b for b in mine if w.op_of_task.get(truth.writer.get(b.cid)) is op]
                if op.state == 'ok':
                    env.check(did in born, 'acknowledged repo is not there', lambda: f'{op}')
                    env.check(born[did] <= op.ts1, 'acknowledged before it was there', lambda: f'{op}')
                first = w.op_of_task.get(row_writer(did)) if did in born else None
                if first is not op and op.state != 'ok':
                    continue
                # its announcement is complete, in order, and came first
                kinds = ['commit' if b.is_commit else b.obj['$type'].removeprefix(EV) for b in own]
                env.check(kinds == ['commit', 'identity', 'account', 'sync'], 'announcement', lambda:
                          f'{op} announced {kinds}')
                commit, identity, account, sync = own
                env.check(all(truth.wts[b.cid] <= born[did] for b in own), 'visible before announced',
                          lambda: f'{op}')
                o = commit.obj
                env.check(o['prev'] is None and truth.content(model.s(o['data'])) == {},
                          'first commit', lambda: f'{op}: {o}')
                env.check(chain[0].cid == commit.cid or len(creates[did]) > 1, 'first commit', lambda:
                          f'{op}: the history starts at {chain[0].cid}, not {commit.cid}')
                for b in own[1:]:
                    env.check(b.obj['seq'] == b.seq and b.repo == did, 'event numbers', lambda:
                              f'{op}: {b.obj} stored as {b.seq} of {b.repo}')
                env.check(identity.obj.get('handle') == handles[did], 'identity event', lambda:
                          f'{op}: {identity.obj}')
                env.check(account.obj['active'] is True, 'account event', lambda:
                          f'{op}: {account.obj}')
                roots, blocks = model.read_car(sync.obj['blocks'])
                env.check([model.s(r) for r in roots] == [commit.cid]
                          and {model.s(c): d for c, d in blocks} == {commit.cid: commit.data}
                          and sync.obj['rev'] == o['rev'], 'sync event', lambda:
                          f'{op}: {sync.obj}')
                env.probe('announced')
        for op in w.ops:
            if 'look' not in op.extra or op.state == 'open':
                continue
            did, kind = op.extra['did'], op.extra['look']
            during = rows_during(did, op)
            always = row_at(did, op.ts0) is not None
            never = not during
            if op.state == 'err' and world.indefinite(op.exc):
                continue
            missing = op.res is None if kind in ('load', 'handle') else \
                isinstance(op.exc, (XrpcError, ValueError)) and 'not found' in str(op.exc)
            env.check(not (missing and always), 'repo not found', lambda: f'{op}: {op.exc!r}')
            if missing:
                env.probe('not_found')
                continue
            env.check(not never, 'repo out of nowhere', lambda: f'{op}')
            env.probe(f'found_{kind}')
            if op.state == 'err':
                env.check(getattr(op.exc, 'name', None) == 'RepoDeactivated'
                          and any(s for _, s in during), 'lookup failed', lambda:
                          f'{op}: {op.exc!r} {during}')
            elif kind in ('load', 'handle'):
                n = keys[did]
                want = {'did': did, 'handle': handles[did],
                        'key': key_for(n).private_numbers().private_value,
                        'rotation': key_for((n + 1) % 6).private_numbers().private_value}
                got = {x: op.res[x] for x in want}
                env.check(got == want, 'repo differs', lambda: f'{op}: {got}, created with {want}')
                env.check((op.res['head'], op.res['status']) in during, 'outdated', lambda:
                          f'{op}: {op.res}, was {during}')
            elif kind == 'getRepoStatus':
                env.check(op.res['active'] in [s is None for _, s in during]
                          and op.res['did'] == did, 'outdated', lambda: f'{op}: was {during}')
            elif kind == 'getHead':
                env.check(any(op.res['root'] == h and s is None for h, s in during), 'outdated',
                          lambda: f'{op}: was {during}')
            elif kind == 'describeRepo':
                env.check(op.res['did'] == did and op.res['handle'] == (handles[did] or 'handle.invalid')
                          and op.res['didDoc']['id'] == did, 'wrong repo',
                          lambda: f'{op}')
        for op, page in walks:
            for did, head, active, rev in page:
                was = rows_during(did, op)
                env.check((head, active) in [(h, s is None) for h, s in was], 'listing is outdated',
                          lambda: f'{op}: {did} at {head}, active {active}, was {was}')
                env.check(rev == truth.blocks[head].obj['rev'], 'wrong rev', lambda:
                          f'{op}: {did} {head} {rev}')
        for ts0, ts1, got, op in complete:
            env.probe('listings')
            env.check(got == sorted(set(got)), 'listing repeats or goes backwards', lambda: f'{got}')
            must = {d for d in born if born[d] <= ts0}
            env.check(must <= set(got), 'listing misses a repo', lambda:
                      f'{sorted(must - set(got))} missing in {got}, ended with {op}')

    def row_writer(did):
        key = (('AtpRepo', did),)
        for ts, t, name, tid, paths, tx in w.ds.log:
            if key in paths:
                return tid

    k.run(main)
