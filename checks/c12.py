"""C12: replaying the event log is exact from any starting point."""
from arroba.storage import Block

from sim import archive, boot, model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from . import c01, common

REAL = c01.REAL + ['arroba.xrpc_repo.importRepo']
STUB = c01.STUB + ['DID documents over HTTP']
ASSUMPTIONS = ['a read that fails with a storage error only has to be right up to where it failed']


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env, faults=ch.pick('cfg.faults', [False, False, True]))
    cfg['batch'] = ch.pick('cfg.ds.batch2', [0, 1, 2, 3, 7, 20])
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    nrepos = 1 + ch.draw('cfg.repos', 3)
    nclients = 1 + ch.draw('cfg.clients', 3)
    nreaders = 1 + ch.draw('cfg.readers', 3)
    crash = ch.pick('cfg.crash', [0, 0, 1])
    imported = ch.pick('cfg.import', [0, 0, 1])
    lose = ch.pick('cfg.lose', [0, 0.05, 0.3])
    pause = ch.pick('cfg.pause', [0, 0.1, 0.5])
    dids = []
    reads = []
    raws = []

    def step(node, gen, out, n, own_thread):
        """Takes up to n events from the generator. True when it's exhausted."""
        for _ in range(n):
            try:
                e = next(gen)
            except StopIteration:
                return True
            if isinstance(e, Block):
                out.append((e.seq, model.s(e.cid), bytes(e.encoded), len(e.ops or [])))
            elif isinstance(e, dict):
                out.append(('event', e['seq'], e['$type'].split('#')[1], e['did'], e))
            else:
                out.append(('commit', e.commit.seq, model.s(e.commit.cid),
                            e.commit.decoded['did'], e))
        return False

    def read(i, j, name, start, repo, raw=False):
        st = f'r{i}'
        out = []

        def fn(node):
            gen = (node.storage.read_blocks_by_seq if raw
                   else node.storage.read_events_by_seq)(start=start, repo=repo)
            while True:
                n = 1 + ch.draw(f'{st}.step', 4)
                if lose and ch.chance(f'{st}.lose', lose):
                    # the rest of the iteration happens in another thread
                    res, exc = [], []

                    def other():
                        try:
                            res.append(step(node, gen, out, n, True))
                        except Exception as e:
                            exc.append(e)
                    k.count('fault.context_lost')
                    t = k.spawn(other, f'{st}.other', node)
                    k.join(t)
                    if exc:
                        raise exc[0]
                    done = res[0]
                else:
                    done = step(node, gen, out, n, False)
                if done:
                    return
                if pause and ch.chance(f'{st}.pause', pause):
                    k.sleep(ch.sub(f'{st}.pause_ns', NS // 2))
        op = w.op(name, 'replay', (start, repo, raw), fn, ndb=not lose)
        (raws if raw else reads).append((op, start, repo, out))
        return op

    def reader(i):
        st = f'r{i}'
        for j in range(1 + ch.draw(f'{st}.n', 5)):
            last = w.ds_last_seq()
            start = ch.draw(f'{st}.start', last + 3)
            repo = ch.pick(f'{st}.repo', [None, None, dids[ch.draw(f'{st}.r', len(dids))]])
            read(i, j, ch.pick(f'{st}.node', names), start, repo,
                 ch.chance(f'{st}.raw', 0.3))
            if ch.chance(f'{st}.gap', 0.5):
                k.sleep(ch.sub(f'{st}.gap_ns', NS))

    def changer():
        st = 'chg'
        for j in range(ch.draw(f'{st}.n', 4)):
            did = dids[ch.draw(f'{st}.did', len(dids))]

            def fn(node):
                repo = node.storage.load_repo(did)
                kind = ch.pick(f'{st}.kind', ['account', 'identity'])
                node.storage.write_event(repo, kind, **(
                    {'active': True} if kind == 'account' else {'handle': repo.handle}))
            w.op(ch.pick(f'{st}.node', names), 'event', (did,), fn)
            k.sleep(ch.sub(f'{st}.gap_ns', NS))

    def main():
        for n in names:
            w.start(n)
        dids.extend(common.setup_repos(env, w, nrepos))
        if imported:
            did = 'did:web:imported.test'
            ar = archive.Archive(did, key_for(4), {
                f'com.example.foo/k{i}': {'$type': 'com.example.foo', 'same': i} for i in range(3)})
            boot.http_handler = archive.serve_docs(
                {did: archive.did_doc(did, key_for(4), 'imp.test')})
            was, k.faults_on = k.faults_on, False
            op = w.xrpc('f0', 'com.atproto.repo.importRepo', ar.car())
            if op.exc:
                raise op.exc
            k.faults_on = was
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        tasks = [k.spawn(lambda i=i: reader(i), f'reader{i}') for i in range(nreaders)]
        tasks.append(k.spawn(changer, 'changer'))
        common.commit_clients(env, w, names, dids, nclients, reads=0)
        w.all_ok(tasks)
        w.quiesce()
        k.sleep(2 * NS)
        last = w.ds_last_seq()
        for i in range(2):
            op = read(9, i, 'f0', [0, 1 + ch.draw('final.start', last)][i],
                      [None, ch.pick('final.repo', dids)][i])
        check()

    def check():
        truth = oracles.Truth(w)
        chains = {did: truth.chain(did, env) for did in dids}
        want = []
        for b in truth.blocks.values():
            if b.is_event:
                want.append(('event', b.seq, b.obj['$type'].split('#')[1], b.obj['did'],
                             truth.wts[b.cid], b))
        for did, chain in chains.items():
            for b in chain:
                want.append(('commit', b.seq, b.cid, did, truth.wts[b.cid], b))
        want.sort(key=lambda e: e[1])
        by = {e[:4]: e for e in want}
        env.probe('log_len', len(want))
        for op, start, repo, out in reads:
            if op.state == 'open':
                continue
            if op.state == 'err':
                env.check(world.indefinite(op.exc) , 'replay failed', lambda:
                          f'{op}: {op.exc!r}')
                env.probe('replay_err')
            else:
                env.probe('replay_ok')
            got = [e[:4] for e in out]
            seqs = [e[1] for e in got]
            env.check(all(a < b for a, b in zip(seqs, seqs[1:])), 'replay out of order', lambda:
                      f'{op}: {seqs}')
            for e in got:
                env.check(e in by, 'replay invented an event', lambda: f'{op}: {e}')
                env.check(e[1] >= start, 'replay before start', lambda: f'{op}: {e}')
                env.check(repo is None or e[3] == repo, 'replay of another repo', lambda:
                          f'{op}: {e}')
            gotset = set(got)
            upto = 1 << 60 if op.state == 'ok' else (seqs[-1] if seqs else -1)
            for e in want:
                if e[1] >= start and e[1] <= upto and (repo is None or e[3] == repo) \
                        and e[4] <= op.ts0:
                    env.check(e[:4] in gotset, 'replay missed an event', lambda:
                              f'{op} did not return {e[:4]}, durable since {e[4]} <= {op.ts0}: '
                              f'{got}')
            env.probe('replayed', len(got))
            for kind, seq, x, did, e in out:
                b = by[kind, seq, x, did][5]
                if kind == 'event':
                    env.check(e == b.obj, 'replayed event differs', lambda: f'{e} vs {b.obj}')
                    continue
                check_commit(op, e, b, truth)

        for r in raws:
            check_raw(*r, truth)

    def check_raw(op, start, repo, out, truth):
        """Every stored block with a sequence number from start on, once each, in order."""
        if op.state == 'open':
            return
        env.check(op.state == 'ok' or world.indefinite(op.exc), 'block replay failed', lambda:
                  f'{op}: {op.exc!r}')
        env.probe(f'raw_{op.state}')
        seqs = [e[0] for e in out]
        env.check(all(a <= b for a, b in zip(seqs, seqs[1:])), 'block replay out of order',
                  lambda: f'{op}: {seqs}')
        got = [e[:2] for e in out]
        env.check(len(got) == len(set(got)), 'block replayed twice', lambda:
                  f'{op}: {sorted(e for e in set(got) if got.count(e) > 1)}')
        for seq, cid, data, nops in out:
            env.check(seq >= start, 'block replay before start', lambda: f'{op}: {seq}')
            b = truth.blocks.get(cid)
            env.check(b is not None and b.data == data, 'replayed block differs', lambda:
                      f'{op}: {cid}')
            env.check((seq, repo) in [(s, repo and r) for s, r in versions(cid)],
                      'replayed block misattributed', lambda:
                      f'{op}: {cid} at {seq}: {versions(cid)}')
        upto = 1 << 60 if op.state == 'ok' else (seqs[-1] - 1 if seqs else -1)
        have = set(got)
        for cid, b in truth.blocks.items():
            if len(versions(cid)) == 1 and start <= b.seq <= upto and \
                    (repo is None or b.repo == repo) and truth.wts[cid] <= op.ts0:
                env.check((b.seq, cid) in have, 'block replay missed a block', lambda:
                          f'{op} did not return {cid} at {b.seq}, durable since '
                          f'{truth.wts[cid]} <= {op.ts0}: {got}')

    def versions(cid):
        """[(seq, repo)] that a block's row has had."""
        out = []
        for ts, e in w.ds.rows[(('AtpBlock', cid),)]:
            b = oracles.Blk(cid, e)
            if (b.seq, b.repo) not in out:
                out.append((b.seq, b.repo))
        return out

    def check_commit(op, e, b, truth):
        env.check(e.commit.encoded == b.data, 'replayed commit differs', lambda: b.cid)
        env.check(model.s(e.prev) == model.s(b.obj['prev']), 'replayed prev differs', lambda:
                  f'{op}: {e.prev} vs {b.obj["prev"]}')
        ops = [(o.action.name.lower(), o.path, model.s(o.cid), model.s(o.prev_cid))
               for o in e.commit.ops]
        prev = model.s(b.obj['prev'])
        diff = {} if prev is None else oracles.diff_ops(
            truth.content(model.s(truth.blocks[prev].obj['data'])),
            truth.content(model.s(b.obj['data'])))
        env.check(sorted(ops) == sorted((a, p, c, q) for p, (a, c, q) in diff.items())
                  or len({o[1] for o in ops}) < len(ops), 'replayed ops differ', lambda:
                  f'{op}: seq {b.seq}: {ops} vs {diff}')
        have = {model.s(c): x for c, x in e.blocks.items()}
        for c, x in have.items():
            env.check(x is not None and model.cid_str(x.encoded) == c, 'replayed block differs',
                      lambda: f'{op}: seq {b.seq}: {c}')
        need = [b.cid, model.s(b.obj['data'])] + [c for a, p, c, q in ops if c]
        for c in need:
            env.check(c in have, 'replayed commit incomplete', lambda:
                      f'{op}: seq {b.seq} lacks {c}')

    k.run(main)
