"""C10: repo exports are complete, consistent snapshots."""
import dag_cbor
from lexrpc.base import XrpcError

from sim import archive, boot, model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from . import c01, common

REAL = c01.REAL + ['arroba.xrpc_sync (getRepo, getCheckout, getRecord, getBlocks, getHead, '
                   'getLatestCommit, listRepos)', 'arroba.xrpc_repo.importRepo', 'carbox, libipld',
                   'lexrpc.Server.call']
STUB = c01.STUB + ['HTTP transport (handlers are called through lexrpc)']
ASSUMPTIONS = ['the datastore\'s strong reads: no lookup omits a stored block without saying so']
IMPORTED = 'did:web:imported.test'


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env, faults=ch.pick('cfg.faults', [False, True]))
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    nrepos = 1 + ch.draw('cfg.repos', 2)
    nclients = 1 + ch.draw('cfg.clients', 3)
    nexporters = 1 + ch.draw('cfg.exporters', 3)
    crash = ch.pick('cfg.crash', [0, 0, 1])
    stale = ch.pick('cfg.stale', [False, True])
    size = ch.wpick('cfg.import', [(20, 0), (10, 3), (20, 40), (6, 300), (1, 2600)])
    deact = ch.pick('cfg.deact', [0, 0, 1])
    gen = dict(nkeys=ch.pick('cfg.nkeys', [6, 20, 60]))
    maxn = ch.pick('cfg.maxn', [2, 8, 20])
    maxops = ch.pick('cfg.maxops', [4, 20])
    pause = ch.pick('cfg.pause', [0, NS // 20, NS // 2])
    ch_dup = ch.pick('cfg.dup', [1, 3])
    dids = []

    def export(i):
        st = f'e{i}'
        for _ in range(1 + ch.draw(f'{st}.n', 6)):
            one(st, ch.pick(f'{st}.node', names), ch.pick(f'{st}.did', dids))
            if pause:
                k.sleep(ch.sub(f'{st}.pause', pause))

    def one(st, name, did):
        kind = ch.wpick(f'{st}.kind', [
            (4, 'getRepo'), (1, 'getCheckout'), (4, 'getRecord'), (2, 'getBlocks'),
            (1, 'getHead'), (1, 'getLatestCommit'), (1, 'listRepos')])
        params = {'did': did}
        if kind == 'getRecord':
            n = ch.draw(f'{st}.key', gen['nkeys'])
            params.update(collection=common.COLLS[n % len(common.COLLS)], rkey=f'k{n}')
            if did == IMPORTED:
                params['rkey'] = f'i{n % (size + 1)}'
        elif kind == 'getBlocks':
            have = sorted(p[-1][1] for p, _ in w.ds.all('AtpBlock'))
            params['cids'] = [ch.pick(f'{st}.cid', have)
                              for _ in range(1 + ch.draw(f'{st}.ncids', 5))]
            if ch.chance(f'{st}.absent', 0.15):
                params['cids'].insert(ch.draw(f'{st}.at', len(params['cids'])),
                                      model.cid_str(b'absent'))
        elif kind == 'listRepos':
            params = {}
        since = None
        if kind == 'getRepo' and ch.chance(f'{st}.since', 0.5):
            # a revision that the client has, usually a recent one
            heads = list(dict.fromkeys(h for _, h, _ in oracles.head_history(w, did)))
            if did == IMPORTED and not ch.chance(f'{st}.old', 0.1):
                heads = heads[1:]
            if heads:
                since = heads[-1 - ch.draw(f'{st}.back', min(len(heads), 12))]
                blk = oracles.Blk(since, w.ds.get((('AtpBlock', since),)))
                params['since'] = blk.obj['rev']
        op = w.xrpc(name, f'com.atproto.sync.{kind}', {}, **params)
        op.extra['since'] = since
        return op

    def statuses():
        for _ in range(2):
            k.sleep(ch.sub('deact.at', 2 * NS))
            name = ch.pick('deact.node', names)
            did = ch.pick('deact.did', dids)
            for what in ('deactivate_repo', 'activate_repo'):
                w.op(name, what, (did,), lambda node: getattr(node.storage, what)(
                    node.storage.load_repo(did)))
                k.sleep(ch.sub('deact.for', NS))

    def do_import():
        ar = archive.Archive(IMPORTED, key_for(4), {
            f'{common.COLLS[i % 3]}/i{i}': {'$type': 'com.example.foo', 'n': i // ch_dup}
            for i in range(size)})
        boot.http_handler = archive.serve_docs(
            {IMPORTED: archive.did_doc(IMPORTED, key_for(4), 'imp.test')})
        for op in (lambda: w.xrpc('f0', 'com.atproto.repo.importRepo', ar.car()),
                   lambda: w.op('f0', 'activate', (), lambda node: node.storage.activate_repo(
                       node.storage.load_repo(IMPORTED)))):
            o = op()
            if o.exc:
                raise o.exc

    def main():
        for n in names:
            w.start(n)
        dids.extend(common.setup_repos(env, w, nrepos))
        if size:
            was, k.faults_on = k.faults_on, False
            do_import()
            dids.append(IMPORTED)
            k.faults_on = was
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        tasks = [k.spawn(lambda i=i: export(i), f'export{i}') for i in range(nexporters)]
        if deact:
            tasks.append(k.spawn(statuses, 'statuses'))
        common.commit_clients(env, w, names, dids, nclients, stale=stale, reads=0, gen=gen,
                              maxn=maxn, maxops=maxops)
        w.all_ok(tasks)
        w.quiesce()
        k.sleep(2 * NS)
        # with nothing else going on, every kind of export works
        name = ch.pick('end.node', names)
        w.wait_up(name)
        for did in dids:
            if oracles.head_history(w, did)[-1][2] is None:
                for _ in range(4):
                    op = one('end', name, did)
                    env.check(op.state == 'ok' or isinstance(op.exc, XrpcError), 'export failed',
                              lambda: f'{op}')
                op = w.xrpc(name, 'com.atproto.sync.getRepo', {}, did=did)
                env.check(op.state == 'ok', 'export failed', lambda: f'{op}')
        judge(env, w)

    k.run(main)


NAMES = ('RecordNotFound', 'BlockNotFound', 'RepoDeactivated', 'RepoNotFound')


def judge(env, w):
    truth = oracles.Truth(w)
    hist = {did: oracles.head_history(w, did) for did in truth.repos}

    def during(did, op):
        """(head, status) pairs at the instants between the request and its answer."""
        rows = hist[did]
        out = []
        for i, (ts, head, status) in enumerate(rows):
            until = rows[i + 1][0] if i + 1 < len(rows) else None
            if ts <= op.ts1 and (until is None or until > op.ts0):
                out.append((head, status))
        return out

    known = []
    for op in w.ops:
        if op.kind not in ('getRepo', 'getCheckout', 'getRecord', 'getBlocks', 'getHead',
                           'getLatestCommit', 'listRepos') or op.state == 'open':
            continue
        if op.kind == 'listRepos':
            if op.state == 'ok':
                for r in op.res['repos']:
                    heads = [h for h, _ in during(r['did'], op)]
                    env.check(r['head'] in heads, 'wrong head', lambda: f'{op}: {r}, was {heads}')
                    rev = truth.blocks[r['head']].obj['rev']
                    env.check(r['rev'] == rev, 'wrong rev', lambda: f'{op}: {r}, rev is {rev}')
            continue
        did = op.args['did']
        now = during(did, op)
        heads = [h for h, _ in now]
        if op.state == 'err':
            judge_error(env, truth, op, now)
            continue
        env.check(any(s is None for _, s in now), 'export of an inactive repo', lambda:
                  f'{op}: {now}')
        env.probe(op.kind)
        if op.kind == 'getHead':
            env.check(op.res['root'] in heads, 'wrong head', lambda: f'{op}: was {heads}')
            continue
        if op.kind == 'getLatestCommit':
            env.check(op.res['cid'] in heads, 'wrong head', lambda: f'{op}: was {heads}')
            rev = truth.blocks[op.res['cid']].obj['rev']
            env.check(op.res['rev'] == rev, 'wrong rev', lambda: f'{op}: rev is {rev}')
            continue
        try:
            roots, blocks = model.read_car(op.res)
        except ValueError as e:
            env.fail('bad archive', f'{op}: {e}')
        have = {}
        for cid, data in dict(blocks).items():
            cid = model.s(cid)
            env.check(model.cid_str(data) == cid, 'block does not match its CID', lambda:
                      f'{op}: {cid}')
            have[cid] = data
        roots = [model.s(r) for r in roots]
        env.check(len(roots) == 1 and roots[0] in heads, 'wrong root', lambda:
                  f'{op}: root {roots}, head was {heads}')
        head = roots[0]
        if op.kind == 'getBlocks':
            for cid in op.args['cids']:
                env.check(cid in have, 'block missing', lambda: f'{op}: {cid}')
            continue
        env.check(head in have, 'commit block missing', lambda: f'{op}: {head}')
        root = model.s(dag_cbor.decode(have[head])['data'])
        content, nodes = model.content_of(truth.get, root)
        if op.kind == 'getRecord':
            path = f'{op.args["collection"]}/{op.args["rkey"]}'
            env.check(path in content, 'record that is not there', lambda: f'{op}: {path}')
            try:
                got = model.lookup(have.get, root, path)
            except model.Missing as e:
                env.fail('no proof', f'{op}: tree node {e} on the way to {path} is not in the '
                         f'archive {sorted(have)}')
            env.check(got == content[path], 'wrong proof', lambda: f'{op}: {got}')
            env.check(got in have, 'record missing', lambda: f'{op}: {got}')
            continue
        want = {head} | set(nodes) | set(content.values())
        if op.extra.get('since'):
            judge_diff(env, truth, op, did, head, root, want, set(have), known)
            continue
        env.probe('blocks', len(want))
        if len(nodes) > 1000 or len(set(content.values())) > 1000:
            env.probe('over_1000')
        env.check(set(have) == want, 'wrong blocks', lambda:
                  f'{op}: missing {sorted(want - set(have))[:5]}, extra '
                  f'{sorted(set(have) - want)[:5]}')
    if known:
        env.fail(*known[0])


def judge_diff(env, truth, op, did, head, root, want, have, known):
    """The archive and the tree at the revision since together have all of the head's tree."""
    env.probe('getRepo_since')
    env.check(have <= want, 'wrong blocks', lambda: f'{op}: extra {sorted(have - want)[:5]}')
    since = truth.blocks[op.extra['since']]
    old = model.s(since.obj['data'])
    content, nodes = model.content_of(truth.get, old)
    missing = want - have - set(nodes) - set(content.values()) - {since.cid}
    if not missing:
        env.probe('diff_complete')
        return
    # known: the export leaves out what was first stored before since, and what's below that
    start = since.seq or 1 << 60
    reach, todo = {head}, [root]
    while todo:
        cid = todo.pop()
        if truth.blocks[cid].seq < start or cid in reach:
            continue
        reach.add(cid)
        node = truth.blocks[cid].obj
        todo += [model.s(c) for c in [node['l']] + [e['t'] for e in node['e']] if c is not None]
        reach.update(model.s(e['v']) for e in node['e'])
    env.check(not missing & reach, 'diff is incomplete', lambda:
              f'{op}: {sorted(missing & reach)[:5]} are new since {since.cid} ({since.seq})')
    known.append(('diff since an imported commit' if not since.seq else
                  'diff leaves out a block that recurred',
                  f'{op}: {sorted(missing)[:3]} are not in the tree at {since.cid}'))


def judge_error(env, truth, op, now):
    e = op.exc
    if world.indefinite(e):
        env.probe('err_storage')
        return
    name = e.name if isinstance(e, XrpcError) else None
    env.check(name in NAMES, 'export failed', lambda: f'{op}')
    env.probe(name)
    if name == 'RepoDeactivated':
        env.check(any(s is not None for _, s in now), 'refused', lambda: f'{op}: {now}')
    elif name == 'RecordNotFound':
        path = f'{op.args["collection"]}/{op.args["rkey"]}'
        env.check(any(path not in truth.content(model.s(truth.blocks[h].obj['data']))
                      for h, _ in now), 'record not found', lambda: f'{op}')
    elif name == 'BlockNotFound':
        env.check(any(truth.wts.get(c, 1 << 60) > op.ts0 for c in op.args['cids']),
                  'block not found', lambda: f'{op}')
    else:
        env.fail('export failed', f'{op}')
