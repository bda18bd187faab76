"""C09: record operations through the XRPC API are linearizable."""
import json

import dag_json
from lexrpc.base import XrpcError

from sim import archive, boot, model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from . import c01, common

REAL = c01.REAL + ['arroba.xrpc_repo (createRecord, putRecord, deleteRecord, getRecord, '
                   'listRecords, describeRepo)', 'arroba.server', 'lexrpc.Server.call']
STUB = c01.STUB + ['HTTP transport (handlers are called through lexrpc)', 'DID documents over HTTP']
ASSUMPTIONS = ['creating the repo itself happens before faults start']
WRITES = ('createRecord', 'putRecord', 'deleteRecord')
READS = ('getRecord', 'listRecords', 'describeRepo')


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env, faults=ch.pick('cfg.faults', [False, True]))
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    nrepos = 1 + ch.draw('cfg.repos', 2)
    nclients = 1 + ch.draw('cfg.clients', 5)
    crash = ch.pick('cfg.crash', [0, 0, 1])
    nkeys = ch.pick('cfg.nkeys', [1, 3, 8])
    wrate = ch.pick('cfg.wrate', [0.3, 0.6])
    pace = ch.pick('cfg.pace', [0, NS // 10, NS])
    maxops = ch.pick('cfg.maxops', [6, 20])
    pre = ch.pick('cfg.pre', [0, 5, 40])
    dids = []

    def client(i, maxops=maxops):
        st = f'c{i}'
        g = common.Gen(env, st, nkeys=nkeys)
        for _ in range(1 + ch.draw(f'{st}.n', maxops)):
            one(st, g)
            if pace:
                k.sleep(ch.sub(f'{st}.pace', pace))

    def one(st, g):
        name = ch.pick(f'{st}.node', names)
        n = ch.draw(f'{st}.did', len(dids))
        repo = ch.pick(f'{st}.ident', [dids[n], dids[n], f'h{n}.test'])
        coll, rkey = g.key()
        if ch.chance(f'{st}.write', wrate):
            kind = ch.wpick(f'{st}.kind', [(3, 'putRecord'), (2, 'createRecord'),
                                           (3, 'deleteRecord')])
            inp = {'repo': repo, 'collection': coll, 'rkey': rkey}
            if kind != 'deleteRecord':
                inp['record'] = g.rec()
                if inp['record'].get('$type', common.COLLS[0]) != common.COLLS[0]:
                    inp['record'].pop('$type')     # lexicon validation would reject it
                if kind == 'createRecord' and ch.chance(f'{st}.norkey', 0.4):
                    del inp['rkey']
            op = w.op(name, kind, dict(inp), lambda node: call(kind, dict(inp)), flask_ctx=True)
        else:
            kind = ch.wpick(f'{st}.kind', [(4, 'getRecord'), (3, 'listRecords'),
                                           (1, 'describeRepo')])
            params = {'repo': repo}
            if kind != 'describeRepo':
                params['collection'] = coll
            if kind == 'getRecord':
                params['rkey'] = rkey
            elif kind == 'listRecords':
                params['limit'] = ch.pick(f'{st}.limit', [1, 2, 50, 100])
                if ch.chance(f'{st}.cursor', 0.4):
                    params['cursor'] = f'{coll}/{rkey}'
            op = w.op(name, kind, dict(params), lambda node: call(kind, {}, **params),
                      flask_ctx=True)
        op.extra['did'] = dids[n]
        return op

    def main():
        for n in names:
            w.start(n)
        dids.extend(common.setup_repos(env, w, nrepos))
        boot.http_handler = archive.serve_docs({
            did: archive.did_doc(did, key_for(n), f'h{n}.test') for n, did in enumerate(dids)})
        was, k.faults_on = k.faults_on, False
        g = common.Gen(env, 'pre', nkeys=nkeys)
        for _ in range(ch.draw('pre.n', pre + 1)):
            one('pre', g)
        k.faults_on = was
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 3, f'crash.{n}'), f'sup.{n}', daemon=True)
        w.all_ok([k.spawn(lambda i=i: client(i), f'client{i}') for i in range(nclients)])
        w.quiesce()
        k.sleep(2 * NS)
        quiet = len(w.ops)
        for n in names:
            w.wait_up(n)
        client('end', 8)
        judge(env, w, dids, quiet)

    k.run(main)


def call(kind, input, **params):
    from arroba import server
    return server.server.call(f'com.atproto.repo.{kind}', input, **params)


def judge(env, w, dids, quiet):
    truth = oracles.Truth(w)
    by_task = {}
    for b in truth.blocks.values():
        if b.is_commit:
            by_task.setdefault(truth.writer[b.cid], []).append(b)

    def writes_of(op):
        if op.kind == 'create_repo':
            return []
        a = op.args
        rkey = a.get('rkey')
        if rkey is None:
            [b] = by_task[op.task]
            rkey = b.ops[0][1].split('/')[-1]
            env.check(len(rkey) == 13, 'made-up key', lambda: f'{op}: {rkey}')
        return [('delete' if op.kind == 'deleteRecord' else 'put', a['collection'], rkey,
                 a.get('record'))]

    for n, did in enumerate(dids):
        chain = oracles.check_chain(env, w, truth, did, key_for(n).public_key(), writes_of,
                                    rev=False)
        ops = [o for o in w.ops if o.kind in WRITES + READS and o.extra.get('did', did) == did]
        linearize(env, w, truth, did, chain, ops, quiet)


def linearize(env, w, truth, did, chain, ops, quiet):
    """Each operation takes effect at one commit of the history, in real-time order."""
    contents = [truth.content(model.s(b.obj['data'])) for b in chain]
    pos = {}
    for i, b in enumerate(chain):
        op = w.op_of_task.get(truth.writer[b.cid])
        if op is not None:
            pos.setdefault(op.id, []).append(i)
    done = []        # (ret, index): operations that have returned, by return
    writes = [o for o in ops if o.kind in WRITES]

    def floor(inv):
        return max((i for ret, i in done if ret < inv), default=0)

    def contended(op):
        return op.id < quiet and any(
            o is not op and (o.ret is None or o.ret > op.inv) and o.inv < op.ret for o in writes)

    order = sorted((o for o in ops if o.state != 'open'), key=lambda o: o.ret)
    for op in order:
        low = floor(op.inv)
        high = max(i for i, b in enumerate(chain) if truth.wts[b.cid] <= op.ts1)
        mine = pos.get(op.id, [])
        env.check(len(mine) <= 1, 'request committed twice', lambda: f'{op}: {mine}')
        if op.state == 'err':
            lost = world.indefinite(op.exc) and w.ds.ambiguous.get(op.task)
            if mine:
                env.check(lost, 'failed write applied', lambda:
                          f'{op} left {chain[mine[0]].cid} in the history')
                env.check(mine[0] > low, 'out of order', lambda: f'{op}: {mine[0]} {low}')
                done.append((op.ret, mine[0]))
                continue
            if world.indefinite(op.exc):
                env.probe('err_storage')
                env.check(op.id < quiet, 'failed with nothing wrong', lambda: f'{op}')
                continue
            if isinstance(op.exc, XrpcError) and op.exc.name == 'RecordNotFound':
                env.check(op.kind == 'getRecord', 'wrong error', lambda: f'{op}')
                path = f'{op.args["collection"]}/{op.args["rkey"]}'
                match = lambda i: path not in contents[i]
            else:
                env.check(op.kind in WRITES and contended(op), 'failed with nothing wrong',
                          lambda: f'{op}: no other write to {did} was in progress')
                env.probe('err_contended')
                continue
        elif op.kind in WRITES:
            path = None
            if op.kind == 'deleteRecord' and not mine:
                path = f'{op.args["collection"]}/{op.args["rkey"]}'
                match = lambda i: path not in contents[i]
                env.probe('noop_delete')
            else:
                env.check(mine, 'acknowledged write lost', lambda:
                          f'{op} is not in the history')
                env.check(mine[0] > low, 'out of order', lambda:
                          f'{op} is commit {mine[0]} of {did}, but {low} had been seen before it '
                          f'began')
                if op.kind != 'deleteRecord':
                    a = op.args
                    path = (f'{a["collection"]}/{a["rkey"]}' if 'rkey' in a else
                            chain[mine[0]].ops[0][1])
                    want = {'uri': f'at://{did}/{path}', 'cid': oracles.rec_cid(op.args['record'])}
                    env.check(op.res == want, 'wrong response', lambda: f'{op}: {want}')
                done.append((op.ret, mine[0]))
                env.probe(op.kind)
                continue
        else:
            match = reader(truth, did, op, contents)
            env.probe(op.kind)
        fit = [i for i in range(low, high + 1) if match(i)]
        env.check(fit, 'not linearizable', lambda:
                  f'{op}: no state of {did} from commit {low} ({chain[low].cid}: '
                  f'{oracles.fmt(contents[low])}, the last one seen before it began) to {high} '
                  f'({chain[high].cid}: {oracles.fmt(contents[high])}, the last before it '
                  f'returned) gives this answer')
        done.append((op.ret, fit[0]))
        env.probe('concurrent_states', high > low)


def as_json(truth, cid):
    return json.loads(dag_json.encode(truth.blocks[cid].obj, dialect='atproto'))


def reader(truth, did, op, contents):
    a = op.args

    def rec(path, cid):
        return {'uri': f'at://{did}/{path}', 'cid': cid, 'value': as_json(truth, cid)}

    if op.kind == 'getRecord':
        path = f'{a["collection"]}/{a["rkey"]}'
        return lambda i: path in contents[i] and op.res == rec(path, contents[i][path])
    if op.kind == 'describeRepo':
        return lambda i: (set(op.res['collections']) == {p.split('/')[0] for p in contents[i]}
                          and op.res['did'] == did)

    def page(i):
        start = a.get('cursor') or f'{a["collection"]}/'
        paths = [p for p in sorted(contents[i]) if p.startswith(f'{a["collection"]}/')
                 and p >= start][:a['limit']]
        want = {'records': [rec(p, contents[i][p]) for p in paths]}
        if len(paths) == a['limit']:
            want['cursor'] = paths[-1]
        return op.res == want
    return page
