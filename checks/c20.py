"""C20: only authorised, supported requests take effect."""
import os

from lexrpc.base import XrpcError

from sim import archive, boot, model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from arroba import util, xrpc_repo

from . import c01, common

REAL = c01.REAL + ['arroba.server.auth', 'arroba.xrpc_repo', 'arroba.xrpc_server',
                   'arroba.xrpc_sync.getRepo', 'lexrpc.Server.call', 'flask request contexts']
STUB = c01.STUB + ['HTTP transport (handlers are called through lexrpc in a Flask request context)',
                   'DID documents over HTTP']
ASSUMPTIONS = ['a token changes in all processes at once']
PREEMPT = world.PREEMPT + ('arroba.server', 'arroba.xrpc_repo', 'arroba.xrpc_sync',
                           'arroba.xrpc_server')
HOUR = 3600 * NS
GATE = 12 * HOUR
TOKENS = ['sim-token', 'second-token', 'sim', 'third token']
WRITES = ['createRecord', 'putRecord', 'deleteRecord', 'importRepo', 'applyWrites', 'uploadBlob']
READS = ['getRecord', 'listRecords', 'describeRepo', 'getRepo', 'getCheckout', 'getHead']


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env, faults=ch.pick('cfg.faults', [False, True]))
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']), preempt=PREEMPT)
    names = ['f0', 'f1'][:1 + ch.draw('cfg.nodes', 2)]
    crash = ch.pick('cfg.crash', [0, 0, 1])
    nclients = 1 + ch.draw('cfg.clients', 4)
    rotate = ch.pick('cfg.rotate', [0, 0, 1])
    util.DISABLE_GETREPO = ch.pick('cfg.gate', [False, True])
    util.GETREPO_TOKEN = ch.pick('cfg.gate_token', [None, 'bulk-token', ''])
    hours = ch.pick('cfg.hours', [0, 0, 4, 9]) if not util.DISABLE_GETREPO else \
        ch.pick('cfg.gated_hours', [0, 2, 4, 9])
    supported = ch.pick('cfg.supported', [None, None, ['com.example.foo'],
                                          ['com.example.foo', 'app.example.zed']])
    xrpc_repo.SUPPORTED_COLLECTIONS = frozenset(supported or ())
    start = ch.pick('cfg.token', [TOKENS[0], TOKENS[0], TOKENS[3], None, ''])
    tokens = [(0, start)]            # (since, token)
    dids, created, allocated, sent = [], {}, {}, {}
    archives = {}

    def set_token(token):
        os.environ.pop('REPO_TOKEN', None)
        if token is not None:
            os.environ['REPO_TOKEN'] = token

    def rotator():
        for _ in range(1 + ch.draw('rot.n', 3)):
            k.sleep(ch.sub('rot.after', (hours or 1) * HOUR if hours else 3 * NS))
            token = ch.pick('rot.token', TOKENS + [None])
            set_token(token)
            tokens.append((k.now, token))
            k.ev('token', token)

    def during(op):
        end = op.t1 if op.state != 'open' else k.now
        out = []
        for i, (t, token) in enumerate(tokens):
            until = tokens[i + 1][0] if i + 1 < len(tokens) else None
            if t <= end and (until is None or until >= op.t0):
                out.append(token)
        return out

    def watch(node):
        real = node.storage.sequences.allocate

        def allocate(nsid):
            seq = real(nsid)
            allocated.setdefault(k.me().id, []).append(seq)
            return seq
        node.storage.sequences.allocate = allocate

    def header(st):
        """An Authorization header, None for none."""
        cur = tokens[-1][1]
        how = ch.wpick(f'{st}.header', [
            (8, 'current'), (3, 'none'), (2, 'other'), (1, 'empty'), (1, 'no scheme'),
            (1, 'longer'), (1, 'shorter'), (1, 'case'), (1, 'None'), (1, 'basic'), (1, 'bulk')])
        c = cur or ''
        return {'current': f'Bearer {c}', 'none': None, 'empty': '', 'no scheme': c,
                'other': f'Bearer {ch.pick(f"{st}.which", TOKENS)}', 'longer': f'Bearer {c}x',
                'shorter': f'Bearer {c[:-1]}', 'case': f'Bearer {c.upper()}',
                'None': 'Bearer None', 'basic': f'Basic {c}', 'bulk': 'Bearer bulk-token'}[how]

    def upload(st):
        i = len(archives)
        did = f'did:web:up{i}.test'
        ar = archives[did] = archive.Archive(did, key_for(5), {
            f'com.example.foo/u{i}': {'$type': 'com.example.foo', 'n': i}})
        return did, ar.car()

    def client(i):
        st = f'c{i}'
        g = common.Gen(env, st, nkeys=5)
        for j in range(2 + ch.draw(f'{st}.n', 10)):
            if hours and ch.chance(f'{st}.wait', 0.4):
                k.sleep(ch.sub(f'{st}.hours', hours * HOUR))
            one(st, g, j)

    def one(st, g, j):
        did = ch.pick(f'{st}.did', dids)
        kind = ch.pick(f'{st}.kind', WRITES[:3] + WRITES + READS + ['getSession', 'refreshSession'])
        coll, rkey = g.key()
        auth = header(st)
        inp, params = {}, {}
        refuse = None                 # why it has to be refused whoever asks
        if kind in ('createRecord', 'putRecord', 'deleteRecord', 'applyWrites'):
            inp = {'repo': did, 'collection': coll, 'rkey': rkey}
            if kind == 'applyWrites':
                inp = {'repo': did, 'writes': []}
            elif kind != 'deleteRecord':
                inp['record'] = {**g.rec(), '$type': coll}
                inp['record']['by'] = f'{st}.{j}'
            if supported and coll not in supported and kind != 'applyWrites':
                refuse = 'unsupported collection'
            bad = ch.wpick(f'{st}.bad', [(12, None), (1, 'swapCommit'), (1, 'swapRecord'),
                                         (1, 'repo'), (1, 'unknown')])
            if bad in ('swapCommit', 'swapRecord') and kind != 'applyWrites':
                inp[bad] = model.cid_str(b'x')
                refuse = bad
            elif bad == 'repo':
                inp['repo'] = ''
                refuse = 'no repo'
            elif bad == 'unknown':
                inp['repo'] = 'did:plc:unknown'
                refuse = 'unknown repo'
        elif kind == 'importRepo':
            did, inp = upload(st)
        elif kind == 'uploadBlob':
            inp = b'blob'
        elif kind == 'getRecord':
            params = {'repo': did, 'collection': coll, 'rkey': rkey}
        elif kind == 'listRecords':
            params = {'repo': did, 'collection': coll}
        elif kind == 'describeRepo':
            params = {'repo': did}
        elif kind in ('getRepo', 'getCheckout', 'getHead'):
            params = {'did': did}
            if ch.chance(f'{st}.internal', 0.3):
                params['internal'] = ch.pick(f'{st}.intval', ['true', True, '1'])
        ns = 'sync' if kind in ('getRepo', 'getCheckout', 'getHead') else \
            'server' if kind.endswith('Session') else 'repo'
        op = w.xrpc(ch.pick(f'{st}.node', names), f'com.atproto.{ns}.{kind}', inp,
                    headers={'Authorization': auth} if auth is not None else {}, **params)
        op.extra.update(auth=auth, refuse=refuse, did=did, input=inp, coll=coll)
        sent[op.task] = op

    def main():
        set_token(start)
        w.on_start = watch
        for n in names:
            w.start(n)
        was, k.faults_on = k.faults_on, False
        for i in range(2):
            op = w.create_repo('f0', i)
            assert op.state == 'ok', op.exc
            dids.append(op.args[0])
            created[op.args[0]] = op
            if i == 0 and hours:
                k.sleep(ch.sub('setup.gap', hours * HOUR))
        docs = {f'did:web:up{i}.test': archive.did_doc(f'did:web:up{i}.test', key_for(5), f'u{i}.test')
                for i in range(60)}
        boot.http_handler = archive.serve_docs(docs)
        k.faults_on = was
        if crash and not hours:      # the supervisor polls
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        if rotate:
            k.spawn(rotator, 'rotator', daemon=True)
        w.all_ok([k.spawn(lambda i=i: client(i), f'client{i}') for i in range(nclients)])
        w.quiesce()
        k.sleep(2 * NS)
        judge()

    def judge():
        by_task = {}
        for ts, t, name, tid, paths, tx in w.ds.log:
            by_task.setdefault(tid, []).extend(paths)
        allowed = {}                  # did => record cids that authorised requests may have written
        for op in sent.values():
            toks = [t for t in during(op)]
            good = [bool(t) and op.extra['auth'] == f'Bearer {t}' for t in toks]
            effects = by_task.get(op.task, []), allocated.get(op.task, [])
            if op.kind in WRITES or op.kind.endswith('Session'):
                why = op.extra['refuse'] or (None if any(good) else 'not authorised')
                if why:
                    env.probe(f'refused_{why}')
                    env.check(op.state != 'ok', 'accepted', lambda:
                              f'{op} succeeded, although: {why}; it sent {op.extra['auth']!r}, the token was '
                              f'{toks}')
                    env.check(not any(effects), 'refused request had an effect', lambda:
                              f'{op} ({why}; sent {op.extra['auth']!r}, token {toks}) wrote {effects[0]}, '
                              f'took numbers {effects[1]}')
                else:
                    if op.kind in ('createRecord', 'putRecord'):
                        allowed.setdefault(op.extra['did'], set()).add(
                            (op.extra['coll'], oracles.rec_cid(op.extra['input']['record'])))
                    if all(good) and op.state == 'err' and op.kind in WRITES[:4]:
                        env.check(world.indefinite(op.exc) or 'bearer' not in str(op.exc)
                                  and not isinstance(op.exc, NotImplementedError),
                                  'authorised request refused', lambda: f'{op}: {op.exc!r}')
                    if all(good):
                        env.probe('authorised')
                    if op.state == 'ok':
                        env.probe(f'ok_{op.kind}')
            else:
                env.check(not effects[0] and not effects[1], 'read had an effect', lambda:
                          f'{op}: {effects}')
                if op.state == 'err':
                    env.check('bearer' not in str(op.exc), 'public read refused', lambda:
                              f'{op}: {op.exc!r}')
            if op.kind in ('getRepo', 'getCheckout') and op.state != 'open':
                made = created[op.extra['did']]
                bulk = util.GETREPO_TOKEN and op.extra['auth'] == f'Bearer {util.GETREPO_TOKEN}'
                maybe = util.GETREPO_TOKEN and op.extra['auth'] and util.GETREPO_TOKEN in op.extra['auth']
                closed = util.DISABLE_GETREPO and op.t0 - made.t1 > GATE
                if closed and not maybe:
                    env.probe('gate_closed')
                    env.check(op.state != 'ok', 'export while disabled', lambda:
                              f'{op} sent {op.extra['auth']!r}; repo is {(op.t0 - made.t1) / HOUR:.1f} h old')
                elif bulk or not util.DISABLE_GETREPO or op.t1 - made.t0 < GATE:
                    env.probe('gate_open')
                    env.check(not isinstance(op.exc, NotImplementedError), 'export refused', lambda:
                              f'{op} sent {op.extra['auth']!r}; repo is {(op.t1 - made.t0) / HOUR:.1f} h old: '
                              f'{op.exc!r}')
        # nothing is in the repos that nobody was allowed to write
        truth = oracles.Truth(w)
        for did in dids:
            content = truth.content(model.s(truth.blocks[truth.repos[did][0]].obj['data']))
            for path, cid in content.items():
                env.check((path.split('/')[0], cid) in allowed.get(did, ()), 'unauthorised record',
                          lambda: f'{did} has {path} {truth.blocks[cid].obj}')
        for did in truth.repos:
            if did not in dids:
                env.check(any(o.kind == 'importRepo' and o.extra['did'] == did and any(
                    t and o.extra['auth'] == f'Bearer {t}' for t in during(o)) for o in sent.values()),
                    'unauthorised repo', lambda: did)

    k.run(main)
