"""C11: all storage backends behave the same."""
import collections
import json

from google.api_core import exceptions as gexc
from multiformats import CID

import arroba.server as aserver
import arroba.storage as astorage
from arroba.repo import Repo, Write
from arroba.storage import Action, MemoryStorage

from sim import archive, boot, model, nodes, world
from sim.kernel import NS
from sim.world import COLL, World, key_for

from . import c01, common

REAL = c01.REAL + ['arroba.storage.MemoryStorage', 'arroba.xrpc_repo, xrpc_sync']
STUB = c01.STUB
ASSUMPTIONS = ['one client at a time; only faults that the datastore client hides (deferred keys, split '
               'queries, reordered results, aborted transactions, process restarts between requests)']
OUT = [f'com.example.absent{i}' for i in range(2)]


def plain(x):
    """Results as comparable plain data."""
    if isinstance(x, CID):
        return 'cid:' + x.encode('base32')
    if isinstance(x, astorage.Block):
        return ('block', len(x.encoded), plain({
                    a: b for a, b in x.decoded.items() if a in ('rev', 'prev', 'data', 'sig', 'e')}),
                plain(x.cid), x.seq, plain(x.ops or []), did_of(x.repo))
    if isinstance(x, astorage.CommitData):
        return ('commit', plain(x.commit), plain(x.prev),
                sorted((plain(c), plain(b)) for c, b in x.blocks.items()))
    if isinstance(x, astorage.CommitOp):
        return (x.action.name, x.path, plain(x.cid), plain(x.prev_cid))
    if isinstance(x, Repo):
        return plain_repo(x)
    if isinstance(x, dict):
        return {plain(k) if not isinstance(k, str) else k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [plain(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return 'bytes:' + bytes(x).hex()
    return x


def did_of(x):
    return x if x is None or isinstance(x, str) else x.id()


def plain_repo(r, full=True):
    out = {'did': r.did, 'head': plain(r.head), 'status': r.status}
    if full:
        if not r.did.startswith('did:web:imp'):    # whose keys are random
            out.update(signing=pub(r.signing_key), rotation=pub(r.rotation_key))
        out.update(handle=r.handle, version=r.version, root=plain(r.mst.get_pointer()),
                   contents={c: dict(rs) for c, rs in r.get_contents().items()})
    return plain(out)


def pub(key):
    return archive.did_key(key) if key else None


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env, preempt=False)
    cfg = world.swarm_ds(env, faults=False)
    cfg['batch'] = ch.pick('cfg.ds.batch2', [0, 1, 3, 20])
    cfg['abort'] = ch.pick('cfg.ds.abort', [0, 0.03, 0.1])
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']), preempt=None)
    boot.det_sign = True
    clock = [boot.BASE_WALL]
    boot.date_hook = lambda: clock[0]
    nsteps = 5 + ch.draw('cfg.steps', 25)
    restart = ch.pick('cfg.restart', [0, 0.1, 0.3])
    sticky = ch.pick('cfg.sticky_handle', [False, True])
    ndids = 1 + ch.draw('cfg.repos', 3)
    faults = ['ds_abort']
    dids = [f'did:plc:repo{i}' for i in range(ndids)]
    created, imported = set(), set()
    handle_of = {}
    handles = {'m': {}, 'f': {}}
    gens = {d: common.Gen(env, 'g', nkeys=ch.pick('cfg.keys', [4, 12, 40])) for d in dids}
    cids = []      # commit, node and record CIDs seen
    nhandles = [0]
    transient = [0]

    def start_f():
        handles['f'].clear()
        node = w.start('f0')
        return node

    def main():
        node = w.start('m0')
        node.storage = MemoryStorage()
        with nodes.as_node(k, node):
            aserver.storage = node.storage
        start_f()
        boot.http_handler = archive.serve_docs(
            {d: archive.did_doc(d, key_for(5), 'imp.test') for d in ['did:web:imp.test']})
        for i in range(nsteps):
            if restart and ch.chance('restart', restart):
                w.crash('f0')
                k.count('fault.crash')
                start_f()
            clock[0] += 1 + ch.draw('clock', 3) * NS
            step(i)
            if transient[0]:
                return
        for what in ['load_repos', 'events', 'blocks', 'listRepos']:
            both(what, FINAL[what], ())

    def both(name, fn, args):
        """Runs fn(storage, side) against both backends and compares."""
        res = []
        for side, node in (('m', 'm0'), ('f', 'f0')):
            box = []

            def run_(n):
                box.append(plain(fn(n.storage, side)))
            op = w.op(node, f'{side}.{name}', args, run_, ndb=side == 'f', flask_ctx=True)
            if op.state == 'err':
                if side == 'f' and world.indefinite(op.exc):
                    env.probe('transient')
                    transient[0] = 1
                    return None
                e = op.exc
                box = [('raised', type(e).__name__, getattr(e, 'name', None), str(e))]
            res.append(box[0])
        env.probe('compared')
        if isinstance(res[0], tuple) and res[0][0] == 'raised':
            env.probe('errors_compared')
        env.check(res[0] == res[1], f'differs: {name}', lambda:
                  f'{name}{args}: {differ(res[0], res[1])}')
        return res[0]

    def differ(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            for x in sorted(set(a) | set(b), key=str):
                if a.get(x) != b.get(x):
                    return f'[{x}] ' + differ(a.get(x), b.get(x))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return f'[{i}] ' + differ(x, y)
        return f'memory {str(a)[:300]} datastore {str(b)[:300]}'

    def load(st, side, did):
        if sticky and did in handles[side]:
            return handles[side][did]
        r = handles[side][did] = st.load_repo(did)
        return r

    def x(nsid, input=None, **params):
        return lambda st, side: aserver.server.call(
            nsid, input if isinstance(input, bytes) else dict(input or {}), **params)

    def learn(r):
        def rec(v):
            if isinstance(v, str) and v.startswith('cid:'):
                if v[4:] not in seen:
                    seen.add(v[4:])
                    cids.append(v[4:])
            elif isinstance(v, dict):
                for a, b in v.items():
                    rec(a), rec(b)
            elif isinstance(v, (list, tuple)):
                for b in v:
                    rec(b)
        rec(r)
    seen = set()
    ABSENT = [model.cid_str(b'%d' % i) for i in range(3)]

    def some_cids():
        n = ch.draw('ncids', 6)
        out = []
        for _ in range(n):
            if cids and not ch.chance('absent', 0.2):
                out.append(cids[ch.draw('cid', len(cids))])
            else:
                out.append(ABSENT[ch.draw('absent_cid', 3)])
        return list(dict.fromkeys(out))

    def events(start=0, repo=None):
        def f(st, side):
            out = []
            for e in st.read_events_by_seq(start=start, repo=repo):
                out.append(e)
            return out
        return f

    def by_seq(start=0, repo=None):
        def f(st, side):
            return sorted((b.seq, plain(b)) for b in st.read_blocks_by_seq(start=start, repo=repo))
        return f

    FINAL = {
        'load_repos': lambda st, side: [plain_repo(r) for r in st.load_repos()],
        'events': events(),
        'blocks': by_seq(),
        'listRepos': x('com.atproto.sync.listRepos'),
    }

    def step(i):
        if len(created) < len(dids) and (not created or ch.chance('create', 0.2)):
            did = dids[len(created)]
            n = len(created)
            created.add(did)
            hd = handle_of[did] = ch.pick('handle', [f'h{n}.test', None])
            rot = ch.pick('rot', [True, False])
            both('create', lambda st, side: Repo.create(
                st, did, signing_key=key_for(n), rotation_key=key_for(n) if rot else None,
                handle=hd), (did,))
            return
        did = dids[ch.draw('did', len(created))] if not ch.chance('unknown', 0.05) \
            else 'did:plc:unknown'
        who = handle_of.get(did) if handle_of.get(did) and ch.chance('byhandle', 0.15) else did
        known = did in created
        g = gens.get(did) or next(iter(gens.values()))
        key = g.key()
        acts = ['commit'] * 6 + ['put', 'put', 'delete', 'get', 'list', 'list', 'reads', 'reads',
                                 'log', 'log', 'load', 'status', 'repos', 'sync', 'sync', 'bad',
                                 'event', 'import', 'rename', 'seq']
        act = ch.pick('act', acts)
        if act == 'commit' and known:
            writes = g.writes(ch.pick('maxn', [1, 4, 12]), blind=0.05)
            r = both('commit', lambda st, side: st.commit(load(st, side, did), [
                Write(getattr(Action, a.upper()), c, rk, rec) for a, c, rk, rec in writes]),
                (did, writes))
            learn(r)
            if not (isinstance(r, tuple) and r and r[0] == 'raised'):
                g.learn(writes)
        elif act == 'bad' and known:
            kind = ch.pick('bad', ['toomany', 'toobig', 'dup', 'badrkey', 'none', 'single', 'empty',
                                   'invalid'])
            rec = g.rec()
            wr = lambda n, rk, r=rec: [Write(Action.CREATE, COLL, rk or f'b{i}x{j}', r)
                                       for j in range(n)]
            ws = {'toomany': lambda: wr(astorage.MAX_OPERATIONS_PER_COMMIT + 1, None),
                  'toobig': lambda: wr(1, None, {'$type': COLL, 'x': 'x' * (
                      astorage.MAX_RECORD_SIZE_BYTES + 1)}),
                  'dup': lambda: wr(2, 'same'),
                  'badrkey': lambda: wr(1, 'sl/ash'),
                  'none': lambda: wr(1, None, None),
                  'single': lambda: wr(1, None)[0],
                  'empty': lambda: [],
                  'invalid': lambda: wr(1, None, {'$type': 'app.bsky.feed.post', 'text': 3}),
                  }[kind]()
            learn(both('commit', lambda st, side: st.commit(load(st, side, did), ws),
                       (did, kind)))
        elif act == 'put':
            both('put', x('com.atproto.repo.putRecord', {
                'repo': who, 'collection': key[0], 'rkey': key[1], 'record': g.rec()}),
                (who, key))
        elif act == 'delete':
            both('delete', x('com.atproto.repo.deleteRecord', {
                'repo': who, 'collection': key[0], 'rkey': key[1]}), (who, key))
        elif act == 'get':
            both('get', x('com.atproto.repo.getRecord', repo=who, collection=key[0], rkey=key[1]),
                 (who, key))
        elif act == 'list':
            lim = ch.pick('limit', [50, 1, 2, 3])
            cur = ch.pick('cursor', [None, f'{key[0]}/{key[1]}', f'{key[0]}/'])
            kw = {'cursor': cur} if cur else {}
            both('list', x('com.atproto.repo.listRecords', repo=who, collection=key[0], limit=lim,
                           **kw), (who, key[0], lim, cur))
        elif act == 'reads':
            cs = some_cids()
            objs = [model.to_cid(c) for c in cs]
            how = ch.pick('how', ['read', 'many', 'raw', 'has', 'getBlocks'])
            fn = {
                'read': lambda st, side: [st.read(c) for c in objs],
                'many': lambda st, side: sorted(
                    (plain(c), plain(b)) for c, b in st.read_many(objs).items()),
                'raw': lambda st, side: sorted(
                    (plain(c), plain(v)) for c, v in st.read_many_raw(
                        [bytes(c) for c in objs]).items() if v),
                'has': lambda st, side: [st.has(c) for c in objs],
                'getBlocks': x('com.atproto.sync.getBlocks', did=who, cids=cs),
            }[how]
            both(how, fn, (cs,))
        elif act == 'log':
            last = w.ds_last_seq()
            start = ch.draw('start', last + 2)
            repo = ch.pick('repo', [None, did])
            if ch.chance('rawlog', 0.4):
                both('blocks', by_seq(start, repo), (start, repo))
            else:
                learn(both('events', events(start, repo), (start, repo)))
        elif act == 'load':
            both('load', lambda st, side: (lambda r: r and plain_repo(r))(st.load_repo(who)), (who,))
        elif act == 'status' and known:
            kind = ch.pick('kind', ['deactivate', 'activate', 'activate', 'tombstone'])
            if kind == 'tombstone' and not ch.chance('really', 0.3):
                kind = 'activate'
            both(kind, lambda st, side: getattr(st, f'{kind}_repo')(load(st, side, did)), (did,))
        elif act == 'repos':
            lim = ch.pick('limit', [500, 1, 2])
            after = ch.pick('after', [None] + dids)
            mini = ch.chance('minimal', 0.3)
            both('load_repos', lambda st, side: [
                plain_repo(r, full=not mini)
                for r in st.load_repos(after=after, limit=lim, minimal=mini)], (after, lim, mini))
            kw = {'cursor': after} if after else {}
            both('listRepos', x('com.atproto.sync.listRepos', limit=lim, **kw), (after, lim))
        elif act == 'sync':
            what = ch.pick('what', ['getRepo', 'getRepo', 'getLatestCommit', 'getHead',
                                    'getRepoStatus', 'getRecord', 'getCheckout', 'describeRepo',
                                    'createSession'])
            kw = {'did': did}
            nsid = f'com.atproto.sync.{what}'
            input = None
            if what == 'getRecord':
                kw.update(collection=key[0], rkey=key[1])
            elif what == 'describeRepo':
                nsid, kw = 'com.atproto.repo.describeRepo', {'repo': who}
            elif what == 'createSession':
                nsid, kw = 'com.atproto.server.createSession', {}
                input = {'identifier': who, 'password': 'x'}
            call = x(nsid, input, **kw)

            def fn(st, side):
                r = call(st, side)
                if isinstance(r, bytes) and what.startswith('get'):
                    roots, blocks = model.read_car(r)
                    # the order of blocks in an archive is not part of the result
                    return [roots, sorted(blocks)]
                return r
            both(what, fn, (did,))
        elif act == 'event' and known:
            kind = ch.pick('event', ['account', 'identity', 'sync'])
            both('event', lambda st, side: st.write_event(
                load(st, side, did), kind, **{'account': {'active': True},
                                              'identity': {'handle': 'x.test'},
                                              'sync': {'rev': 'x', 'blocks': b'x'}}[kind]),
                 (did, kind))
        elif act == 'import':
            idid = 'did:web:imp.test'
            if imported and ch.chance('again', 0.7):
                both('load', lambda st, side: st.load_repo(idid).get_contents(), (idid,))
                return
            bad = ch.pick('import', [False, False, True])
            ar = archive.Archive(idid, key_for(5 - bad), {
                f'{COLL}/k{j}': {'$type': COLL, 'same': j} for j in range(ch.draw('nimp', 4))})
            r = both('import', x('com.atproto.repo.importRepo', ar.car()), (idid, bad))
            if r is None:
                imported.add(idid)
        elif act == 'rename' and known:
            nhandles[0] += 1
            hd = ch.pick('newhandle', [f'new{nhandles[0]}.test', None])

            def fn(st, side):
                r = handles[side][did] = st.load_repo(did)
                r.handle = hd
                st.store_repo(r)
            handle_of[did] = hd
            both('rename', fn, (did, hd))
        elif act == 'seq':
            both('last', lambda st, side: st.sequences.last(astorage.SUBSCRIBE_REPOS_NSID), ())

    k.run(main)
