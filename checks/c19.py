"""C19: a failed operation leaves no trace."""
from sim import boot, model, nodes, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

import arroba.server as aserver
import arroba.storage as astorage
from arroba.repo import Repo, Write
from arroba.storage import Action, MemoryStorage

from . import c01, common

REAL = c01.REAL + ['arroba.storage.MemoryStorage', 'lexicon validation']
STUB = c01.STUB
ASSUMPTIONS = ['one client at a time per repo; the application callback does not raise']


def bad_writes(ch, st, g, present, absent):
    """A commit that must be rejected: some valid writes plus one bad one, anywhere."""
    good = []
    for i in range(ch.draw(f'{st}.good', 4)):
        good.append(('create', 'com.example.foo', f'fresh{g.n}x{i}', g.rec()))
    for p in present[:ch.draw(f'{st}.mod', 3)]:
        coll, rkey = p.split('/')
        good.append(ch.pick(f'{st}.modk', [('update', coll, rkey, g.rec()),
                                           ('delete', coll, rkey, None)]))
    kind = ch.pick(f'{st}.bad', ['missing_update', 'missing_delete', 'dup_create', 'bad_key',
                                 'bad_record', 'too_many', 'too_big', 'twice', 'unencodable',
                                 'inactive'])
    if kind == 'dup_create' and not present:
        kind = 'missing_delete'
    used = {w[1:3] for w in good}
    if kind == 'missing_update':
        bad = [('update', 'com.example.foo', 'nope', g.rec())]
    elif kind == 'missing_delete':
        bad = [('delete', 'com.example.foo', 'nope', None)]
    elif kind == 'dup_create':
        coll, rkey = ch.pick(f'{st}.dup', present).split('/')
        good = [w for w in good if w[1:3] != (coll, rkey)]
        bad = [('create', coll, rkey, g.rec())]
    elif kind == 'bad_key':
        bad = [('create', 'com.example.foo', ch.pick(f'{st}.badkey', ['a b', 'x/y', '', 'é',
                                                                      'k' * 300]), g.rec())]
    elif kind == 'bad_record':
        bad = [('create', 'app.bsky.feed.like', 'k', {'$type': 'app.bsky.feed.like',
                                                      'subject': 3})]
    elif kind == 'unencodable':
        bad = [('create', 'com.example.foo', 'k', {'$type': 'com.example.foo',
                                                   'x': boot._dt.timedelta(1)})]
    elif kind == 'inactive':
        bad = [('create', 'com.example.foo', f'fine{g.n}', g.rec())]
    elif kind == 'too_many':
        bad = [('create', 'com.example.foo', f'many{i}', {'$type': 'com.example.foo', 'n': 1})
               for i in range(astorage.MAX_OPERATIONS_PER_COMMIT + 1)]
    elif kind == 'too_big':
        bad = [('create', 'com.example.foo', 'big',
                {'$type': 'com.example.foo', 'x': 'x' * 1_000_001})]
    else:
        bad = [('create', 'com.example.foo', 'twice', g.rec()),
               ('create', 'com.example.foo', 'twice', g.rec())]
    at = ch.draw(f'{st}.at', len(good) + 1)
    return kind, good[:at] + bad + good[at:]


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    memory = ch.pick('cfg.backend', ['memory', 'datastore', 'datastore'])  == 'memory'
    faults = not memory and ch.pick('cfg.faults', [False, True, True])
    cfg = world.swarm_ds(env, faults=faults)
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    did = 'did:plc:repo0'
    other = ch.pick('cfg.other', [False, True]) and not memory
    allocated = {}     # task id -> [seq]
    losts = {}         # task id -> [seq]

    def watch(storage):
        real = storage.sequences.allocate

        def allocate(nsid):
            seq = real(nsid)
            allocated.setdefault(k.me().id, []).append(seq)
            return seq
        storage.sequences.allocate = allocate

    def cb(data=None, lost_seq=None):
        if lost_seq is not None:
            losts.setdefault(k.me().id, []).append(lost_seq)

    def shot(node, handle):
        """Everything visible about the repo through its handle."""
        return {
            'head': handle.head.cid.encode('base32'),
            'status': handle.status,
            'root': handle.mst.get_pointer().encode('base32'),
            'records': {f'{c}/{r}': oracles.rec_cid(v)
                        for c, rs in handle.get_contents().items() for r, v in rs.items()},
        }

    def shot_storage(node):
        repo = node.storage.load_repo(did)
        d = shot(node, repo)
        d['log'] = [e for e in common.read_events(node, start=1) if e[3] == did]
        d['blocks'] = (len(node.storage.blocks) if memory else
                       sum(1 for b in oracles.Truth(w).blocks.values()
                           if b.repo == did))
        return d

    def main():
        node = w.start('f0')
        if memory:
            node.storage = MemoryStorage()
            with nodes.as_node(k, node):
                aserver.storage = node.storage
        watch(node.storage)
        k.faults_on = False
        op = w.create_repo('f0', 0)
        if op.exc:
            raise op.exc
        if other:
            w.create_repo('f0', 1)
        k.faults_on = True
        box = {}
        op = w.op('f0', 'load', (did,), lambda node: box.update(h=node.storage.load_repo(did)))
        while op.state != 'ok':
            op = w.op('f0', 'load', (did,), lambda node: box.update(h=node.storage.load_repo(did)))
        handle = box['h']
        handle.callback = cb
        content = {}
        stop = []

        def busy():
            """Another client on another repo: shares the sequence and the datastore."""
            n = 0
            while not stop and n < 8:
                n += 1
                w.commit('f0', 'did:plc:repo1', [('create', 'com.example.foo', f'b{n}',
                                                  world.record(n))])

        def quiet(kind, fn):
            was, k.faults_on = k.faults_on, False
            op = w.op('f0', kind, (), fn)
            k.faults_on = was
            if op.exc:
                raise op.exc
            return op.res

        t = k.spawn(busy, 'busy') if other else None
        g = common.Gen(env, 'c')
        for j in range(2 + ch.draw('c.n', 8)):
            present = sorted(content)
            if ch.chance('c.bad', 0.5):
                kind, writes = bad_writes(ch, 'c', g, present, [])
            else:
                kind = 'good'
                g.believed = {tuple(p.split('/')) for p in content}
                writes = g.writes(blind=0.0)
            want = 'ok' if kind == 'good' else 'err'
            if kind == 'inactive':
                quiet('deactivate', lambda node: node.storage.deactivate_repo(handle))
            before = quiet('shot', lambda node: (shot(node, handle), shot_storage(node)))
            shown = [(a, c, r[:20], str(v)[:40]) for a, c, r, v in writes[:6]]

            def fn(node):
                return node.storage.commit(handle, [
                    Write(getattr(Action, a.upper()), c, r, v) for a, c, r, v in writes]
                ).commit.cid.encode('base32')
            op = w.op('f0', f'commit-{kind}', (shown,), fn)
            alloc, lost = allocated.get(op.task, []), losts.get(op.task, [])
            env.check(len(set(lost)) == len(lost), 'lost twice', lambda: f'{op}: {lost}')
            unknown = op.state == 'err' and world.indefinite(op.exc) and \
                (w.ds.ambiguous.get(op.task))
            if op.state == 'err' and not unknown:
                env.probe(f'failed_{kind}' if not world.indefinite(op.exc) else 'storage_error')
                env.check(kind != 'good' or world.indefinite(op.exc), 'valid commit refused',
                          lambda: f'{op}')
                env.check(sorted(alloc) == sorted(lost), 'lost seq not reported', lambda:
                          f'{op} consumed seqs {alloc}, reported lost: {lost}')
                after = quiet('shot', lambda node: (shot(node, handle), shot_storage(node)))
                for a, b, whose in zip(before, after, ('handle', 'storage')):
                    for f in a:
                        env.check(a[f] == b[f], f'failed operation changed {f}', lambda:
                                  f'{op}: {f} as seen through the {whose} was {a[f]}, '
                                  f'is {b[f]}')
            elif op.state == 'ok':
                env.check(want == 'ok', 'bad commit accepted', lambda: f'{op}')
                env.probe('good')
                content = oracles.apply_writes(content, writes)
                after = quiet('shot', lambda node: (shot(node, handle), shot_storage(node)))
                for x, whose in zip(after, ('handle', 'storage')):
                    env.check(x['records'] == content, 'wrong content after success', lambda:
                              f'{op}: {whose} has {x["records"]}, expected {content}')
                    env.check(x['head'] == op.res, 'wrong head after success', lambda:
                              f'{op}: {whose} has head {x["head"]}')
                env.check(sorted(lost) == sorted(alloc)[:-1], 'used seq reported lost', lambda:
                          f'{op} consumed {alloc}, reported lost {lost}')
            else:
                # outcome unknown to the caller: see which it was
                env.probe('unknown')
                after = quiet('shot', lambda node: shot_storage(node))
                content = after['records']
            if kind == 'inactive':
                env.check(isinstance(op.exc, astorage.InactiveRepo) or world.indefinite(op.exc),
                          'commit to inactive repo', lambda: f'{op}')
                quiet('activate', lambda node: node.storage.activate_repo(handle))
        stop.append(1)
        if t:
            k.join(t)

    k.run(main)
