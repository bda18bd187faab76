"""C18: a repo's tree is canonical and fully readable for every history."""
import contextlib

from sim import boot, model, nodes, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

import arroba.server as aserver
from arroba.repo import Write
from arroba.storage import Action, MemoryStorage

from . import c01, common

REAL = c01.REAL + ['arroba.mst', 'arroba.storage.MemoryStorage', 'arroba.xrpc_repo.listRecords',
                   'arroba.xrpc_repo.getRecord']
STUB = c01.STUB
ASSUMPTIONS = ['one client at a time per repo', 'listRecords cursors are inclusive (documented)']

COLLS = ['com.example.foo', 'com.example.foobar', 'com.example.foo.bar', 'com.example.a']


def apply_all(content, writes):
    """Like oracles.apply_writes."""
    return oracles.apply_writes(content, writes)


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    memory = ch.pick('cfg.backend', ['memory', 'datastore', 'datastore']) == 'memory'
    faults = not memory and ch.pick('cfg.faults', [False, True, True])
    w = World(env, ds=world.swarm_ds(env, faults=faults), mc=world.swarm_mc(env, errors=False),
              preempt=None)
    crash = faults and ch.pick('cfg.crash', [0, 1])
    nrepos = ch.pick('cfg.repos', [1, 1, 2])
    keep = ch.pick('cfg.keep', [0, 1])         # one handle throughout, or a fresh one each time
    g = common.Gen(env, 'c')
    # a run uses a few dozen keys, with layers as its swarm says
    space = common.key_space(env, ch.pick('cfg.space', [3, 6, 12, 40, 150]))
    dids = [f'did:plc:repo{i}' for i in range(nrepos)]
    content = {d: {} for d in dids}
    handles = {}

    def gen_writes(did):
        cur = dict(content[did])
        style = ch.pick('c.style', ['few', 'few', 'few', 'many', 'wipe', 'churn', 'refill'])
        out = []

        def add(coll, rkey, act=None):
            path = f'{coll}/{rkey}'
            if act is None:
                act = ch.pick('c.act', ['update', 'delete']) if path in cur else 'create'
            if act == 'delete':
                out.append(('delete', coll, rkey, None))
                cur.pop(path, None)
            else:
                r = g.rec()
                out.append((act, coll, rkey, r))
                cur[path] = oracles.rec_cid(r)
        if style == 'wipe':
            for p in sorted(cur)[:200]:
                add(*p.split('/'), 'delete')
            for _ in range(ch.draw('c.rewrite', 3)):
                add(*space[ch.draw('c.key', len(space))])
        elif style == 'refill':
            for c, r in space[:199]:
                if f'{c}/{r}' not in cur:
                    add(c, r, 'create')
        else:
            n = {'few': 3, 'many': 60, 'churn': 8}[style]
            few = space if style != 'churn' else space[:3]
            for _ in range(1 + ch.draw('c.nw', n)):
                add(*few[ch.draw('c.key', len(few))])
        if ch.chance('c.bad', 0.08):
            coll, rkey = space[0]
            out.append(('update' if f'{coll}/{rkey}' not in cur else 'create', coll, rkey, g.rec()))
        return out

    @contextlib.contextmanager
    def calm():
        was, k.faults_on = k.faults_on, False
        node = w.wait_up('f0')
        at, node.crash_at_rpc = node.crash_at_rpc, None
        n0 = node.rpc_count
        yield
        k.faults_on = was
        if at:
            node.crash_at_rpc = (at[0] + node.rpc_count - n0, at[1])

    def quiet(name, kind, fn):
        with calm():
            op = w.op(name, kind, (), fn)
        if op.exc:
            raise op.exc
        return op.res

    def getter(node):
        if memory:
            return lambda c: (lambda b: b and b.encoded)(node.storage.blocks.get(model.to_cid(c)))
        return oracles.Truth(w).get

    def full_check(did):
        name = 'f0' if memory else ch.pick('v.node', ['f0', 'f1'])
        want = content[did]
        root, tree = model.build(want)
        depth = max((model.layer(p) for p in want), default=0)
        env.probe('checked')
        env.extra['depth'] = max(env.extra.get('depth', 0), depth)
        env.extra['records'] = max(env.extra.get('records', 0), len(want))
        # everything is stored
        get = getter(w.nodes['f0'])
        for c, data in tree.items():
            env.check(get(c) == data, 'tree node not stored', lambda: f'{did}: node {c}')
        for p, c in want.items():
            data = get(c)
            env.check(data is not None and model.cid_str(data) == c, 'record not stored', lambda:
                      f'{did}: {p} {c}')

        present = sorted(want)
        probes = [space[ch.draw('v.key', len(space))] for _ in range(4)]
        probes += [(COLLS[ch.draw('v.coll', 4)], f'zz{ch.draw("v.absent", 50)}')]
        lo, hi = [ch.pick('v.bound', [None] + [f'{c}/{r}' for c, r in probes]) for _ in range(2)]
        prefix = ch.pick('v.prefix', [COLLS[0], COLLS[0] + '/', COLLS[1] + '/k1', 'com.', 'nope'])

        def look(node, repo, whose):
            head = repo.head.decoded
            env.check(model.s(head['data']) == root, 'tree not canonical', lambda:
                      f'{did} ({whose}): data root {model.s(head["data"])}, canonical root of '
                      f'{oracles.fmt(want)} is {root}')
            env.check(model.s(repo.mst.get_pointer()) == root, 'tree not canonical', lambda:
                      f'{did} ({whose}): mst pointer {model.s(repo.mst.get_pointer())} vs {root}')
            got = {f'{c}/{r}': oracles.rec_cid(v) for c, rs in repo.get_contents().items()
                   for r, v in rs.items()}
            env.check(got == want, 'contents differ', lambda: f'{did} ({whose}): {got} vs {want}')
            keys = lambda leaves: [(l.key, model.s(l.value)) for l in leaves]
            items = sorted(want.items(), key=lambda i: i[0].encode())
            env.check(keys(repo.mst.leaves()) == items, 'leaves differ', lambda: f'{did} {whose}')
            env.check(repo.mst.leaf_count() == len(items), 'leaf count', lambda: f'{did} {whose}')
            for c, r in probes:
                path = f'{c}/{r}'
                rec = repo.get_record(c, r)
                env.check((rec and oracles.rec_cid(rec)) == want.get(path), 'lookup differs',
                          lambda: f'{did} ({whose}): {path} -> {rec}, expected {want.get(path)}')
                got = [model.s(x) for x in repo.mst.cids_for_path(path)]
                ids = [root] + path_nodes(tree, root, path)
                if path in want:
                    ids.append(want[path])
                env.check(got == ids, 'path differs', lambda:
                          f'{did} ({whose}): cids_for_path({path}) {got} vs {ids}')
            got = keys(repo.mst.list(after=lo, before=hi))
            exp = [i for i in items if (not lo or i[0] > lo) and (not hi or i[0] < hi)]
            env.check(got == exp, 'listing differs', lambda:
                      f'{did} ({whose}): list({lo}, {hi}): {got} vs {exp}')
            got = keys(repo.mst.list_with_prefix(prefix))
            exp = [i for i in items if i[0].startswith(prefix)]
            env.check(got == exp, 'prefix listing differs', lambda:
                      f'{did} ({whose}): {prefix}: {got} vs {exp}')

        def fresh(node):
            repo = node.storage.load_repo(did)
            look(node, repo, 'loaded')
            blocks = [(model.s(c), bytes(b)) for c, b in repo.mst.load_all()]
            got = dict(blocks)
            exp = set(tree) | set(want.values())
            env.check(set(got) == exp, 'load_all differs', lambda:
                      f'{did}: extra {set(got) - exp} missing {exp - set(got)}')
            for c, b in blocks:
                env.check(model.cid_str(b) == c, 'load_all cid mismatch', lambda: c)
        quiet(name, 'look', fresh)
        if keep and did in handles and w.nodes['f0'].alive:
            quiet('f0', 'look_handle', lambda node: look(node, handles[did], 'handle'))

        # pagination
        coll = ch.pick('v.coll2', COLLS)
        limit = ch.pick('v.limit', [2, 3, 7, 50, 100])
        exp = [p for p in sorted(present, key=str.encode) if p.startswith(coll + '/')]
        got, cursor, pages = [], None, 0
        while True:
            params = {'cursor': cursor} if cursor else {}
            op = w.xrpc(name, 'com.atproto.repo.listRecords', {}, repo=did, collection=coll,
                        limit=limit, **params)
            if op.exc:
                raise op.exc
            page = [r['uri'].split('/', 3)[3] for r in op.res['records']]
            for r in op.res['records']:
                p = r['uri'].split('/', 3)[3]
                env.check(r['cid'] == want.get(p), 'listed record differs', lambda:
                          f'{r} vs {want.get(p)}')
            env.check(len(page) <= limit, 'page too long', lambda: f'{len(page)} > {limit}')
            if got and page and page[0] == got[-1]:
                page = page[1:]        # documented: cursors are inclusive
            got += page
            pages += 1
            cursor = op.res.get('cursor')
            if not cursor or pages > len(exp) + 2:
                break
        env.check(got == exp, 'pagination differs', lambda:
                  f'{did}: {coll} in pages of {limit}: {got} vs {exp}')
        env.probe('pages', pages)

    def main():
        node = w.start('f0')
        if memory:
            node.storage = MemoryStorage()
            with nodes.as_node(k, node):
                aserver.storage = node.storage
        else:
            w.start('f1')
        k.faults_on = False
        for i in range(nrepos):
            op = w.create_repo('f0', i, callback=False)
            if op.exc:
                raise op.exc
        k.faults_on = True
        if crash:
            w.arm_crash('f0')
            k.spawn(lambda: w.supervisor('f0', 3), 'sup', daemon=True)
        for j in range(2 + ch.draw('c.n', 7)):
            did = dids[ch.draw('c.did', nrepos)]
            writes = gen_writes(did)
            if not writes:
                continue
            node = w.wait_up('f0')
            h = None
            if keep:
                if handles.get(('node', did)) is not node:
                    handles[did] = quiet('f0', 'load', lambda node: node.storage.load_repo(did))
                    handles[('node', did)] = w.nodes['f0']
                h = handles[did]

            def fn(node):
                repo = h or node.storage.load_repo(did)
                return node.storage.commit(repo, [
                    Write(getattr(Action, a.upper()), c, r, v) for a, c, r, v in writes]
                ).commit.cid.encode('base32')
            op = w.op('f0', 'commit', (did, [(a, f'{c}/{r}') for a, c, r, _ in writes][:12]), fn,
                      wait=not keep)
            after = oracles.apply_writes(content[did], writes)
            if op.state == 'ok':
                env.check(after is not None, 'bad commit accepted', lambda: f'{op}')
                content[did] = after
                env.probe('commits')
            elif op.state == 'open' or world.indefinite(op.exc):
                w.wait_up('f0')
                k.sleep(3 * NS)
                head = quiet('f1', 'resolve', lambda node: model.s(
                    node.storage.load_repo(did).head.decoded['data']))
                env.probe('unsure')
                handles.pop(did, None)      # it may be out of date
                handles.pop(('node', did), None)
                if after is not None and head == model.build(after)[0]:
                    content[did] = after
            else:
                env.check(after is None, 'valid commit refused', lambda: f'{op} {op.exc!r}')
                env.probe('refused')
            w.wait_up('f0')
            if ch.chance('v.skip', 0.3):
                continue
            with calm():
                full_check(did)
        w.quiesce()
        w.wait_up('f0')
        for did in dids:
            full_check(did)

    k.run(main)


def path_nodes(tree, root, path):
    """CIDs of the nodes below the root that a lookup of path visits."""
    kb = path.encode()
    out, c = [], root
    while True:
        n = model.decode(tree[c])
        nxt = model.s(n['l'])
        prev = b''
        for e in n['e']:
            key = prev[:e['p']] + bytes(e['k'])
            prev = key
            if key == kb:
                return out
            if key > kb:
                break
            nxt = model.s(e['t'])
        if nxt is None:
            return out
        out.append(nxt)
        c = nxt
