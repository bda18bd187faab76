"""C22: the difference between any two revisions names exactly what changed."""
from sim import model, oracles, world
from sim.kernel import NS
from sim.world import World

from arroba.diff import Diff
from arroba.mst import MST

from . import c01, common

REAL = c01.REAL + ['arroba.diff', 'arroba.mst (Walker, walk, lazy loading)']
STUB = c01.STUB
ASSUMPTIONS = ['a combined diff may list a record that was added and then updated as updated']


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env, faults=ch.pick('cfg.faults', [False, True, True]))
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False), preempt=ch.pick(
        'cfg.preempt', [world.PREEMPT, world.PREEMPT + ('arroba.diff', 'arroba.mst')]))
    names = ['f0', 'f1'][:1 + ch.draw('cfg.nodes', 2)]
    nrepos = 1 + ch.draw('cfg.repos', 2)
    ndiffers = 1 + ch.draw('cfg.differs', 4)
    crash = ch.pick('cfg.crash', [0, 0, 1])
    shared = ch.pick('cfg.shared', [0, 1])      # threads of a process share trees
    gen = common.layered(env, ch.pick('cfg.nkeys', [4, 12, 40, 150]))
    maxn = ch.pick('cfg.maxn', [2, 6, 20])
    maxops = ch.pick('cfg.maxops', [4, 12])
    pause = ch.pick('cfg.pause', [0, NS // 20, NS // 2])
    dids, trees = [], {}

    def pick(st):
        """The tree at a commit, usually of the first repo, usually a recent one."""
        did = dids[0] if ch.chance(f'{st}.first', 0.8) else ch.pick(f'{st}.did', dids)
        heads = list(dict.fromkeys(h for _, h, _ in oracles.head_history(w, did)))
        back = ch.wpick(f'{st}.back', [(4, 1), (3, 2), (2, 6), (1, len(heads))])
        head = heads[-1 - ch.draw(f'{st}.which', min(back, len(heads)))]
        return oracles.Blk(head, w.ds.get((('AtpBlock', head),)))

    def tree(node, blk):
        if not shared:
            return MST.load(storage=node.storage, cid=blk.obj['data'])
        key = node.name, node.incarnation, blk.cid
        if key not in trees:
            trees[key] = MST.load(storage=node.storage, cid=blk.obj['data'])
        return trees[key]

    def result(d):
        s = model.s
        return dict(adds={x: s(c.cid) for x, c in d.adds.items()},
                    updates={x: (s(c.prev), s(c.cid)) for x, c in d.updates.items()},
                    deletes={x: s(c.cid) for x, c in d.deletes.items()},
                    new={s(c) for c in d.new_cids}, removed={s(c) for c in d.removed_cids})

    def differ(i):
        st = f'd{i}'
        for _ in range(2 + ch.draw(f'{st}.n', 8)):
            one(st, ch.pick(f'{st}.node', names))
            if pause:
                k.sleep(ch.sub(f'{st}.pause', pause))

    def one(st, name):
        kind = ch.wpick(f'{st}.kind', [(6, 'diff'), (1, 'null'), (2, 'sum')])
        blks = [pick(st) for _ in range({'diff': 2, 'null': 1, 'sum': 3}[kind])]

        def fn(node):
            ts = [tree(node, b) for b in blks]
            if kind == 'null':
                return result(Diff.of(ts[0]))
            d = Diff.of(ts[1], ts[0])
            if kind == 'sum':
                d.add_diff(Diff.of(ts[2], ts[1]))
            return result(d)
        op = w.op(name, kind, tuple(b.cid for b in blks), fn)
        op.extra['diff'] = True
        return op

    def main():
        for n in names:
            w.start(n)
        dids.extend(common.setup_repos(env, w, nrepos))
        common.populate(env, w, dids, gen)
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        tasks = [k.spawn(lambda i=i: differ(i), f'differ{i}') for i in range(ndiffers)]
        common.commit_clients(env, w, names, dids, 1 + ch.draw('cfg.clients', 2), reads=0, gen=gen,
                              maxn=maxn, maxops=maxops)
        w.all_ok(tasks)
        w.quiesce()
        k.sleep(2 * NS)
        name = ch.pick('end.node', names)
        w.wait_up(name)
        for _ in range(3):
            op = one('end', name)
            env.check(op.state == 'ok', 'diff failed', lambda: f'{op}: {op.exc!r}')
        judge()

    def judge():
        truth = oracles.Truth(w)

        def at(cid):
            return model.content_of(truth.get, model.s(truth.blocks[cid].obj['data']))

        for op in w.ops:
            if not op.extra.get('diff') or op.state == 'open':
                continue
            if op.state == 'err':
                env.check(world.indefinite(op.exc), 'diff failed', lambda: f'{op}: {op.exc!r}')
                continue
            a, an = at(op.args[0]) if op.kind != 'null' else ({}, [])
            b, bn = at(op.args[-1])
            check(op, a, set(an), b, set(bn), op.kind == 'sum')

    def check(op, a, an, b, bn, combined):
        d = op.res
        av, bv = set(a.values()), set(b.values())
        adds = {x: c for x, c in b.items() if x not in a}
        updates = {x: (a[x], c) for x, c in b.items() if x in a and a[x] != c}
        deletes = {x: c for x, c in a.items() if x not in b}
        env.probe(op.kind)
        env.probe('changes', len(adds) + len(updates) + len(deletes))
        if combined:
            got = {**a, **d['adds'], **{x: c for x, (_, c) in d['updates'].items()}}
            for x in d['deletes']:
                got.pop(x, None)
            env.check(set(d['deletes']) <= set(deletes), 'combined diff', lambda:
                      f'{op}: deletes {sorted(set(d["deletes"]) - set(deletes))[:4]}')
            env.check(set(d['adds']) <= set(adds), 'combined diff', lambda:
                      f'{op}: adds {sorted(set(d["adds"]) - set(adds))[:4]}')
            env.check(got == b, 'combined diff', lambda:
                      f'{op}: applied to the first revision, it differs from the last in '
                      f'{sorted(set(got.items()) ^ set(b.items()))[:4]}')
        else:
            for what, want in ('adds', adds), ('updates', updates), ('deletes', deletes):
                env.check(d[what] == want, what, lambda: f'{op}: has {what} {d[what]}, not {want}')
            env.check(d['new'] <= bn | bv, 'not a new block', lambda:
                      f'{op}: {sorted(d["new"] - bn - bv)[:4]} are not in the later revision')
            env.check(not d['new'] & (an - bn - bv), 'not a new block', lambda:
                      f'{op}: {sorted(d["new"] & an)[:4]} were there before')
            env.check(d['removed'] == an - bn, 'removed nodes', lambda:
                      f'{op}: {sorted(d["removed"] ^ (an - bn))[:4]} are wrong or missing')
        missing = (bn | bv) - an - av - d['new']
        env.check(not missing, 'new block left out', lambda: f'{op}: {sorted(missing)[:4]}')

    k.run(main)
