"""C02: each repo has one linear, signed, strictly advancing history."""
from sim import model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from . import c01, common

REAL, STUB = c01.REAL, c01.STUB
ASSUMPTIONS = c01.ASSUMPTIONS


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    faults = ch.pick('cfg.faults', [False, True])
    cfg = world.swarm_ds(env, faults=faults)
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    nrepos = 1 + ch.draw('cfg.repos', 2)
    nclients = 2 + ch.draw('cfg.clients', 4)
    crash = ch.pick('cfg.crash', [False, False, False, True])
    stale = ch.pick('cfg.stale', [False, True])
    gen = common.layered(env, ch.pick('cfg.nkeys', [6, 20]))

    def main():
        for n in names:
            w.start(n)
        dids = common.setup_repos(env, w, nrepos)
        common.populate(env, w, dids, gen)
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        common.commit_clients(env, w, names, dids, nclients, maxops=5, stale=stale, reads=0.05, gen=gen)
        w.quiesce()
        k.sleep(2 * NS)
        truth = oracles.Truth(w)
        chains = {}
        for i, did in enumerate(dids):
            chains[did] = oracles.check_chain(env, w, truth, did, key_for(i).public_key(),
                                              common.writes_of)
            # every head the repo ever had follows the one before it
            hist = [h for _, h, _ in oracles.head_history(w, did)]
            heads = [h for a, h in zip([None] + hist, hist) if h != a]
            cids = [b.cid for b in chains[did]]
            env.check(heads == cids[-len(heads):], 'head history is not the commit chain',
                      lambda: f'{did}: heads were {heads}, chain is {cids}')
        commits = [o for o in w.ops if o.kind == 'commit']
        oracles.check_ops_effects(env, w, truth, chains, commits)
        # in real-time order
        for did in dids:
            pos = {b.cid: i for i, b in enumerate(chains[did])}
            done = [o for o in commits if o.args[0] == did and o.state == 'ok']
            for a in done:
                for b in done:
                    if a.ret < b.inv:
                        env.check(pos[a.res] < pos[b.res], 'history out of order', lambda:
                                  f'{a} returned before {b} began but comes after it')
        common.final_reads(env, w, truth, chains)
        common.commit_probes(env, w, chains, commits)

    k.run(main)
