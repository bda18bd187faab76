"""C01: commits are atomic and durable."""
from sim import model, oracles, world
from sim.kernel import NS
from sim.world import World, key_for

from . import common

REAL = ['arroba.storage', 'arroba.datastore_storage', 'arroba.repo', 'arroba.mst', 'arroba.util',
        'google-cloud-ndb transactions, retries and caching']
STUB = ['Cloud Datastore service (simulated at the gRPC stub)', 'clocks, threads, randomness']
ASSUMPTIONS = ['the datastore gives serialisable transactions and strongly consistent reads',
               'creating the repo itself happens before faults start']


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    cfg = world.swarm_ds(env)
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']))
    names = ['f0', 'f1'][:1 + ch.draw('cfg.nodes', 2)]
    nrepos = 1 + ch.draw('cfg.repos', 2)
    nclients = 1 + ch.draw('cfg.clients', 4)
    crash = ch.pick('cfg.crash', [False, True])
    stale = ch.pick('cfg.stale', [False, False, True])
    gen = common.layered(env, ch.pick('cfg.nkeys', [6, 20]))

    def main():
        for n in names:
            w.start(n)
        dids = common.setup_repos(env, w, nrepos)
        common.populate(env, w, dids, gen)
        sups = []
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                sups.append(k.spawn(lambda n=n: w.supervisor(n, 3, f'crash.{n}'), f'sup.{n}',
                                    daemon=True))
        common.commit_clients(env, w, names, dids, nclients, stale=stale, gen=gen)
        w.quiesce()
        k.sleep(2 * NS)
        truth = oracles.Truth(w)
        chains = {}
        for i, did in enumerate(dids):
            chains[did] = oracles.check_chain(env, w, truth, did, key_for(i).public_key(),
                                              common.writes_of, rev=False)
        commits = [o for o in w.ops if o.kind == 'commit']
        oracles.check_ops_effects(env, w, truth, chains, commits)
        oracles.check_no_orphans(env, truth, chains)

        common.final_reads(env, w, truth, chains)
        common.check_reads(env, w, truth, chains, commits)
        common.commit_probes(env, w, chains, commits)

    k.run(main)
