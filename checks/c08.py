"""C08: leases are mutually exclusive and always become available again."""
import datetime
import math

from arroba.memcache import Lease

from sim import boot, fakes, nodes, world
from sim.kernel import BASE_WALL, NS

REAL = ['arroba.memcache.Lease']
STUB = ['memcached', 'clocks', 'thread scheduling', 'process crashes']
ASSUMPTIONS = ['memcached keeps a key until it expires (no eviction or restart)',
               'clocks of different processes may differ by any constant; a process\'s clock does '
               'not jump while it holds a lease']
QUICK_S = 40
KEYS = ['kee', 'other']


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env, preempt=False)
    k.preempt_mean = ch.pick('cfg.preempt', [0, 3, 10, 30])
    nodes.enable_preemption(['arroba.memcache'])
    mc = world.swarm_mc(env)
    mc['slow_s'] = ch.pick('cfg.slow_s', [1, 5])
    server = fakes.MemcacheServer(k, mc)
    exps = ch.pick('cfg.exp', [[300.0], [5.0], [2.0, 5.0], [0.5, 1.5], [30.0, 2.25]])
    skew = ch.pick('cfg.skew', [0, 0, 3600])
    procs = {}
    holds = []      # dicts
    acquires = []

    def start(i):
        node = nodes.new_node(k, f'p{i}')
        node.wall_offset = ch.sub(f'p{i}.skew', skew * NS) if skew else 0
        node.mc = fakes.MemcacheClient(server)
        procs[i] = node
        return node

    def worker(i, node, c):
        st = f'c{i}'
        for j in range(1 + ch.draw(f'{st}.n', 5)):
            key = KEYS[ch.pick(f'{st}.key', [0, 0, 0, 1])]
            exp = ch.pick(f'{st}.exp', exps)
            retries = ch.draw(f'{st}.retries', 5)
            delay = ch.pick(f'{st}.delay', [0.5, 5, 0.05])
            lease = Lease(node.mc, key, expiration=datetime.timedelta(seconds=exp),
                          retries=retries, initial_retry_delay=datetime.timedelta(seconds=delay))
            h = dict(task=k.me().id, key=key, exp=exp, inv=k.ev('acquire', key), t_inv=k.now,
                     got=None, rel=None, node=node.name, retries=retries, delay=delay,
                     ctx=ch.chance(f'{st}.ctx', 0.5))
            acquires.append(h)
            work = ch.sub(f'{st}.work', int(exp * NS * ch.pick(f'{st}.long', [0.5, 0.5, 0.9, 2])))
            boom = ch.chance(f'{st}.boom', 0.2)

            def held():
                h.update(got=k.ev('acquired', key), t_got=k.now,
                         until=lease.expires_at, wall=node.wall_offset)

            def done():
                h.update(rel=k.ev('release', key), t_rel=k.now)
            try:
                if h['ctx']:
                    with lease:
                        held()
                        k.sleep(work)
                        done()
                        if boom:
                            raise KeyError('boom')
                else:
                    lease.acquire()
                    held()
                    k.sleep(work)
                    done()
                    lease.release()
                h['end'] = 'ok'
                env.check(not (boom and h['ctx']), 'exception swallowed', 'the body raised')
            except KeyError:
                h['end'] = 'ok'
            except RuntimeError:
                h['end'] = 'gave up'
            except OSError:
                h['end'] = 'error'
            h.update(ret=k.ev('acquire done', h['end']), t_ret=k.now)
            env.note(f'{node.name} {st} {key} exp={exp} retries={retries}x{delay}: {h["end"]} '
                     f'{h["t_inv"] / NS:.3f}..{h["t_ret"] / NS:.3f}')
            if ch.chance(f'{st}.pause', 0.5):
                k.sleep(ch.sub(f'{st}.pause_ns', 5 * NS))

    def main():
        n = 1 + ch.draw('cfg.procs', 4)
        for i in range(n):
            start(i)
        tasks = []
        for i in range(1 + ch.draw('cfg.clients', 6)):
            node = procs[ch.draw(f'c{i}.proc', n)]
            tasks.append(k.spawn(lambda i=i, node=node: worker(i, node, i), f'c{i}', node))
        for i in range(ch.pick('cfg.crashes', [0, 0, 1, 2])):
            node = procs[ch.draw(f'crash{i}.proc', n)]
            k.after(ch.sub(f'crash{i}.at', 20 * NS), lambda node=node: node.alive and
                    k.spawn(lambda: k.crash(node), 'crasher'))
        for t in tasks:
            k.join(t)
            if t.exc is not None and not t.killed:
                raise t.exc
        # every lease becomes available again
        k.faults_on = False
        k.sleep(int(max(exps) * NS) + NS)
        last = nodes.new_node(k, 'last')
        last.mc = fakes.MemcacheClient(server)

        def final():
            for key in KEYS:
                Lease(last.mc, key, retries=0).acquire()
        t = k.spawn(final, 'final', last)
        k.join(t)
        env.check(t.exc is None, 'never available again', lambda: f'{t.exc!r}')

    k.run(main)
    check(env, server, acquires)


def check(env, server, acquires):
    env.probe('held', sum(h['got'] is not None for h in acquires))
    env.probe('gave_up', sum(h.get('end') == 'gave up' for h in acquires))
    adds = [e for e in server.log if e[1] == 'add']
    for h in acquires:
        mine = [e for e in adds if e[4] == h['task'] and e[2] == h['key'] and e[0] > h['inv']
                and ('ret' not in h or e[0] < h['ret'])]
        if h.get('end') == 'gave up':
            env.check(len(mine) == h['retries'] + 1 and not any(e[3] for e in mine),
                      'gave up wrongly', lambda: f'{h} after attempts {mine}')
            env.check(h['t_ret'] - h['t_inv'] >= h['retries'] * h['delay'] * NS,
                      'gave up early', lambda: f'{h}')
        else:
            env.check(len(mine) <= h['retries'] + 1, 'too many attempts', lambda: f'{h} {mine}')
        if h['got'] is None:
            continue
        env.check(bool(mine) and mine[-1][3] is True, 'acquired without the key',
                  lambda: f'{h}: {mine}')
        h['server_ev'], h['server_t'] = mine[-1][0], mine[-1][5]
        # until when the holder may believe it holds the lease
        until = (h['until'] - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc))
        until = until // datetime.timedelta(microseconds=1) * 1000 - BASE_WALL - h['wall']
        h['until_ns'] = until
        env.check(until >= h['t_inv'] + (h['exp'] - 0.001) * NS, 'expires too early',
                  lambda: f'{h}: expires_at is before acquire() + expiration')
        env.check(until <= h['server_t'] + math.ceil(h['exp']) * NS, 'believes it outlives the key',
                  lambda: f'{h}: expires_at is after the key expired')
        h['over'] = min(x for x in (h.get('t_rel'), until) if x is not None)
    held = [h for h in acquires if h['got'] is not None]
    # a release frees only one's own lease
    owner = {}
    for ev, op, key, r, task, now in server.log:
        if op == 'add' and r:
            owner[key] = (task, ev)
        elif op == 'delete' and r:
            o = owner.pop(key, None)
            if o is None or o[0] == task:
                continue
            h = [h for h in held if h['task'] == task and h['rel'] and h['rel'] < ev][-1]
            # sent in time but executed late: memcached has no compare-and-delete
            slow = h['t_rel'] <= h['until_ns']
            if slow and now > h['until_ns']:
                env.fail('late delete freed another lease',
                         f'{h} released at {h["t_rel"] / NS}, its delete was executed at '
                         f'{now / NS}, after it expired and another client acquired the lease')
            env.fail('release freed another lease', f'{h} at {now / NS}')
    for a in held:
        for b in held:
            if a is b or a['key'] != b['key'] or a['server_ev'] > b['server_ev']:
                continue
            env.check(b['t_got'] >= a['over'] or (a['rel'] or 1 << 60) < b['got'],
                      'two holders', lambda: f'{b} acquired while {a} held it')
