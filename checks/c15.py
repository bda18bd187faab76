"""C15: timestamp ids are unique and increasing within a process."""
import threading

import arroba.util as util

from sim import boot, nodes
from sim.kernel import NS, BASE_WALL

REAL = ['arroba.util.next_tid, int_to_tid, tid_to_int']
STUB = ['thread scheduling, wall clock']
ASSUMPTIONS = ['the wall clock never reads before the year 2000']
QUICK_S = 20


def run(env):
    ch, k = env.ch, env.k
    k.switch_node = nodes.switch
    k.sched_mode = ch.pick('cfg.sched', ['uniform', 'sticky', 'pct'])
    k.sticky = ch.pick('cfg.sticky', [0.0, 0.5, 0.9, 0.05])
    k.preempt_mean = ch.pick('cfg.preempt', [0, 2, 5, 12, 40])
    k.tick_ns = ch.pick('cfg.tick', [0, 10, 1000, 50_000])
    nthreads = 1 + ch.draw('cfg.threads', 4)
    per = 1 + ch.draw('cfg.per', 12)
    jump_p = ch.pick('cfg.jump', [0.0, 0.05, 0.3])
    node = nodes.new_node(k, 'pds')
    nodes.enable_preemption(['arroba.util'])
    log = []      # (start ev, end ev, tid, wall us at start)
    jumps = []    # (ev, wall us just after)

    def jump():
        if jump_p and ch.chance('clock', jump_p):
            k.count('fault.clock_jump')
            kind = ch.pick('clock.kind', ['back_small', 'back_big', 'fwd', 'stall'])
            d = ch.sub('clock.by', {'back_small': 2000, 'back_big': 3600 * NS, 'fwd': NS,
                                    'stall': 1}[kind])
            if kind == 'stall':
                frozen = node.wall_offset + k.now
                node.wall_offset = frozen - k.now - d
            else:
                node.wall_offset += d if kind == 'fwd' else -d
            jumps.append((k.ev('jump', kind, d), boot.wall_ns() // 1000))

    def worker(i):
        for j in range(per):
            jump()
            s = k.ev('next', i)
            wall = boot.wall_ns() // 1000
            tid = util.next_tid()
            e = k.ev('got', tid)
            env.note(f'thread {i}: {tid} (clock {wall})')
            log.append((s, e, tid, wall, node.wall_offset))
            k.yield_()

    def main():
        tasks = [k.spawn(lambda i=i: worker(i), f'w{i}', node) for i in range(nthreads)]
        for t in tasks:
            k.join(t)
        for t in tasks:
            if t.exc:
                raise t.exc

    k.run(main, node=node)
    tids = [x[2] for x in log]
    env.check(all(len(t) == 13 for t in tids), 'malformed', f'{tids}')
    env.check(len(set(tids)) == len(tids), 'duplicate tid',
              lambda: f'{sorted(t for t in tids if tids.count(t) > 1)} handed out twice')
    for a in log:
        for b in log:
            if a[1] < b[0]:
                env.check(a[2] < b[2], 'not increasing',
                          lambda: f'{b[2]} requested after {a[2]} was returned')
    for s, e, tid, wall, _ in log:
        # never behind the least the clock can have shown between request and answer
        low = min([wall] + [jw for je, jw in jumps if s < je < e])
        env.check(util.tid_to_int(tid) >= low, 'behind the clock',
                  lambda: f'{tid} = {util.tid_to_int(tid)} < {low}')
