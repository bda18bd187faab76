"""Workloads shared by checks."""
from sim import boot, model, oracles, world
from sim.kernel import NS
from sim.world import COLL, Op, World, key_for, record

import arroba.storage as astorage

# one is a prefix of another
COLLS = ['com.example.foo', 'com.example.bar', 'app.example.zed', 'com.example.foobar']


POOL = {}                      # layer in the tree => [(collection, rkey)]
for _i in range(1500):
    for _c in COLLS + ['com.example.foo.bar']:
        _r = f'k{_i}' if _i % 7 else ['a.b', 'x:y', 'p_q', 'u-v', 'Z', '0' * 20][_i // 7 % 6] + str(_i)
        POOL.setdefault(min(model.layer(f'{_c}/{_r}'), 4), []).append((_c, _r))
LAYERS = [[(0, 8), (1, 2), (2, 1)], [(0, 3), (1, 3), (2, 3), (3, 2), (4, 1)],
          [(0, 1), (3, 2), (4, 2)], [(0, 1)], [(1, 1), (3, 1)]]


def key_space(env, n):
    """n keys, in layers of the tree as the run's swarm says."""
    ch = env.ch
    weights = ch.pick('cfg.layers', LAYERS)
    out = []
    for i in range(n):
        pool = POOL[ch.wpick('space.layer', [(w, l) for l, w in weights])]
        out.append(pool[ch.draw('space.key', len(pool))])
    return list(dict.fromkeys(out))


class Gen:
    """Random writes over a small key space, tracking what the client believes exists."""

    def __init__(self, env, stream, nkeys=6, space=None, known=()):
        self.env, self.ch, self.st = env, env.ch, stream
        self.nkeys = len(space) if space else nkeys
        self.space = space
        self.n = 0
        self.believed = set(known)

    def rec(self):
        self.n += 1
        kind = self.ch.draw(f'{self.st}.rec', 6)
        r = {'$type': COLLS[0], 'n': self.n, 'w': self.st}
        if kind == 1:
            return {'$type': COLLS[0], 'same': self.ch.draw(f'{self.st}.same', 2)}
        if kind == 2:
            r['nested'] = {'a': [1, 'two', {'b': None}], 'bytes': b'\x00\xff'}
        if kind == 3:
            r['text'] = 'x' * (1 + self.ch.draw(f'{self.st}.len', 400))
        if kind == 5 and self.ch.chance(f'{self.st}.odd', 0.25):
            return self.odd()
        return r

    def odd(self):
        """A record that looks like something else that is stored as a block."""
        kind = self.ch.draw(f'{self.st}.oddity', 5)
        if kind == 0:
            return {'did': 'did:plc:repo0', 'version': 98, 'prev': None, 'sig': b'x' * 64,
                    'data': model.to_cid(model.cid_str(b'nothing')), 'rev': f'{self.n}.{self.st}'}
        if kind == 1:
            return {'$type': 'com.atproto.sync.subscribeRepos#account', 'seq': self.n + 20,
                    'did': 'did:plc:forged', 'time': '2026-01-01T00:00:00Z', 'active': False}
        if kind == 2:
            return {'l': None, 'e': [], 'n': self.n}
        if kind == 4:
            return {'$type': COLLS[0], 'n': self.n, 'ref': model.to_cid(model.cid_str(b'nothing')),
                    'text': '\u2603 \U0001f600', 'neg': -1 - self.n, 'big': 2**53 - 1, 'flag': False}
        return {'$type': None, 'n': self.n, 'w': self.st}

    def key(self):
        i = self.ch.draw(f'{self.st}.key', self.nkeys)
        return self.space[i] if self.space else (COLLS[i % len(COLLS)], f'k{i}')

    def write(self, blind=0.1):
        coll, rkey = self.key()
        has = (coll, rkey) in self.believed
        acts = ['update', 'delete'] if has else ['create']
        if self.ch.chance(f'{self.st}.blind', blind):
            acts = ['create', 'update', 'delete']
        act = self.ch.pick(f'{self.st}.act', acts)
        if act == 'delete':
            return ('delete', coll, rkey, None)
        return (act, coll, rkey, self.rec())

    def writes(self, maxn=4, blind=0.1):
        n = 1 + self.ch.draw(f'{self.st}.nw', maxn)
        out, used = [], set()
        for _ in range(n):
            w = self.write(blind)
            if (w[1], w[2]) in used:
                continue
            used.add((w[1], w[2]))
            out.append(w)
        if self.ch.chance(f'{self.st}.again', 0.12):
            # more than one write to the same record in one commit
            for _ in range(1 + self.ch.draw(f'{self.st}.times', 2)):
                act, coll, rkey, _ = out[self.ch.draw(f'{self.st}.which', len(out))]
                last = [w[0] for w in out if w[1:3] == (coll, rkey)][-1]
                act = 'create' if last == 'delete' else \
                    self.ch.pick(f'{self.st}.then', ['update', 'delete'])
                out.append((act, coll, rkey, None if act == 'delete' else self.rec()))
        return out

    def learn(self, writes):
        for act, coll, rkey, _ in writes:
            if act == 'delete':
                self.believed.discard((coll, rkey))
            else:
                self.believed.add((coll, rkey))


def writes_of(op):
    if op.kind == 'commit':
        return op.args[1]
    if op.kind == 'create_repo':
        return []
    return None


def setup_repos(env, w, n, node='f0'):
    """Creates n repos with no faults. Returns their DIDs."""
    k = env.k
    was, k.faults_on = k.faults_on, False
    dids = []
    for i in range(n):
        op = w.create_repo(node, i)
        assert op.state == 'ok', op.exc
        dids.append(op.args[0])
    k.faults_on = was
    return dids


def layered(env, nkeys):
    """Arguments for Gen: keys in chosen layers of the tree, in half of the runs."""
    if not env.ch.pick('cfg.layered', [0, 1]):
        return dict(nkeys=nkeys)
    space = key_space(env, nkeys)
    some = env.ch.pick('cfg.bulk', [0, 0.5, 0.9])
    return dict(space=space, known={x for x in space if some and env.ch.chance('space.known', some)})


def populate(env, w, dids, gen, node='f0'):
    """Puts the records that clients think exist into the repos, without faults."""
    if not gen.get('known'):
        return
    was, env.k.faults_on = env.k.faults_on, False
    for did in dids:
        op = w.commit(node, did, [('create', c, r, record(i, bulk=did)) for i, (c, r)
                                  in enumerate(x for x in gen['space'] if x in gen['known'])],
                      callback=False)
        # a slow simulated datastore may expire a transaction this large
        assert op.state == 'ok' or world.indefinite(op.exc) or 'expired' in str(op.exc), op.exc
    env.k.faults_on = was


def read_events(node, start=0, repo=None):
    """The event log as the real code reads it: [(kind, seq, ...)]."""
    out = []
    for e in node.storage.read_events_by_seq(start=start, repo=repo):
        if isinstance(e, dict):
            out.append(('event', e['seq'], e['$type'].split('#')[1], e['did']))
        else:
            out.append(('commit', e.commit.seq, model.s(e.commit.cid), e.commit.decoded['did']))
    return out


def expected_events(truth, chains):
    """The event log as it should read, from the stored rows."""
    out = []
    for b in truth.blocks.values():
        if b.seq == 0:
            continue
        if b.is_event:
            out.append(('event', b.seq, b.obj['$type'].split('#')[1], b.obj['did']))
    for chain in chains.values():
        for b in chain:
            if b.seq:
                out.append(('commit', b.seq, b.cid, b.obj['did']))
    out.sort(key=lambda x: x[1])
    return out

def commit_clients(env, w, names, dids, nclients, *, maxops=4, stale=False, reads=0.25,
                   gen=None, blind=0.1, maxn=4):
    """Clients that commit through the Python API and read back, concurrently. Runs them all."""
    ch, k = env.ch, env.k
    handles = {}

    def client(i):
        g = Gen(env, f'c{i}', **(gen or {}))
        for j in range(1 + ch.draw(f'c{i}.n', maxops)):
            name = ch.pick(f'c{i}.node', names)
            did = ch.pick(f'c{i}.did', dids)
            if ch.chance(f'c{i}.read', reads):
                w.op(name, 'read', (did,), lambda node: read_repo(node, did))
                continue
            writes = g.writes(maxn, blind)
            h = None
            if stale:
                node = w.wait_up(name)
                h = handles.get((node.name, node.incarnation, did))
                if h is None:
                    def load(node):
                        handles[(node.name, node.incarnation, did)] = node.storage.load_repo(did)
                    w.op(name, 'load', (did,), load)
                    h = handles.get((node.name, node.incarnation, did))
                if w.nodes[name] is not node or not node.alive:
                    h = None
            op = w.commit(name, did, writes, handle=h)
            if op.state == 'ok':
                g.learn(writes)
            elif op.state == 'err' and not world.indefinite(op.exc):
                for wr in writes:     # guess what is there instead
                    (g.believed.add if wr[0] == 'create' else g.believed.discard)(wr[1:3])

    w.all_ok([k.spawn(lambda i=i: client(i), f'client{i}') for i in range(nclients)])


def read_repo(node, did):
    repo = node.storage.load_repo(did)
    return (repo.head.cid.encode('base32'),
            {f'{c}/{r}': oracles.rec_cid(v)
             for c, rs in repo.get_contents().items() for r, v in rs.items()})


def final_reads(env, w, truth, chains, ignore=()):
    """What the real code reads in a fresh process, against the stored rows."""
    w.start('reader')
    for did in chains:
        op = w.op('reader', 'final_read', (did,), lambda node: read_repo(node, did))
        env.check(op.exc is None, 'final read failed', lambda: f'{op}: {op.exc!r}')
        want = (chains[did][-1].cid, truth.content(model.s(chains[did][-1].obj['data'])))
        env.check(op.res == want, 'final read differs', lambda: f'{did}: {op.res} vs {want}')
    op = w.op('reader', 'events', (), lambda node: read_events(node, start=1))
    env.check(op.exc is None, 'event log unreadable', lambda: f'{op}: {op.exc!r}')
    op.res = [e for e in op.res if e[3] not in ignore]
    want = [e for e in expected_events(truth, chains) if e[3] not in ignore]
    env.check(op.res == want, 'event log differs', lambda:
              f'only in log: {[e for e in op.res if e not in want]}; '
              f'missing: {[e for e in want if e not in op.res]}')


def check_reads(env, w, truth, chains, commits):
    """Reads during the run: a real state, no older than what was acknowledged before it."""
    for op in w.ops:
        if op.kind != 'read' or op.state != 'ok':
            continue
        did = op.args[0]
        cids = [b.cid for b in chains[did]]
        head, got = op.res
        env.check(head in cids, 'read of uncommitted state', lambda:
                  f'{op} saw head {head}, which is not in the history')
        pos = cids.index(head)
        env.check(got == truth.content(model.s(chains[did][pos].obj['data'])),
                  'torn read', lambda: f'{op}')
        for c in commits:
            if c.args[0] == did and c.state == 'ok' and c.ret < op.inv:
                env.check(cids.index(c.res) <= pos, 'acknowledged commit invisible', lambda:
                          f'{c} returned before {op} began, but is not in what it read')


def commit_probes(env, w, chains, commits):
    env.probe('commits', sum(len(c) for c in chains.values()))
    env.probe('commit_ok', sum(o.state == 'ok' for o in commits))
    env.probe('commit_failed', sum(o.state == 'err' for o in commits))
    env.probe('commit_crashed', sum(o.state == 'open' for o in commits))
    env.probe('crash_restarts', w.crashes)
