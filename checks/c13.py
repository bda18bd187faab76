"""C13: repo import is verified, all-or-nothing in effect, and never overwrites."""
import json

from arroba import server
import dag_cbor
import requests

from sim import archive, boot, fakes, model, oracles, world
from sim.boot import _N as N
from sim.kernel import NS
from sim.world import World, key_for

from . import c01, common

REAL = c01.REAL + ['arroba.xrpc_repo.importRepo', 'arroba.xrpc_sync.getRepo', 'arroba.did.resolve',
                   'carbox', 'lexrpc.Server.call']
STUB = c01.STUB + ['DID documents over HTTP', 'HTTP transport (handlers are called through lexrpc)']
ASSUMPTIONS = [
    'Repo.create of a DID that was imported, or the other way around, may replace the repo: '
    'Storage.create_repo is documented to update an existing repo. Only imports must not.',
    'archives that are complete and signed but oddly built (high-S signature, other versions) may '
    'be accepted or refused',
]
DIDS = ['did:web:imp0.test', 'did:web:imp1.test', 'did:plc:imp2']


def docsig(did, n, handle):
    return archive.did_doc(did, key_for(n), handle)


class Judge:
    """Decides independently what an upload is worth."""

    def __init__(self, data):
        self.bad = self.did = self.head = self.commit = None
        self.odd = False        # may be accepted or refused
        self.missing = False
        try:
            roots, blocks = model.read_car(data)
            self.blocks = dict(blocks)
            if not roots:
                raise ValueError('no roots')
            self.head = roots[0]
            if self.head not in self.blocks:
                raise ValueError('no head')
            self.commit = c = dag_cbor.decode(self.blocks[self.head])
            self.did = c['did']
            if not isinstance(self.did, str):
                raise ValueError('did')
            if set(c) != oracles.COMMIT_KEYS or c['version'] != 3:
                self.odd = True
            self.content, _ = model.content_of(self.blocks.get, model.s(c['data']))
            for p, v in self.content.items():
                if v not in self.blocks:
                    raise model.Missing(v)
            sig = c['sig']
            if len(sig) == 64 and int.from_bytes(sig[32:], 'big') > N // 2:
                self.odd = True
        except model.Missing as e:
            self.bad, self.missing = f'lacks {e.cid}', True
        except Exception as e:
            self.bad = repr(e)

    def signed_by(self, key):
        try:
            c = dict(self.commit)
            sig = c['sig']
            if len(sig) == 64 and int.from_bytes(sig[32:], 'big') > N // 2:
                c['sig'] = sig[:32] + (N - int.from_bytes(sig[32:], 'big')).to_bytes(32, 'big')
            return oracles.sig_ok(c, key.public_key()) is None
        except Exception:
            return False


def resign(ar, key, **kw):
    """The archive with its commit changed and signed again."""
    c = dag_cbor.decode(ar.commit)
    c.pop('sig')
    c.update(kw)
    c = {k: v for k, v in c.items() if v is not Ellipsis}
    enc = dag_cbor.encode(archive.sign(c, key))
    return model.cid_str(enc), enc


def damage(ch, st, ar, key, others):
    """-> (what, bytes)"""
    blocks = list(ar.blocks)
    what = ch.wpick(f'{st}.damage', [
        (40, 'none'), (4, 'reorder'), (3, 'duplicate'), (4, 'extra'), (6, 'flip'), (6, 'cut'),
        (8, 'lack'), (6, 'forge'), (4, 'did'), (3, 'roots'), (3, 'root'), (3, 'data'), (2, 'odd'),
        (2, 'garbage'), (3, 'poison')])
    head = [ar.head]
    if what == 'reorder':
        out = []
        while blocks:
            out.append(blocks.pop(ch.draw(f'{st}.order', len(blocks))))
        blocks = out
    elif what == 'duplicate':
        blocks.insert(ch.draw(f'{st}.at', len(blocks) + 1), ch.pick(f'{st}.dup', blocks))
    elif what == 'extra':
        for data in others[:3] + [dag_cbor.encode({'$type': common.COLLS[0], 'x': st})]:
            blocks.insert(ch.draw(f'{st}.at', len(blocks) + 1), (model.cid_str(data), data))
    elif what == 'lack':
        i = ch.draw(f'{st}.at', len(blocks))
        if ch.chance(f'{st}.tail', 0.5):
            del blocks[i:]      # cut at a block boundary
        else:
            del blocks[i]
    elif what == 'forge':
        how = ch.draw(f'{st}.how', 4)
        c = dag_cbor.decode(ar.commit)
        if how == 0:
            c['sig'] = bytes([c['sig'][0] ^ 1]) + c['sig'][1:]
        elif how == 1:
            c['sig'] = b'' if ch.chance(f'{st}.nosig', 0.5) else bytes(64)
        elif how == 2:
            c['rev'] = archive.tid(1 << 53)
        else:
            c = dag_cbor.decode(resign(ar, key_for(5))[1])
        enc = dag_cbor.encode(c)
        blocks[0] = (model.cid_str(enc), enc)
        head = [blocks[0][0]]
    elif what in ('did', 'odd', 'data'):
        if what == 'did':
            kw = {'did': ch.pick(f'{st}.did', DIDS + ['did:plc:repo0', 'h0.test', '', None, 5,
                                                      'did:key:zabc', 'did:web:', ...])}
        elif what == 'odd':
            kw = ch.pick(f'{st}.kw', [{'version': 2}, {'extra': 1}, {'rev': ...}, {'prev': ...},
                                      {'rev': archive.tid(1 << 62)}])
        else:
            kw = {'data': ch.pick(f'{st}.data', [
                ..., None, 'x', model.to_cid(ch.pick(f'{st}.cid', blocks)[0]),
                model.to_cid(model.cid_str(b'nothing'))])}
        blocks[0] = resign(ar, key, **kw)
        head = [blocks[0][0]]
    elif what == 'roots':
        head = ch.pick(f'{st}.roots', [[], [model.cid_str(b'nothing')], [ar.head, blocks[-1][0]]])
    elif what == 'root':
        head = [ch.pick(f'{st}.root', blocks)[0]]
    elif what == 'poison':      # a block that says it is another one
        i = ch.draw(f'{st}.at', len(blocks))
        blocks[i] = (blocks[i][0], dag_cbor.encode({'$type': common.COLLS[0], 'poison': st}))
    data = model.write_car(head, blocks)
    if what == 'flip':
        i = ch.draw(f'{st}.at', len(data))
        data = data[:i] + bytes([data[i] ^ (1 << ch.draw(f'{st}.bit', 8))]) + data[i + 1:]
    elif what == 'cut':
        data = data[:ch.draw(f'{st}.at', len(data))]
    elif what == 'garbage':
        data = ch.pick(f'{st}.garbage', [b'', b'\x00', b'{}', b'\xff' * 40, data + b'\x05abc'])
    return what, data


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    faults = ch.pick('cfg.faults', [False, True])
    cfg = world.swarm_ds(env, faults=faults, partial=True)
    w = World(env, ds=cfg, mc=world.swarm_mc(env, errors=False),
              seqs=ch.pick('cfg.seqs', ['datastore', 'memcache']),
              preempt=world.PREEMPT + ('arroba.xrpc_repo', 'arroba.did'))
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    nrepos = 1 + ch.draw('cfg.repos', 2)
    nimporters = 1 + ch.draw('cfg.importers', 4)
    nclients = ch.draw('cfg.clients', 3)
    crash = ch.pick('cfg.crash', [0, 0, 1])
    http = dict(lat=ch.pick('cfg.http.lat', [0, NS // 100, NS]),
                err=ch.pick('cfg.http.err', [0, 0, 0.1, 0.5]))
    rotate = ch.pick('cfg.rotate', [0, 0, 1])
    create = ch.pick('cfg.create', [0, 0, 0, 1])
    ndids = 1 + ch.draw('cfg.dids', len(DIDS))
    size = ch.wpick('cfg.size', [(10, 4), (10, 12), (3, 60), (1, 700)])
    big = ch.pick('cfg.sharing', [False, True])
    existing = []
    keys = {did: i + 2 for i, did in enumerate(DIDS)}       # did -> key number
    handles = {did: f'imp{i}.test' for i, did in enumerate(DIDS)}
    served = []         # (t, did, key number, handle)
    uploads = {}        # op id -> (Judge, what)
    http_faults = [0]

    def docs(method, url, **kw):
        did = next((d for d in keys if url in (f'https://plc.sim/{d}', archive.parse_did_web(d))),
                   None)
        if http['lat']:
            k.sleep(ch.sub('http.lat', http['lat']))
        if http['err'] and k.faults_on and ch.chance('http.err', http['err']):
            http_faults[0] += 1
            kind = ch.pick('http.kind', ['timeout', 'reset', '404', '500', 'json', 'nokey', 'list'])
            k.count(f'fault.http_{kind}')
            if kind == 'timeout':
                raise requests.Timeout('sim')
            if kind == 'reset':
                raise requests.ConnectionError('sim')
            if kind in ('404', '500'):
                return fakes.Response(int(kind), '{}', url=url)
            if kind == 'json':
                return fakes.Response(200, '<html>', url=url)
            body = {'id': did} if kind == 'nokey' else []
            return fakes.Response(200, json.dumps(body), url=url)
        if did is None:
            return fakes.Response(404, '{}', url=url)
        served.append((k.now, did, keys[did], handles[did]))
        return fakes.Response(200, json.dumps(docsig(did, keys[did], handles[did])), url=url)
    boot.http_handler = docs

    def records(st):
        out = {}
        g = common.Gen(env, st)
        for i in range(ch.draw(f'{st}.size', size + 1)):
            coll = common.COLLS[i % 3]
            rec = g.rec() if i < 20 else {'$type': coll, 'i': i}
            if big and i % 2:
                rec = {'$type': common.COLLS[0], 'same': i % 4}
            if ch.chance(f'{st}.empty', 0.02):
                rec = {}
            out[f'{coll}/i{i}'] = rec
        return out

    def importer(i):
        st = f'i{i}'
        for j in range(1 + ch.draw(f'{st}.n', 4)):
            did = ch.wpick(f'{st}.did', [(6, d) for d in DIDS[:ndids]] + [(1, existing[0])])
            n = keys.get(did, 0)
            ar = archive.Archive(did, key_for(n), records(st),
                                 prev=ch.pick(f'{st}.prev', [None, None, model.to_cid(
                                     model.cid_str(b'older'))]))
            others = [e.properties['encoded'].blob_value for _, e in w.ds.all('AtpBlock')][-3:]
            what, data = damage(ch, st, ar, key_for(n), others)
            judge = Judge(data)
            name = ch.pick(f'{st}.node', names)

            def fn(node):
                return server.server.call('com.atproto.repo.importRepo', data)
            op = w.op(name, 'import', (did, what), fn, flask_ctx=True)
            uploads[op.id] = (judge, what, did)
            if op.state == 'ok' and ch.chance(f'{st}.use', 0.6):
                use(st, name, judge.did)
            elif ch.chance(f'{st}.again', 0.3):     # the client tries again
                op = w.op(name, 'import', (did, what), fn, flask_ctx=True)
                uploads[op.id] = (judge, what, did)
            if ch.chance(f'{st}.gap', 0.3):
                k.sleep(ch.sub(f'{st}.gap_ns', NS))

    def use(st, name, did):
        def activate(node):
            repo = node.storage.load_repo(did)
            node.storage.activate_repo(repo)
        op = w.op(name, 'activate', (did,), activate)
        if op.state != 'ok':
            return
        g = common.Gen(env, f'{st}.use')
        g.believed = {('com.example.foo', 'i0'), ('com.example.bar', 'i1')}
        g.key = lambda: (common.COLLS[(x := ch.draw(f'{st}.use.key', 6)) % 3], f'i{x}')
        for _ in range(ch.draw(f'{st}.use.n', 3)):
            w.commit(name, did, g.writes(3))

    def main():
        for n in names:
            w.start(n)
        existing.extend(common.setup_repos(env, w, nrepos))
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
                k.spawn(lambda n=n: w.supervisor(n, 2, f'crash.{n}'), f'sup.{n}', daemon=True)
        tasks = [k.spawn(lambda i=i: importer(i), f'importer{i}') for i in range(nimporters)]
        if rotate:
            def rotator():
                for _ in range(1 + ch.draw('rot.n', 3)):
                    k.sleep(ch.sub('rot.gap', 2 * NS))
                    did = ch.pick('rot.did', DIDS)
                    if ch.chance('rot.handle', 0.5):
                        handles[did] = f'new{ch.draw("rot.h", 5)}.test'
                    else:
                        keys[did] = 2 + ch.draw('rot.key', 3)
            tasks.append(k.spawn(rotator, 'rotator'))
        if create:
            def creator():
                k.sleep(ch.sub('create.at', NS))
                w.create_repo(ch.pick('create.node', names), 3, did=DIDS[0], handle='cr.test')
            tasks.append(k.spawn(creator, 'creator'))
        if nclients:
            common.commit_clients(env, w, names, existing, nclients, reads=0.1)
        w.all_ok(tasks)
        w.quiesce()
        k.sleep(2 * NS)
        check()

    def creations():
        """[(did, task id)] of each write of a repo row by an import or create."""
        out = []
        for lts, t, name, tid, paths, tx in w.ds.log:
            op = w.op_of_task.get(tid)
            if op is not None and op.kind in ('import', 'create_repo'):
                for path in paths:
                    if path[-1][0] == 'AtpRepo':
                        out.append((path[-1][1], op, lts))
        return out

    def check():
        truth = oracles.Truth(w)
        rows = {}       # did -> [(op, ts)]
        for did, op, ts in creations():
            rows.setdefault(did, []).append((op, ts))
        created_by_api = {op.args[0] for op in w.ops if op.kind == 'create_repo'
                          and op.args[0] in DIDS}

        # contents of stored blocks never change, and are what they are called
        for path, versions in w.ds.rows.items():
            if path[-1][0] == 'AtpBlock':
                cid = path[-1][1]
                for ts, e in versions:
                    env.check(e is not None and model.cid_str(oracles.Blk(cid, e).data) == cid,
                              'stored block changed', lambda: f'{cid} at {ts}: {e}')

        for did, ws in rows.items():
            for i, (op, ts) in enumerate(ws):
                if op.kind != 'import':
                    continue
                env.check(i == 0 or ws[0][0] is op, 'import replaced a repo', lambda:
                          f'{op} stored {did} at {ts}, which existed: {ws}')
        for did in truth.repos:
            if did in created_by_api:
                continue
            hist = oracles.head_history(w, did)
            for (t1, h1, s1), (t2, h2, s2) in zip(hist, hist[1:]):
                b = truth.blocks.get(h2)
                env.check(h1 == h2 or (b is not None and b.obj['prev'] is not None
                                       and model.s(b.obj['prev']) == h1),
                          'repo head went back', lambda: f'{did}: {h1} then {h2} at {t2}')

        by_op = {}
        for did, ws in rows.items():
            for op, ts in ws:
                by_op.setdefault(op.id, []).append((did, ts))
        for op in w.ops:
            if op.kind == 'import':
                check_import(op, *uploads[op.id], by_op.get(op.id, []), truth,
                             rows, created_by_api)

        # everything that is readable afterwards
        chains = {did: truth.chain(did, env) for did in existing}
        imported = {}
        for did in truth.repos:
            if did in existing or did in created_by_api:
                continue
            imported[did] = check_imported(did, rows[did][0], truth)
        env.probe('imported', len(imported))
        final(truth, chains, imported, created_by_api)

    def check_import(op, judge, what, did, wrote, truth, rows, created):
        bad = judge.bad
        if bad is None:
            hour = [kn for t, d, kn, h in served if d == judge.did and t <= (op.t1 or k.now)]
            if not any(judge.signed_by(key_for(kn)) for kn in set(hour)):
                bad = 'unsigned'
        env.probe(f'{"bad" if bad else "good"}_{op.state}')
        if bad and not judge.missing:
            env.check(not wrote, 'bad archive imported', lambda: f'{op} ({what}: {bad}) {wrote}')
            env.check(op.state != 'ok', 'bad archive accepted', lambda: f'{op} ({what}: {bad})')
            return
        for d, ts in wrote:
            env.check(d == judge.did, 'imported as another repo', lambda:
                      f'{op}: {d} vs {judge.did}')
            at = oracles.Truth(w, ts)
            head, status = at.repos[d]
            env.check(head == judge.head, 'imported head differs', lambda:
                      f'{op}: {head} vs {judge.head}')
            env.check(status == 'deactivated', 'imported repo not deactivated', lambda:
                      f'{op}: {status}')
            complete(at, head, op, what, judge)
        if op.state == 'ok':
            env.check(wrote, 'import without effect', lambda: f'{op} ({what}): {judge.did}')
        elif op.state == 'err' and not world.indefinite(op.exc):
            env.check(not wrote or judge.did in created, 'failed import left a repo', lambda:
                      f'{op} ({what}): {op.exc!r} {wrote}')
        if op.state == 'err' and not bad and not judge.odd and not faults and not http_faults[0] \
                and not rotate and not crash and what not in ('data', 'odd'):
            others = [o for o, ts in rows.get(judge.did, []) if o is not op] or \
                judge.did in existing
            env.check(others, 'good archive refused', lambda: f'{op} ({what}): {op.exc!r}')

    def complete(at, head, op, what, judge):
        try:
            c = at.blocks[head].obj
            content = at.content(model.s(c['data']))
            for p, v in content.items():
                if v not in at.blocks:
                    raise model.Missing(v)
        except (KeyError, model.Missing) as e:
            env.fail('incomplete repo imported', f'{op} ({what}): {judge.did}: not stored: {e!r}')
        if judge.bad is None:
            env.check(content == judge.content, 'imported content differs', lambda: f'{op}')

    def check_imported(did, first, truth):
        op, ts = first
        judge = uploads[op.id][0]
        at = oracles.Truth(w, ts)
        content = at.content(model.s(at.blocks[at.repos[did][0]].obj['data']))
        row = w.ds.rows[(('AtpRepo', did),)][0][1]
        got = [v.string_value for v in row.properties['handles'].array_value.values] or \
            [row.properties['handles'].string_value]
        want = {h for t, d, kn, h in served if d == did and t <= (op.t1 or k.now)}
        env.check(len(got) == 1 and got[0] in want, 'imported handle differs', lambda:
                  f'{op}: {got} vs {want}')
        # commits on top
        chain = []
        cid = truth.repos[did][0]
        while cid != judge.head:
            b = truth.blocks.get(cid)
            env.check(b is not None and b.is_commit, 'head unreadable', lambda: f'{did}: {cid}')
            chain.append(b)
            cid = model.s(b.obj['prev']) if b.obj['prev'] is not None else None
            env.check(cid is not None, 'imported history lost', lambda:
                      f'{did}: {chain[-1].cid} has no predecessor, imported {judge.head}')
        for b in reversed(chain):
            cop = w.op_of_task.get(truth.writer.get(b.cid))
            want = oracles.apply_writes(content, cop.args[1])
            content = truth.content(model.s(b.obj['data']))
            env.check(want == content, 'wrong content', lambda:
                      f'{did}: {cop}: {oracles.fmt(want or {})} vs {oracles.fmt(content)}')
        return content, list(reversed(chain))

    def final(truth, chains, imported, created_by_api):
        name = 'reader'
        common.final_reads(env, w, truth, {
            **chains, **{d: x[1] or [truth.blocks[truth.repos[d][0]]]
                         for d, x in imported.items()}}, ignore=created_by_api)
        for did, (content, chain) in imported.items():
            if truth.repos[did][1]:
                op = w.op(name, 'activate', (did,), lambda node: node.storage.activate_repo(
                    node.storage.load_repo(did)))
                env.check(op.exc is None, 'activation failed', lambda: f'{op}: {op.exc!r}')
            op = w.xrpc(name, 'com.atproto.sync.getRepo', did=did)
            env.check(op.exc is None, 'export failed', lambda: f'{op}: {op.exc!r}')
            roots, blocks = model.read_car(b''.join(op.res) if not isinstance(op.res, bytes)
                                           else op.res)
            blocks = dict(blocks)
            got, _ = model.content_of(blocks.get, model.s(
                dag_cbor.decode(blocks[roots[0]])['data']))
            env.check(got == content, 'export after import differs', lambda:
                      f'{did}: {oracles.fmt(got)} vs {oracles.fmt(content)}')
            for v in content.values():
                env.check(v in blocks, 'export after import incomplete', lambda: f'{did}: {v}')

    k.run(main)
