"""C14: remote blob metadata stays true under concurrency, HTTP faults and crashes."""
import datetime
import hashlib

from arroba import server
import arroba.datastore_storage as dss
from lexrpc.server import Redirect
from multiformats import CID
import requests

from sim import boot, fakes, world
from sim.kernel import NS
from sim.world import World

from . import c01, common

REAL = ['arroba.datastore_storage.AtpRemoteBlob', 'arroba.xrpc_sync (getBlob, listBlobs)',
        'google-cloud-ndb (models, contexts, caching, transactions, retries)',
        'lexrpc.Server.call and MIME type validation']
STUB = ['the Datastore server (in-memory model with transactions, faults)',
        'the web sites that serve the blobs', 'pymediainfo (reads dimensions from a text header)']
ASSUMPTIONS = ['URLs that are truncated to the same datastore key are outside',
               'a redirect goes to the blob\'s URL whatever that URL serves by then, as the '
               'repository\'s tests expect']
DAY = 86400 * NS
MAX = 1500
AGE = 7 * DAY
PREEMPT = ('arroba.datastore_storage', 'arroba.xrpc_sync')


class FakeTrack:
    def __init__(self, w, h, d):
        self.width, self.height, self.duration = w, h, d


class FakeMedia:
    """Bodies look like 'IMG 21 12 ...' or 'VID 640 480 1234.5 ...'."""

    @classmethod
    def parse(cls, f):
        self = cls()
        self.image_tracks, self.video_tracks = [], []
        words = f.read().split()
        if words[:1] == [b'IMG']:
            self.image_tracks = [FakeTrack(int(words[1]), int(words[2]), None)]
        elif words[:1] == [b'VID']:
            self.video_tracks = [FakeTrack(int(words[1]), int(words[2]), words[3].decode())]
        elif words[:1] == [b'BROKEN']:
            raise RuntimeError('cannot parse')
        return self


def dims(body):
    words = body.split()
    if words[:1] == [b'IMG']:
        return int(words[1]), int(words[2]), None
    if words[:1] == [b'VID']:
        return int(words[1]), int(words[2]), int(float(words[3])) or None
    return None, None, None


def raw_cid(body):
    return CID('base58btc', 1, 'raw', bytes.fromhex('1220') + hashlib.sha256(body).digest()) \
        .encode('base32')


class Row:
    def __init__(self, ts, e):
        p = e.properties

        def get(n, kind):
            if n not in p or p[n].WhichOneof('value_type') in (None, 'null_value'):
                return None
            return getattr(p[n], kind)
        self.ts = ts
        self.url, self.cid = get('url', 'string_value'), get('cid', 'string_value')
        self.size, self.mime = get('size', 'integer_value'), get('mime_type', 'string_value')
        self.dims = tuple(get(n, 'integer_value') for n in ('width', 'height', 'duration'))
        self.status = get('status', 'string_value')
        at = get('last_fetched', 'timestamp_value')
        self.fetched = at and (at.seconds * NS + at.nanos)
        self.repos = []
        if 'repos' in p:
            vs = p['repos'].array_value.values or (
                [p['repos']] if p['repos'].WhichOneof('value_type') == 'key_value' else [])
            self.repos = [v.key_value.path[-1].name for v in vs]

    @property
    def blob(self):
        return self.cid, self.size, self.mime

    def __repr__(self):
        return (f'<@{self.ts} {self.cid and self.cid[-6:]} {self.size} {self.mime} {self.status} '
                f'fetched {self.fetched} {self.repos}>')


class Resp:
    """One answer of a web site."""
    def __init__(self, op, url, t):
        self.op, self.url, self.t = op, url, t
        self.status = self.body = self.mime = self.exc = self.length = None
        self.partial = False

    @property
    def ok(self):
        return self.exc is None and not self.partial and self.status < 400

    def __repr__(self):
        return f'<{self.url} {self.status} {self.mime} {self.exc!r} {self.partial} {self.length}>'


def run(env):
    ch, k = env.ch, env.k
    world.configure_sched(env)
    k.time_limit = 400 * DAY
    faults = ch.pick('cfg.faults', [False, True])
    w = World(env, ds=world.swarm_ds(env, faults=faults), preempt=PREEMPT)
    dss.BLOB_MAX_BYTES = MAX
    dss.MediaInfo = FakeMedia
    names = ['f0', 'f1', 'f2'][:1 + ch.draw('cfg.nodes', 3)]
    nrepos = 1 + ch.draw('cfg.repos', 3)
    nclients = 1 + ch.draw('cfg.clients', 4)
    crash = ch.pick('cfg.crash', [0, 0, 1])
    lat = ch.pick('cfg.http.lat', [0, NS // 20, NS])
    bad = ch.pick('cfg.http.bad', [0, 0.1, 0.4])
    clear = ch.pick('cfg.http.clear', [0.2, 0])   # how often a site recovers or changes
    step = ch.pick('cfg.step', [0, NS, DAY, 5 * DAY])
    long_url = 'https://site.test/' + 'x' * 1600 + '.png'
    urls = ['https://a.test/1.png', 'https://a.test/2', 'https://b.test/3.mp4',
            'https://b.test/4.jpg', long_url][:1 + ch.draw('cfg.urls', 5)]
    key_of = {u: u[:1500] for u in urls}
    dids = []
    resps = []
    site = {}

    def body(st):
        kind = ch.draw(f'{st}.kind', 7)
        n = ch.draw(f'{st}.n', 3)
        return [b'', b'blob %d' % n, b'IMG %d 12' % (20 + n), b'VID 640 480 %d.7' % (4000 + n),
                b'VID 640 480 999999', b'BROKEN' + b'.' * n, b'x' * (MAX - 1 + n)][kind]

    def change(url, st):
        site[url] = (body(st), ch.pick(f'{st}.type', [
            'image/png', 'image/jpeg', 'video/mp4', 'application/octet-stream', None]),
            ch.pick(f'{st}.length', ['right', None, 'gzip']))

    def fetch(method, url, **kw):
        r = Resp(w.op_of_task.get(k.me().id), url, k.now)
        if lat:
            k.sleep(ch.sub('http.lat', lat))
        r.t = k.now
        resps.append(r)
        k.count('http.get')
        if bad and ch.chance('http.bad', bad):
            kind = ch.pick('http.kind', ['timeout', 'reset', 'partial', '404', '410', '500', '503'])
            k.count(f'fault.http_{kind}')
            if kind == 'timeout':
                r.exc = requests.Timeout('sim')
                raise r.exc
            if kind == 'reset':
                r.exc = requests.ConnectionError('sim')
                raise r.exc
            if kind != 'partial':
                r.status = int(kind)
                return fakes.Response(r.status, b'error', {'Content-Type': 'text/html'}, url)
            r.partial = True
        r.body, ctype, length = site[url]
        r.status = 200
        h = {}
        if ctype:
            h['Content-Type'] = ctype
        if length:
            h['Content-Length'] = str(len(r.body) if length == 'right' else len(r.body) // 2)
        r.length = h.get('Content-Length')
        ext = {'png': 'image/png', 'mp4': 'video/mp4', 'jpg': 'image/jpeg'}
        r.mime = ctype or ext.get(url.rsplit('.')[-1]) or 'application/octet-stream'
        return fakes.Response(200, r.body, h, url, body_error=requests.exceptions.
                              ChunkedEncodingError('sim') if r.partial else None)
    boot.http_handler = fetch

    def client(i):
        st = f'c{i}'
        for _ in range(1 + ch.draw(f'{st}.n', 6)):
            name = ch.pick(f'{st}.node', names)
            if not w.nodes[name].alive:
                w.start(name)
                k.count('node_restart')
            one(st, name)
            if ch.chance(f'{st}.change', clear):
                change(ch.pick(f'{st}.url', urls), f'{st}.change')
            if step:
                k.sleep(ch.sub(f'{st}.step', step))

    def one(st, name):
        kind = ch.wpick(f'{st}.op', [(6, 'register'), (3, 'getBlob'), (1, 'listBlobs')])
        if kind == 'register':
            url = ch.pick(f'{st}.url', urls)
            did = ch.pick(f'{st}.did', dids + [None])
            kw = {}
            if ch.chance(f'{st}.limits', 0.3):
                kw = dict(max_size=ch.pick(f'{st}.max', [None, 8, 100]),
                          accept_types=ch.pick(f'{st}.accept', [None, ['image/*'], ['*/*'],
                                                                ['video/mp4', 'image/png']]))

            def fn(node):
                repo = dss.AtpRepo.get_by_id(did) if did else None
                blob = dss.AtpRemoteBlob.get_or_create(url=url, repo=repo, **kw)
                o = blob.as_object()
                return (o and (o['ref'].encode('base32'), o['size'], o['mimeType'])), \
                    (blob.width, blob.height, blob.duration)
            w.op(name, 'register', (url, did, tuple(sorted(kw.items(), key=str))), fn)
        elif kind == 'getBlob':
            cids = sorted({r.cid for vs in rows().values() for r in vs if r.cid}) or ['nope']
            cid = ch.pick(f'{st}.cid', cids)

            def fn(node):
                try:
                    server.server.call('com.atproto.sync.getBlob', None, did=ch.pick(
                        f'{st}.did', dids), cid=cid)
                except Redirect as r:
                    return r.to
            w.op(name, 'getBlob', (cid,), fn, flask_ctx=True)
        else:
            did = ch.pick(f'{st}.did', dids)
            limit = 1 + ch.draw(f'{st}.limit', 4)

            def fn(node):
                out, cursor = [], None
                for _ in range(20):
                    kw = {'cursor': cursor} if cursor else {}
                    r = server.server.call('com.atproto.sync.listBlobs', None, did=did,
                                           limit=limit, **kw)
                    out += r['cids']
                    cursor = r.get('cursor')
                    if not cursor:
                        return out
                raise AssertionError('endless listBlobs')
            w.op(name, 'listBlobs', (did, limit), fn, flask_ctx=True)

    def rows():
        """{key name: [Row]}, all versions."""
        return {path[-1][1]: [Row(ts, e) for ts, e in vs if e is not None]
                for path, vs in w.ds.rows.items() if path[-1][0] == 'AtpRemoteBlob'}

    def main():
        for n in names:
            w.start(n)
        dids.extend(common.setup_repos(env, w, nrepos))
        for u in urls:
            change(u, 'init')
        if crash:
            for n in names:
                w.arm_crash(n, f'crash.{n}')
        w.all_ok([k.spawn(lambda i=i: client(i), f'client{i}') for i in range(nclients)])
        w.quiesce()
        k.sleep(2 * NS)
        nonlocal bad, lat
        bad = lat = 0
        if not w.nodes['f0'].alive:
            w.start('f0')
        for i in range(2):
            one('final', 'f0')
        check()

    def need(row, t):
        """Does this row call for a fetch at time t?"""
        if (row.cid or row.fetched) and row.mime.split('/')[0] != 'image':
            return False
        return row.fetched is None or row.fetched < t - AGE

    def check():
        base = boot.BASE_WALL if hasattr(boot, 'BASE_WALL') else None
        from sim.kernel import BASE_WALL
        all_rows = rows()
        when = {}       # datastore timestamp -> (sim time, op)
        for lts, t, name, tid, paths, tx in w.ds.log:
            when[lts] = (t, w.op_of_task.get(tid))
        for vs in all_rows.values():
            for r in vs:
                r.t, r.op = when[r.ts]
                if r.fetched is not None:
                    r.fetched -= BASE_WALL
        url_of = {v: u for u, v in key_of.items()}
        for key, vs in all_rows.items():
            env.check(key in url_of, 'unknown blob', lambda: key)
            check_row(url_of[key], vs)
        env.probe('versions', sum(len(v) for v in all_rows.values()))
        env.probe('fetches', len(resps))
        for op in w.ops:
            if op.kind in ('register', 'getBlob', 'listBlobs'):
                env.probe(f'{op.kind}_{op.state}')
                fs = [r for r in resps if r.op is op]
                check_fetches(op, fs, all_rows)
                {'register': check_register, 'getBlob': check_get,
                 'listBlobs': check_list}[op.kind](op, fs, all_rows)

    def visible(vs, op):
        """Versions this operation may have seen, the one before it included. None: absent."""
        end = op.ts1 if op.ts1 is not None else 1 << 60
        before = [r for r in vs if r.ts <= op.ts0]
        return (before[-1:] or [None]) + [r for r in vs if op.ts0 < r.ts <= end]

    def check_row(url, vs):
        prev = None
        for r in vs:
            env.check(prev is None or set(prev.repos) <= set(r.repos), 'registration lost', lambda:
                      f'{url}: {prev} then {r} by {r.op}')
            env.check(len(r.repos) == len(set(r.repos)), 'registered twice', lambda: f'{url}: {r}')
            seen = [x for x in resps if x.url == url and x.t <= r.t]
            if r.cid:
                env.check(any(x.ok and (raw_cid(x.body), len(x.body), x.mime) == r.blob
                              for x in seen), 'blob never served', lambda: f'{url}: {r} {seen}')
                env.check(any(x.ok and raw_cid(x.body) == r.cid and dims(x.body) == r.dims
                              for x in seen), 'dimensions of another body', lambda:
                          f'{url}: {r} {r.dims}')
            if r.status and (prev is None or not prev.status):
                mine = [x for x in resps if x.op is r.op and x.url == url]
                nocid = any(v is None or v.cid is None for v in visible(vs, r.op))
                env.check(mine and (not mine[-1].ok) and (
                    nocid or mine[-1].status and mine[-1].status // 100 == 4),
                    'deactivated without cause', lambda: f'{url}: {prev} then {r} by {r.op}: {mine}')
            if prev is not None and prev.status and not r.status:
                env.check(any(x.ok and x.op is r.op and x.url == url for x in resps),
                          'reactivated without cause', lambda: f'{url}: {prev}, {r} by {r.op}')
            if prev is not None and r.cid != prev.cid:
                env.check(any(x.op is r.op and x.url == url and x.status == 200 and not x.partial
                              for x in resps), 'blob changed without a fetch', lambda:
                          f'{url}: {prev} then {r} by {r.op}')
            prev = r

    def check_fetches(op, fs, all_rows):
        for url in {f.url for f in fs}:
            env.check(url in key_of, 'fetched another URL', lambda: f'{op}: {url}')
            vs = all_rows.get(key_of[url], [])
            mine = [f for f in fs if f.url == url]
            env.check(len(mine) <= 1, 'fetched twice', lambda: f'{op}: {mine}')
            env.check(any(v is None or (need(v, mine[0].t) and not v.status)
                          for v in visible(vs, op)), 'needless fetch', lambda:
                      f'{op} fetched at {mine[0].t}: {visible(vs, op)}')
            # a conclusive failure shows, unless someone else's fetch overrode it or we failed
            f = mine[0]
            if f.exc is None and f.status // 100 == 4 and op.state != 'open' and \
                    not indefinite(op):
                env.check(any(v is not None and v.status for v in visible(vs, op)),
                          'failure not recorded', lambda: f'{op}: {f} {visible(vs, op)}')

    def indefinite(op):
        return op.state == 'err' and world.indefinite(op.exc)

    def check_register(op, fs, all_rows):
        url, did, kw = op.args
        kw = dict(kw)
        vs = all_rows.get(key_of[url], [])
        seen = visible(vs, op)
        if op.state == 'ok':
            blob, d = op.res
            env.check(blob is not None, 'registered blob has no content', lambda: f'{op}: {seen}')
            env.check(any(v is not None and v.blob == blob and v.dims == d and not v.status
                          for v in seen), 'registered blob differs', lambda: f'{op}: {seen}')
            cid, size, mime = blob
            acc = kw.get('accept_types')
            env.check(size <= min(MAX, kw.get('max_size') or MAX), 'oversized blob accepted',
                      lambda: f'{op}')
            env.check(not acc or '*/*' in acc or mime in acc or mime.split('/')[0] + '/*' in acc,
                      'blob type accepted', lambda: f'{op}')
            env.check(not d[2] or d[2] <= 180_000, 'long video accepted', lambda: f'{op}')
            env.check(did is None or did in vs[-1].repos, 'registration lost', lambda:
                      f'{op}: {vs}')
            env.check(fs or any(v is not None and not need(v, op.t1) for v in seen),
                      'stale blob not refetched', lambda: f'{op}: {seen}')
        elif op.state == 'err' and not indefinite(op):
            # explained by the site, by the blob's status or by the limits
            failed = any(not f.ok for f in fs)
            inactive = any(v is not None and v.status for v in seen)
            limits = any(v is not None and v.size is not None and over(v, kw) for v in seen)
            env.check(failed or inactive or limits, 'register failed without cause', lambda:
                      f'{op}: {op.exc!r} {fs} {seen}')

    def over(v, kw):
        acc = kw.get('accept_types')
        return (v.size > min(MAX, kw.get('max_size') or MAX) or (v.dims[2] or 0) > 180_000
                or acc and '*/*' not in acc and v.mime not in acc
                and v.mime.split('/')[0] + '/*' not in acc)

    def check_get(op, fs, all_rows):
        cid, = op.args
        if op.state == 'open' or indefinite(op):
            return
        seen = {u: visible(all_rows.get(key_of[u], []), op) for u in urls}
        if op.state == 'ok':
            url = op.res
            env.check(url in seen, 'redirected elsewhere', lambda: f'{op}')
            env.check(any(v is not None and v.cid == cid and not v.status for v in seen[url]),
                      'redirected to another or inactive blob', lambda: f'{op}: {seen[url]}')
            mine = [f for f in fs if f.url == url]
            env.check(all(f.ok or f.status == 200 for f in mine), 'redirected after failed fetch',
                      lambda: f'{op}: {mine}')
            return
        for u, vs in seen.items():
            env.check(not all(v is not None and v.cid == cid and not v.status
                              and not need(v, op.t1) for v in vs), 'blob not found', lambda:
                      f'{op}: {u} has been active throughout: {vs} {op.exc!r}')

    def check_list(op, fs, all_rows):
        did, limit = op.args
        if op.state != 'ok':
            env.check(op.state == 'open' or indefinite(op), 'listBlobs failed', lambda:
                      f'{op}: {op.exc!r}')
            return
        can, must = [], []
        for u in urls:
            seen = visible(all_rows.get(key_of[u], []), op)
            can += {v.cid for v in seen if v is not None and did in v.repos and v.cid}
            if all(v is not None and did in v.repos and v.cid == seen[0].cid and v.cid
                   for v in seen):
                must.append(seen[0].cid)
        for c in set(must):
            env.check(op.res.count(c) >= must.count(c), 'listBlobs missed a blob', lambda:
                      f'{op}: {c}: {must}')
        for c in set(op.res):
            env.check(op.res.count(c) <= can.count(c), 'listBlobs invented a blob', lambda:
                      f'{op}: {c}: {can}')

    k.run(main)
